"""C28: spectrograms, slant stacks and dispersion images equal their definitions at the labels they report."""
from __future__ import annotations

import warnings

import numpy as np
from hypothesis import strategies as st

from vlib import gen
from vlib.cmp import Snap, check_coherent, check_same_snap, check_units, check_values, require
from vlib.core import facet
from vlib.gen import I, S

RULE = ("A case is a patch (spectrogram: one to three dimensions of any type and direction; slant stack and dispersion: time and distance in either order, distance evenly or unevenly spaced and in several units) "
        "with random, sparse or integer data, and parameters of the transform. The oracle computes every output sample with explicit sums over the traces. Non-trivial = more than one trace, and several windows, "
        "slownesses or frequencies.")
ASSUMPTIONS = [
    "The spectrogram is the (one-sided, for real data) windowed power spectrum scipy documents; the window labels are the centres of the windows.",
    "The slant stack of slowness p interpolates each trace linearly at tau + p * offset from the first channel (the last, for negative slownesses); samples past the end count as nothing, and delays at which "
    "rounding decides whether a sample is past the end are not compared.",
    "Dispersion images are sums of unit phasors; the frequency grid has the resolution nearest to the requested one, a grid coarser than that of the record uses its first part only.",
]


def quiet(func):
    def check(spec, ctx):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return func(spec, ctx)

    check.__doc__ = func.__doc__
    return check


def span(vals):
    """Labels in seconds (or as they are) relative to the first."""
    rel = np.asarray(vals) - np.asarray(vals)[0]
    return rel.astype("m8[ns]").astype(np.int64) / 1e9 if rel.dtype.kind == "m" else rel.astype(float)


# --------------------------------------------------------------------------------------------------------- spectrogram


@st.composite
def spectro_case(draw):
    names = draw(S(("time",), ("time", "distance"), ("time", "distance"), ("depth", "chan"), ("time", "distance", "depth")))
    dim = draw(S(*names))
    ps = gen.draw_patch(draw, dims=names, min_n=1, max_n=3, kinds=("even", "mono"), data=("uniq", "float", "int", "f4"),
                        dim_kw={dim: {"kinds": ("even",), "min_n": 6, "max_n": 30}})
    nper = draw(I(2, 6))
    return {"p": ps, "dim": dim, "nper": nper, "over": draw(S(None, 0, 1, nper - 1)), "window": draw(S(None, "hann", "boxcar", "hamming")), "detrend": draw(S(None, None, False, "linear")),
            "scaling": draw(S(None, "spectrum", "density")), "nfft": draw(S(None, None, 8, 9)), "mode": draw(S(None, None, "magnitude", "complex"))}


@facet("spectrogram", spectro_case(), quick=400)
@quiet
def check_spectrogram(spec, ctx):
    """power, amplitude and complex spectrograms."""
    from scipy.signal import detrend, get_window

    patch, model = gen.build_patch(spec["p"])
    dim = spec["dim"]
    axis = model.dims.index(dim)
    vals = model.coords[dim][1]
    off = span(vals)
    n, dx = len(off), off[1] - off[0]
    nper, nfft = spec["nper"], spec["nfft"] or spec["nper"]
    over = spec["over"] if spec["over"] is not None else nper // 8
    kw = {"nperseg": nper}
    for key, name in (("over", "noverlap"), ("window", "window"), ("detrend", "detrend"), ("scaling", "scaling"), ("nfft", "nfft"), ("mode", "mode")):
        if spec[key] is not None:
            kw[name] = spec[key]
    before = Snap(patch)
    out = patch.spectrogram(dim, **kw)
    check_same_snap(before, Snap(patch), "the input of spectrogram")
    check_coherent(out, "spectrogram")
    what = f"spectrogram({dim}, {kw}) of {model.dims} step {dx}"
    new = f"ft_{dim}"
    require(out.dims == tuple(new if d == dim else d for d in model.dims) + (dim,), f"{what}: dims {out.dims}")
    step = nper - over
    starts = np.arange(0, n - nper + 1, step)
    freqs = np.arange(nfft // 2 + 1) / (nfft * abs(dx))
    check_values(out.get_array(new), freqs, f"{what}: frequencies", rtol=1e-9, atol=1e-12 / abs(dx))
    centre = off[0] + (starts + nper / 2) * dx
    got = out.get_array(dim)
    require(got.dtype.kind == ("f" if vals.dtype.kind == "i" else vals.dtype.kind), f"{what}: labels are {got.dtype}")
    rel = got - vals[0]
    rel = rel.astype("m8[ns]").astype(np.int64) / 1e9 if rel.dtype.kind == "m" else rel.astype(float)
    check_values(rel, centre, f"{what}: labels of the windows", rtol=1e-6, atol=1.5e-9 if vals.dtype.kind in "mM" else 1e-6 * abs(dx))
    check_units(out.get_coord(dim).units, model.coords[dim][2], f"{what}: {dim}")
    u = model.coords[dim][2]
    check_units(out.get_coord(new).units, f"1/({u})" if u else None, f"{what}: {new}")
    for d in model.dims:
        if d != dim:
            check_values(out.get_array(d), patch.get_array(d), f"{what}: labels of {d}")
            check_units(out.get_coord(d).units, model.coords[d][2], f"{what}: {d}")
    rest = {k: v for k, v in before.coords.items() if dim not in v[0]}
    require(set(out.coords.coord_map) == {*rest, dim, new}, f"{what}: coordinates {list(out.coords.coord_map)}, expected {[*rest, dim, new]}")
    for k, v in rest.items():
        require(tuple(out.coords.dim_map[k]) == v[0], f"{what}: dimensions of {k}")
        check_values(out.get_array(k), v[1], f"{what}: {k}")
        check_units(out.get_coord(k).units, v[2], f"{what}: {k}")
    win = get_window(spec["window"] or ("tukey", 0.25), nper)
    scale = 1 / (win.sum() ** 2) if spec["scaling"] == "spectrum" else abs(dx) / (win ** 2).sum()
    data = np.moveaxis(model.data.astype(float), axis, -1)
    want = np.empty(data.shape[:-1] + (len(freqs), len(starts)), complex)
    dt = "constant" if spec["detrend"] is None else spec["detrend"]
    for ind in np.ndindex(data.shape[:-1]):
        for k, s in enumerate(starts):
            seg = data[ind][s:s + nper]
            if dt:
                seg = detrend(seg, type=dt)
            ft = np.array([np.sum(seg * win * np.exp(-2j * np.pi * f * np.arange(nper) / nfft)) for f in range(len(freqs))])
            if spec["mode"] in (None, "psd"):
                ft = np.abs(ft) ** 2 * scale
                ft[1: (nfft + 1) // 2] *= 2
            else:
                ft = ft * np.sqrt(scale)
                if spec["mode"] == "magnitude":
                    ft = np.abs(ft)
            want[ind + (slice(None), k)] = ft
    want = np.moveaxis(want, -2, axis)
    eps = 1e-4 if spec["p"]["data"]["k"] == "f4" else 1e-8
    top = np.max(np.abs(model.data.astype(float)), initial=1e-300)
    top = top ** 2 * scale * nper ** 2 if spec["mode"] in (None, "psd") else top * nper * np.sqrt(scale)
    check_values(out.data, want if spec["mode"] == "complex" else want.real, what, rtol=eps, atol=eps * top)
    ctx.nontrivial(model.data.size > n and len(starts) > 1)
    ctx.label(f"{vals.dtype.kind}/{spec['mode']}")


# --------------------------------------------------------------------------------------------------------- slant stack

DIST = {None: 1.0, "m": 1.0, "km": 1000.0, "cm": 0.01, "ft": 0.3048}


def shot(spec):
    """(patch, data (distance, time), offsets in metres, dt)."""
    import dascore as dc
    from dascore.core import get_coord

    rng = np.random.default_rng(spec["seed"])
    nx, nt = spec["nx"], spec["nt"]
    if spec["fill"] == "sparse":
        data = (rng.random((nx, nt)) < 0.2) * rng.integers(1, 9, (nx, nt)).astype(float)
    else:
        data = rng.normal(size=(nx, nt))
    if spec["fill"] == "int":
        data = np.round(data * 50).astype(np.int32)
    gaps = np.ones(max(nx - 1, 0)) if spec["even"] else rng.integers(1, 5, max(nx - 1, 0))
    dist = (spec["d0"] + np.concatenate([[0], np.cumsum(gaps)]) * spec["dx"])
    dt = spec["dt"]
    ns = np.arange(nt) * int(round(dt * 1e9))
    time = ns.astype("m8[ns]") if spec["tt"] == "td" else np.datetime64("2020-02-03T04:05:06.123", "ns") + ns.astype("m8[ns]")
    dcoord = get_coord(data=dist / DIST[spec["u"]], units=spec["u"])
    coords = {"time": time, "distance": dcoord}
    dims = tuple(spec["dims"])
    arr = data if dims[0] == "distance" else data.T
    patch = dc.Patch(data=arr.copy(), coords=coords, dims=dims, attrs={"station": "S", "category": "DAS", "data_units": "m/s"})
    return patch, data.astype(float), dist, dt


def shot_case(draw):
    return {"seed": draw(I(0, 9999)), "nx": draw(S(1, 2, 3, 4, 5, 6, 7)), "nt": draw(S(2, 3, 5, 8, 9, 12, 20)), "fill": draw(S("normal", "normal", "sparse", "int")), "even": draw(S(True, True, False)),
            "d0": draw(S(0.0, 100.0, -7.5)), "dx": draw(S(1.0, 0.5, 10.0, 1.021)), "dt": draw(S(0.001, 0.004, 0.01, 0.5)), "tt": draw(S("dt", "dt", "td")), "u": draw(S(*DIST)),
            "dims": draw(S(("distance", "time"), ("time", "distance")))}


@st.composite
def taup_case(draw):
    out = shot_case(draw)
    out["v"] = sorted(draw(st.lists(I(1, 60), min_size=1, max_size=4, unique=True)))
    out["vu"] = draw(S(None, None, "m/s", "km/s"))
    return out


def keeps(patch, out, what, category):
    require(out.attrs.station == "S", f"{what}: station {out.attrs.station!r}")
    require(out.attrs.category == category, f"{what}: category {out.attrs.category!r}")


@facet("tau_p", taup_case(), quick=320)
@quiet
def check_taup(spec, ctx):
    """the slant stack of every slowness and delay."""
    from dascore.units import get_quantity

    patch, data, dist, dt = shot(spec)
    # Velocities such that delays between channels are a few (fractional) samples.
    vel = np.array(spec["v"]) * spec["dx"] / dt / 7.0
    arg = vel if spec["vu"] is None else vel * (0.001 if spec["vu"] == "km/s" else 1) * get_quantity(spec["vu"])
    before = Snap(patch)
    out = patch.tau_p(arg)
    check_same_snap(before, Snap(patch), "the input of tau_p")
    check_coherent(out, "tau_p")
    what = f"tau_p({arg}) of {spec['dims']}"
    require(out.dims == ("slowness", "time"), f"{what}: dims {out.dims}")
    keeps(patch, out, what, "taup")
    p = np.concatenate([-(1 / vel)[::-1], 1 / vel])
    check_values(out.get_array("slowness"), p, f"{what}: slownesses", rtol=1e-9)
    check_units(out.get_coord("slowness").units, "s/m", f"{what}: slowness")
    check_values(out.get_array("time"), patch.get_array("time"), f"{what}: time")
    nt = data.shape[1]
    want, sure = np.zeros((len(p), nt)), np.ones((len(p), nt), bool)
    for i, slow in enumerate(p):
        for j in range(nt):
            for x in range(len(dist)):
                at = j + (slow * (dist[x] - dist[0]) if slow > 0 else slow * (dist[x] - dist[-1])) / dt
                if abs(at - (nt - 1)) < 1e-6:
                    sure[i, j] = False
                if at < nt - 1:
                    k = int(at)
                    want[i, j] += (1 - (at - k)) * data[x, k] + (at - k) * data[x, k + 1]
    # (a sample right at the end is never an interpolation, but for rounding)
    single = len(dist) == 1
    check_values(np.where(sure, out.data, 0), np.where(sure, want, 0), what, rtol=1e-7, atol=1e-5 * max(1, np.abs(data).max()) if not spec["even"] else 1e-6 * max(1, np.abs(data).max()))
    ctx.nontrivial(not single and len(vel) > 1)
    ctx.label(f"{spec['dims'][0]}/{'even' if spec['even'] else 'uneven'}")


@st.composite
def disp_case(draw):
    out = shot_case(draw)
    out["nt"] = draw(S(6, 8, 9, 12, 20, 33))
    out["v"] = sorted(draw(st.lists(I(1, 60), min_size=1, max_size=4, unique=True)))
    out["res"] = draw(S(None, None, 1.0, 0.6, 1.7, 0.31))  # in units of the resolution of the record
    out["band"] = draw(S(None, None, (0.1, 0.9), (0.25, 0.5), (0.4, 0.97)))  # as fractions of the Nyquist frequency
    return out


@facet("dispersion", disp_case(), quick=320)
@quiet
def check_dispersion(spec, ctx):
    """phase-shift dispersion images."""
    from dascore.exceptions import ParameterError

    patch, data, dist, dt = shot(spec)
    nx, nt = data.shape
    vel = np.array(spec["v"]) * spec["dx"] / dt / 7.0
    fs = 1 / dt
    kw = {}
    if spec["res"]:
        kw["approx_resolution"] = spec["res"] * fs / nt
    if spec["band"]:
        kw["approx_freq"] = tuple(x * fs / 2 for x in spec["band"])
    before = Snap(patch)
    lo, hi = kw.get("approx_freq", (0, fs / 2))
    nf = nt if not spec["res"] else int(fs / kw["approx_resolution"] + 1e-9)
    options = [nf] if not spec["res"] else [nf, nf - 1, nf - 2, nf + 1]
    try:
        out = patch.dispersion_phase_shift(vel, **kw)
    except ParameterError:
        none = [not any(lo <= k * fs / m < hi for k in range(m)) for m in options if m > 0]
        require(any(none), f"dispersion_phase_shift({vel}, {kw}) of nt={nt} fs={fs} refused, with frequencies in the band")
        return
    check_same_snap(before, Snap(patch), "the input of dispersion_phase_shift")
    check_coherent(out, "dispersion")
    what = f"dispersion_phase_shift({vel}, {kw}) of {spec['dims']} nt={nt} fs={fs}"
    require(out.dims == ("velocity", "frequency"), f"{what}: dims {out.dims}")
    keeps(patch, out, what, "dispersion")
    check_values(out.get_array("velocity"), vel, f"{what}: velocities", rtol=1e-9)
    check_units(out.get_coord("velocity").units, "m/s", f"{what}: velocity")
    check_units(out.get_coord("frequency").units, "Hz", f"{what}: frequency")
    freq = out.get_array("frequency")
    # The grid: all the frequencies of a transform of nf samples which are in the band.
    found = None
    for m in options:
        grid = np.arange(m) * fs / m
        keep = (grid >= lo - 1e-9 * fs) & (grid < hi - 1e-9 * fs)
        if keep.sum() == len(freq) and np.allclose(grid[keep], freq, rtol=1e-9, atol=1e-9 * fs):
            found = (m, np.flatnonzero(keep))
            break
    require(found is not None, lambda: f"{what}: frequencies {freq}, expected {[f for f in np.arange(nf) * fs / nf if lo <= f < hi]}")
    m, ks = found
    rec = np.zeros((nx, m))
    rec[:, : min(m, nt)] = data[:, :m]
    want, sure = np.zeros((len(vel), len(ks))), np.ones(len(ks), bool)
    for c, k in enumerate(ks):
        amp = np.array([np.sum(rec[x] * np.exp(-2j * np.pi * k * np.arange(m) / m)) for x in range(nx)])
        size = np.abs(amp)
        zero = ~rec.any(axis=1)
        sure[c] = bool(np.all((size > 1e-6) | zero))
        unit = np.where(zero, 0, amp / np.where(size == 0, 1, size))
        for i, v in enumerate(vel):
            want[i, c] = abs(np.sum(np.exp(2j * np.pi * k * fs / m * (dist - dist[0]) / v) * unit)) / nx
    check_values(np.where(sure, out.data, 0), np.where(sure, want, 0), what, rtol=1e-6, atol=1e-6)
    ctx.nontrivial(nx > 1 and len(ks) > 1)
    ctx.label(f"{spec['dims'][0]}/{spec['u']}")


FACETS = [check_spectrogram, check_taup, check_dispersion]
