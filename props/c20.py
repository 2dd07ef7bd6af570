"""C20: Fourier transforms equal their definition and invert exactly."""
from __future__ import annotations

import numpy as np
from hypothesis import strategies as st

from vlib import gen
from vlib.cmp import Snap, check_coherent, check_same_snap, check_units, check_values, fail, require
from vlib.core import facet
from vlib.gen import I, PERM, S

RULE = ("A case is a patch (1-3 dims, any order, datetime/timedelta/float/integer evenly sampled axes, forward or reversed, real/complex/integer data, units, associated coordinates) and a "
        "forward transform over some of the dimensions (padded or not, real or not, as Fourier coefficients, amplitude, power or density), its partial or complete inversion, or a short-time "
        "transform. The oracle evaluates the Fourier sums at the frequencies in the labels with dense matrices. Non-trivial = at least 3 samples along a transformed dimension.")
ASSUMPTIONS = [
    "The phase origin of a transform is the first sample of each dimension, and the scaling the sampling interval (docs/notes/dft_notes).",
    "Non-dimensional coordinates associated with transformed dimensions are dropped (documented).",
    "The inverse needs the patch as dft made it (documented); its complex result may carry round-off in the imaginary part.",
]


def matrix(freqs, n, step, inverse=False):
    """E[k, j] = exp(-2 pi i f_k j step) * step."""
    arg = 2j * np.pi * np.outer(freqs, np.arange(n) * step)
    return np.exp(-arg) * step


def float_step(coord):
    v = np.asarray(coord.values)
    if v.dtype.kind in "mM":
        return float((v[1] - v[0]).astype("m8[ns]").astype(np.int64)) / 1e9 if len(v) > 1 else float(coord.step / np.timedelta64(1, "ns")) / 1e9
    return float(v[1] - v[0]) if len(v) > 1 else float(coord.step)


def apply_along(mat, data, axis):
    return np.moveaxis(np.tensordot(mat, data, axes=([1], [axis])), 0, axis)


def dims_pick(draw, names):
    k = draw(I(1, len(names)))
    return list(draw(PERM(*names)))[:k]


@st.composite
def dft_case(draw):
    ps = gen.draw_patch(draw, max_n=9, min_n=2, kinds=("even",), data=("float", "uniq", "cplx", "int", "f4", "float"))
    names = [d[0] for d in ps["dims"]]
    dims = dims_pick(draw, names)
    real = draw(S(None, None, True, "name")) if ps["data"]["k"] != "cplx" else None
    return {"p": ps, "dims": dims, "real": dims[draw(I(0, len(dims) - 1))] if real == "name" else real, "pad": draw(S(True, False)), "out": draw(S("FFT", "FFT", "AS", "PS", "PSD")),
            "db": draw(S(False, False, False, True)), "as": draw(S("list", "tuple", "one", "none")), "du": draw(S(None, "m/s", "strain", "10 V")), "seq": draw(S(False, False, True))}


def next_fast(n):
    from scipy.fft import next_fast_len

    return next_fast_len(n)


def expected_dft(patch, dims, real, pad):
    """Data, and labels per transformed dim, of the definition."""
    data = np.asarray(patch.data)
    data = data.astype(complex)
    labels = {}
    for d in dims:
        ax = patch.dims.index(d)
        n, step = patch.shape[ax], float_step(patch.get_coord(d))
        big = next_fast(n) if pad else n
        k = np.arange(0, big // 2 + 1) if d == real else np.arange(-(big // 2), (big - 1) // 2 + 1)
        freqs = k / (big * step)
        labels[d] = freqs
        data = apply_along(matrix(freqs, n, step), data, ax)
    return data, labels


@facet("dft", dft_case(), quick=2500, weight=2)
def check_dft(spec, ctx):
    """Forward transforms: values, labels, units, energy, other coordinates."""
    from dascore.units import get_quantity

    patch, _ = gen.build_patch(spec["p"])
    patch = patch.set_units(spec["du"])
    before = Snap(patch)
    dims, out = list(spec["dims"]), spec["out"]
    db = spec["db"] and out != "FFT"
    arg = dims if spec["as"] == "list" else tuple(dims)
    if spec["as"] == "one" and len(dims) == 1:
        arg = dims[0]
    if spec["as"] == "none" and len(dims) == patch.ndim:
        arg, dims = None, list(patch.dims)
    real = spec["real"]
    what = f"dft({arg}, real={real}, pad={spec['pad']}, output={out}, db={db})"
    if spec["seq"] and out == "FFT":
        res = patch
        for d in dims:
            res = res.dft(d, pad=spec["pad"])
        real = None
        what = f"dft of {dims} one by one"
    else:
        res = patch.dft(arg, real=real, pad=spec["pad"], output=out, db=db)
    realdim = dims[-1] if real is True else real
    want, labels = expected_dft(patch, dims, realdim, spec["pad"])
    require(res.dims == tuple(f"ft_{d}" if d in dims else d for d in patch.dims), f"{what}: dims {res.dims}")
    check_coherent(res, what)
    vol = 1.0
    q = get_quantity(spec["du"])
    unit = None if q is None else q
    for d in dims:
        got = np.asarray(res.get_array(f"ft_{d}"))
        check_values(got, labels[d], f"{what}: labels of ft_{d}", atol=1e-9 * max(abs(labels[d]).max(), 1e-300))
        cu = get_quantity(patch.get_coord(d).units)
        check_units(res.get_coord(f"ft_{d}").units, None if cu is None else 1 / cu, f"{what}: units of ft_{d}")
        step = float_step(patch.get_coord(d))
        big = next_fast(patch.shape[patch.dims.index(d)]) if spec["pad"] else patch.shape[patch.dims.index(d)]
        vol *= abs(step) * big
        if unit is not None and cu is not None and out == "FFT":
            unit = unit * cu
        if unit is not None and cu is not None and out == "PSD":
            unit = unit * cu**0.5
    if out == "AS":
        want = np.abs(want) / vol
    elif out == "PS":
        want = np.abs(want) ** 2 / vol**2
    elif out == "PSD":
        want = np.abs(want) ** 2 / vol
    if out in ("PS", "PSD"):
        unit = None if unit is None else unit**2
        scale = float(np.abs(want).max())
        if realdim is None and not db:
            # energy: bins sum (or integrate) to the mean square of the (padded) signal.
            tot = want.sum()
            n_big = np.prod([next_fast(patch.shape[patch.dims.index(d)]) if spec["pad"] else patch.shape[patch.dims.index(d)] for d in dims])
            energy = float((np.abs(np.asarray(patch.data, dtype=complex)) ** 2).sum()) / n_big
            got_tot = float(np.asarray(res.data).sum()) * (1 if out == "PS" else 1 / vol)
            check_values(got_tot, energy, f"{what}: sum of the bins (mean square)", rtol=1e-5 if before.dtype == np.float32 else 1e-9, atol=1e-12)
            _ = tot
    scale = float(np.abs(want).max())
    tol = 1e-5 if before.dtype == np.float32 else 1e-10
    if db:
        fac = 20 if out == "AS" else 10
        eps = np.finfo(np.asarray(patch.abs().data).dtype).eps if False else np.finfo(res.data.dtype).eps
        lin = 10 ** (np.asarray(res.data, dtype=float) / fac)
        check_values(lin, want + eps, f"{what}: data", atol=tol * 100 * scale + 4 * eps)
        require(str(get_quantity(res.attrs.data_units).units) == "dB", f"{what}: units {res.attrs.data_units}")
    else:
        check_values(np.asarray(res.data, dtype=want.dtype), want, f"{what}: data", atol=tol * scale + 1e-300)
        require(q is None and res.attrs.data_units is None or q is not None and abs((get_quantity(res.attrs.data_units) / unit).to_base_units().magnitude - 1) < 1e-9, lambda: f"{what}: data units {res.attrs.data_units}, expected {unit}")
    require(not [k for k in Snap(res).attrs if k not in before.attrs and k[0] != "_"], lambda: f"{what}: additional attributes {sorted(Snap(res).attrs)}")
    # other coordinates
    after = Snap(res)
    for name, c in before.coords.items():
        if name in dims or set(c[0]) & set(dims):
            require(name not in after.coords or not after.coords[name][0], lambda: f"{what}: coordinate {name} still belongs to {after.coords[name][0]}")
            continue
        require(name in after.coords, f"{what}: coordinate {name} was lost")
        require(after.coords[name][0] == c[0], f"{what}: coordinate {name} moved")
        check_values(after.coords[name][1], c[1], f"{what}: coordinate {name}")
        check_units(after.coords[name][2], c[2], f"{what}: coordinate {name}")
    for k, v in before.attrs.items():
        if k not in ("history", "coords", "dims", "data_type", "data_units"):
            require(after.attrs.get(k) == v or after.attrs.get(k) != after.attrs.get(k), f"{what}: attribute {k}")
    if out == "FFT" and not spec["seq"]:
        again = res.dft([d for d in dims])
        check_same_snap(after, Snap(again), f"{what}: transforming it again")
    check_same_snap(before, Snap(patch), f"{what}: the original")
    ctx.label(out, f"dims {len(dims)}", "real" if realdim else "complex")
    ctx.nontrivial(any(len(v) > 2 for v in labels.values()))


# ---------------------------------------------------------------- inverse
@st.composite
def idft_case(draw):
    ps = gen.draw_patch(draw, max_n=9, min_n=1, kinds=("even",), data=("float", "uniq", "cplx", "int", "f4", "float"), dim_kw=None)
    for d in ps["dims"]:
        if d[1]["n"] == 1:
            d[1]["form"] = "range"
    names = [d[0] for d in ps["dims"]]
    dims = dims_pick(draw, names)
    cplx = ps["data"]["k"] == "cplx"
    return {"p": ps, "dims": dims, "back": list(draw(PERM(*dims))), "real": None if cplx else draw(S(None, True, *dims)), "pad": draw(S(True, False)), "fwd": draw(S("one", "one", "each")),
            "inv": draw(S("one", "none", "each", "each_old")), "du": draw(S(None, "m/s", "strain", "10 V")), "dt": draw(S("", "velocity")), "flip": draw(S(False, False, True)), "pads": [draw(S(True, False)) for _ in dims]}


@facet("idft", idft_case(), quick=2500, weight=2)
def check_idft(spec, ctx):
    """Transforming and inverting restores the patch."""
    from dascore.units import get_quantity

    patch, _ = gen.build_patch(spec["p"])
    patch = patch.set_units(spec["du"]).update_attrs(data_type=spec["dt"])
    before = Snap(patch)
    dims = spec["dims"]
    sizes = {d: patch.shape[patch.dims.index(d)] for d in dims}
    what = f"dft({dims}, real={spec['real']}, pad={spec['pad']}) by {spec['fwd']}, inverted {spec['back']} by {spec['inv']}"
    if spec["fwd"] == "one":
        res = patch.dft(dims, real=spec["real"], pad=spec["pad"])
    else:
        res = patch
        for i, d in enumerate(dims):
            res = res.dft(d, real=True if i == 0 and spec["real"] is not None else None, pad=spec["pads"][i])
    if spec["flip"] and len(dims) < patch.ndim:
        res = res.transpose(*res.dims[::-1])
    if spec["inv"] == "one":
        out = res.idft([f"ft_{d}" for d in spec["back"]])
    elif spec["inv"] == "none":
        out = res.idft()
    else:
        out = res
        for d in spec["back"]:
            out = out.idft(d if spec["inv"] == "each_old" else f"ft_{d}")
    if spec["flip"] and len(dims) < patch.ndim:
        out = out.transpose(*patch.dims)
    require(out.dims == patch.dims, f"{what}: dims {out.dims}")
    check_coherent(out, what)
    scale = float(np.abs(before.data).max()) if before.data.size else 1.0
    tol = 1e-5 if before.dtype == np.float32 else 1e-10
    got = np.asarray(out.data)
    check_values(got, before.data.astype(got.dtype), f"{what}: data", atol=tol * scale)
    after = Snap(out)
    for name, c in before.coords.items():
        if name not in dims and set(c[0]) & set(dims):
            continue
        require(name in after.coords, f"{what}: coordinate {name} was lost")
        require(after.coords[name][0] == c[0], lambda: f"{what}: coordinate {name} belongs to {after.coords[name][0]}, not {c[0]}")
        check_values(after.coords[name][1], c[1], f"{what}: coordinate {name}")
        check_units(after.coords[name][2], c[2], f"{what}: coordinate {name}")
    extra = [n for n in after.coords if n not in before.coords]
    require(not extra, f"{what}: additional coordinates {extra}")
    for k, v in before.attrs.items():
        if k not in ("history", "coords", "dims", "data_units"):
            require(after.attrs.get(k) == v or v != v, lambda: f"{what}: attribute {k} is {after.attrs.get(k)!r} but was {v!r}")
    q, r = get_quantity(spec["du"]), get_quantity(out.attrs.data_units)
    require((q is None) == (r is None) and (q is None or abs((q / r).to_base_units().magnitude - 1) < 1e-9), lambda: f"{what}: data units {out.attrs.data_units}")
    extra = [k for k in after.attrs if k not in before.attrs]
    require(not extra, f"{what}: additional attributes {extra}")
    ctx.label(spec["inv"], spec["fwd"], f"dims {len(dims)}")
    ctx.nontrivial(max(sizes.values()) > 2)


# ---------------------------------------------------------------- short time
@st.composite
def stft_case(draw):
    ps = gen.draw_patch(draw, max_n=4, min_n=1, max_dims=2, dims=None, kinds=("even",), data=("float", "cplx", "float", "int"))
    dim = ps["dims"][draw(I(0, len(ps["dims"]) - 1))]
    dim[1]["n"] = draw(I(8, 24))
    w = draw(I(3, 8))
    return {"p": ps, "dim": dim[0], "w": w, "ov": draw(I(0, w - 1)), "ovk": draw(S("samples", "samples", "none", "value", "default")), "win": draw(S("boxcar", "hann", "hamming", "array")),
            "samples": draw(S(True, True, False)), "du": draw(S(None, "m/s"))}


@facet("stft", stft_case(), quick=1000)
def check_stft(spec, ctx):
    """Short-time transforms: windowed sums at each label, and the inverse."""
    from scipy.signal import get_window

    from dascore.exceptions import PatchError
    from dascore.units import get_quantity

    patch, _ = gen.build_patch(spec["p"])
    patch = patch.set_units(spec["du"])
    before = Snap(patch)
    dim, w = spec["dim"], spec["w"]
    ax = patch.dims.index(dim)
    n = patch.shape[ax]
    coord = patch.get_coord(dim)
    step = float_step(coord)
    if step < 0:
        return
    samples = spec["samples"]
    if spec["ovk"] == "none":
        ov, hop = None, w
    elif spec["ovk"] == "default":
        ov, hop = "skip", None
    else:
        ov, hop = spec["ov"], w - spec["ov"]
    window = np.linspace(0.5, 1.5, w) if spec["win"] == "array" else get_window(spec["win"], w, fftbins=False)
    kwargs = {"taper_window": window if spec["win"] == "array" else spec["win"]}
    if samples:
        kwargs.update(samples=True, **{dim: w})
        if ov != "skip":
            kwargs["overlap"] = ov
    else:
        kwargs[dim] = coord.step * w
        if ov != "skip":
            kwargs["overlap"] = None if ov is None else coord.step * ov
    if hop is None:
        hop = w - int(round(w * 0.5)) if w % 2 == 0 else None
    what = f"stft({ {k: v for k, v in kwargs.items() if k != 'taper_window'} }, {spec['win']})"
    res = patch.stft(**kwargs)
    ftname = f"ft_{dim}"
    require(res.dims == tuple(ftname if d == dim else d for d in patch.dims) + (dim,), f"{what}: dims {res.dims}")
    check_coherent(res, what)
    freqs = np.asarray(res.get_array(ftname))
    cplx = np.iscomplexobj(patch.data)
    k = np.arange(0, w // 2 + 1) if not cplx else np.arange(-(w // 2), (w - 1) // 2 + 1)
    check_values(freqs, k / (w * step), f"{what}: labels of {ftname}", atol=1e-9 / step)
    times = np.asarray(res.get_array(dim))
    rel = (times - np.asarray(coord.values)[0])
    rel = rel.astype("m8[ns]").astype(np.int64) / 1e9 if rel.dtype.kind == "m" else rel.astype(float)
    pos = rel / step
    centre = np.round(pos).astype(int)
    if step > 5e-9 or rel.size == 0:
        require(np.abs(pos - centre).max() < 0.3, lambda: f"{what}: time labels are not at samples: {pos}")
    if hop is not None:
        require(len(pos) < 2 or np.all(np.diff(centre) == hop), lambda: f"{what}: windows are {np.diff(centre)} samples apart, expected {hop}")
    data = np.asarray(patch.data)
    moved = np.moveaxis(data, ax, -1)
    got = np.moveaxis(np.asarray(res.data), -1, -1)
    got = np.moveaxis(got, ax, -2)  # (..., freq, time)
    m_mid = w // 2
    scale = float(np.abs(data).max() or 1) * np.abs(window).sum() * step
    for p, c in enumerate(centre):
        seg = np.zeros(moved.shape[:-1] + (w,), dtype=complex)
        lo = c - m_mid
        a, b = max(0, lo), min(n, lo + w)
        if b > a:
            seg[..., a - lo: b - lo] = moved[..., a:b]
        mat = np.exp(-2j * np.pi * np.outer(k, np.arange(w) - m_mid) / w) * window * step
        want = np.tensordot(seg, mat, axes=([-1], [1]))
        g = got[..., p]
        check_values(np.abs(g), np.abs(want), f"{what}: amplitude at label {p}", atol=1e-9 * scale)
        # phases are relative to the label, the centre of the window.
        check_values(g, want, f"{what}: values at label {p}", atol=1e-9 * scale)
    nz = np.flatnonzero(window > 1e-12)  # (a hann window ignores the samples at its ends)
    far = hop if hop is not None else int(np.diff(centre)[0]) if len(centre) > 1 else w
    require(centre.max() + far - m_mid + nz[0] >= n and centre.min() - far - m_mid + nz[-1] < 0, f"{what}: windows do not cover the signal: {centre}")
    after = Snap(res)
    for name, c in before.coords.items():
        if dim in c[0]:
            continue
        require(name in after.coords and after.coords[name][0] == c[0], f"{what}: coordinate {name}")
        check_values(after.coords[name][1], c[1], f"{what}: coordinate {name}")
    u, cu = get_quantity(spec["du"]), get_quantity(coord.units)
    check_units(res.get_coord(dim).units, coord.units, f"{what}: units of {dim}")
    check_units(res.get_coord(ftname).units, None if cu is None else 1 / cu, f"{what}: units of {ftname}")
    want_u = None if u is None else u * cu if cu is not None else u
    got_u = get_quantity(res.attrs.data_units)
    require((want_u is None) == (got_u is None) and (want_u is None or abs((want_u / got_u).to_base_units().magnitude - 1) < 1e-9), f"{what}: data units {res.attrs.data_units}")
    ctx.label(spec["win"], spec["ovk"])
    ctx.nontrivial(len(centre) > 2)
    # the inverse
    try:
        back = res.istft()
    except PatchError as exc:
        require("not possible" in str(exc), f"{what}: the inverse was refused: {exc}")
        hop_ = int(np.diff(centre)[0]) if len(centre) > 1 else w
        cover = np.zeros(w + 0)
        tot = np.zeros(hop_)
        for j in range(w):
            tot[j % hop_] += window[j] ** 2
        _ = cover
        require(tot.min() < 1e-8 * max(tot.max(), 1e-300) or hop_ > w, f"{what}: the inverse was refused although every sample is covered")
        return
    require(back.dims == patch.dims, f"{what}: inverse dims {back.dims}")
    check_values(np.asarray(back.data, dtype=complex), data.astype(complex), f"{what}: inverse", atol=1e-8 * float(np.abs(data).max() or 1))
    aft = Snap(back)
    for name, c in before.coords.items():
        if dim in c[0] and name != dim:
            continue
        require(name in aft.coords and aft.coords[name][0] == c[0], f"{what}: inverse lost coordinate {name}")
        check_values(aft.coords[name][1], c[1], f"{what}: inverse coordinate {name}")
        check_units(aft.coords[name][2], c[2], f"{what}: inverse coordinate {name}")
    extra = [n_ for n_ in aft.coords if n_ not in before.coords]
    require(not extra, f"{what}: inverse has additional coordinates {extra}")
    got_u = get_quantity(back.attrs.data_units)
    require((u is None) == (got_u is None) and (u is None or abs((u / got_u).to_base_units().magnitude - 1) < 1e-9), f"{what}: inverse data units {back.attrs.data_units}")


FACETS = [check_dft, check_idft, check_stft]
_ = fail
