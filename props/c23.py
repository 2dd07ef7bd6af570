"""C23: resampling and interpolation keep values at their labels."""
from __future__ import annotations

import warnings

import numpy as np
from hypothesis import strategies as st

from props.c22 import per_trace
from vlib import gen
from vlib.cmp import Snap, check_coherent, check_same_snap, check_units, check_values, require
from vlib.core import facet
from vlib.gen import I, L, S

RULE = ("A case is a patch (1-3 dims in any order; datetime/timedelta/float/integer axes from nanosecond to kilometre steps, forward, reversed, uneven or unsorted, with units and associated coordinates; "
        "float/int/float32/complex data) and a target: labels on, between or outside the old ones, a sampling period or frequency in several forms, a number of samples, a decimation factor with or without "
        "filter, or snapping. The oracle interpolates (piecewise linear by hand, nearest by hand, interpolating splines) or resamples (Fourier sum by hand) each trace alone, at labels relative to the first. "
        "Non-trivial = the new labels differ from the old ones.")
ASSUMPTIONS = [
    "interpolate is asked for labels within the range of the old ones (outside it extrapolates).",
    "Coordinates sharing the dimension can only be kept when the labels stay.",
    "The result of resample may be up to one new sample shorter than the patch (documented); labels may follow the last old label by less than one old step, as the Fourier method represents whole sampling intervals.",
    "Decimation drops the coordinates depending on its dimension (documented).",
    "Exactly half way between two labels either neighbour is the nearest.",
    "Sampling intervals that are not whole nanoseconds can only be represented within a nanosecond.",
]


def rel(vals, ref=None):
    """Labels relative to the first, as exact floats (ns for time)."""
    v = np.asarray(vals)
    ref = v[0] if ref is None else ref
    d = v - ref
    return d.astype("m8[ns]").astype(np.int64).astype(float) if d.dtype.kind == "m" else d.astype(float)


def others_kept(before, out, dims, what):
    """Dimensions, coordinates and attributes that do not involve dims are untouched; units stay."""
    require(out.dims == before.dims, f"{what}: dims {out.dims}")
    for n, (cd, vals, u, _) in before.coords.items():
        if n in dims:
            check_units(out.get_coord(n).units, u, f"{what}: units of {n}")
            require(out.coords.dim_map[n] == (n,), f"{what}: dims of {n}")
        elif not set(cd) & set(dims):
            require(n in out.coords.coord_map, f"{what}: coordinate {n} of {cd} was lost")
            check_values(np.asarray(out.get_array(n)), vals, f"{what}: coord {n}")
            check_units(out.get_coord(n).units, u, f"{what}: coord {n}")
    a, b = before.attrs, Snap(out).attrs
    for k in a:
        if k not in ("history", "coords"):
            require(str(a[k]) == str(b.get(k)), f"{what}: attribute {k} is {b.get(k)!r} but was {a[k]!r}")


DATA = ("float", "uniq", "int", "f4", "i2", "cplx")


def base(draw, lo, hi, kinds=("even",), **kw):
    ps = gen.draw_patch(draw, min_n=1, max_n=4, max_dims=3, data=DATA, kinds=("even", "mono", "arr"), **kw)
    dim = ps["dims"][draw(I(0, len(ps["dims"]) - 1))]
    dim[1] = gen.draw_coord(draw, types=gen.NAME_TYPES[dim[0]], kinds=kinds, min_n=lo, max_n=hi)
    return ps, dim[0]


# ---------------------------------------------------------------- interpolate
@st.composite
def interp_case(draw):
    ps, dim = base(draw, 5, 12, ("even", "mono", "mono", "arr"))
    return {"p": ps, "dim": dim, "kind": draw(S("linear", None, "nearest", 1, 2, 3, "cubic", "slinear")), "at": draw(S("inside", "inside", "even", "same", "none", "some")),
            "pos": draw(L(0, 1000, 12)), "num": draw(I(1, 12)), "sorted": draw(S(True, True, False)), "form": draw(S("array", "list"))}


@facet("interpolate", interp_case(), quick=2500, weight=2)
def check_interpolate(spec, ctx):
    """Each new label gets the interpolated value of the old samples at that label."""
    from scipy.interpolate import make_interp_spline

    patch, model = gen.build_patch(spec["p"])
    before = Snap(patch)
    dim, kind, at = spec["dim"], spec["kind"], spec["at"]
    ax = patch.dims.index(dim)
    vals = np.asarray(patch.get_array(dim))
    x = rel(vals, vals.min())
    top = x.max()
    time = vals.dtype.kind in "mM"
    if at == "none":
        if time and top < 1e4 * len(x):
            return  # rounding to nanoseconds would dominate
        new = None
        new_x = np.linspace(0, top, len(x))
        if patch.get_coord(dim).reverse_sorted:
            new_x = new_x[::-1]
    else:
        if at == "same":
            pos = x
        elif at == "some":
            pos = x[np.asarray(spec["pos"][: spec["num"]]) % len(x)]
        elif at == "even":
            pos = np.linspace(0.1, 0.9, max(spec["num"], 2)) * top
        else:
            pos = np.asarray(spec["pos"][: spec["num"]]) / 1000 * top
        if at in ("inside", "some") and spec["sorted"]:
            pos = np.unique(pos)
        if time:
            q = np.round(pos).astype(np.int64)
            new = vals.min() + q.astype("m8[ns]")
            new_x = q.astype(float)
        else:
            new = vals.min() + pos
            if vals.dtype.kind == "f" or at in ("same", "some"):
                new = new.astype(float)
            if at in ("same", "some"):
                new = vals[np.argmin(np.abs(x[None] - pos[:, None]), axis=1)]
            new_x = rel(new, vals.min())
        new_x = np.clip(new_x, 0, top)
    order = np.argsort(x)
    xs = x[order]
    scale = float(np.abs(before.data).max()) or 1.0
    slack = 1e-9 * top
    asked = new_x

    def ref(t):
        y = t[order].astype(complex if t.dtype.kind == "c" else float)
        if kind == "nearest":
            idx = [int(np.argmin(np.abs(xs - v))) for v in new_x]
            return y[idx]
        if kind in ("linear", None, 1, "slinear"):
            out = []
            for v in new_x:
                i = int(np.clip(np.searchsorted(xs, v, side="right") - 1, 0, len(xs) - 2))
                w = (v - xs[i]) / (xs[i + 1] - xs[i])
                out.append(y[i] * (1 - w) + y[i + 1] * w)
            return np.array(out)
        k = 3 if kind == "cubic" else kind
        return make_interp_spline(xs / top, y, k)(new_x / top)

    arg = new
    if spec["form"] == "list" and new is not None and not time:
        arg = new.tolist()
    kw = {} if kind is None else {"kind": kind}
    what = f"interpolate({dim}: {at}, {kw}) of {patch.dims} {vals.dtype}"
    if kind == "nearest":
        d = np.sort(np.abs(xs[None] - new_x[:, None]), axis=1)
        if (d[:, 1] - d[:, 0] < 1e-6 * top + (2 if at == "none" and time else 0)).any():
            return
    out = patch.interpolate(**kw, **{dim: arg})
    check_coherent(out, what)
    got_x = rel(out.get_array(dim), vals.min())
    if at == "none" and got_x.shape == new_x.shape:
        new_x = np.clip(got_x, 0, top)
    want = per_trace(before.data, ax, ref)
    require(len(got_x) == len(new_x), f"{what}: {len(got_x)} labels but {len(new_x)} were requested")
    # an even time axis has a whole number of ns per step
    check_values(got_x, asked, f"{what}: labels", atol=slack + (len(new_x) if at in ("none", "even") and time else 0))
    require(np.asarray(out.get_array(dim)).dtype.kind == (vals.dtype.kind if time else np.asarray(out.get_array(dim)).dtype.kind), f"{what}: dtype of labels")
    tol = 1e-6
    # evenly spaced labels may be off by the rounding of the step when evaluated
    if time and at == "none":
        tol += 4 * len(x) / np.diff(xs).min()
    if kind not in ("linear", None, 1, "slinear", "nearest"):
        amp = max(scale, float(np.abs(want).max()))
        tol = 1e-5 * amp / scale if len(x) < 8 else 1e-4 * amp / scale
    check_values(np.asarray(out.data).astype(want.dtype), want, f"{what}: data", atol=tol * scale * (1 if before.dtype != np.float32 else 50))
    others_kept(before, out, [dim], what)
    if at == "same":
        for n, (cd, v, u, _) in before.coords.items():
            require(n in out.coords.coord_map, f"{what}: coordinate {n} was lost")
            check_values(np.asarray(out.get_array(n)), v, f"{what}: coord {n}", atol=slack)
    check_same_snap(before, Snap(patch), f"{what}: the original")
    ctx.label(str(kind), at, f"labels {vals.dtype.kind}")
    ctx.nontrivial(at != "same")


# ---------------------------------------------------------------- resample
@st.composite
def resample_case(draw):
    ps, dim = base(draw, 8, 16)
    return {"p": ps, "dim": dim, "num": draw(I(3, 40)), "form": draw(S("samples", "samples", "number", "td", "period", "freq", "same")), "ratio": [draw(I(2, 24)), draw(I(2, 9))], "window": draw(S(None, None, None, "hann")),
            "kind": draw(S(None, "linear", "nearest", 3))}


@facet("resample", resample_case(), quick=2500, weight=2)
def check_resample(spec, ctx):
    """Fourier resampling followed by interpolation to exactly the requested sampling."""
    from scipy import signal

    from dascore.units import get_quantity

    patch, model = gen.build_patch(spec["p"])
    before = Snap(patch)
    dim, form = spec["dim"], spec["form"]
    ax = patch.dims.index(dim)
    coord = patch.get_coord(dim)
    vals = np.asarray(coord.values)
    n = len(vals)
    time = vals.dtype.kind in "mM"
    x = rel(vals)
    rev = x[-1] < 0
    step = abs(x[1])
    kw = {}
    if spec["window"]:
        kw["window"] = spec["window"]
    if spec["kind"] is not None:
        kw["interp_kind"] = spec["kind"]
    if form == "samples":
        num, new_step = spec["num"], None
        arg = num
        kw["samples"] = True
    else:
        new_step = step if form == "same" else step * spec["ratio"][1] / spec["ratio"][0] * 2
        if time:
            new_step = round(new_step)
            if new_step < 50:
                return
        new_len = n * (step / new_step)
        num = int(np.round(new_len))
        if num < (4 if spec["kind"] == 3 else 2) or abs(new_len - int(new_len) - 0.5) < 1e-6:
            return
        sec = new_step / 1e9 if time else new_step
        q = get_quantity(coord.units) if coord.units is not None else None
        if form in ("period", "freq") and q is not None and sec > 1e-5:
            arg = (sec * q) if form == "period" else 1 / (sec * q)
            arg = arg.to("ms") if form == "period" and q.check("[time]") else arg.to("kHz") if q.check("[time]") else arg.to("cm") if form == "period" and q.check("[length]") else arg
        elif form == "td" and time:
            arg = np.timedelta64(int(new_step), "ns")
        else:
            arg = sec
            if time and sec < 1e-4:
                arg = np.timedelta64(int(new_step), "ns")
    what = f"resample({dim}={arg!r}, {kw}) of {patch.dims} with {n} labels and step {step}{' (reversed)' if rev else ''}"
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out = patch.resample(**kw, **{dim: arg})
        check_coherent(out, what)
        wide = before.data.astype(complex if before.dtype.kind == "c" else float)
        if spec["window"]:
            mid = per_trace(wide, ax, lambda t: signal.resample(t, num, window=spec["window"]))
        else:
            mid = per_trace(wide, ax, lambda t: signal.resample(t, num))
    got_x = rel(out.get_array(dim), vals[0]) * (-1 if rev else 1)
    mid_x = np.arange(num) * step * n / num
    exact = form == "samples" or abs(n * step / new_step - num) < 1e-6
    scale = float(np.abs(wide).max()) or 1.0
    slack = 1e-9 * (abs(x[-1]) + step) + (2 if time else 0)
    tol = 1e-8 * scale if before.dtype != np.float32 else 1e-3 * scale
    if exact:
        require(len(got_x) == num, f"{what}: {len(got_x)} labels but expected {num}")
        check_values(got_x, mid_x, f"{what}: labels", atol=slack + (num if time else 0))
        check_values(np.asarray(out.data).astype(wide.dtype), mid, f"{what}: data", atol=tol)
    else:
        # one sample more or less at the end is rounding
        last = mid_x[-1]
        m = len(got_x)
        require(abs(m - last / new_step) <= 1 + 1e-6, f"{what}: {m} labels at {new_step} until {last}")
        check_values(got_x, np.arange(m) * new_step, f"{what}: labels", atol=slack)
        kind = spec["kind"] or "linear"

        def ref(t):
            if kind == "linear":
                i = np.clip(np.searchsorted(mid_x, got_x, side="right") - 1, 0, len(mid_x) - 2)
                w = (got_x - mid_x[i]) / (mid_x[i + 1] - mid_x[i])
                return t[i] * (1 - w) + t[i + 1] * w
            if kind == "nearest":
                return t[[int(np.argmin(np.abs(mid_x - v))) for v in got_x]]
            from scipy.interpolate import make_interp_spline

            return make_interp_spline(mid_x / last, t, kind)(got_x / last)

        if kind == "nearest":
            d = np.sort(np.abs(mid_x[None] - got_x[:, None]), axis=1)
            if (d[:, 1] - d[:, 0] < 1e-3 * new_step + 4).any() and time or (d[:, 1] - d[:, 0] < 1e-3 * new_step).any():
                return
        # the intermediate labels are rounded to nanoseconds
        mid_step = step * n / num
        rough = (2 + num) * 4 / mid_step if time and mid_step % 1 else 1e-7
        check_values(np.asarray(out.data).astype(wide.dtype), per_trace(mid, ax, ref), f"{what}: data", atol=max(tol, rough * float(np.abs(mid).max())))
    oc = out.get_coord(dim)
    # intervals that are not whole nanoseconds may keep exact labels instead
    require(oc.evenly_sampled or len(oc) < 3 or (time and form == "samples" and (int(step) * n) % num), f"{what}: the result has no sampling interval: {oc}")
    if new_step is not None and len(oc) > 1:
        s = np.asarray(oc.step)
        s = abs(float(s.astype("m8[ns]").astype(np.int64)) if s.dtype.kind == "m" else float(s))
        require(abs(s - new_step) <= 1e-9 * new_step + (1 if time and exact else 0), f"{what}: sampling interval {s} but {new_step} was requested")
    others_kept(before, out, [dim], what)
    if form == "same":
        check_values(np.asarray(out.get_array(dim)).astype(vals.dtype) if time else np.asarray(out.get_array(dim)), vals, f"{what}: labels", atol=0 if time else slack)
        for nme, (cd, v, u, _) in before.coords.items():
            require(nme in out.coords.coord_map, f"{what}: coordinate {nme} was lost")
    check_same_snap(before, Snap(patch), f"{what}: the original")
    ctx.label(form, "exact" if exact else "interpolated", "reversed" if rev else "forward")
    ctx.nontrivial(num != n)


# ---------------------------------------------------------------- decimate, snap
@st.composite
def deci_case(draw):
    filt = draw(S(None, None, "iir", "fir", "default"))
    ps, dim = base(draw, 3 if filt is None else 30, 14 if filt is None else 48, ("even", "mono", "arr") if filt is None else ("even",))
    return {"p": ps, "dim": dim, "filt": filt, "q": draw(I(1, 5)) if filt is None else draw(I(2, 4)), "copy": draw(S(None, True, False))}


@facet("decimate", deci_case(), quick=1500)
def check_decimate(spec, ctx):
    """Decimation keeps every q-th label with its (filtered) value."""
    from scipy import signal

    patch, model = gen.build_patch(spec["p"])
    before = Snap(patch)
    dim, q, filt = spec["dim"], spec["q"], spec["filt"]
    ax = patch.dims.index(dim)
    kw = {} if filt == "default" else {"filter_type": filt}
    if spec["copy"] is not None:
        kw["copy"] = spec["copy"]
    what = f"decimate({dim}={q}, {kw}) of {patch.dims}"
    out = patch.decimate(**kw, **{dim: q})
    check_coherent(out, what)
    wide = before.data if filt is None else before.data.astype(complex if before.dtype.kind == "c" else float)
    if filt is None:
        want = np.take(wide, range(0, wide.shape[ax], q), axis=ax)
    elif filt == "fir":
        b = signal.firwin(20 * q + 1, 1.0 / q, window="hamming")
        want = per_trace(wide, ax, lambda t: np.convolve(t, b)[10 * q: 10 * q + len(t)][::q])
    else:
        sos = signal.cheby1(8, 0.05, 0.8 / q, output="sos")
        want = per_trace(wide, ax, lambda t: signal.sosfiltfilt(sos, t)[::q])
    scale = float(np.abs(wide).max()) or 1.0
    check_values(np.asarray(out.data).astype(want.dtype), want, f"{what}: data", atol=0 if filt is None else scale * (1e-6 if before.dtype != np.float32 else 1e-2))
    vals = before.coords[dim][1]
    lab = vals[::q]
    check_values(np.asarray(out.get_array(dim)), lab, f"{what}: labels", atol=1e-9 * float(np.abs(lab).max()) if lab.dtype.kind == "f" else 0)
    others_kept(before, out, [dim], what)
    check_same_snap(before, Snap(patch), f"{what}: the original")
    ctx.label(str(filt), f"q {q}")
    ctx.nontrivial(q > 1)


@st.composite
def snap_case(draw):
    ps = gen.draw_patch(draw, min_n=2, max_n=8, max_dims=3, data=DATA, kinds=("even", "mono", "arr"))
    names = [d[0] for d in ps["dims"]]
    return {"p": ps, "dims": list(draw(st.permutations(names)))[: draw(I(0, len(names)))], "rev": draw(S(None, True, False))}


@facet("snap", snap_case(), quick=2000)
def check_snap(spec, ctx):
    """Snapping sorts, then spaces the labels evenly between the same ends."""
    patch, model = gen.build_patch(spec["p"])
    before = Snap(patch)
    dims = spec["dims"]
    kw = {} if spec["rev"] is None else {"reverse": spec["rev"]}
    what = f"snap_coords({dims}, {kw}) of {patch.dims}"
    out = patch.snap_coords(*dims, **kw)
    check_coherent(out, what)
    want = model
    used = dims or list(patch.dims)
    moved = False
    for d in used:
        vals = want.coords[d][1]
        x = rel(vals, vals.min())
        order = np.argsort(x, kind="stable")
        order = order[::-1] if spec["rev"] else order
        want = want.take(d, order)
        moved |= not np.allclose(np.diff(np.diff(x[order])), 0)
    check_values(out.data, want.data, f"{what}: data")
    require(out.data.dtype == before.dtype and out.dims == before.dims, f"{what}: dims or dtype")
    for n, (cd, vals, u) in want.coords.items():
        require(n in out.coords.coord_map and out.coords.dim_map[n] == tuple(cd), f"{what}: coordinate {n}")
        got = np.asarray(out.get_array(n))
        check_units(out.get_coord(n).units, u, f"{what}: units of {n}")
        if n in used:
            require(out.get_coord(n).evenly_sampled, f"{what}: {n} is not evenly sampled")
            x = rel(vals, vals.min())
            exp = np.linspace(x[0], x[-1], len(x))
            tol = len(x) if vals.dtype.kind in "mM" else 1e-9 * (np.abs(x).max() + float(np.abs(vals).max()))
            check_values(rel(got, vals.min()), exp, f"{what}: labels of {n}", atol=tol)
        else:
            check_values(got, vals, f"{what}: coord {n}", atol=1e-9 * float(np.abs(vals).max()) if vals.dtype.kind == "f" else 0)
    a, b = before.attrs, Snap(out).attrs
    for k in a:
        if k not in ("history", "coords"):
            require(str(a[k]) == str(b.get(k)), f"{what}: attribute {k}")
    check_same_snap(before, Snap(patch), f"{what}: the original")
    ctx.label(f"{len(used)} dims")
    ctx.nontrivial(moved)


FACETS = [check_interpolate, check_resample, check_decimate, check_snap]
