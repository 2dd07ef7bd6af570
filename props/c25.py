"""C25: correlation equals the direct sum at each lag label."""
from __future__ import annotations

import warnings

import numpy as np
from hypothesis import strategies as st

from vlib import gen
from vlib.cmp import Snap, check_coherent, check_same_snap, check_units, check_values, require
from vlib.core import facet
from vlib.gen import I, L, PERM, S

RULE = ("A case is a two-dimensional patch in either dimension order (even time/timedelta/float/integer axis of any parity of length, forward or reversed, correlated against sources of the other, sorted, "
        "possibly uneven axis; float/int/float32/complex data, associated coordinates), and sources by label, by sample (also from the end), as quantity in another unit, as list, array or all; correlated "
        "directly, or through an explicit transform (padded or not, real or not), with correlate_shift. The oracle sums products over the overlap with explicit loops. Non-trivial = several lags and a "
        "source that is not the first trace.")
ASSUMPTIONS = [
    "Correlations are conjugate(source) times receiver, and the lag is the shift of the receiver.",
    "A source between two labels means the next label (get_next_index); the generated ones are on labels.",
    "The coordinate of the sources holds the requested labels (or samples, when asked by sample).",
    "Correlating an unpadded transform is the circular sum.",
    "Without undo_weighting the values carry one factor of the (signed) sampling interval.",
]


def step_float(vals):
    d = vals[1] - vals[0]
    return d.astype("m8[ns]").astype(np.int64) / 1e9 if d.dtype.kind == "m" else float(d)


def direct(rec, src, k, circular=None):
    """Sum over t of conj(src[t]) rec[t+k]."""
    n = len(rec)
    tot = 0.0
    if circular:
        # zero-padded to the circular length
        r = np.zeros(circular, rec.dtype)
        s = np.zeros(circular, src.dtype)
        r[:n], s[:n] = rec, src
        return np.sum(np.conj(s) * np.roll(r, -k))
    lo, hi = max(0, -k), min(n, n - k)
    if hi > lo:
        tot = np.sum(np.conj(src[lo:hi]) * rec[lo + k: hi + k])
    return tot


def wide(data):
    return data.astype(complex if data.dtype.kind == "c" else float)


@st.composite
def corr_case(draw):
    a, b = draw(S(("time", "distance"), ("distance", "time"), ("depth", "chan"), ("time", "depth")))  # lag axis, source axis
    ps = gen.draw_patch(draw, dims=(a, b), min_n=2, max_n=9, kinds=("even",), data=("float", "uniq", "int", "f4", "i2", "cplx"), dim_kw={b: {"kinds": ("even", "mono"), "allow_rev": False, "min_n": 1, "max_n": 5}})
    return {"p": ps, "lag": a, "src": b, "how": draw(S("label", "label", "samples", "neg", "quantity", "none")), "many": draw(S("one", "list", "array", "array1")), "idx": draw(L(0, 100, 3)),
            "real": draw(S("name", "none", "true")), "pad": draw(S(True, True, False)), "weight": draw(S(None, True, False)), "sel": draw(S(True, False)), "unit": draw(S("cm", "mm", "km", "inch"))}


def pick(spec, patch):
    """(argument, kwargs, source indices)."""
    from dascore.units import get_quantity

    coord = patch.get_coord(spec["src"])
    vals = np.asarray(coord.values)
    n = len(vals)
    idx = [i % n for i in spec["idx"]]
    one = spec["many"] in ("one", "array1")
    idx = idx[:1] if one else idx
    how = spec["how"]
    if how == "none":
        return None, {}, list(range(n))
    if how in ("samples", "neg"):
        arg = [i - n for i in idx] if how == "neg" else idx
        kw = {"samples": True}
        seq = np.array(arg)
    elif how == "quantity" and coord.units is not None and vals.dtype.kind in "fi":
        u = get_quantity(coord.units)
        seq = vals[idx] * u
        kw = {}
        if seq.check("[length]"):
            # only where rounding does not move a label
            other = seq.to(spec["unit"])
            back = other.to(u.units).magnitude
            alone = np.array([q.to(u.units).magnitude for q in other])
            seq = other if np.array_equal(back, vals[idx]) and np.array_equal(alone, vals[idx]) else seq
    else:
        seq, kw = vals[idx], {}
    if spec["many"] == "one":
        return seq[0], kw, idx
    if spec["many"] == "list" and not hasattr(seq, "magnitude"):
        return list(seq), kw, idx
    return seq, kw, idx


def check_result(out, patch, spec, idx, what, mult=1.0, circular=None):
    before = Snap(patch)
    lag, src = spec["lag"], spec["src"]
    dims = tuple(f"lag_{lag}" if d == lag else d for d in patch.dims) + (f"source_{src}",)
    require(out.dims == dims, f"{what}: dims {out.dims} but expected {dims}")
    check_coherent(out, what)
    vals = before.coords[lag][1]
    step = vals[1] - vals[0]
    lags = np.asarray(out.get_array(f"lag_{lag}"))
    n = len(vals)
    if lags.dtype.kind == "m":
        k = lags.astype("m8[ns]").astype(np.int64) / step.astype("m8[ns]").astype(np.int64)
    else:
        k = lags / step
    ki = np.round(k).astype(int)
    check_values(k, ki, f"{what}: lag labels in samples", atol=1e-6)
    require((ki == 0).sum() == 1, f"{what}: lags {ki} without one zero")
    require((np.diff(ki) == 1).all(), f"{what}: lags {ki}")
    if circular is None:
        require(ki[0] <= -(n - 1) and ki[-1] >= n - 1, f"{what}: lags {ki[0]}..{ki[-1]} do not cover the {n} samples")
    else:
        require(len(ki) == circular and abs(ki[0] + ki[-1]) <= 1, f"{what}: lags {ki[0]}..{ki[-1]} for {circular} samples")
    check_units(out.get_coord(f"lag_{lag}").units, before.coords[lag][2], f"{what}: units of lag")
    data = wide(before.data)
    data = np.moveaxis(data, patch.dims.index(lag), -1)  # receivers x time
    got = np.moveaxis(np.asarray(out.data), [out.dims.index(src), out.dims.index(f"lag_{lag}")], [0, 1])
    want = np.array([[[direct(data[r], data[s], q, circular) for s in idx] for q in ki] for r in range(data.shape[0])]) * mult
    require(got.shape == want.shape, f"{what}: shape {got.shape}")
    scale = max(float((np.abs(data) ** 2).sum(axis=-1).max()), 1e-30) * abs(mult)
    check_values(got.astype(want.dtype) if want.dtype.kind == "c" or got.dtype.kind != "c" else got, want, f"{what}: data", atol=(1e-9 if before.dtype != np.float32 else 1e-4) * scale)
    rc = out.get_coord(src)
    check_values(np.asarray(rc.values), before.coords[src][1], f"{what}: receivers", atol=1e-9 * float(np.abs(before.coords[src][1]).max()) if before.coords[src][1].dtype.kind == "f" else 0)
    check_units(rc.units, before.coords[src][2], f"{what}: units of {src}")
    for nme, (cd, v, u, _) in before.coords.items():
        if nme not in (lag, src) and lag not in cd:
            require(nme in out.coords.coord_map, f"{what}: coordinate {nme} of {cd} was lost")
            check_values(np.asarray(out.get_array(nme)), v, f"{what}: coord {nme}")
    a, b = before.attrs, Snap(out).attrs
    for key in a:
        if key not in ("history", "coords", "data_type", "data_units", "dims"):
            require(str(a[key]) == str(b.get(key)), f"{what}: attribute {key} is {b.get(key)!r} but was {a[key]!r}")
    require(out.attrs.data_type == "correlation", f"{what}: data_type {out.attrs.data_type!r}")


def check_sources(out, patch, spec, arg, idx, what):
    src = spec["src"]
    vals = np.asarray(patch.get_array(src))
    sc = out.get_coord(f"source_{src}")
    got = np.asarray(sc.values)
    if isinstance(arg, np.ndarray):
        require(arg.flags.writeable, f"{what}: the array of sources was locked")
    if spec["how"] in ("samples", "neg"):
        a = np.atleast_1d(arg)
        ok = np.array_equal(got, a) or (got.dtype.kind == vals.dtype.kind and np.allclose((got - vals[idx]).astype(float), 0))
        require(ok, f"{what}: sources labelled {got}")
        return
    tol = 1e-9 * float(np.abs(vals).max()) if vals.dtype.kind == "f" else 0
    want = vals[idx]
    if tol == 0 and want.dtype.kind in "iu":
        got = got.astype(float)
        want = want.astype(float)
        tol = 1e-9 * (float(np.abs(want).max()) + 1)
    check_values(got, want, f"{what}: labels of the sources", atol=tol)
    check_units(sc.units, Snap(patch).coords[src][2], f"{what}: units of the sources")


@facet("direct", corr_case(), quick=1800, weight=2)
def check_direct(spec, ctx):
    """Patch.correlate of a patch in the original domain."""
    patch, model = gen.build_patch(spec["p"])
    before = Snap(patch)
    arg, kw, idx = pick(spec, patch)
    what = f"correlate({spec['src']}={arg!r}, {kw}) of {patch.dims} {patch.shape}"
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out = patch.correlate(**kw, **{spec["src"]: arg})
    check_result(out, patch, spec, idx, what)
    check_sources(out, patch, spec, arg, idx, what)
    check_same_snap(before, Snap(patch), f"{what}: the original")
    # the other dimension order
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        turned = patch.transpose(*patch.dims[::-1]).correlate(**kw, **{spec["src"]: arg})
    t = turned.transpose(*out.dims)
    check_values(np.asarray(t.data), np.asarray(out.data), f"{what}: with the other dimension order", atol=1e-6 * float(np.abs(out.data).max()) + 1e-30)
    ctx.label(spec["how"], spec["many"], str(patch.data.dtype), "odd" if len(patch.get_coord(spec["lag"])) % 2 else "even")
    ctx.nontrivial(any(idx) and len(patch.get_coord(spec["lag"])) > 2)


@facet("spectral", corr_case(), quick=1800, weight=2)
def check_spectral(spec, ctx):
    """Correlation of a transformed patch, inverted and shifted, has the same labelled values."""
    from dascore.utils.time import to_float

    patch, model = gen.build_patch(spec["p"])
    lag = spec["lag"]
    arg, kw, idx = pick(spec, patch)
    what = f"{'pad, ' if spec['pad'] else ''}dft(real {spec['real']}), correlate({spec['src']}={arg!r}, {kw}), idft, correlate_shift of {patch.dims} {patch.shape}"
    p = patch.pad(**{lag: "correlate"}) if spec["pad"] else patch
    n = len(p.get_coord(lag))
    real = None if spec["real"] == "none" or patch.data.dtype.kind == "c" else lag
    dft = p.dft(lag, real=real if spec["real"] != "true" or real is None else True, pad=False)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        cc = dft.correlate(**kw, **{spec["src"]: arg})
    opt = {} if spec["weight"] is None else {"undo_weighting": spec["weight"]}
    out = cc.idft().correlate_shift(lag, **opt)
    got = out
    if real is None and patch.data.dtype.kind != "c":
        require(np.abs(np.asarray(out.data).imag).max() <= 1e-6 * np.abs(out.data).max() + 1e-30, f"{what}: not real")
        got = out.real()
    step = to_float(p.get_coord(lag).step)
    mult = step if spec["weight"] is False else 1.0
    base = patch
    check_result(got.update_attrs(data_type="correlation"), base, spec, idx, what, mult=mult, circular=n)
    require(out.attrs.data_type == "correlation", f"{what}: data_type {out.attrs.data_type}")
    if spec["sel"] and spec["pad"]:
        direct_ = patch.correlate(**kw, **{spec["src"]: arg})
        check_values(np.asarray(direct_.get_array(f"lag_{lag}")).astype(got.get_array(f"lag_{lag}").dtype), np.asarray(got.get_array(f"lag_{lag}")), f"{what}: lags of both ways", atol=1e-9 * float(np.abs(to_float(got.get_array(f"lag_{lag}"))).max()) if got.get_array(f"lag_{lag}").dtype.kind == "f" else 0)
    ctx.label("padded" if spec["pad"] else "circular", f"real {spec['real']}")
    ctx.nontrivial(any(idx) and n > 2)


@st.composite
def shift_case(draw):
    ps = gen.draw_patch(draw, min_n=2, max_n=9, min_dims=1, max_dims=3, kinds=("even",), data=("float", "uniq", "f4"))
    return {"p": ps, "dim": draw(S(*[d[0] for d in ps["dims"]])), "mode": draw(S("auto", "auto", "shift")), "pad": draw(S("correlate", "fft", None)), "weight": draw(S(None, True, False))}


@facet("shift", shift_case(), quick=1200)
def check_shift(spec, ctx):
    """correlate_shift puts zero lag at the label zero, in any number of dimensions."""
    from dascore.utils.time import to_float

    patch, model = gen.build_patch(spec["p"])
    dim = spec["dim"]
    opt = {} if spec["weight"] is None else {"undo_weighting": spec["weight"]}
    undo = spec["weight"] is not False
    p = patch.pad(**{dim: spec["pad"]}) if spec["pad"] else patch
    ax = p.dims.index(dim)
    n = p.shape[ax]
    step = to_float(p.get_coord(dim).step)
    if spec["mode"] == "auto":
        dft = p.dft(dim, real=True, pad=False)
        res = (dft * dft.conj()).idft().correlate_shift(dim, **opt)
        what = f"auto-correlation along {dim} of {p.dims} {p.shape}"
    else:
        res = p.correlate_shift(dim, **opt)
        what = f"correlate_shift({dim}) of {p.dims} {p.shape}"
    check_coherent(res, what)
    require(res.dims == tuple(f"lag_{d}" if d == dim else d for d in p.dims), f"{what}: dims {res.dims}")
    vals = np.asarray(p.get_array(dim))
    st_ = vals[1] - vals[0]
    lags = np.asarray(res.get_array(f"lag_{dim}"))
    k = lags.astype("m8[ns]").astype(np.int64) / st_.astype("m8[ns]").astype(np.int64) if lags.dtype.kind == "m" else lags / st_
    ki = np.round(k).astype(int)
    check_values(k, ki, f"{what}: lags in samples", atol=1e-6)
    require(sorted(ki % n) == list(range(n)) and (np.diff(ki) == 1).all() and abs(ki[0] + ki[-1]) <= 1, f"{what}: lags {ki}")
    check_units(res.get_coord(f"lag_{dim}").units, p.get_coord(dim).units, f"{what}: units")
    data = np.moveaxis(wide(np.asarray(p.data)), ax, -1)
    if spec["mode"] == "auto":
        want = np.stack([np.sum(data * np.roll(data, -q, axis=-1), axis=-1) for q in ki], axis=-1) * (1.0 if undo else step)
    else:
        want = data[..., ki % n] / (step if undo else 1.0)
    got = np.moveaxis(np.asarray(res.data), ax, -1)
    check_values(got.astype(float), want, f"{what}: data", atol=(1e-9 if patch.data.dtype != np.float32 else 1e-4) * float(np.abs(want).max()))
    ctx.label(spec["mode"], f"{p.ndim} dims", "odd" if n % 2 else "even")
    ctx.nontrivial(n > 2)


_ = PERM
FACETS = [check_direct, check_spectral, check_shift]
