"""C24: masking, filling, padding and scaling touch only the samples they name."""
from __future__ import annotations

import warnings

import numpy as np
from hypothesis import strategies as st

from vlib import gen
from vlib.cmp import Snap, check_coherent, check_same_snap, check_units, check_values, coord_tol, meta_unchanged, require
from vlib.core import facet
from vlib.gen import I, L, PERM, S

RULE = ("A case is a patch (1-3 dims in any order; forward, reversed, uneven datetime/timedelta/float/integer axes; associated coordinates; float/int/float32/complex/bool data) with placed NaN and infinite "
        "samples, and one of: fillna, dropna, where (condition and replacement as scalars, arrays or patches of fewer or permuted dimensions), pad (any number of dimensions in samples, units or up to a "
        "fast length), normalize/standardize/demean/demedian/full, taper, taper_range, line_mute in one or two dimensions, slope_mute. The oracle marks the samples with explicit loops over the labels. "
        "Non-trivial = the operation designates some but not all samples.")
ASSUMPTIONS = [
    "Tapering fractions count samples whose distance from the end is at most the fraction of the range; generated limits stay away from labels unless exactly representable.",
    "The two ends of a taper of a reverse sorted axis are only told apart by the relative convention of select (from the minimum); asymmetric tapers are generated for forward axes.",
    "Ranges of one taper_range do not overlap; None as upper limit means the last label, whose own sample is not checked.",
    "Mute lines make an angle below 90 degrees (others are refused as documented); samples within rounding of a line are not checked.",
    "Associated coordinates of padded dimensions cannot be kept.",
    "A trace without variation has no standard score.",
]


def base(draw, lo=1, hi=6, data=("uniq", "float", "int", "f4", "i2"), ndmax=3, ndmin=1, **kw):
    return gen.draw_patch(draw, min_n=lo, max_n=hi, min_dims=ndmin, max_dims=ndmax, data=data, **kw)


# ---------------------------------------------------------------- missing values and conditions
def plant(data, holes):
    data = data.copy()
    if data.dtype.kind in "fc" and data.size:
        for pos, what in holes:
            data.flat[pos % data.size] = {"nan": np.nan, "inf": np.inf, "-inf": -np.inf, "cnan": complex(0, np.nan) if data.dtype.kind == "c" else np.nan}[what]
    return data


@st.composite
def miss_case(draw):
    ps = base(draw, data=("float", "uniq", "int", "f4", "cplx", "bool"))
    f = draw(S("fillna", "fillna", "dropna", "dropna", "dropna", "where", "where", "where"))
    dims = [d[0] for d in ps["dims"]]
    mode = draw(S("few", "block", "many"))
    holes = [] if mode == "block" else [[draw(I(0, 300)), draw(S("nan", "inf", "-inf", "cnan", "nan"))] for _ in range(draw(I(0, 3 if mode == "few" else 12)))]
    return {"p": ps, "f": f, "holes": holes, "block": [draw(I(0, 2)), draw(I(0, 5)), draw(I(1, 3))] if mode == "block" else None, "dim": draw(S(*dims)), "how": draw(S("any", "all", None)),
            "inf": draw(S(True, False, None)), "value": draw(S(0, 5, -1.5, 7)), "cond": draw(S("array", "patch", "perm", "less", "bcast", "scalar")), "other": draw(S("none", "scalar", "patch", "perm", "less", "array", "int")),
            "seed": draw(I(0, 99)), "order": list(draw(PERM(*dims))), "sub": draw(I(1, max(1, len(dims))))}


def side(patch, model_coords, kind, seed, order, sub, boolean):
    """A condition/replacement in the stated form, and its full array (oracle)."""
    rng = np.random.default_rng(seed + (1 if boolean else 5))
    shape = patch.shape

    def make(shp):
        if boolean:
            return rng.random(shp) < 0.5
        return np.round(rng.normal(0, 9, shp), 2)

    if kind == "scalar":
        v = make(())
        v = bool(v) if boolean else float(v)
        return v, np.broadcast_to(np.asarray(v), shape)
    if kind == "array":
        a = make(shape)
        return a, a
    if kind == "bcast":
        shp = tuple(n if i % 2 == seed % 2 else 1 for i, n in enumerate(shape))
        a = make(shp)
        return a, np.broadcast_to(a, shape)
    if kind == "patch":
        a = make(shape)
        return patch.new(data=a), a
    if kind == "perm":
        a = make(shape)
        return patch.new(data=a).transpose(*order), a
    # a patch with some of the dimensions
    import dascore as dc

    keep = [d for d in patch.dims if d in order[:sub]]
    a = make(tuple(patch.coord_shapes[d][0] for d in keep))
    other = dc.Patch(data=a, coords={d: patch.get_coord(d) for d in keep}, dims=tuple(keep))
    full = a.reshape(tuple(patch.coord_shapes[d][0] if d in keep else 1 for d in patch.dims))
    return other, np.broadcast_to(full, shape)


@facet("missing", miss_case(), quick=2500, weight=2)
def check_missing(spec, ctx):
    """fillna / dropna / where change exactly the designated samples."""
    patch, model = gen.build_patch(spec["p"])
    data = plant(patch.data, spec["holes"])
    if spec["block"] and data.dtype.kind in "fc":
        ax, i, k = spec["block"]
        np.moveaxis(data, ax % data.ndim, 0)[i:i + k] = np.nan
    patch = patch.new(data=data)
    before = Snap(patch)
    f = spec["f"]
    inf = True if spec["inf"] is None else spec["inf"]
    kw = {} if spec["inf"] is None else {"include_inf": spec["inf"]}
    bad = ~np.isfinite(data) if inf else np.isnan(data) if data.dtype.kind in "fc" else np.zeros(data.shape, bool)
    some = bad.any() and not bad.all()
    if f == "fillna":
        value = spec["value"] if data.dtype.kind in "fc" else 1
        out = patch.fillna(value, **kw)
        want = data.copy()
        want[bad] = value
        check_values(out.data, want, f"fillna({value}, {kw}): data")
        require(out.data.dtype == data.dtype, f"fillna: dtype {out.data.dtype}")
        meta_unchanged(before, Snap(out), "fillna")
    elif f == "dropna":
        how = spec["how"] or "any"
        if spec["how"]:
            kw["how"] = how
        dim = spec["dim"]
        ax = patch.dims.index(dim)
        what = f"dropna({dim}, {kw}) of {patch.dims}"
        flat = np.moveaxis(bad, ax, 0).reshape(data.shape[ax], -1)
        keep = [i for i in range(flat.shape[0]) if not (all(flat[i]) if how == "all" else any(flat[i]))]
        out = patch.dropna(dim, **kw)
        check_coherent(out, what)
        want = model.take(dim, keep)
        check_values(out.data, np.take(data, keep, axis=ax), f"{what}: data")
        for n, (cd, vals, u) in want.coords.items():
            if not keep and n != dim and dim in cd:
                continue
            require(n in out.coords.coord_map, f"{what}: coordinate {n} of {cd} was lost")
            require(out.coords.dim_map[n] == cd, f"{what}: dims of {n}")
            # no values are kept by empty coordinates in general.
            check_values(np.asarray(out.get_array(n)), np.asarray(vals), f"{what}: coord {n}", atol=coord_tol(vals))
            check_units(out.get_coord(n).units, u, f"{what}: coord {n}")
        a, b = before.attrs, Snap(out).attrs
        for k in a:
            if k not in ("history", "coords") and not k.startswith(dim):
                require(str(a[k]) == str(b.get(k)), f"{what}: attribute {k}")
        some = 0 < len(keep) < data.shape[ax]
    else:
        cond, cfull = side(patch, model, spec["cond"], spec["seed"], spec["order"], spec["sub"], True)
        okind = spec["other"]
        if okind == "none":
            args, ofull = (), np.broadcast_to(np.nan, data.shape)
        elif okind == "int":
            args, ofull = (3,), np.broadcast_to(3, data.shape)
        else:
            o, ofull = side(patch, model, okind, spec["seed"], spec["order"][::-1], spec["sub"], False)
            args = (o,)
        what = f"where(cond {spec['cond']}, other {okind})"
        if isinstance(cond, bool):
            cond = np.asarray(cond)
        out = patch.where(cond, *args)
        if set(out.dims) == set(patch.dims) and out.dims != patch.dims:
            require(False, f"{what}: dims {out.dims} but were {patch.dims}")
        want = np.where(cfull, data, ofull)
        check_values(out.data, want, f"{what}: data")
        meta_unchanged(before, Snap(out), what, attrs=())
        some = cfull.any() and not cfull.all()
    check_same_snap(before, Snap(patch), f"{f}: the original")
    ctx.label(f, spec["cond"] if f == "where" else "")
    ctx.nontrivial(bool(some))


# ---------------------------------------------------------------- padding
@st.composite
def pad_case(draw):
    ps = base(draw, 2, 7, data=("float", "uniq", "int", "f4", "cplx"))
    dims = list(draw(PERM(*[d[0] for d in ps["dims"]])))[: draw(I(1, len(ps["dims"])))]
    return {"p": ps, "dims": dims, "form": [draw(S("one", "pair", "pair", "fft", "correlate")) for _ in dims], "k": [[draw(I(0, 4)), draw(I(0, 4))] for _ in dims], "samples": draw(S(True, True, False)),
            "units": draw(S("number", "td", "quantity")), "const": draw(S(None, 0, 3, -2)), "expand": draw(S(None, True, False)), "kwdims": draw(S("plain", "np"))}


def in_units(coord, k, form):
    """k samples along an evenly sampled coordinate, in its units (rounded up by get_sample_count)."""
    from dascore.units import get_quantity

    v = np.asarray(coord.values)
    if v.dtype.kind in "mM":
        ns = int(abs((v[1] - v[0]).astype("m8[ns]").astype(np.int64)))
        if form == "td":
            return np.timedelta64(k * ns, "ns")
        if form == "quantity":
            return get_quantity("ns") * (max(k * ns - ns // 3, 0) if k else 0)
        return max(k - 0.4, 0) * ns / 1e9
    step = abs(float(v[1] - v[0]))
    val = max(k - 0.4, 0) * step
    if form == "quantity" and coord.units is not None:
        q = get_quantity(coord.units)
        return (val * q).to("mm") if q.check("[length]") else val * q
    return val


@facet("pad", pad_case(), quick=2000, weight=2)
def check_pad(spec, ctx):
    """Padding adds exactly the requested constant samples at the extrapolated (or null) labels."""
    from scipy.fft import next_fast_len

    patch, model = gen.build_patch(spec["p"])
    before = Snap(patch)
    samples = spec["samples"]
    kwargs, pads = {}, {}
    for dim, form, (a, b) in zip(spec["dims"], spec["form"], spec["k"]):
        coord = patch.get_coord(dim)
        n = len(coord)
        even = coord.evenly_sampled
        if not even and not samples:
            return
        if form == "fft":
            kwargs[dim], pads[dim] = "fft", (0, next_fast_len(n) - n)
            continue
        if form == "correlate":
            kwargs[dim], pads[dim] = "correlate", (0, next_fast_len(2 * n - 1) - n)
            continue
        if form == "one":
            b = a
        # a length-one or uneven coordinate has no sampling interval
        if samples:
            val = (np.int64(a), np.int64(b)) if spec["kwdims"] == "np" else (a, b)
        else:
            tiny = np.asarray(coord.values).dtype.kind in "mM" and abs(int((coord.values[1] - coord.values[0]).astype("m8[ns]").astype(int))) < 1000
            val = tuple(in_units(coord, k, "td" if tiny else spec["units"]) for k in (a, b))
        kwargs[dim] = val[0] if form == "one" else val
        pads[dim] = (a, b)
    if not kwargs:
        return
    opts = {}
    if spec["const"] is not None:
        opts["constant_values"] = spec["const"]
    if spec["expand"] is not None:
        opts["expand_coords"] = spec["expand"]
    if samples:
        opts["samples"] = True
    what = f"pad({kwargs}, {opts}) of {patch.dims}"
    out = patch.pad(**opts, **kwargs)
    check_coherent(out, what)
    shape = tuple(n + sum(pads.get(d, (0, 0))) for d, n in zip(patch.dims, patch.shape))
    want = np.full(shape, spec["const"] or 0, dtype=patch.data.dtype)
    want[tuple(slice(pads.get(d, (0, 0))[0], pads.get(d, (0, 0))[0] + n) for d, n in zip(patch.dims, patch.shape))] = before.data
    check_values(out.data, want, f"{what}: data")
    require(out.data.dtype == before.dtype, f"{what}: dtype {out.data.dtype}")
    require(out.dims == patch.dims, f"{what}: dims")
    for n, (cd, vals, u, _) in before.coords.items():
        if n in pads:
            coord = patch.get_coord(n)
            a, b = pads[n]
            got = np.asarray(out.get_array(n))
            check_units(out.get_coord(n).units, u, f"{what}: coord {n}")
            if coord.evenly_sampled and spec["expand"] in (None, True):
                step = vals[1] - vals[0]
                idx = np.arange(-a, len(vals) + b)
                lab = vals[0] + idx * (step if vals.dtype.kind != "f" else coord.step)
                check_values(got, lab, f"{what}: coord {n}", atol=1e-9 * float(np.abs(lab).max()) if lab.dtype.kind == "f" else 0)
            else:
                require(len(got) == len(vals) + a + b, f"{what}: coord {n}")
                check_values(got[a: a + len(vals)], vals if vals.dtype.kind not in "iu" else vals.astype(float), f"{what}: coord {n}", atol=coord_tol(vals))
                import pandas as pd

                rest = np.concatenate([got[:a], got[a + len(vals):]])
                require(pd.isnull(rest).all(), f"{what}: coord {n} padded with {rest}")
        elif not set(cd) & {d for d in pads if sum(pads[d])}:
            require(n in out.coords.coord_map, f"{what}: coordinate {n} of {cd} was lost")
            check_values(np.asarray(out.get_array(n)), vals, f"{what}: coord {n}")
            check_units(out.get_coord(n).units, u, f"{what}: coord {n}")
    a, b = before.attrs, Snap(out).attrs
    for k in a:
        if k not in ("history", "coords"):
            require(str(a[k]) == str(b.get(k)), f"{what}: attribute {k}")
    check_same_snap(before, Snap(patch), f"{what}: the original")
    ctx.label(f"{len(pads)} dims", *spec["form"])
    ctx.nontrivial(any(sum(v) for v in pads.values()))


# ---------------------------------------------------------------- scaling
@st.composite
def scale_case(draw):
    ps = base(draw, data=("float", "uniq", "int", "f4", "i2", "cplx"))
    return {"p": ps, "dim": draw(S(*[d[0] for d in ps["dims"]])), "f": draw(S("normalize", "normalize", "normalize", "standardize", "demean", "demedian", "full")), "norm": draw(S("l1", "l2", "max", "bit", None)),
            "holes": [[draw(I(0, 300)), "nan"] for _ in range(draw(I(0, 4)))], "zeros": draw(S(None, 0, 1)), "big": draw(S(1, 1, 1000, 10**6)), "fill": draw(S(0, 1.5, -2, 7))}


@facet("scale", scale_case(), quick=2000)
def check_scale(spec, ctx):
    """normalize / standardize / demean / demedian / full scale each trace alone."""
    from props.c22 import per_trace

    patch, model = gen.build_patch(spec["p"])
    dim, f = spec["dim"], spec["f"]
    ax = patch.dims.index(dim)
    data = plant(patch.data, spec["holes"])
    if f == "demedian" and data.dtype.kind == "c":
        return
    if spec["big"] > 1:
        if data.dtype.kind == "i":
            # near the limits of the type
            lim = np.iinfo(data.dtype).max
            data = data * min(spec["big"], lim // 50)
        else:
            data = data * data.dtype.type(spec["big"])
    if spec["zeros"] is not None:
        np.moveaxis(data, ax, -1).reshape(-1, data.shape[ax])
        m = np.moveaxis(data, ax, -1)
        m[(spec["zeros"],) * (m.ndim - 1) if all(s > spec["zeros"] for s in m.shape[:-1]) else (0,) * (m.ndim - 1)] = 0
    patch = patch.new(data=data)
    before = Snap(patch)
    wide = data.astype(complex if data.dtype.kind == "c" else float)
    norm = spec["norm"] or "l2"

    def ref(t):
        ok = ~np.isnan(t)
        v = t[ok]
        if f == "normalize":
            s = {"l1": np.abs(v).sum(), "l2": np.sqrt((np.abs(v) ** 2).sum()), "max": np.abs(v).max() if v.size else 0, "bit": np.abs(t)}[norm]
            return t / np.where(s == 0, 1, s)
        if not v.size:
            return t * np.nan
        if f == "standardize":
            s = v.std()
            if s <= 1e-5 * np.abs(v).max():
                return t * np.nan
            return (t - v.mean()) / s
        return t - (v.mean() if f == "demean" else np.median(v.real))

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if f == "full":
            out = patch.full(spec["fill"])
            want = np.full(data.shape, float(spec["fill"]))
        else:
            out = patch.normalize(dim, **({"norm": spec["norm"]} if spec["norm"] else {})) if f == "normalize" else getattr(patch, f)(dim)
            want = per_trace(wide, ax, ref)
    what = f"{f}({dim}, {norm if f == 'normalize' else ''}) of {patch.dims} {data.dtype}"
    tol = 2e-4 if data.dtype == np.float32 else 1e-9
    got = np.asarray(out.data)
    scale = np.nanmax(np.abs(wide)) if f in ("demean", "demedian") and np.isfinite(wide).any() else 1
    if f == "standardize":
        ok = ~np.isnan(want)
        require(np.isnan(got)[np.isnan(wide)].all(), f"{what}: missing values")
        got, want = np.where(ok, got, 0), np.where(ok, want, 0)
        tol *= 1e3
    check_values(got.astype(want.dtype), want, f"{what}: data", rtol=tol, atol=tol * scale)
    meta_unchanged(before, Snap(out), what, attrs=("data_type",))
    check_coherent(out, what)
    check_same_snap(before, Snap(patch), f"{what}: the original")
    ctx.label(f, str(data.dtype))
    ctx.nontrivial(data.ndim > 1 and f != "full")


# ---------------------------------------------------------------- tapers
def window(name, m):
    """Symmetric windows by their formulas."""
    from scipy.signal import windows

    i = np.arange(m)
    if m == 1:
        return np.ones(1)
    if name in ("hann", "cos"):
        return 0.5 - 0.5 * np.cos(2 * np.pi * i / (m - 1))
    if name == "hamming":
        return 0.54 - 0.46 * np.cos(2 * np.pi * i / (m - 1))
    if name in ("triang", "ramp"):
        return 1 - np.abs((2 * i - (m - 1)) / (m + (m % 2)))
    if name == "bartlett":
        return 1 - np.abs(2 * i / (m - 1) - 1)
    if name == "boxcar":
        return np.ones(m)
    return getattr(windows, name)(m)


WINDOWS = ("hann", "cos", "triang", "ramp", "hamming", "bartlett", "boxcar", "blackman", "nuttall", "parzen", "bohman", "barthann", "blackmanharris")


@st.composite
def taper_case(draw):
    ps = base(draw, 1, 3, data=("float", "uniq", "int", "f4", "cplx"))
    dim = ps["dims"][draw(I(0, len(ps["dims"]) - 1))]
    dim[1] = gen.draw_coord(draw, types=gen.NAME_TYPES[dim[0]], kinds=("even", "even", "mono"), min_n=6, max_n=16)
    n = dim[1]["n"]
    for e in ps["extra"]:
        e["dims"] = [d for d in e["dims"]]
    cut = sorted(draw(L(0, n - 1, 8)))
    return {"p": ps, "dim": dim[0], "f": draw(S("taper", "range")), "win": draw(S(None, *WINDOWS)), "k": [draw(I(1, n // 2)), draw(I(1, n // 2))], "form": draw(S("one", "pair", "left", "right")),
            "unit": draw(S("frac", "percent", "abs")), "cut": cut, "form2": draw(S("two", "four", "four", "eight", "none", "dots")), "val": draw(S("samples", "abs", "rel", "quantity", "neg")), "inv": draw(S(None, True, False)),
            "seq": draw(S("tuple", "list"))}




@facet("taper", taper_case(), quick=2500, weight=2)
def check_taper(spec, ctx):
    """taper and taper_range multiply exactly the named samples by the named window."""
    from dascore.exceptions import CoordError
    from dascore.units import get_quantity, percent

    patch, model = gen.build_patch(spec["p"])
    dim = spec["dim"]
    before = Snap(patch)
    ax = patch.dims.index(dim)
    coord = patch.get_coord(dim)
    vals = np.asarray(coord.values)
    n = len(vals)
    kind = vals.dtype.kind
    dist = (vals - vals.min()).astype("m8[ns]").astype(np.int64).astype(object) if kind in "mM" else vals - vals.min()
    rev = bool(vals[0] > vals[-1])
    win = {} if spec["win"] is None else {"window_type": spec["win"]}
    wname = spec["win"] or "hann"
    env = np.ones(n)
    skip_last = False
    if spec["f"] == "taper":
        k1, k2 = spec["k"]
        if spec["form"] == "one":
            k2 = k1

        def limit(k, from_end):
            """A length holding k samples of this end (half way to the next)."""
            x = sorted(float(d) for d in dist)
            if from_end:
                x = [x[-1] - y for y in x[::-1]]
            half = (x[k - 1] + x[k]) / 2
            if spec["unit"] == "abs":
                if kind in "mM":
                    return np.timedelta64(int(half), "ns")
                if coord.units is not None:
                    q = half * get_quantity(coord.units)
                    return q.to("mm") if q.check("[length]") else q
            frac = half / x[-1]
            return frac * 100 * percent if spec["unit"] == "percent" else frac

        if kind in "mM" and max(dist) < 10**4:
            return  # a few nanoseconds: fractions cannot be represented
        v1, v2 = limit(k1, False), limit(k2, True)
        if spec["form"] == "one":
            if not coord.evenly_sampled:
                x1 = np.asarray([abs(float(d - dist[0])) for d in dist])
                lim = sorted(x1)[k1 - 1] + sorted(x1)[k1]
                k2 = int(np.sum(np.asarray([abs(float(d - dist[-1])) for d in dist]) <= lim / 2)) if not rev else None
                if rev or k1 + k2 > n:
                    return
            arg = v1
        else:
            arg = {"pair": (v1, v2), "left": (v1, None), "right": (None, v2)}[spec["form"]]
            arg = list(arg) if spec["seq"] == "list" else arg
            if rev:
                return
        if spec["form"] in ("one", "pair", "left"):
            env[:k1] *= window(wname, 2 * k1)[:k1]
        if spec["form"] in ("one", "pair", "right"):
            env[n - k2:] *= window(wname, 2 * k2)[k2:]
        what = f"taper({dim}={arg}, {win}) of {patch.dims}"
        out = patch.taper(**win, **{dim: arg})
    else:
        c = spec["cut"]
        form = spec["form2"]
        num = {"two": 2, "four": 4, "eight": 8}.get(form, 4)
        if num == 2:
            cuts = [c[2], c[5]]
        elif num == 8:
            cuts = c
            if c[3] == c[4]:
                return
        else:
            cuts = [c[0], c[2], c[5], c[7]]
        opts = dict(win)
        if spec["inv"] is not None:
            opts["invert"] = spec["inv"]

        def val(i):
            if spec["val"] == "samples":
                return int(i)
            if spec["val"] == "abs":
                return vals[i]
            if kind in "mM":
                d = np.timedelta64(int(dist[i]), "ns")
                dn = np.timedelta64(int(dist[i] - max(dist)), "ns")
            else:
                d, dn = dist[i], dist[i] - max(dist)
            if spec["val"] == "neg":
                return dn if dn != 0 * dn else d
            if spec["val"] == "quantity" and coord.units is not None and kind not in "mM":
                return d * get_quantity(coord.units)
            return d

        if spec["val"] == "samples":
            opts["samples"] = True
        elif spec["val"] != "abs":
            opts["relative"] = True
            if rev or kind == "f":
                return  # rounding of relative floats may pass the label
        v = [val(i) for i in cuts]
        sets = [cuts] if num < 8 else [cuts[:4], cuts[4:]]
        if form in ("none", "dots"):
            h = None if form == "none" else ...
            v = [v[0], v[1], h, h]
            sets = [[cuts[0], cuts[1], n - 1, n - 1]]
            skip_last = True
        mk = list if spec["seq"] == "list" else tuple
        arg = mk(v) if num < 8 else mk([mk(v[:4]), mk(v[4:])])
        if num == 2:
            sets = [[0, *cuts, n]]
        env = np.zeros(n)
        for i1, i2, i3, i4 in sets:
            up, dn = window(wname, 2 * (i2 - i1) + 1)[: i2 - i1], window(wname, 2 * (i4 - i3) + 1)[: i4 - i3][::-1]
            if not coord.evenly_sampled:
                x = np.abs(np.asarray([float(d - dist[0]) for d in dist]))
                if i2 - i1 > 1:
                    up = np.interp(x[i1:i2], np.linspace(x[i1], x[i2 - 1], i2 - i1), up)
                if i4 - i3 > 1:
                    dn = np.interp(x[i3:i4], np.linspace(x[i3], x[i4 - 1], i4 - i3), dn)
            env[i1:i2] += up
            env[i2:i3] += 1
            env[i3:i4] += dn
        if opts.get("invert"):
            env = 1 - env
        what = f"taper_range({dim}={arg}, {opts}) of {patch.dims}, cuts {sets} of {n}, {'even' if coord.evenly_sampled else 'uneven'}{' reversed' if rev else ''}"
        try:
            out = patch.taper_range(**opts, **{dim: arg})
        except CoordError:
            require(rev, f"{what}: refused")  # documented: reversed axes are not supported
            return
    shape = [1] * patch.ndim
    shape[ax] = -1
    want = before.data * env.reshape(shape)
    got = np.asarray(out.data)
    if skip_last:
        got, want = (np.take(a, range(n - 1), axis=ax) for a in (got, want))
    check_values(got.astype(want.dtype), want, f"{what}: data", atol=1e-9 * float(np.abs(before.data).max()) if before.dtype != np.float32 else 1e-5)
    check_coherent(out, what)
    meta_unchanged(before, Snap(out), what)
    check_same_snap(before, Snap(patch), f"{what}: the original")
    ctx.label(spec["f"], wname, "uneven" if not coord.evenly_sampled else "even", "reversed" if rev else "forward", str(before.dtype))
    ctx.nontrivial(n > 2)


# ---------------------------------------------------------------- mutes
@st.composite
def mute_case(draw):
    f = draw(S("one", "one", "two", "two", "two", "slope", "slope"))
    ps = gen.draw_patch(draw, min_n=2, max_n=3, min_dims=1 if f == "one" else 2, max_dims=3, kinds=("even",), data=("float", "uniq", "int", "f4"))
    dims = list(draw(PERM(*[d[0] for d in ps["dims"]])))[: 1 if f == "one" else 2]
    for d in ps["dims"]:
        if d[0] in dims:
            d[1]["n"] = draw(I(4, 12))
    num = st.integers(-4, 60)
    return {"p": ps, "dims": dims, "f": f, "rel": draw(S(None, True, False)), "inv": draw(S(None, True, False)), "smooth": draw(S(None, None, None, "int", "float", "dict", "qty", "npint")), "sm": [draw(I(0, 3)), draw(I(0, 3))],
            "neg": draw(S(False, False, True)), "lim": [draw(num), draw(num)], "open": draw(S(None, None, 0, 1)), "fill": draw(S("none", "dots")),
            "kind": draw(S("lines", "lines", "lines", "implicit0", "implicit1", "implicit01", "parallel")), "pts": [[draw(num), draw(num)] for _ in range(4)], "slope": [draw(S(0, 1, 2, 3, 5, 9, "inf")), draw(S(0, 1, 2, 3, 5, 9, "inf"))],
            "tdval": draw(S("num", "native"))}


def units_of(patch, dim):
    """(floats relative to the minimum in samples, step as float)."""
    v = np.asarray(patch.get_array(dim))
    step = abs((v[1] - v[0]))
    x = (v - v.min())
    if v.dtype.kind in "mM":
        return x.astype("m8[ns]").astype(np.int64) / step.astype("m8[ns]").astype(np.int64), step.astype("m8[ns]").astype(np.int64) / 1e9
    return x / step, float(step)


@facet("mute", mute_case(), quick=2500, weight=2)
def check_mute(spec, ctx):
    """line_mute and slope_mute silence exactly the samples between the limits or lines."""
    from scipy.ndimage import gaussian_filter1d

    from dascore.units import get_quantity

    patch, model = gen.build_patch(spec["p"])
    before = Snap(patch)
    dims, f = spec["dims"], spec["f"]
    axes = [patch.dims.index(d) for d in dims]
    xs, steps = zip(*[units_of(patch, d) for d in dims])
    coords = [patch.get_coord(d) for d in dims]
    rel = True if spec["rel"] is None else spec["rel"]
    opts = {}
    if spec["rel"] is not None and f != "slope":
        opts["relative"] = spec["rel"]
    if spec["inv"] is not None:
        opts["invert"] = spec["inv"]

    def label(i, q):
        """The label q quarter-samples from the minimum of the i-th dimension."""
        v = np.asarray(coords[i].values)
        n = len(v)
        if rel:
            q = max(q, 0)
            if spec["neg"] and q < 4 * (n - 1):
                q = q - 4 * (n - 1)
            elif q < 0:
                q = 0
            if v.dtype.kind in "mM" and spec["tdval"] == "native":
                ns = int(abs((v[1] - v[0]).astype("m8[ns]").astype(np.int64)))
                return np.timedelta64(q * ns // 4, "ns")
            return q * steps[i] / 4
        if v.dtype.kind in "mM":
            ns = int(abs((v[1] - v[0]).astype("m8[ns]").astype(np.int64)))
            return v.min() + np.timedelta64(q * ns // 4, "ns")
        return float(v.min()) + q * steps[i] / 4

    def place(i, q):
        """The position of label(i, q) in samples from the minimum."""
        return max(q, 0) / 4 if rel else q / 4

    tiny = any(np.asarray(c.values).dtype.kind in "mM" and s < 1e-5 for c, s in zip(coords, steps))
    if tiny:
        return
    if not rel and f == "two" and any(np.asarray(c.values).dtype.kind == "M" for c in coords):
        pass
    if f == "one":
        a, b = sorted(spec["lim"])
        lims = [label(0, a), label(0, b)]
        x = xs[0]
        lo, hi = place(0, a), place(0, b)
        if spec["open"] is not None:
            lims[spec["open"]] = None if spec["fill"] == "none" else ...
            lo, hi = (-np.inf, hi) if spec["open"] == 0 else (lo, np.inf)
        if hi < 0 or lo > x.max():
            return  # outside of the coordinate
        fuzzy = (np.abs(x - lo) < 1e-3) | (np.abs(x - hi) < 1e-3)
        inside = (x >= lo) & (x <= hi)
        kwargs = {dims[0]: tuple(lims)}
        call = lambda **o: patch.line_mute(**kwargs, **opts, **o)  # noqa: E731
        shp = [1] * patch.ndim
        shp[axes[0]] = -1
        inside, fuzzy = inside.reshape(shp), fuzzy.reshape(shp)
    else:
        shp0, shp1 = [1] * patch.ndim, [1] * patch.ndim
        shp0[axes[0]], shp1[axes[1]] = -1, -1
        if f == "two":
            P = np.array([[place(0, p[0]), place(1, p[1])] for p in spec["pts"]])
            lab = [[label(0, p[0]) for p in spec["pts"]], [label(1, p[1]) for p in spec["pts"]]]
            kind = spec["kind"]
            none = None if spec["fill"] == "none" else ...
            arg0 = [[lab[0][0], lab[0][1]], [lab[0][2], lab[0][3]]]
            arg1 = [[lab[1][0], lab[1][1]], [lab[1][2], lab[1][3]]]
            flip = None
            if kind == "parallel":
                # second line: the first one moved
                if not rel:
                    return
                d = abs(spec["pts"][2][0]) % 20 + 1
                if min(min(p) for p in spec["pts"][:2]) < 0 or spec["neg"]:
                    return
                pts = [spec["pts"][0], spec["pts"][1], [spec["pts"][0][0] + d, spec["pts"][0][1]], [spec["pts"][1][0] + d, spec["pts"][1][1]]]
                P = np.array([[place(0, p[0]), place(1, p[1])] for p in pts])
                arg0 = [[label(0, pts[0][0]), label(0, pts[1][0])], [label(0, pts[2][0]), label(0, pts[3][0])]]
                arg1 = [[label(1, pts[0][1]), label(1, pts[1][1])], [label(1, pts[2][1]), label(1, pts[3][1])]]
            elif kind in ("implicit0", "implicit1"):
                # one of the two lines is an axis-parallel line
                j = 0 if kind == "implicit0" else 1
                other = 2 * j
                P[other + 1, 0] = P[other, 0]
                P[other] = [P[other, 0], 0]
                P[other + 1] = [P[other, 0], 1]
                arg0[j], arg1[j] = lab[0][other], none
                flip = j
            elif kind == "implicit01":
                P = np.array([[P[0, 0], 0], [P[0, 0], 1], [P[2, 0], 0], [P[2, 0], 1]], dtype=float)
                arg0, arg1 = [lab[0][0], lab[0][2]], [none, none]
                flip = 1
            v1, v2 = P[1] - P[0], P[3] - P[2]
            ext = np.array([x.max() + 1 for x in xs])  # coord_range includes a step
            n1, n2 = np.linalg.norm(v1 / ext), np.linalg.norm(v2 / ext)
            if min(n1, n2) < 1e-3:
                return
            dot = (v1 / ext) @ (v2 / ext) / n1 / n2
            par = 1 - abs(dot) < 1e-8
            if abs(dot) < 1e-6 or (not par and 1 - abs(dot) < 1e-4):
                return
            if dot < 0 and not par:
                if flip is None:
                    return
                if flip == 0:
                    v1 = -v1
                else:
                    v2 = -v2
            kwargs = {dims[0]: tuple(arg0), dims[1]: tuple(arg1)}
            call = lambda **o: patch.line_mute(**kwargs, **opts, **o)  # noqa: E731
            o1, o2 = P[0], P[2]
            X, Y = np.broadcast_arrays(xs[0].reshape(shp0), xs[1].reshape(shp1))
        else:
            kwargs = {}
            sl = [np.inf if s == "inf" else s * steps[0] / steps[1] / 2.1 for s in spec["slope"]]
            if spec["slope"][0] == spec["slope"][1]:
                return
            # distance from the first samples
            X, Y = np.broadcast_arrays(np.arange(len(xs[0])).reshape(shp0) * 1.0, np.arange(len(xs[1])).reshape(shp1) * 1.0)
            v1, v2 = (np.array([0.0, 1.0]) if s == 0 else np.array([1.0, 0.0]) if s == "inf" else np.array([s / 2.1, 1.0]) for s in spec["slope"])
            o1 = o2 = np.zeros(2)
            par = False
            ext = np.array([x.max() + 1 for x in xs])  # coord_range includes a step
            dot = (v1 / ext) @ (v2 / ext) / np.linalg.norm(v1 / ext) / np.linalg.norm(v2 / ext)
            if any(0 < s < 1e-7 for s in sl):
                return
            if 1 - abs(dot) < 1e-4 or any(np.asarray(c.values).dtype.kind == "M" and s < 1e-2 for c, s in zip(coords, steps)):
                return
            call = lambda **o: patch.slope_mute(tuple(sl), dims=tuple(dims), **opts, **o)  # noqa: E731
        c1 = v1[0] * (Y - o1[1]) - v1[1] * (X - o1[0])
        c2 = v2[0] * (Y - o2[1]) - v2[1] * (X - o2[0])
        if par:
            if (v1 / ext) @ (v2 / ext) < 0:
                c2 = -c2
            inside = c1 * c2 < 0
        else:
            # origin + a v1 + b v2 with positive a and b
            M = np.stack([v1, v2], axis=1)
            o = o1 if f == "slope" else o1 + v1 * np.linalg.solve(np.stack([v1, -v2], axis=1), o2 - o1)[0]
            ab = np.tensordot(np.linalg.inv(M), np.stack([X - o[0], Y - o[1]]), axes=([1], [0]))
            inside = (ab[0] > 0) & (ab[1] > 0)
        fuzzy = (np.abs(c1) < 1e-3 * np.linalg.norm(v1)) | (np.abs(c2) < 1e-3 * np.linalg.norm(v2))
        if abs(dot) < 1e-6 and f == "slope":
            pass
    what = f"{'slope_mute' if f == 'slope' else 'line_mute'}({kwargs or sl}, {opts}, dims {dims}) of {patch.dims}"
    out = call()
    check_coherent(out, what)
    env = np.where(inside, 0.0, 1.0)
    if spec["inv"]:
        env = 1 - env
    got = np.asarray(out.data)
    env_b, fz = np.broadcast_to(env, got.shape), np.broadcast_to(fuzzy, got.shape)
    want = before.data * env_b
    check_values(np.where(fz, 0, got), np.where(fz, 0, want), f"{what}: data")
    meta_unchanged(before, Snap(out), what)
    sm = spec["smooth"]
    if sm and not (fuzzy.any()):
        s = [0.0] * len(dims)
        if sm == "int" or sm == "npint":
            val = spec["sm"][0] if sm == "int" else np.int64(spec["sm"][0])
            s = [spec["sm"][0]] * len(dims)
        elif sm == "float":
            val = spec["sm"][0] / 10
            s = [int(np.round(len(x) * val)) for x in xs]
        elif sm == "dict":
            val = {d: k for d, k in zip(dims, spec["sm"])}
            s = spec["sm"][: len(dims)]
        else:
            if len(dims) > 1 or coords[0].units is None:
                val = None
            else:
                val = (spec["sm"][0] + 0.6) * steps[0] * get_quantity(coords[0].units)
                s = [spec["sm"][0] + 1]
                if s[0] >= len(xs[0]):
                    val = None
        if val is not None:
            smooth = env
            for a, k in zip(axes, s):
                if k:
                    smooth = gaussian_filter1d(smooth, k, axis=a)
            out = call(smooth=val)
            check_values(np.asarray(out.data).astype(float), (before.data * smooth).astype(float), f"{what} smooth={val}: data", atol=1e-6 * float(np.abs(before.data).max()))
            ctx.label("smoothed")
    check_same_snap(before, Snap(patch), f"{what}: the original")
    ctx.label(f, spec["kind"] if f == "two" else "", "kwargs order" if f == "two" and axes[0] > axes[1] else "")
    ctx.nontrivial(bool(inside.any() and not inside.all()))


FACETS = [check_missing, check_pad, check_scale, check_taper, check_mute]
