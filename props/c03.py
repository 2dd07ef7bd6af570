"""C03: selection keeps exactly the samples whose labels match."""
from __future__ import annotations

import numpy as np
from hypothesis import strategies as st

from vlib import gen
from vlib.cmp import Snap, check_patch_model, check_same_snap, require
from vlib.core import facet
from vlib.gen import I, S

RULE = ("A case is a patch (1-3 dims, each coordinate even/uneven/unsorted/reversed of datetime, timedelta, float or int type, "
        "up to 3 extra coordinates) plus a query on one or more coordinates; non-trivial = the oracle keeps some but not all samples "
        "along at least one queried dimension.")
ASSUMPTIONS = [
    "Bounds are inclusive at both ends (documented behaviour of select).",
    "Float bounds are either exactly a label or at least 1e-7 sample away from one, so the code's documented float fudge factor is never decisive.",
]
KINDS = ("even", "mono", "arr", "dup", "dupmono")


def _bound(draw):
    """Half-integer positions, or None/ellipsis for open."""
    return draw(S(None, "e")) if draw(I(0, 5)) == 0 else draw(I(-50, 170))


def bound_strat(draw, cs):
    r = draw(I(0, 7))
    if r == 0:
        return draw(S(None, "e"))
    ints = gen.coord_ints(cs)
    j = draw(I(0, max(len(ints) - 1, 0)))
    off = draw(S(0, 0, 1, -1, -3, 3, -7, 7, 60, -60))
    return int(2 * ints[j] + off)


def mk_value(cs, b, as_array=False):
    """Value of a half-integer position in the coordinate's own type."""
    if b is None:
        return None
    if b == "e":
        return ...
    t = cs["t"]
    if t == "i":
        v = b * cs["scale"] / 2
        return int(v) if float(v).is_integer() else v
    if t == "f":
        return float(b / 2 * cs["scale"]) if b % 2 else float((b // 2) * cs["scale"])
    return gen.ints_to_values(cs, np.array([b / 2]))[0]


def keep_mask(cs, lo, hi, vals):
    """Which labels lie in [lo, hi] given half-integer bounds."""
    if cs["t"] in ("f", "i"):
        x2 = 2 * gen.coord_ints(cs)
        lo_, hi_ = (None if b in (None, "e") else b for b in (lo, hi))
    else:
        x2 = vals
        lo_, hi_ = (None if b in (None, "e") else mk_value(cs, b) for b in (lo, hi))
    if lo_ is not None and hi_ is not None and hi_ < lo_:
        lo_, hi_ = hi_, lo_
    m = np.ones(len(vals), bool)
    if lo_ is not None:
        m &= x2 >= lo_
    if hi_ is not None:
        m &= x2 <= hi_
    return m


@st.composite
def range_case(draw):
    ps = gen.draw_patch(draw, kinds=KINDS, max_n=7)
    nq = draw(S(1, 1, 2, 3))
    qs = []
    for nm, cs in ps["dims"][:nq]:
        qs.append([nm, bound_strat(draw, cs), bound_strat(draw, cs)])
    return {"p": ps, "q": qs, "form": draw(S("tuple", "tuple", "slice", "list")), "copy": draw(S(False, False, True))}


@facet("range", range_case(), quick=5000, weight=3)
def check_range(spec, ctx):
    """Absolute ranges on dimensions (open, reversed, on/between/outside labels)."""
    patch, model = gen.build_patch(spec["p"])
    before = Snap(patch)
    exp = model
    kw = {}
    css = dict(spec["p"]["dims"])
    for nm, lo, hi in spec["q"]:
        cs = css[nm]
        m = keep_mask(cs, lo, hi, model.coords[nm][1])
        exp = exp.take(nm, np.flatnonzero(m))
        a, b = mk_value(cs, lo), mk_value(cs, hi)
        kw[nm] = slice(None if a is ... else a, None if b is ... else b) if spec["form"] == "slice" else ([a, b] if spec["form"] == "list" else (a, b))
        ctx.nontrivial(0 < m.sum() < len(m))
        ctx.label(f"{cs['t']}/{cs['k']}{'/rev' if cs.get('rev') else ''}", "empty" if not m.any() else "full" if m.all() else "part")
    out = patch.select(copy=spec["copy"], **kw)
    check_patch_model(out, exp, f"select({kw})")
    check_same_snap(before, Snap(patch), "input of select")


@st.composite
def rel_case(draw):
    ps = gen.draw_patch(draw, kinds=("even", "mono", "arr", "dup"), max_n=7, max_dims=2)
    nm, cs = ps["dims"][0]
    span = int(gen.coord_ints(cs).max() - gen.coord_ints(cs).min())

    def b():
        if draw(I(0, 5)) == 0:
            return draw(S(None, "e"))
        return draw(I(-2 * span - 5, 2 * span + 5))

    return {"p": ps, "lo": b(), "hi": b(), "as": draw(S("num", "native", "quant"))}


def rel_value(cs, b, how):
    if b in (None, "e"):
        return None if b is None else ...
    t = cs["t"]
    if t in ("f", "i"):
        v = b / 2 * cs["scale"]
        if how == "quant" and cs.get("u"):
            from dascore.units import get_quantity

            return v * get_quantity(cs["u"])
        return v
    ns = int(round(b / 2 * cs["scale"]))
    if how == "native":
        return np.timedelta64(ns, "ns")
    if how == "quant":
        from dascore.units import get_quantity

        return ns / 1e9 * get_quantity("s")
    return ns / 1e9


@facet("relative", rel_case(), quick=2500)
def check_relative(spec, ctx):
    """relative=True offsets from start (>=0) or end (<0), as numbers, timedeltas, quantities."""
    patch, model = gen.build_patch(spec["p"])
    nm, cs = spec["p"]["dims"][0]
    ints2 = 2 * gen.coord_ints(cs)
    vals = model.coords[nm][1]
    lo, hi = spec["lo"], spec["hi"]

    def absolute(b):
        if b in (None, "e"):
            return None
        if cs["t"] in ("f", "i"):
            return (ints2.min() if b >= 0 else ints2.max()) + b
        d = np.timedelta64(int(round(b / 2 * cs["scale"])), "ns")
        return (vals.min() if d >= np.timedelta64(0, "ns") else vals.max()) + d

    lo_, hi_ = absolute(lo), absolute(hi)
    if lo_ is not None and hi_ is not None and hi_ < lo_:
        lo_, hi_ = hi_, lo_
    x = ints2 if cs["t"] in ("f", "i") else vals
    m = np.ones(len(x), bool)
    if lo_ is not None:
        m &= x >= lo_
    if hi_ is not None:
        m &= x <= hi_
    kw = {nm: (rel_value(cs, lo, spec["as"]), rel_value(cs, hi, spec["as"]))}
    if cs["t"] == "f" and cs["k"] not in ("even",):
        # labels of uneven float coordinates are compared exactly; keep off labels by rounding
        atol = 1e-9 * cs["scale"]
        for b in (lo_, hi_):
            if b is not None and np.any(np.abs(x - b) < 1e-6):
                ctx.label("skip-float-on-label")
                return
    out = patch.select(relative=True, **kw)
    check_patch_model(out, model.take(nm, np.flatnonzero(m)), f"select(relative, {kw})")
    ctx.nontrivial(0 < m.sum() < len(m))
    ctx.label(f"{cs['t']}/{cs['k']}/{spec['as']}", "empty" if not m.any() else "full" if m.all() else "part")


@st.composite
def samples_case(draw):
    ps = gen.draw_patch(draw, kinds=("even", "mono", "arr", "dup"), max_n=7, max_dims=3)
    nm, cs = ps["dims"][draw(I(0, len(ps["dims"]) - 1))]
    n = cs["n"]
    form = draw(S("tuple", "int", "array", "mask", "values", "slice"))
    if form in ("tuple", "slice"):
        a = draw(st.one_of(st.none(), I(-n, n + 2)))
        b = draw(st.one_of(st.none(), I(-n, n + 2)))
        q = [a, b]
    elif form == "int":
        q = draw(I(-n, n - 1))
    elif form == "array":
        q = draw(st.lists(I(0, n + 1), max_size=n + 2))
    elif form == "mask":
        q = draw(st.lists(st.booleans(), min_size=n, max_size=n))
    else:
        q = [draw(st.lists(I(0, n - 1), max_size=n + 1)), draw(st.booleans())]
    return {"p": ps, "dim": nm, "form": form, "q": q}


@facet("discrete", samples_case(), quick=3000, weight=2)
def check_discrete(spec, ctx):
    """sample numbers, sample ranges, sample arrays, boolean masks, arrays of values."""
    patch, model = gen.build_patch(spec["p"])
    nm, q, form = spec["dim"], spec["q"], spec["form"]
    cs = dict(spec["p"]["dims"])[nm]
    n = cs["n"]
    if form in ("tuple", "slice"):
        keep = list(range(n))[slice(q[0], q[1])]
        arg = tuple(q) if form == "tuple" else slice(*q)
        out = patch.select(samples=True, **{nm: arg})
    elif form == "int":
        keep = [q % n]
        arg = q
        out = patch.select(samples=True, **{nm: q})
    elif form == "array":
        keep = [i for i in range(n) if i in q]
        arg = np.array(q, dtype=int)
        out = patch.select(samples=True, **{nm: arg})
    elif form == "mask":
        keep = [i for i in range(n) if q[i]]
        arg = np.array(q, dtype=bool)
        out = patch.select(**{nm: arg})
    else:
        own = np.asarray(patch.get_array(nm))
        arg = own[np.array(q[0], dtype=int)]
        if q[1] and cs["t"] in ("f", "i") and len(arg):  # plus values that are not labels
            arg = np.concatenate([arg, own.max() + np.array([1000.0, 2000.0])]).astype(own.dtype)
        keep = [i for i in range(n) if own[i] in set(arg.tolist())] if own.dtype.kind not in "mM" else [i for i in range(n) if own[i].astype(np.int64) in set(arg.astype(np.int64).tolist())]
        out = patch.select(**{nm: arg})
    check_patch_model(out, model.take(nm, keep), f"select({form} {nm}={arg})")
    ctx.nontrivial(0 < len(keep) < n)
    ctx.label(form, f"{cs['t']}/{cs['k']}", "empty" if not keep else "full" if len(keep) == n else "part")


@st.composite
def nondim_case(draw):
    ps = gen.draw_patch(draw, kinds=("even", "mono", "arr"), max_n=7, max_dims=3, extra=False)
    k = draw(I(1, 3))
    names = [n for n, _ in ps["dims"]]
    size = {n: c["n"] for n, c in ps["dims"]}
    qs = []
    for j in range(k):
        d = draw(S(*names))  # several coordinates may share a dimension
        t = draw(S("f", "i", "dt", "td"))
        e = {"name": f"x{j}", "dims": [d], "t": t, "u": "s" if t in ("dt", "td") else draw(S("m", None)), "scale": draw(S(*gen.SCALES[t])),
             "epoch": draw(S(*gen.EPOCH_CHOICES)) if t == "dt" else 0, "seed": draw(I(0, 99)), "mode": draw(S("uniq", "sorted", "dup")), "n": 0}
        ps["extra"].append(e)
        n = size[d]
        qs.append([e["name"], draw(I(-2, 2 * n + 6)), draw(st.one_of(st.none(), I(-2, 4 * n + 6)))])
    # a bystander 2d coord and a free coord
    if len(names) > 1 and draw(st.booleans()):
        ps["extra"].append({"name": "two", "dims": list(draw(gen.PERM(*names)))[:2], "t": "f", "u": "m", "scale": 0.5, "epoch": 0, "seed": draw(I(0, 99)), "mode": "uniq", "n": 0})
    if draw(st.booleans()):
        ps["extra"].append({"name": "free", "dims": [], "t": "f", "u": None, "scale": 0.5, "epoch": 0, "seed": 1, "mode": "uniq", "n": 3})
    dimq = [[d, draw(I(0, size[d] - 1)), draw(I(0, size[d] - 1))] for d in names if draw(S(False, False, True))]
    return {"p": ps, "q": qs, "dq": dimq, "order": draw(I(0, 5))}


@facet("attached", nondim_case(), quick=3000)
def check_attached(spec, ctx):
    """ranges on coordinates attached to a dimension select along that dimension."""
    patch, model = gen.build_patch(spec["p"])
    ex = {e["name"]: e for e in spec["p"]["extra"]}
    kw, exp = {}, model
    masks = {d: np.ones(n, bool) for d, n in zip(model.dims, model.data.shape)}
    for d, i, j in spec.get("dq", ()):
        vals = model.coords[d][1]
        a, b = sorted([vals[i], vals[j]])
        x = gen.coord_ints(dict(spec["p"]["dims"])[d])
        masks[d] &= (x >= min(x[i], x[j])) & (x <= max(x[i], x[j]))
        kw[d] = (a, b)
    for nm, lo, hi in spec["q"]:
        e = ex[nm]
        vals = model.coords[nm][1]
        bounds = []
        for b in (lo, hi):
            if b is None:
                bounds.append(None)
                continue
            v = gen.ints_to_values(e, np.array([b / 2])) if e["t"] != "i" else np.array([b * e["scale"] / 2])
            v = v[0]
            if e["t"] == "f" and b % 2 == 0:
                v = float((b // 2) * e["scale"])
            bounds.append(v)
        a, b = bounds
        if a is not None and b is not None and b < a:
            a, b = b, a
        if e["t"] == "f":
            # exact labels: the representation may round, so decide in integer space
            x = np.round(vals / e["scale"] * 2)
            la, lb = (None if v is None else np.round(v / e["scale"] * 2) for v in (a, b))
        else:
            x, la, lb = vals, a, b
        m = np.ones(len(vals), bool)
        if la is not None:
            m &= x >= la
        if lb is not None:
            m &= x <= lb
        kw[nm] = tuple(bounds)
        masks[e["dims"][0]] &= m
        ctx.nontrivial(0 < m.sum() < len(m))
        ctx.label(e["t"] + "/" + e["mode"], "empty" if not m.any() else "full" if m.all() else "part")
    for d, m in masks.items():
        exp = exp.take(d, np.flatnonzero(m))
    ctx.label(f"{len(kw)} queries")
    keys = sorted(kw)
    rot = spec.get("order", 0) % len(keys)
    kw = {k: kw[k] for k in keys[rot:] + keys[:rot]}
    out = patch.select(**kw)
    check_patch_model(out, exp, f"select({kw})")


@st.composite
def unit_case(draw):
    mode = draw(S("units", "str", "percent", "chain"))
    if mode == "units":
        ps = gen.draw_patch(draw, dims=("distance", "time"), types={"distance": ("f",), "time": ("dt",)}, kinds=("even", "mono", "arr"), max_n=7)
        for nm, cs in ps["dims"]:
            if nm == "distance" and cs["u"] is None:
                cs["u"] = "m"
        nm = "distance"
    elif mode == "str":
        ps = gen.draw_patch(draw, dims=("distance", "time"), types={"distance": ("f",), "time": ("dt",)}, kinds=("even", "mono", "arr"), max_n=7)
        nm = "time"
    else:
        ps = gen.draw_patch(draw, dims=("distance", "time"), types={"distance": ("f",), "time": ("dt",)}, kinds=("even",), min_n=2, max_n=9)
        nm = draw(S("distance", "time"))
    cs = dict(ps["dims"])[nm]
    ints = gen.coord_ints(cs)
    lo = int(2 * ints[draw(I(0, len(ints) - 1))] + draw(S(-1, 1, 1, -1, 5, -5)))
    hi = int(2 * ints[draw(I(0, len(ints) - 1))] + draw(S(-1, 1, 1, -1, 5, -5)))
    return {"p": ps, "dim": nm, "mode": mode, "lo": lo, "hi": hi, "unit": draw(S("m", "ft", "km", "cm", "inch")),
            "open": draw(S("", "", "lo", "hi")), "pct": [draw(I(-99, 99)), draw(I(-99, 99))]}


_IN_M = {"m": 1.0, "ft": 0.3048, "km": 1000.0, "cm": 0.01, "inch": 0.0254}


@facet("physical", unit_case(), quick=2500)
def check_physical(spec, ctx):
    """bounds with units, as strings and in percent mean the same physical bounds; selecting twice = intersection."""
    from dascore.units import get_quantity

    patch, model = gen.build_patch(spec["p"])
    nm, mode = spec["dim"], spec["mode"]
    cs = dict(spec["p"]["dims"])[nm]
    lo, hi = spec["lo"], spec["hi"]
    vals = model.coords[nm][1]
    if mode == "units":
        lo, hi = min(lo, hi), max(lo, hi)
        m = keep_mask(cs, lo, hi, vals)
        f = _IN_M[cs["u"]] / _IN_M[spec["unit"]]
        q = get_quantity(spec["unit"])
        a, b = (lo / 2 * cs["scale"] * f) * q, (hi / 2 * cs["scale"] * f) * q
        if spec["open"] == "lo":
            a, m = None, keep_mask(cs, None, hi, vals)
        elif spec["open"] == "hi":
            b, m = ..., keep_mask(cs, lo, None, vals)
        out = patch.select(**{nm: (a, b)})
    elif mode == "str":
        a, b = mk_value(cs, lo), mk_value(cs, hi)
        m = keep_mask(cs, lo, hi, vals)
        out = patch.select(**{nm: (str(a), str(b))})
    elif mode == "percent":
        q = get_quantity("percent")
        p1, p2 = spec["pct"]
        n = len(vals)
        # position (in units of the span) of each label from the minimum
        ints = gen.coord_ints(cs)
        frac = (ints - ints.min()) / max(ints.max() - ints.min(), 1)
        b = [p / 100 if p >= 0 else 1 + p / 100 for p in (p1, p2)]
        tol = 1e-6
        if cs["t"] == "dt":  # stay clear of the nanosecond resolution limit
            tol = max(tol, 4 / max(float(ints.max() - ints.min()) * cs["scale"], 1.0))
        if any(np.any(np.abs(frac - x) < tol) for x in b):
            ctx.label("skip-on-label")
            return
        m = (frac >= min(b)) & (frac <= max(b))
        out = patch.select(**{nm: (p1 * q, p2 * q)})
    else:
        m1, m2 = keep_mask(cs, lo, None, vals), keep_mask(cs, None, hi, vals)
        m = m1 & m2
        out = patch.select(**{nm: (mk_value(cs, lo), None)}).select(**{nm: (None, mk_value(cs, hi))}) if m1.any() else None
        if out is None:
            return
    check_patch_model(out, model.take(nm, np.flatnonzero(m)), f"select by {mode} on {nm}: {spec['lo']},{spec['hi']} half-steps")
    ctx.nontrivial(0 < m.sum() < len(m))
    ctx.label(mode, "empty" if not m.any() else "full" if m.all() else "part")


@st.composite
def bad_case(draw):
    return {"p": gen.draw_patch(draw, max_dims=2), "how": draw(S("name", "len3", "step", "floatsample", "samples_rel"))}


@facet("invalid", bad_case(), quick=150)
def check_invalid(spec, ctx):
    """invalid queries are refused, not silently applied."""
    patch, _ = gen.build_patch(spec["p"])
    nm = patch.dims[0]
    how = spec["how"]
    try:
        if how == "name":
            out = patch.select(nothere=(1, 2))
        elif how == "len3":
            v = patch.get_array(nm)[0]
            out = patch.select(**{nm: (v, v, v)})
        elif how == "step":
            v = patch.get_array(nm)[0]
            out = patch.select(**{nm: slice(v, v, 2)})
        elif how == "floatsample":
            out = patch.select(samples=True, **{nm: (0.5, 2.5)})
        else:
            out = patch.select(samples=True, **{nm: np.array([0.5, 1.5])})
    except Exception:  # noqa: BLE001
        ctx.nontrivial()
        ctx.label(how)
        return
    require(False, f"invalid query {how} was accepted and returned {out.shape}")

# ---------------------------------------------------------------- bounds a hair away from a label
@st.composite
def near_case(draw):
    ps = gen.draw_patch(draw, kinds=("even", "even", "mono", "arr"), max_n=8, max_dims=2, min_n=2)
    n = ps["dims"][0][1]["n"]
    fr = S(1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7, -1e-2, -1e-3, -1e-4, -1e-5, -1e-6, -1e-7, 0.0)
    return {"p": ps, "j": [draw(I(0, n - 1)), draw(I(0, n - 1))], "f": [draw(fr), draw(fr)], "form": draw(S("both", "lo", "hi")), "rel": draw(st.booleans())}


@facet("near", near_case(), quick=2000)
def check_near(spec, ctx):
    """A bound slightly beside a label includes or excludes exactly that label."""
    patch, model = gen.build_patch(spec["p"])
    nm, cs = spec["p"]["dims"][0]
    ints = gen.coord_ints(cs)
    vals = model.coords[nm][1]
    bounds, cmp_to = [], []
    for j, f in zip(spec["j"], spec["f"]):
        if cs["t"] in ("dt", "td"):
            ns = int(np.sign(f)) * max(1, int(abs(f) * cs["scale"])) if f else 0
            v = vals[j] + np.timedelta64(ns, "ns")
            cmp_to.append(v)
            if spec["rel"]:
                v = v - vals.min()
        else:
            v = float(vals[j] + f * cs["scale"])
            cmp_to.append(ints[j] + f)
            if spec["rel"]:
                v = v - float(vals.min())
                if f < 0 and v < 0 or abs(f) < 1e-6:
                    return
        if spec["rel"] and (v < np.timedelta64(0, "ns") if cs["t"] in ("dt", "td") else v < 0):
            return  # a negative offset counts from the end
        bounds.append(v)
    if cmp_to[0] > cmp_to[1]:
        bounds, cmp_to = bounds[::-1], cmp_to[::-1]
    x = vals if cs["t"] in ("dt", "td") else ints
    m = np.ones(len(x), bool)
    if spec["form"] != "hi":
        m &= x >= cmp_to[0]
    if spec["form"] != "lo":
        m &= x <= cmp_to[1]
    q = (bounds[0] if spec["form"] != "hi" else None, bounds[1] if spec["form"] != "lo" else None)
    exp = model.take(nm, np.flatnonzero(m))
    out = patch.select(**{nm: q}, relative=spec["rel"])
    check_patch_model(out, exp, f"select({nm}={q}, relative={spec['rel']})")
    ctx.label(f"{cs['t']}/{cs['k']}", "relative" if spec["rel"] else "absolute")
    ctx.nontrivial(0 < m.sum() < len(m) and any(spec["f"]))


FACETS = [check_near, check_range, check_relative, check_discrete, check_attached, check_physical, check_invalid]
