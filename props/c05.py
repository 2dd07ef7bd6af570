"""C05: a coordinate is exactly the sequence of values it was built from."""
from __future__ import annotations

import numpy as np
from hypothesis import strategies as st

from vlib import gen
from vlib.cmp import check_coord_summary, check_coord_values, check_units, check_values, coord_tol, fail, require, values_equal
from vlib.core import facet
from vlib.gen import L, I, S

RULE = ("A case is a coordinate (datetime/timedelta/float/int values; evenly sampled through an array or start/step/length, uneven "
        "monotonic, unsorted, duplicated, reversed; length 1-12, tiny to large magnitudes) and an operation with generated arguments; "
        "non-trivial = at least two values and an operation that is not the identity.")
ASSUMPTIONS = ["Samples whose spacing varies by less than 0.1 % are documented in code as 'evenly sampled' and may be snapped; generated "
               "uneven spacings differ by at least 20 %.",
               "Float values of evenly sampled coordinates are recomputed and compared to 1e-9 relative."]
KINDS = ("even", "even", "mono", "arr", "dup", "dupmono")


def cspec(draw, kinds=KINDS, types=("dt", "td", "f", "i"), max_n=12, min_n=1, **kw):
    cs = gen.draw_coord(draw, kinds=kinds, types=types, min_n=min_n, max_n=max_n, **kw)
    if cs["t"] == "f" and draw(I(0, 4)) == 0:
        cs["scale"] = draw(S(1e-9, 1e-6, 1e6))
        cs["u"] = draw(S("m", None)) if cs["u"] is not None else None
    return cs


def built(spec):
    return gen.build_coord(spec), gen.coord_values(spec)


@st.composite
def build_case(draw):
    return {"c": cspec(draw)}


@facet("build", build_case(), quick=3000)
def check_build(spec, ctx):
    """values, length, limits, step, sortedness, equality across representations."""
    from dascore.core import get_coord

    cs = spec["c"]
    c, vals = built(cs)
    n = len(vals)
    check_coord_values(c.values, vals, "values")
    check_values(np.asarray(c), np.asarray(c.values), "np.asarray")
    check_coord_summary(c, c.to_summary(), "summary")
    require(len(c) == n and c.size == n and c.ndim == 1 and tuple(c.shape) == (n,), f"len/size/ndim/shape {len(c), c.size, c.ndim, c.shape} for {n} values")
    require(np.dtype(c.dtype) == vals.dtype, f"dtype {c.dtype} expected {vals.dtype}")
    check_units(c.units, cs["u"], "units")
    lo, hi = c.limits
    tol = coord_tol(vals)
    require(values_equal(np.asarray(lo), vals.min(), atol=tol) and values_equal(np.asarray(hi), vals.max(), atol=tol), f"limits {lo} {hi}, values {vals}")
    ints = gen.coord_ints(cs)
    d = np.diff(ints)
    if n > 1:
        even = len(set(d.tolist())) == 1 and d[0] != 0
        require(bool(c.evenly_sampled) == even, f"evenly_sampled={c.evenly_sampled} for {vals}")
        if even:
            step = gen.ints_to_values({**cs, "t": "td" if cs["t"] == "dt" else cs["t"]}, d[:1])[0]
            require(values_equal(np.asarray(c.step), np.asarray(step), atol=abs(step) * 1e-6 if cs["t"] == "f" else 0), f"step {c.step} expected {step}")
        if (d > 0).all():
            require(c.sorted and not c.reverse_sorted, f"sorted={c.sorted} reverse={c.reverse_sorted} for increasing")
        elif (d < 0).all():
            require(c.reverse_sorted and not c.sorted, f"sorted={c.sorted} reverse={c.reverse_sorted} for decreasing")
        elif (d < 0).any() and (d > 0).any():
            require(not c.sorted and not c.reverse_sorted, f"sorted={c.sorted} reverse={c.reverse_sorted} for unsorted")
    # rebuilt from its values: equal, both ways, and through a dict of itself
    again = get_coord(data=vals.copy(), units=cs["u"])
    if n > 1 or cs["k"] != "even":
        require(cs["t"] == "f" or (c == again and again == c), lambda: f"coordinate built from the same values is not equal: {c!r} vs {again!r}")
        require(c.approx_equal(again), "approx_equal with itself rebuilt")
    require(c == c.new(), "c.new() differs")
    # different values must not compare equal
    if n > 1:
        other = vals.copy()
        other[n // 2] = other[n // 2] + (np.timedelta64(max(cs["scale"], 1), "ns") if cs["t"] in ("dt", "td") else cs["scale"])
        c2 = get_coord(data=other, units=cs["u"])
        if cs["t"] != "f" or cs["scale"] > 1e-3:
            require(not (c == c2), lambda: f"coordinates with different values compare equal: {vals} {other}")
        require(not (c == c[:-1]), "coordinate equals a shorter one")
    require(c.data is not None and values_equal(c.data, c.values), "data vs values")
    if c.evenly_sampled and n > 1:
        back = c.to_summary().to_coord()
        check_coord_values(back.values, vals, "summary.to_coord()")
        rng = c.coord_range()
        want = (vals.max() - vals.min()) + abs(c.step)
        require(values_equal(np.asarray(rng), np.asarray(want), atol=4 * tol), f"coord_range {rng} expected {want}")
    rng = c.coord_range(extend=False)
    require(values_equal(np.asarray(rng), np.asarray(vals.max() - vals.min()), atol=4 * tol), f"coord_range(extend=False) {rng}")
    ctx.nontrivial(n > 1)
    ctx.label(f"{cs['t']}/{cs['k']}{'/rev' if cs.get('rev') else ''}", type(c).__name__)


@st.composite
def index_case(draw):
    cs = cspec(draw)
    n = cs["n"]
    form = draw(S("int", "slice", "slice", "array", "mask"))
    if form == "int":
        q = draw(I(-n, n - 1))
    elif form == "slice":
        o = st.one_of(st.none(), I(-n - 2, n + 2))
        q = [draw(o), draw(o), draw(S(None, None, 1, 2, 3, -1, -2))]
    elif form == "array":
        q = draw(st.lists(I(-n, n - 1), min_size=0, max_size=n + 2))
    else:
        q = draw(st.lists(st.booleans(), min_size=n, max_size=n))
    return {"c": cs, "form": form, "q": q}


@facet("index", index_case(), quick=3000)
def check_index(spec, ctx):
    """integer, slice (any stride), fancy and boolean indexing equal indexing the values."""
    c, vals = built(spec["c"])
    q = spec["q"]
    form = spec["form"]
    if form == "int":
        out = c[q]
        require(np.ndim(out) == 0, f"c[{q}] is not a scalar: {out!r}")
        require(values_equal(np.asarray(out), vals[q], atol=coord_tol(vals)), f"c[{q}] = {out!r} expected {vals[q]!r}")
        ctx.nontrivial(len(vals) > 1)
        ctx.label(form)
        return
    item = slice(*q) if form == "slice" else np.array(q, dtype=bool if form == "mask" else int)
    want = vals[item]
    out = c[item]
    require(tuple(out.shape) == want.shape, f"c[{item}] has shape {out.shape} expected {want.shape}")
    if want.size:
        check_coord_values(out.values, want, f"c[{item}]")
        check_coord_summary(out, out.to_summary(), f"c[{item}]")
    require(len(out) == len(want), "length")
    check_units(out.units, spec["c"]["u"], f"c[{item}]")
    ctx.nontrivial(0 < want.size and not (want.size == vals.size and values_equal(want, vals)))
    ctx.label(form, spec["c"]["k"])


@st.composite
def sort_case(draw):
    return {"c": cspec(draw), "rev": draw(st.booleans())}


@facet("sort", sort_case(), quick=2000)
def check_sort(spec, ctx):
    """sort(reverse) gives the sorted values and the indexer that produces them; snap keeps min, max, length."""
    c, vals = built(spec["c"])
    out, ind = c.sort(reverse=spec["rev"])
    want = np.sort(vals)
    if spec["rev"]:
        want = want[::-1]
    check_coord_values(out.values, want, f"sort(reverse={spec['rev']})")
    check_coord_values(vals[ind], want, "values[indexer]")
    check_units(out.units, spec["c"]["u"], "sort")
    if len(set(vals.tolist())) == len(vals):
        s = c.snap()
        n = len(vals)
        require(len(s) == n, f"snap changed the length {n} -> {len(s)}")
        check_units(s.units, spec["c"]["u"], "snap")
        if n > 1:
            require(s.evenly_sampled, "snap result is not evenly sampled")
            tol = coord_tol(vals)
            if spec["c"]["t"] in ("dt", "td"):
                # integer nanosecond step: end is exact up to rounding of the step
                err = abs((s.max() - vals.max()).astype(np.int64)) + abs((s.min() - vals.min()).astype(np.int64))
                require(err <= n, f"snap moved limits by {err} ns")
            elif spec["c"]["t"] == "f":
                require(abs(s.min() - vals.min()) <= tol * 10 and abs(s.max() - vals.max()) <= tol * 10, f"snap moved limits: {s.min()},{s.max()} from {vals.min()},{vals.max()}")
    ctx.nontrivial(len(vals) > 1 and not values_equal(want, vals))
    ctx.label(spec["c"]["k"])


@st.composite
def next_case(draw):
    cs = cspec(draw, kinds=("even", "mono"), allow_rev=False)
    ints = gen.coord_ints(cs)
    xs = draw(st.lists(I(2 * int(ints[0]), 2 * int(ints[-1])), min_size=1, max_size=5))
    return {"c": cs, "x": xs, "scalar": draw(st.booleans()), "oob": draw(I(0, 3)), "d": draw(I(1, 9))}


@facet("next_index", next_case(), quick=2000)
def check_next(spec, ctx):
    """get_next_index returns the first label >= value; out of bounds is refused."""
    cs = spec["c"]
    c, vals = built(cs)
    ints2 = 2 * gen.coord_ints(cs)

    def val(x):
        if cs["t"] == "i":
            v = x * cs["scale"] / 2
            return int(v) if float(v).is_integer() else v
        if cs["t"] == "f":
            return (x // 2) * cs["scale"] if x % 2 == 0 else x / 2 * cs["scale"]
        return gen.ints_to_values(cs, np.array([x / 2]))[0]

    xs = spec["x"]
    if cs["t"] in ("dt", "td"):
        tv = np.array([val(x) for x in xs])
        want = np.searchsorted(vals, tv, side="left")
    else:
        want = np.searchsorted(ints2, xs, side="left")
    if cs["t"] == "f" and cs["k"] != "even":
        arr = np.array([val(x) if x % 2 else vals[np.flatnonzero(ints2 == x)[0]] if (ints2 == x).any() else val(x) for x in xs])
    else:
        arr = np.array([val(x) for x in xs])
    # clamp float noise at the ends of recomputed ranges
    if cs["t"] == "f":
        arr = np.clip(arr, c.min(), c.max())
    if spec["scalar"]:
        got = [int(c.get_next_index(v)) for v in arr]
    else:
        got = np.asarray(c.get_next_index(arr)).tolist()
    require(list(map(int, got)) == want.tolist(), f"get_next_index({arr}) = {got} expected {want.tolist()} in {vals}")
    if spec["oob"] == 0:
        bad = (vals[-1] + np.timedelta64(int(spec["d"] * cs["scale"]), "ns")) if cs["t"] in ("dt", "td") else vals[-1] + spec["d"] * cs["scale"]
        try:
            r = c.get_next_index(bad)
        except ValueError:
            pass
        else:
            fail(f"get_next_index({bad}) beyond {vals[-1]} returned {r}")
    i = spec["x"][0] % len(vals)
    require(int(c.get_next_index(i, samples=True)) == i, "samples index")
    ctx.nontrivial(len(vals) > 1)
    ctx.label(f"{cs['t']}/{cs['k']}")


@st.composite
def limits_case(draw):
    cs = cspec(draw, kinds=("even", "even", "mono", "arr"))
    return {"c": cs, "what": draw(S("min", "max", "step", "length")), "x": draw(I(-30, 90)), "s": draw(I(1, 5)), "via": draw(S("update", "update_limits"))}


@facet("limits", limits_case(), quick=2500)
def check_limits(spec, ctx):
    """changing min or max translates, changing step keeps the first label, changing length extends or trims the end."""
    cs = spec["c"]
    c, vals = built(cs)
    what = spec["what"]
    tol = coord_tol(vals)
    n = len(vals)
    ints = gen.coord_ints(cs)
    if what in ("min", "max"):
        new = gen.ints_to_values(cs, np.array([spec["x"]]))[0]
        out = getattr(c, spec["via"])(**{what: new})
        want = vals + (new - (vals.min() if what == "min" else vals.max()))
        if cs["t"] == "f":
            off = spec["x"] - (ints.min() if what == "min" else ints.max())
            want = (ints + off) * cs["scale"]
    elif what == "step":
        if cs["k"] != "even" or n < 2:
            return
        s = spec["s"] * (-1 if ints[1] < ints[0] else 1)
        step = gen.ints_to_values({**cs, "t": "td" if cs["t"] == "dt" else cs["t"]}, np.array([s]))[0]
        out = getattr(c, spec["via"])(step=step)
        want = gen.ints_to_values(cs, ints[0] + s * np.arange(n))
    else:
        if cs["k"] != "even" or n < 2:
            return
        m = max(0, n + spec["x"] // 10)
        out = c.change_length(m)
        require(len(out) == m, f"change_length({m}) gave {len(out)}")
        if m == 0:
            return
        want = gen.ints_to_values(cs, ints[0] + (ints[1] - ints[0]) * np.arange(m))
    check_values(out.values, want, f"{what} of {vals}", atol=4 * max(coord_tol(want), tol))
    require(len(out) == len(want), "length")
    check_units(out.units, cs["u"], what)
    ctx.nontrivial(n > 1 and not values_equal(want, vals))
    ctx.label(what, f"{cs['t']}/{cs['k']}{'/rev' if cs.get('rev') else ''}")


@st.composite
def count_case(draw):
    cs = cspec(draw, kinds=("even",), min_n=2)
    return {"c": cs, "x2": draw(I(0, 40)), "as": draw(S("native", "float", "quant"))}


@facet("sample_count", count_case(), quick=1000)
def check_count(spec, ctx):
    """a length given as value, time delta or quantity is the number of samples it covers, rounded up."""
    from dascore.units import get_quantity

    cs = spec["c"]
    if cs.get("rev"):
        ctx.label("rev-skipped")
        return
    c, vals = built(cs)
    # length in half samples
    k = spec["x2"]
    want = -(-k // 2)
    step = cs["step"] * cs["scale"]
    if cs["t"] in ("dt", "td"):
        ns = k * step / 2
        if ns != int(ns) or step < 4:
            return
        v = np.timedelta64(int(ns), "ns")
        if spec["as"] == "float":
            v = int(ns) / 1e9
        elif spec["as"] == "quant":
            v = int(ns) / 1e9 * get_quantity("s")
    else:
        v = k * step / 2
        if spec["as"] == "quant" and cs["u"]:
            v = v * get_quantity(cs["u"])
    got = c.get_sample_count(v)
    require(got == want, f"get_sample_count({v!r}) = {got}, expected {want} (step {step})")
    require(c.get_sample_count(k, samples=True) == k, "samples=True")
    ctx.nontrivial(k > 0)
    ctx.label(cs["t"], spec["as"])


@st.composite
def align_case(draw):
    a = cspec(draw, kinds=("even", "mono", "arr"), types=("dt", "i", "td"), units=False)
    b = dict(a)
    kind = draw(S("shift", "sub", "other"))
    if kind == "shift":
        b["start"] = a["start"] + draw(I(-12, 12))
    elif kind == "sub":
        b = {**a, "k": "arr", "n": a["n"], "deltas": draw(gen.L(1, 5, max(a["n"] - 1, 0))), "perm": draw(gen.PERM(*range(a["n"]))), "rev": False}
    else:
        b["rev"] = not a.get("rev") if a["k"] in ("even", "mono") else False
    return {"a": a, "b": b}


@facet("align", align_case(), quick=1500)
def check_align(spec, ctx):
    """aligning two coordinates keeps exactly the common values, in the same order on both sides."""
    ca, va = built(spec["a"])
    cb, vb = built(spec["b"])
    xa, xb, ia, ib = ca.align_to(cb)
    common = np.intersect1d(va, vb)
    require(len(xa) == len(xb) == len(common), f"aligned lengths {len(xa)},{len(xb)}; {len(common)} common values")
    if len(common):
        check_coord_values(np.sort(xa.values), common, "aligned values")
        check_coord_values(xa.values, xb.values, "both sides")
        check_coord_values(va[ia], xa.values, "indexer a")
        check_coord_values(vb[ib], xb.values, "indexer b")
    ctx.nontrivial(0 < len(common) < max(len(va), len(vb)))
    ctx.label("common" if len(common) else "disjoint")


@st.composite
def twod_case(draw):
    return {"shape": [draw(I(1, 4)), draw(I(1, 4))], "e": {"t": draw(S("f", "i", "dt")), "scale": 1, "epoch": 1_500_000_000, "seed": draw(I(0, 99)), "mode": draw(S("uniq", "dup", "sorted"))},
            "axis": draw(I(0, 1)), "ix": draw(st.lists(I(0, 3), max_size=4)), "nan": draw(st.booleans())}


@facet("two_d", twod_case(), quick=600)
def check_twod(spec, ctx):
    """two-dimensional and missing-value coordinates keep their values; equality sees every value."""
    from dascore.core import get_coord

    vals = gen.extra_values(spec["e"], tuple(spec["shape"]))
    c = get_coord(data=vals)
    check_values(c.values, vals, "2d values")
    require(tuple(c.shape) == vals.shape and c.ndim == 2, f"shape {c.shape}")
    require(values_equal(np.asarray(c.min()), vals.min()) and values_equal(np.asarray(c.max()), vals.max()), "2d limits")
    ix = np.array([i % vals.shape[spec["axis"]] for i in spec["ix"]], dtype=int)
    out = c.index(ix, axis=spec["axis"])
    check_values(out.values if len(ix) else np.take(vals, ix, spec["axis"]), np.take(vals, ix, spec["axis"]), "index along axis")
    flat = vals.ravel().astype(float) if spec["e"]["t"] != "dt" else vals.ravel()
    if spec["nan"] and len(flat) > 1:
        v2 = flat.copy()
        v2[0] = np.nan if spec["e"]["t"] != "dt" else np.datetime64("NaT")
        c1, c2 = get_coord(data=flat), get_coord(data=v2)
        check_values(c2.values, v2, "values with missing")
        require(not (c1 == c2) and not (c2 == c1), f"a coordinate with a missing value equals one without: {flat} {v2}")
        require(c2 == get_coord(data=v2.copy()), "coordinate with a missing value differs from itself")
        ctx.label("nan")
    ctx.nontrivial(vals.size > 1)


# ---------------------------------------------------------------- equality
@st.composite
def equal_case(draw):
    n = draw(I(1, 6))
    return {"off": draw(S(0, 1000, 500_000, 5_000_000, -250_000)), "scale": draw(S(1.0, 0.5, 0.1, 0.25, 1e-3, 1e-9)), "kind": draw(S("even", "mono", "arr")), "deltas": draw(L(1, 4, max(n - 1, 0))),
            "n": n, "perm": list(draw(gen.PERM(*range(n)))), "how": draw(S("same", "round", "shift", "one", "units", "scaled", "order")), "int": draw(S(False, False, True)), "two_d": draw(S(False, False, True))}


@facet("equality", equal_case(), quick=1500)
def check_equality(spec, ctx):
    """coordinates are equal exactly when their labels and units are, whatever the offset or spacing."""
    from dascore.core import get_coord

    n = spec["n"]
    ints = np.concatenate([[0], np.cumsum(spec["deltas"])])[:n] if spec["kind"] != "even" else np.arange(n)
    if spec["kind"] == "arr":
        ints = ints[np.asarray(spec["perm"], int)]
    off = int(spec["off"]) if spec["scale"] >= 1e-3 else 0
    vals = (ints + off) if spec["int"] else ints * spec["scale"] + off
    if vals.dtype.kind == "f" and n > 1 and np.abs(vals).max() * 1e-12 > spec["scale"] * 1e-4:
        return
    how = spec["how"]
    unit = 1 if spec["int"] else spec["scale"]
    other, units, equal = vals.copy(), "m", True
    if how == "round" and vals.dtype.kind == "f":
        other = np.nextafter(vals, np.inf)
        equal = None if n < 2 else True  # a single label has no spacing to compare with
    elif how == "shift":
        other, equal = vals + unit, False
    elif how == "one":
        other[n // 2] += unit
        equal = False
    elif how == "units":
        units, equal = "ft", False
    elif how == "scaled":
        other = vals * 2
        equal = bool(np.all(vals == 0))
    elif how == "order":
        other = vals[::-1].copy()
        equal = bool(np.all(other == vals))
    if n < 2 and not equal and how in ("shift", "one") and unit <= 1e-6 * np.abs(vals).max():
        return
    if spec["two_d"]:
        vals, other = np.stack([vals, vals]), np.stack([vals, other])
    a, b = get_coord(data=vals.copy(), units="m"), get_coord(data=other, units=units)
    ctx.label(how, "2d" if spec["two_d"] else "1d")
    ctx.nontrivial(n > 1 and how != "same")
    if equal is None:
        return
    got = bool(a.approx_equal(b)), bool(b.approx_equal(a))
    require(got == (equal, equal), f"approx_equal is {got} for {vals} m and {other} {units}")
    if how != "round":
        got = bool(a == b), bool(b == a)
        require(got == (equal, equal), f"equality is {got} for {vals} m and {other} {units}")


FACETS = [check_build, check_index, check_sort, check_next, check_limits, check_count, check_align, check_twod, check_equality]
