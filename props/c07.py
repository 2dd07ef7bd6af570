"""C07: patch arithmetic acts element-wise on equal labels, with units."""
from __future__ import annotations

import operator

import numpy as np
from hypothesis import strategies as st

from vlib import gen
from vlib.cmp import Snap, attrs_equal, check_coherent, check_coord_values, check_same_snap, check_units, check_values, fail, require
from vlib.core import facet
from vlib.gen import I, L, PERM, S

RULE = ("A case is a patch, an operand (scalar, array, list, quantity, other patch) on either side and an operation through operator, numpy function or method; "
        "the oracle is numpy on the plain arrays after matching samples by label in a dictionary, and pint for units. Non-trivial = the operand is not a constant "
        "with the same shape and labels (broadcasting, alignment, reversal, transposition or unit conversion really happens) or a refusal was demanded.")
ASSUMPTIONS = [
    "Plain numbers and arrays leave data units alone (documented behaviour); unit algebra is demanded for quantities as right operand and for patches.",
    "A quantity as left operand is handled by pint before dascore sees it and is outside the property.",
]

OPS = {
    "add": (operator.add, np.add), "sub": (operator.sub, np.subtract), "mul": (operator.mul, np.multiply), "div": (operator.truediv, np.true_divide),
    "floordiv": (operator.floordiv, np.floor_divide), "mod": (operator.mod, np.mod), "pow": (operator.pow, np.power),
    "gt": (operator.gt, np.greater), "lt": (operator.lt, np.less), "ge": (operator.ge, np.greater_equal), "le": (operator.le, np.less_equal),
}
UFUNCS = {"maximum": np.maximum, "minimum": np.minimum, "hypot": np.hypot, "arctan2": np.arctan2, "fmod": np.fmod, "equal": np.equal, "not_equal": np.not_equal, "copysign": np.copysign}
METHODS = {"add": "add", "sub": "subtract", "mul": "multiply", "div": "divide", "pow": "power", "maximum": "maximum", "minimum": "minimum"}


def apply(op, form, a, b):
    """Run the operation on a, b through one of the call forms."""
    import dascore as dc

    if op in UFUNCS:
        if form == "method" and op in METHODS and isinstance(a, dc.Patch) and hasattr(a, METHODS[op]):
            return getattr(a, METHODS[op])(b)
        return UFUNCS[op](a, b)
    if form == "operator":
        return OPS[op][0](a, b)
    if form == "method" and op in METHODS and isinstance(a, dc.Patch) and hasattr(a, METHODS[op]):
        return getattr(a, METHODS[op])(b)
    return OPS[op][1](a, b)


def np_op(op):
    return UFUNCS.get(op) or OPS[op][1]


ALL_OPS = [*OPS, *UFUNCS]


# ---------------------------------------------------------------- scalars and arrays
@st.composite
def plain_case(draw):
    ps = gen.draw_patch(draw, kinds=("even", "mono", "arr"), max_n=5, data=("uniq", "float", "int", "nan", "f4", "i2", "pos"))
    nd = len(ps["dims"])
    return {"p": ps, "op": draw(S(*ALL_OPS)), "form": draw(S("operator", "numpy", "method")), "rev": draw(st.booleans()),
            "other": draw(S("scalar", "npscalar", "array", "bcast", "bcast", "zerod", "list", "int_array")), "drop": draw(I(0, nd)), "ones": draw(L(0, 1, nd)),
            "val": draw(S(2, 3.5, -1, 0.25, 1)), "r": draw(I(0, 999)), "reduce": draw(S(None, None, None, 0, 1))}


@facet("plain", plain_case(), quick=2500, weight=2)
def check_plain(spec, ctx):
    """patch (op) scalar/array on either side equals numpy; labels and units stay."""
    patch, model = gen.build_patch(spec["p"])
    if spec["reduce"] is not None and patch.data.dtype.kind == "f":
        d = patch.dims[spec["reduce"] % patch.ndim]
        full_shape = patch.shape
        patch = patch.max(d)
    else:
        full_shape = patch.shape
    rng = np.random.default_rng(spec["r"])
    how = spec["other"]
    shape = full_shape
    if how == "bcast":
        shape = tuple(1 if o else s for s, o in zip(full_shape, spec["ones"]))[spec["drop"]:]
    if how == "scalar":
        other = spec["val"]
    elif how == "npscalar":
        other = np.float64(spec["val"])
    elif how == "zerod":
        other = np.array(spec["val"])
    elif how == "int_array":
        other = rng.integers(1, 5, shape)
    elif how == "list":
        other = rng.integers(1, 5, shape[-1:]).astype(float).tolist()
    else:
        other = np.round(rng.normal(1, 2, shape), 2)
    op, form, rev = spec["op"], spec["form"], spec["rev"]
    if how == "list" and rev and form == "operator" and op in ("mul", "add", "mod"):
        form = "numpy"
    arrs = (np.asarray(patch.data), np.asarray(other) if how == "list" else other)
    with np.errstate(all="ignore"):
        try:
            want = np_op(op)(*(arrs[::-1] if rev else arrs))
        except Exception:  # noqa: BLE001
            try:
                apply(op, form, *((other, patch) if rev else (patch, other)))
            except Exception:  # noqa: BLE001
                return
            fail(f"{op} accepted what numpy refuses: {arrs[0].dtype} and {how}")
        got = apply(op, form, *((other, patch) if rev else (patch, other)))
    what = f"{'reversed ' if rev else ''}{op} ({form}) with {how} of shape {np.shape(other)}"
    check_coherent(got, what)
    check_values(got.data, want, what + ": data")
    require(got.data.dtype == want.dtype, f"{what}: dtype {got.data.dtype} expected {want.dtype}")
    require(got.dims == patch.dims, f"{what}: dims {got.dims}")
    for nm, c in patch.coords.coord_map.items():
        if tuple(c.shape) == tuple(got.coords.coord_map.get(nm, c).shape) and nm in got.coords.coord_map:
            check_values(got.coords.coord_map[nm].values, c.values, f"{what}: coord {nm}")
            check_units(got.coords.coord_map[nm].units, c.units, f"{what}: coord {nm}")
    if got.shape == patch.shape:
        require(set(got.coords.coord_map) == set(patch.coords.coord_map), f"{what}: coords {set(got.coords.coord_map)}")
    check_units(got.attrs.data_units, None if want.dtype == bool else patch.attrs.data_units, what + ": data units")
    a, b = patch.attrs.model_dump(), got.attrs.model_dump()
    for k in ("history", "coords", "data_units"):
        a.pop(k, None), b.pop(k, None)
    require(attrs_equal(a, b), f"{what}: attrs {b} were {a}")
    ctx.label(op, how, "rev" if rev else "fwd", form)
    ctx.nontrivial(np.ndim(other) > 0 or rev)


# ---------------------------------------------------------------- quantities
QUNITS = {"m": ["m", "ft", "km", "s", "m/s"], "m/s": ["m/s", "km/hour", "s", "m"], "s": ["s", "ms", "minute", "m"], "": ["m", "s", "dimensionless", "1/s", "percent"],
          "degC": ["degF", "kelvin", "s"], "strain": ["strain", "m", "1/s"], "1/s": ["Hz", "s", "m"]}


@st.composite
def unit_case(draw):
    u = draw(S("m", "m", "m/s", "s", "", "strain", "1/s"))
    return {"p": gen.draw_patch(draw, max_dims=2, max_n=4, kinds=("even",), data=("pos", "float"), attrs=False, extra=False), "u": u, "q": draw(S(*QUNITS[u])),
            "op": draw(S("add", "sub", "mul", "div", "gt", "lt", "ge", "maximum", "minimum", "pow", "mod", "floordiv")), "form": draw(S("operator", "numpy", "method")),
            "mag": draw(S("scalar", "unit", "array", "row")), "val": draw(S(2.0, 0.5, 3.0, 1.0)), "r": draw(I(0, 99))}


@facet("quantity", unit_case(), quick=1200, weight=2)
def check_quantity(spec, ctx):
    """patch (op) quantity equals the physical operation, or is refused when units are incompatible."""
    import pint

    from dascore.units import get_quantity, get_unit

    patch, _ = gen.build_patch(spec["p"])
    patch = patch.update_attrs(data_units=spec["u"] or None)
    rng = np.random.default_rng(spec["r"])
    qunit = get_unit(spec["q"])
    op = spec["op"]
    if op == "pow":
        q = get_quantity(str(float(spec["val"])))
    elif spec["mag"] == "scalar":
        q = spec["val"] * qunit
    elif spec["mag"] == "unit":
        q = qunit if op in ("mul", "div") else 1.0 * qunit
    elif spec["mag"] == "row":
        q = np.round(rng.random(patch.shape[-1:]) + 0.5, 2) * qunit
    else:
        q = np.round(rng.random(patch.shape) + 0.5, 2) * qunit
    u = get_quantity(spec["u"] or "dimensionless")
    lhs = np.asarray(patch.data, dtype=float) * u.units * u.magnitude
    what = f"patch[{spec['u'] or 'no units'}] {op} {spec['mag']} quantity [{spec['q']}]"
    qq = 1.0 * q if not hasattr(q, "magnitude") else q
    try:
        with np.errstate(all="ignore"):
            want = np_op(op)(lhs, qq)
    except pint.errors.DimensionalityError:
        want = None
    if op in ("mod", "floordiv") and not spec["u"]:
        return  # pint itself does not define these consistently for plain numbers
    try:
        pass
    except pint.errors.PintError:
        return
    ctx.label(op, "refuse" if want is None else "combine", spec["mag"])
    try:
        with np.errstate(all="ignore"):
            got = apply(op, spec["form"], patch, q)
    except Exception as exc:  # noqa: BLE001
        if want is None:
            ctx.nontrivial()
            return
        if isinstance(exc, TypeError) and spec["form"] != "operator":
            return
        raise
    if want is None:
        # numbers and dimensionless may be combined by comparison/maximum in pint; anything else must be refused
        fail(f"{what}: incompatible units were combined into units {got.attrs.data_units}")
    ctx.nontrivial(spec["q"] != spec["u"])
    check_coherent(got, what)
    require(got.dims == patch.dims and got.shape == np.shape(want), f"{what}: shape {got.shape}")
    if hasattr(want, "units"):
        gu = get_quantity(got.attrs.data_units) if got.attrs.data_units is not None else get_quantity("dimensionless")
        try:
            res = (np.asarray(got.data) * gu).to(want.units)
        except pint.errors.DimensionalityError:
            fail(f"{what}: result has units {got.attrs.data_units}, expected {want.units}")
        check_values(res.magnitude, want.magnitude, f"{what}: physical value", rtol=1e-9, atol=1e-12)
    else:
        check_values(got.data, np.asarray(want), what)
        require(got.attrs.data_units is None, f"{what}: boolean result has units {got.attrs.data_units}")


# ---------------------------------------------------------------- two patches
@st.composite
def pair_case(draw):
    nd = draw(I(1, 3))
    names = list(draw(PERM(*gen.DIM_NAMES)))[:nd]
    pools, out = {}, {"dims": names, "pools": {}, "sides": [], "op": draw(S("add", "sub", "mul", "div", "gt", "maximum")), "form": draw(S("operator", "numpy", "method"))}
    for nm in names:
        out["pools"][nm] = gen.draw_coord(draw, types=gen.NAME_TYPES[nm], kinds=("even", "even", "mono"), min_n=1, max_n=6, allow_rev=False, forms=("array",))
        pools[nm] = out["pools"][nm]["n"]
    same = draw(S(True, False, False))
    sides = []
    for s in range(2):
        side = {"take": {}, "order": list(draw(PERM(*names))) if draw(st.booleans()) else list(names), "missing": [], "mean": [], "rev": []}
        for nm in names:
            n = pools[nm]
            k = draw(S("full", "full", "tail", "head", "subset", "perm"))
            if same and s == 1:
                side["take"][nm] = sides[0]["take"][nm]
                continue
            if k == "full":
                idx = list(range(n))
            elif k == "tail":
                idx = list(range(draw(I(0, n - 1)), n))
            elif k == "head":
                idx = list(range(0, draw(I(1, n))))
            elif k == "subset":
                idx = sorted(draw(st.sets(I(0, n - 1), min_size=1, max_size=n)))
            else:
                idx = list(draw(PERM(*range(n))))
            side["take"][nm] = idx
        if nd > 1 and draw(S(False, False, True)):
            side["missing"] = [draw(S(*names))]
        elif draw(S(False, False, False, True)):
            side["mean"] = [draw(S(*names))]
        sides.append(side)
    out["sides"] = sides
    out["extra"] = draw(S(None, None, "both", "first", "second", "both2d", "conflict"))
    out["off"] = draw(S(0, 0, 0, 100_000))
    out["edim"] = draw(S(*names))
    out["units"] = draw(S(None, "m", "m/s"))
    out["attrs"] = {"tag": "a", "station": "S"} if draw(st.booleans()) else {}
    out["seed"] = draw(I(0, 999))
    return out


def build_side(spec, which):
    """(patch, dims, label lists, data) for one operand."""
    import dascore as dc

    side = spec["sides"][which]
    dims = [d for d in side["order"] if d not in side["missing"]]
    rng = np.random.default_rng(spec["seed"] * 2 + which)
    labels = {}
    for d in dims:
        labels[d] = gen.coord_values(spec["pools"][d])[side["take"][d]]
        if labels[d].dtype.kind in "fi" and spec["pools"][d]["scale"] in (1.0, 0.5, 0.25, 1, 2, 10):
            labels[d] = labels[d] + spec.get("off", 0)
    shape = tuple(len(labels[d]) for d in dims)
    data = np.round(rng.random(shape) * 9 + 1, 3)
    coords = {d: dc.get_coord(data=labels[d], units=spec["pools"][d].get("u")) for d in dims}
    ex, ed = spec["extra"], spec["edim"]
    if ex and ed in dims and (ex in ("both", "conflict") or (ex == "first") == (which == 0) and ex in ("first", "second")):
        pool_vals = np.random.default_rng(7 + (which if ex == "conflict" else 0)).random(spec["pools"][ed]["n"])
        coords["lat"] = ((ed,), pool_vals[side["take"][ed]])
    if ex == "both2d" and len(dims) > 1 and len(spec["dims"]) > 1 and all(x in dims for x in spec["dims"][:2]):
        a, b = spec["dims"][:2]
        m = np.random.default_rng(8).random((spec["pools"][a]["n"], spec["pools"][b]["n"]))
        coords["lat"] = ((a, b), m[np.ix_(side["take"][a], side["take"][b])])
    patch = dc.Patch(data=data, coords=coords, dims=tuple(dims), attrs={**spec["attrs"], "data_units": spec["units"]})
    mean = [d for d in side["mean"] if d in dims]
    for d in mean:
        patch = patch.max(d)
        data = data.max(axis=dims.index(d), keepdims=True)
        if len(labels[d]) > 1 or type(patch.get_coord(d)).__name__ == "CoordPartial":
            labels[d] = None  # one anonymous sample: broadcasts against anything
    return patch, dims, labels, data


def key(v):
    v = np.asarray(v)
    if v.dtype.kind in "mM":
        return int(v.astype("M8[ns]" if v.dtype.kind == "M" else "m8[ns]").astype(np.int64))
    return round(float(v), 7) + 0.0


@facet("pair", pair_case(), quick=2600, weight=3)
def check_pair(spec, ctx):
    """patch (op) patch combines exactly the samples with equal labels, broadcasting other dimensions."""
    from dascore.units import get_quantity

    p1, d1, l1, a1 = build_side(spec, 0)
    p2, d2, l2, a2 = build_side(spec, 1)
    s1, s2 = Snap(p1), Snap(p2)
    shared = [d for d in d1 if d in d2]
    op = spec["op"]
    has_lat = "lat" in p1.coords.coord_map and "lat" in p2.coords.coord_map
    refuse_ok = False
    if not shared:
        refuse_ok = True
    conflict = False
    if has_lat:
        conflict = True  # a conflicting / re-attached shared coordinate may be refused
    # expected labels per dimension
    exp, i1, i2 = {}, {}, {}
    for d in [*d1, *[x for x in d2 if x not in d1]]:
        v1 = l1.get(d, None) if d in d1 else None
        v2 = l2.get(d, None) if d in d2 else None
        if v1 is None and v2 is None:
            exp[d], i1[d], i2[d] = [None], {None: 0}, {None: 0}
        elif v1 is None or v2 is None:
            v = v1 if v2 is None else v2
            exp[d] = [key(x) for x in v]
            pos = {k: j for j, k in enumerate(exp[d])}
            i1[d] = pos if v2 is None else dict.fromkeys(pos, 0)
            i2[d] = pos if v1 is None else dict.fromkeys(pos, 0)
        else:
            k1, k2 = [key(x) for x in v1], [key(x) for x in v2]
            common = set(k1) & set(k2)
            exp[d] = [k for k in k1 if k in common]
            i1[d] = {k: k1.index(k) for k in exp[d]}
            i2[d] = {k: k2.index(k) for k in exp[d]}
    empty = any(len(v) == 0 for v in exp.values())
    try:
        got = apply(op, spec["form"], p1, p2)
    except Exception as exc:  # noqa: BLE001
        check_same_snap(s1, Snap(p1), "first operand after refusal")
        check_same_snap(s2, Snap(p2), "second operand after refusal")
        if refuse_ok or conflict or empty:
            ctx.label("refused")
            ctx.nontrivial(refuse_ok)
            return
        raise
    if not shared:
        fail(f"patches without shared dimensions {d1} and {d2} were combined")
    what = f"{op}({d1}, {d2})"
    check_coherent(got, what)
    require(set(got.dims) == set(exp), f"{what}: result dims {got.dims}, expected {list(exp)}")
    if set(d2) <= set(d1):
        require(list(got.dims) == d1, f"{what}: dims order {got.dims}, first patch has {d1}")
    pos1, pos2 = [], []
    for d in got.dims:
        coord = got.get_coord(d)
        vals = list(exp[d]) if exp[d] == [None] else [key(x) for x in coord.values]
        if exp[d] != [None]:
            require(sorted(vals) == sorted(exp[d]), f"{what}: labels of {d} are {vals}, expected the common labels {sorted(exp[d])}")
            check_units(coord.units, spec["pools"][d].get("u"), f"{what}: {d}")
            if l1.get(d) is not None and l2.get(d) is not None and len(l1[d]) == len(l2[d]) and [key(x) for x in l1[d]] == [key(x) for x in l2[d]]:
                require(vals == [key(x) for x in l1[d]], f"{what}: order of labels of {d} changed to {vals}")
        else:
            require(len(coord) == 1, f"{what}: {d} has length {len(coord)}")
        pos1.append([i1[d][k] for k in vals])
        pos2.append([i2[d][k] for k in vals])

    def expand(arr, dims, pos):
        order = [d for d in got.dims if d in dims]
        arr = np.transpose(arr, [dims.index(d) for d in order])
        for ax, d in enumerate(got.dims):
            if d not in dims:
                arr = np.expand_dims(arr, ax)
        for ax, (d, ix) in enumerate(zip(got.dims, pos)):
            ix = ix if d in dims else [0] * len(ix)
            arr = np.take(arr, np.asarray(ix, dtype=int), axis=ax)
        return arr

    # a dimension one side lacks: its index is 0 there
    for ax, d in enumerate(got.dims):
        if d not in d1:
            pos1[ax] = [0] * len(pos1[ax])
        if d not in d2:
            pos2[ax] = [0] * len(pos2[ax])
    x1, x2 = expand(a1, d1, pos1), expand(a2, d2, pos2)
    want = np_op(op)(x1, x2)
    check_values(got.data, want, f"{what}: data", rtol=1e-12)
    # units
    u = spec["units"]
    if op == "gt":
        eu = None
    elif u is None or op in ("add", "sub", "maximum"):
        eu = u
    elif op == "mul":
        eu = str(get_quantity(u) * get_quantity(u))
    else:
        eu = None
    gu = got.attrs.data_units
    if eu is None:
        require(gu is None or get_quantity(gu).dimensionless, f"{what}: data units {gu} expected none")
    else:
        require(get_quantity(gu) == get_quantity(eu), f"{what}: data units {gu} expected {eu}")
    # coordinates that survive must carry the right labels
    if "lat" in got.coords.coord_map:
        cd = got.coords.dim_map["lat"]
        src, sd = (p1, d1) if "lat" in p1.coords.coord_map else (p2, d2)
        vals = np.asarray(src.coords.coord_map["lat"].values)
        sdims = src.coords.dim_map["lat"]
        require(tuple(cd) == tuple(sdims), f"{what}: lat attached to {cd}")
        pos = dict(zip(got.dims, pos1 if src is p1 else pos2))
        for ax, d in enumerate(sdims):
            vals = np.take(vals, pos[d], axis=ax)
        check_coord_values(got.coords.coord_map["lat"].values, vals, f"{what}: coordinate lat")
        ctx.label("lat kept")
    elif spec["extra"] in ("both", "both2d") and has_lat and not any(spec["sides"][i]["mean"] for i in (0, 1)):
        if list(got.shape) == list(p1.shape) and d1 == d2 and all([key(x) for x in l1[d]] == [key(x) for x in l2[d]] for d in d1):
            fail(f"{what}: shared coordinate lat lost though all labels are equal")
    a, b = p1.attrs.model_dump(), got.attrs.model_dump()
    for k in ("tag", "station", "network"):
        require(a[k] == b[k], f"{what}: attribute {k} {b[k]!r} was {a[k]!r}")
    check_same_snap(s1, Snap(p1), "first operand")
    check_same_snap(s2, Snap(p2), "second operand")
    aligned = any(l1.get(d) is not None and l2.get(d) is not None and [key(x) for x in l1[d]] != [key(x) for x in l2[d]] for d in shared)
    ctx.label(op, "aligned" if aligned else "equal", "transposed" if d1 != d2 else "same dims", "bcast" if set(d1) != set(d2) else "")
    ctx.nontrivial(aligned or d1 != d2)


# ---------------------------------------------------------------- refusals between patches
@st.composite
def refuse_case(draw):
    return {"p": gen.draw_patch(draw, min_dims=1, max_n=4, min_n=2, kinds=("even",), data=("float",), extra=False), "why": draw(S("units", "station", "nodims", "coord_units", "conflict")),
            "op": draw(S("add", "sub", "mul", "maximum")), "form": draw(S("operator", "numpy"))}


@facet("refuse", refuse_case(), quick=250)
def check_refuse(spec, ctx):
    """patches that disagree in units, metadata, coordinates or dimensions are refused."""
    patch, _ = gen.build_patch(spec["p"])
    why = spec["why"]
    d = patch.dims[0]
    patch = patch.update_attrs(data_units="m", station="a")
    if why == "units":
        if spec["op"] == "mul":
            return
        other = patch.update_attrs(data_units="s")
    elif why == "station":
        other = patch.update_attrs(station="b")
    elif why == "nodims":
        other = patch.rename_coords(**{x: f"other{i}" for i, x in enumerate(patch.dims)})
    elif why == "coord_units":
        if np.asarray(patch.get_array(d)).dtype.kind in "mM":
            return
        patch = patch.set_units(**{d: "m"})
        other = patch.set_units(**{d: "ft"})
    else:
        n = len(patch.get_coord(d))
        patch, other = patch.update_coords(lat=(d, np.arange(n) * 1.0)), patch.update_coords(lat=(d, np.arange(n) + 5.0))
    ctx.label(why)
    ctx.nontrivial()
    try:
        out = apply(spec["op"], spec["form"], patch, other)
    except Exception:  # noqa: BLE001
        return
    fail(f"incompatible patches ({why}) were combined by {spec['op']}: {out.attrs.data_units} {out.dims}")


# ---------------------------------------------------------------- unary and accumulating functions
UNARY = {"abs": np.abs, "sqrt": np.sqrt, "exp": np.exp, "sin": np.sin, "isnan": np.isnan, "isfinite": np.isfinite, "isinf": np.isinf, "sign": np.sign, "negative": np.negative, "conj": np.conj,
         "square": np.square, "floor": np.floor, "log": np.log, "log10": np.log10, "log2": np.log2, "angle": np.angle, "real": np.real, "imag": np.imag, "nan_to_num": np.nan_to_num}
METH = {"abs": "abs", "isnan": "isnan", "isfinite": "is_finite", "isinf": "isinf", "conj": "conj", "exp": "exp", "log": "log", "log10": "log10", "log2": "log2", "angle": "angle", "real": "real", "imag": "imag"}


@st.composite
def unary_case(draw):
    return {"p": gen.draw_patch(draw, kinds=("even", "mono", "arr"), max_n=5, data=("float", "nan", "cplx", "pos", "f4", "int")), "f": draw(S(*UNARY, "cumsum", "cumprod", "accumulate", "accumulate_dim", "clip", "diffshape", "neg")),
            "form": draw(S("numpy", "method")), "ax": draw(I(0, 2)), "neg": draw(st.booleans())}


@facet("unary", unary_case(), quick=900)
def check_unary(spec, ctx):
    """unary and accumulating functions equal numpy on the data, along the named dimension only."""
    from dascore.utils.array import PatchUFunc

    patch, _ = gen.build_patch(spec["p"])
    f, ax = spec["f"], spec["ax"] % patch.ndim
    axis = ax - patch.ndim if spec["neg"] else ax
    data = np.asarray(patch.data)
    ctx.label(f)
    try:
        with np.errstate(all="ignore"):
            if f in UNARY:
                want = UNARY[f](data)
            elif f in ("cumsum", "cumprod"):
                want = getattr(np, f)(data, axis=axis)
            elif f.startswith("accumulate"):
                want = np.add.accumulate(data, axis=ax)
            elif f == "clip":
                want = np.clip(data.real, -1, 1) if data.dtype.kind != "c" else None
            elif f == "neg":
                want = -data
            else:
                want = None
    except TypeError:
        return
    if want is None:
        return
    with np.errstate(all="ignore"):
        if f in UNARY:
            got = getattr(patch, METH[f])() if (spec["form"] == "method" and f in METH) else UNARY[f](patch)
        elif f in ("cumsum", "cumprod"):
            got = getattr(np, f)(patch, axis=axis)
        elif f == "accumulate":
            got = np.add.accumulate(patch, axis=axis)
        elif f == "accumulate_dim":
            got = PatchUFunc(np.add).accumulate(patch, dim=patch.dims[ax]) if spec["neg"] else patch.add.accumulate(dim=patch.dims[ax])
        elif f == "clip":
            got = np.clip(patch, -1, 1)
        else:
            got = -patch
    check_coherent(got, f)
    check_values(got.data, want, f"{f}: data")
    require(got.data.dtype == want.dtype, f"{f}: dtype {got.data.dtype} expected {want.dtype}")
    a, b = Snap(patch), Snap(got)
    require(a.dims == b.dims and list(a.coords) == list(b.coords), f"{f}: dims/coords changed")
    for k in a.coords:
        check_values(b.coords[k][1], a.coords[k][1], f"{f}: coord {k}")
    ctx.nontrivial(want.size > 1)


FACETS = [check_plain, check_quantity, check_pair, check_refuse, check_unary]
