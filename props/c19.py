"""C19: unit conversion preserves the physical quantity."""
from __future__ import annotations

import math

import numpy as np
from hypothesis import strategies as st

from vlib import gen
from vlib.cmp import Snap, attrs_equal, check_coherent, check_same_snap, check_units, check_values, fail, require
from vlib.core import facet
from vlib.gen import I, L, S

RULE = ("A case is a patch (any dims, dtypes, coordinate kinds) whose data and/or coordinates carry a unit, and a conversion, relabelling or simplification to another (also compound, "
        "scaled and offset) unit; or a processing function given the same bound, window or frequency as a plain number, in several units, as a period and as a time delta. The oracle is a table "
        "of factors and offsets, and equality of the results. Non-trivial = the conversion changes the numbers (or the window covers more than one sample).")
ASSUMPTIONS = [
    "Units of datetime and timedelta coordinates can only be seconds (documented); other units are refused or leave them unchanged.",
    "Converting data without units only sets the units (documented).",
    "Window lengths are kept away from exact multiples of the sampling interval, where rounding of the unit conversion decides.",
]

# name -> (factor, offset) to the base unit
TABLE = {
    "length": [("m", 1, 0), ("cm", 0.01, 0), ("mm", 0.001, 0), ("km", 1000, 0), ("ft", 0.3048, 0), ("inch", 0.0254, 0), ("10 m", 10, 0)],
    "time": [("s", 1, 0), ("ms", 1e-3, 0), ("us", 1e-6, 0), ("minute", 60, 0), ("hour", 3600, 0)],
    "temp": [("K", 1, 0), ("degC", 1, 273.15), ("degF", 5 / 9, 459.67 * 5 / 9)],
    "speed": [("m/s", 1, 0), ("km/h", 1 / 3.6, 0), ("ft/s", 0.3048, 0), ("mm/us", 1000, 0), ("2 m/s", 2, 0)],
    "freq": [("1/s", 1, 0), ("Hz", 1, 0), ("kHz", 1000, 0), ("1/minute", 1 / 60, 0)],
    "pressure": [("kg/m/s^2", 1, 0), ("Pa", 1, 0), ("kPa", 1000, 0), ("psi", 6894.757293168361, 0)],
    "strain": [("strain", 1, 0), ("microstrain", 1e-6, 0), ("1e-9 strain", 1e-9, 0)],
    "slow": [("s/m", 1, 0), ("us/ft", 1e-6 / 0.3048, 0), ("ms/km", 1e-6, 0)],
}
KINDS = tuple(TABLE)


def convert(values, kind, a, b):
    """values in unit number a of the kind, expressed in unit number b."""
    _, fa, oa = TABLE[kind][a]
    _, fb, ob = TABLE[kind][b]
    return (np.asarray(values) * fa + oa - ob) / fb


def magnitude(values, kind, a, b):
    """Size of the largest intermediate in the target unit (for tolerances)."""
    _, fa, oa = TABLE[kind][a]
    _, fb, ob = TABLE[kind][b]
    v = np.abs(np.asarray(values, dtype=complex if np.iscomplexobj(values) else float))
    m = float(np.nanmax(v)) if v.size and np.isfinite(v).any() else 0.0
    return (m * fa + abs(oa) + abs(ob)) / fb


def unit(draw, kind):
    return draw(I(0, len(TABLE[kind]) - 1))


@st.composite
def data_case(draw):
    kind = draw(S(*KINDS))
    ps = gen.draw_patch(draw, max_n=4, data=("uniq", "float", "int", "nan", "cplx", "f4", "i2"))
    return {"p": ps, "kind": kind, "a": unit(draw, kind), "b": unit(draw, kind), "op": draw(S("convert", "convert", "set", "simplify", "nounits", "bad", "remove", "func", "same", "chain")),
            "how": draw(S("str", "str", "quantity", "unit")), "other": draw(S(*KINDS)), "pos": draw(S(True, False))}


def form(name, how):
    from dascore.units import get_quantity, get_unit

    if how == "quantity":
        return get_quantity(name)
    if how == "unit" and not name[0].isdigit():
        return get_unit(name)
    return name


def same_except(before, after, what, data=False, units=False, coords=()):
    """Nothing but the listed things may differ between the two snapshots."""
    require(before.dims == after.dims, f"{what}: dims changed")
    if not data:
        check_values(after.data, before.data, f"{what}: data")
    require(set(before.coords) == set(after.coords), f"{what}: coords changed")
    for n in before.coords:
        if n in coords:
            continue
        a, b = before.coords[n], after.coords[n]
        require(a[0] == b[0], f"{what}: coord {n} moved")
        check_values(b[1], a[1], f"{what}: coord {n}")
        check_units(b[2], a[2], f"{what}: coord {n}")
    for k in set(before.attrs) | set(after.attrs):
        if k in ("history", "coords") or (k == "data_units" and units):
            continue
        require(attrs_equal(before.attrs.get(k), after.attrs.get(k)), lambda: f"{what}: attribute {k} was {before.attrs.get(k)!r}, is {after.attrs.get(k)!r}")


def check_numbers(got, want, what, mag, f4=False):
    tol = (3e-6 if f4 else 1e-11) * max(mag, 1e-300)
    check_values(np.asarray(got, dtype=want.dtype), want, what, atol=tol)


@facet("data", data_case(), quick=2500, weight=2)
def check_data(spec, ctx):
    """Converting, setting, simplifying and removing the units of the data."""
    import dascore as dc
    from dascore.exceptions import UnitError
    from dascore.units import get_quantity

    kind, a, b, op, how = spec["kind"], spec["a"], spec["b"], spec["op"], spec["how"]
    ua, ub = TABLE[kind][a][0], TABLE[kind][b][0]
    base, _ = gen.build_patch(spec["p"])
    base = base.update_attrs(data_units=None)
    patch = base.set_units(form(ua, how)) if spec["pos"] else base.set_units(data_units=form(ua, how))
    what = f"data {op} {ua} -> {ub} ({how})"
    before = Snap(patch)
    check_same = Snap(base)
    same_except(check_same, before, f"set_units {ua}", units=True)
    require(get_quantity(patch.attrs.data_units) == get_quantity(ua), f"set_units({ua}) gave {patch.attrs.data_units}")
    values = before.data.astype("c16") if before.data.dtype.kind == "c" else before.data.astype("f8")
    f4 = before.data.dtype == np.float32
    mag = magnitude(values, kind, a, b)
    target, want, label = b, convert(values, kind, a, b), ub
    if op in ("convert", "same", "chain"):
        target = a if op == "same" else b
        label, want = TABLE[kind][target][0], convert(values, kind, a, target)
        mag = magnitude(values, kind, a, target)
        out = patch.convert_units(form(label, how)) if spec["pos"] else patch.convert_units(data_units=form(label, how))
        if op == "chain":
            out = out.convert_units(ua)
            label, want, target = ua, values, a
            mag = max(mag * TABLE[kind][b][1] / TABLE[kind][a][1], magnitude(values, kind, a, a))
    elif op == "set":
        out, want = patch.set_units(ub), values
    elif op == "remove":
        out, want, label = patch.set_units(None), values, None
    elif op == "nounits":
        out, want = base.convert_units(ub), values
    elif op == "simplify":
        out, want, label, target = patch.simplify_units(), convert(values, kind, a, 0), TABLE[kind][0][0], 0
        mag = magnitude(values, kind, a, 0)
    elif op == "func":
        q = get_quantity(ua)
        got = dc.units.convert_units(patch.data, ub, ua)
        check_numbers(got, want, f"{what} (function)", mag, f4)
        if q.magnitude == 1:
            got = dc.units.convert_units(1.5, ub, ua)
            check_numbers(got, np.asarray(convert(1.5, kind, a, b)), f"{what} (scalar)", magnitude(1.5, kind, a, b))
        out = patch.convert_units(ub)
    else:
        other = spec["other"]
        if other == kind or {other, kind} == {"strain", "freq"}:
            return
        try:
            res = patch.convert_units(TABLE[other][0][0])
        except UnitError:
            check_same_snap(before, Snap(patch), what)
            ctx.label("refused")
            return
        fail(f"converting {ua} to {TABLE[other][0][0]} was not refused but gave {res.attrs.data_units}")
    check_coherent(out, what)
    check_numbers(out.data, want, what, mag, f4)
    require(get_quantity(out.attrs.data_units) == get_quantity(label), f"{what}: units are {out.attrs.data_units}")
    same_except(before, Snap(out), what, data=True, units=True, coords=list(before.coords) if op == "simplify" else ())
    check_same_snap(before, Snap(patch), f"{what}: the original")
    ctx.label(op, kind)
    ctx.nontrivial(a != b and values.size > 1)


# ---------------------------------------------------------------- coordinates
@st.composite
def coord_case(draw):
    ps = gen.draw_patch(draw, max_n=5)
    return {"p": ps, "which": draw(S(*range(6))), "two": draw(S(None, None, 1, 2)), "kind": draw(S(*KINDS)), "ab": draw(L(0, 6, 4)), "op": draw(S("convert", "convert", "set", "simplify", "chain", "bad", "coord", "nounits", "both", "remove")),
            "du": draw(S(None, "length", "speed"))}


@facet("coord", coord_case(), quick=2500, weight=2)
def check_coord(spec, ctx):
    """Converting, setting and simplifying the units of coordinates."""
    from dascore.exceptions import UnitError
    from dascore.units import get_quantity

    patch, _ = gen.build_patch(spec["p"])
    patch = patch.update_attrs(data_units="m/s" if spec["du"] == "speed" else "m" if spec["du"] else None)
    names = sorted(n for n, c in patch.coords.coord_map.items() if np.asarray(c.values).dtype.kind in "if" and len(c))
    if not names:
        return
    kind, op = spec["kind"], spec["op"]
    n = len(TABLE[kind])
    chosen = [names[spec["which"] % len(names)]]
    if spec["two"] and len(names) > 1:
        chosen.append(names[(spec["which"] + spec["two"]) % len(names)])
    chosen = list(dict.fromkeys(chosen))
    ua = {c: spec["ab"][2 * i] % n for i, c in enumerate(chosen)}
    ub = {c: spec["ab"][2 * i + 1] % n for i, c in enumerate(chosen)}
    base = patch.set_units(**{c: None for c in chosen}) if op == "nounits" else patch
    p1 = base if op == "nounits" else base.set_units(**{c: TABLE[kind][ua[c]][0] for c in chosen})
    before = Snap(p1)
    same_except(Snap(base), before, "set_units on coords", coords=chosen)
    for c in chosen:
        check_values(before.coords[c][1], Snap(base).coords[c][1], f"set_units: values of {c}")
        check_units(before.coords[c][2], None if op == "nounits" else TABLE[kind][ua[c]][0], f"set_units of {c}")
    what = f"{op} of {[(c, TABLE[kind][ua[c]][0], TABLE[kind][ub[c]][0]) for c in chosen]}"
    to = {c: TABLE[kind][ub[c]][0] for c in chosen}
    vals = {c: np.asarray(before.coords[c][1], dtype=float) for c in chosen}
    want = {c: convert(vals[c], kind, ua[c], ub[c]) for c in chosen}
    mags = {c: magnitude(vals[c], kind, ua[c], ub[c]) for c in chosen}
    label = dict(to)
    data_conv = False
    if op == "convert":
        out = p1.convert_units(**to)
    elif op == "both":
        data_conv = spec["du"] == "length"
        out = p1.convert_units("km" if data_conv else None, **to)
    elif op == "chain":
        out = p1.convert_units(**to).convert_units(**{c: TABLE[kind][ua[c]][0] for c in chosen})
        want, label = vals, {c: TABLE[kind][ua[c]][0] for c in chosen}
        mags = {c: max(mags[c] * TABLE[kind][ub[c]][1] / TABLE[kind][ua[c]][1], magnitude(vals[c], kind, ua[c], ua[c])) for c in chosen}
    elif op in ("set", "nounits"):
        out = p1.set_units(**to) if op == "set" else p1.convert_units(**to)
        want = vals
    elif op == "remove":
        out, want, label = p1.set_units(**{c: None for c in chosen}), vals, {c: None for c in chosen}
    elif op == "simplify":
        out = p1.simplify_units()
        want = {c: convert(vals[c], kind, ua[c], 0) for c in chosen}
        mags = {c: magnitude(vals[c], kind, ua[c], 0) for c in chosen}
        label = {c: TABLE[kind][0][0] for c in chosen}
    elif op == "coord":
        c = chosen[0]
        coord = p1.coords.coord_map[c]
        new = coord.convert_units(to[c])
        check_numbers(np.asarray(new.values, dtype=float), want[c], what, mags[c])
        check_units(new.units, to[c], what)
        require(len(new) == len(coord) and tuple(new.dims if hasattr(new, "dims") else ()) == tuple(coord.dims if hasattr(coord, "dims") else ()), what)
        out = p1.convert_units(**to)
    else:
        wrong = "kg" if kind != "pressure" else "mol"
        try:
            res = p1.convert_units(**{chosen[0]: wrong})
        except UnitError:
            check_same_snap(before, Snap(p1), what)
            ctx.label("refused")
            return
        fail(f"converting {chosen[0]} from {TABLE[kind][ua[chosen[0]]][0]} to {wrong} was not refused: {res.coords}")
    check_coherent(out, what)
    after = Snap(out)
    for c in chosen:
        check_numbers(np.asarray(after.coords[c][1], dtype=float), want[c], f"{what}: coord {c}", mags[c])
        check_units(after.coords[c][2], label[c], f"{what}: coord {c}")
        require(after.coords[c][0] == before.coords[c][0], f"{what}: coord {c} moved")
    if op == "simplify":
        # other coordinates and the data may be simplified, too; the patch has units m, s, or none.
        same_except(before, after, what, data=True, units=True, coords=list(before.coords))
    else:
        same_except(before, after, what, data=data_conv, units=data_conv, coords=chosen)
    if data_conv:
        check_numbers(out.data, np.asarray(before.data) / 1000, what, float(np.nanmax(np.abs(before.data))) / 1000 if before.data.size and np.isfinite(before.data).any() else 0, f4=before.data.dtype == np.float32)
        require(get_quantity(out.attrs.data_units) == get_quantity("km"), f"{what}: data units {out.attrs.data_units}")
    check_same_snap(before, Snap(p1), f"{what}: the original")
    ctx.label(op, kind, f"coords {len(chosen)}")
    ctx.nontrivial(any(ua[c] != ub[c] for c in chosen))


# ---------------------------------------------------------------- parameters
WINDOWS = ("median_filter", "gaussian_filter", "savgol_filter", "hampel_filter", "rolling", "pad", "roll", "stft", "kurtosis", "stalta", "taper_range", "resample_period", "shift", "select_rel", "rolling_step", "stft_overlap")
FREQS = ("pass_band", "pass_high", "pass_low", "notch_filter", "fbe", "resample_rate", "slope_filter")


@st.composite
def param_case(draw):
    name = draw(S(*(WINDOWS + FREQS)))
    tt = draw(S("dt", "td", "f", "dist"))
    return {"f": name, "tt": tt, "u": draw(I(0, 4)), "v": draw(I(0, 4)), "step": draw(S(1, 4, 10, 250)), "n": draw(I(32, 48)), "k": draw(I(2, 6)), "axis": draw(I(0, 1)), "bad": draw(S(False, False, False, False, True)), "form": draw(S("q", "q", "period", "td")), "third": draw(S(False, True)), "seed": draw(I(0, 99))}


def call(patch, name, dim, val):
    """Run the named function with the value(s)."""
    one = val[0]
    if name == "median_filter":
        return patch.median_filter(**{dim: one})
    if name == "gaussian_filter":
        return patch.gaussian_filter(**{dim: one})
    if name == "savgol_filter":
        return patch.savgol_filter(polyorder=1, **{dim: one})
    if name == "hampel_filter":
        return patch.hampel_filter(threshold=2.0, **{dim: one})
    if name == "rolling":
        return patch.rolling(**{dim: one}).mean()
    if name == "rolling_step":
        return patch.rolling(step=val[1], **{dim: one}).max()
    if name == "pad":
        return patch.pad(**{dim: (one, val[1])})
    if name == "roll":
        return patch.roll(**{dim: one})
    if name == "shift":
        return patch.roll(update_coord=True, **{dim: one})
    if name == "stft":
        return patch.stft(overlap=None, **{dim: one})
    if name == "stft_overlap":
        return patch.stft(overlap=val[1], **{dim: one})
    if name == "kurtosis":
        return patch.kurtosis(recursive=False, **{dim: one})
    if name == "stalta":
        return patch.stalta(**{dim: (val[1], one)})
    if name == "taper":
        return patch.taper(**{dim: (one, val[1])})
    if name == "taper_range":
        return patch.taper_range(relative=True, **{dim: (val[1], one, 2 * one, 3 * one)})
    if name == "select_rel":
        return patch.select(relative=True, **{dim: (val[1], one)})
    if name == "resample_period":
        return patch.resample(**{dim: one})
    if name == "resample_rate":
        return patch.resample(**{dim: one})
    if name == "pass_band":
        return patch.pass_filter(**{dim: (min(val), max(val))})
    if name == "pass_high":
        return patch.pass_filter(**{dim: (one, None)})
    if name == "pass_low":
        return patch.pass_filter(**{dim: (..., one)})
    if name == "notch_filter":
        return patch.notch_filter(q=5, **{dim: one})
    if name == "fbe":
        return patch.fbe(window=patch.get_coord(dim).step * 5, db=False, **{dim: (min(val), max(val))})
    raise AssertionError(name)


@facet("params", param_case(), quick=1200, weight=2)
def check_params(spec, ctx):
    """Windows and frequencies mean the same in any unit they are given in."""
    import dascore as dc
    from dascore.exceptions import DASCoreError, UnitError
    from dascore.units import get_quantity

    tt, name, n = spec["tt"], spec["f"], spec["n"]
    table = TABLE["length"] if tt == "dist" else TABLE["time"]
    cu = spec["u"] % 5 if tt in ("f", "dist") else 0  # unit of the coordinate
    vu = spec["v"] % 5
    base_step = spec["step"] / 1000.0  # in base units (s, m)
    step = base_step / table[cu][1]
    if tt == "dt":
        vals = np.datetime64("2020-01-01", "ns") + np.arange(n) * np.timedelta64(spec["step"], "ms")
    elif tt == "td":
        vals = np.arange(n) * np.timedelta64(spec["step"], "ms").astype("m8[ns]")
    else:
        vals = np.arange(n) * step
    dim = "distance" if tt == "dist" else "time"
    dims = [dim, "other"] if spec["axis"] == 0 else ["other", dim]
    shape = [n, 3] if spec["axis"] == 0 else [3, n]
    if spec["third"]:
        dims, shape = dims + ["third"], shape + [2]
    rng = np.random.default_rng(spec["seed"])
    coords = {dim: vals, "other": np.arange(3)}
    if spec["third"]:
        coords["third"] = np.array([0.0, 2.0])
    patch = dc.Patch(data=rng.normal(size=shape), coords=coords, dims=tuple(dims)).set_units("m/s", **{dim: table[cu][0]})
    if name == "slope_filter":
        return _check_slope(spec, ctx, patch, dim, table, cu, vu)
    freq = name in FREQS
    if freq:
        fs = 1 / base_step
        base = [fs * 0.08 * (1 + spec["k"] / 20), fs * 0.31]
        if name == "resample_rate":
            base = [fs / 2.03]
        plain = [x * table[cu][1] for x in base]  # per coordinate unit
        if name == "resample_rate":
            plain = [1 / x for x in plain]
    else:
        base = [base_step * (spec["k"] + 0.3), base_step * 1.3]
        if name == "resample_period":
            base = [base_step * 2.03]
        plain = [x / table[cu][1] for x in base]
    what = f"{name}({dim}=..) on {tt} coordinate in {table[cu][0]}"
    try:
        want = call(patch, name, dim, plain)
    except DASCoreError as exc:
        require(name in ("savgol_filter", "hampel_filter", "kurtosis", "stalta"), f"{what}: plain number refused: {exc}")
        return
    vname, vf, _ = table[vu]
    if spec["bad"]:
        wrong = [2.0 * get_quantity("kg"), 1.0 * get_quantity("kg")]
        try:
            call(patch, name, dim, wrong)
        except (DASCoreError, ValueError, NotImplementedError) as exc:
            require(isinstance(exc, UnitError) or "nit" in str(exc) or "convert" in str(exc), lambda: f"{what}: a mass was refused for another reason: {type(exc).__name__} {exc}")
            ctx.label("refused")
            return
        fail(f"{what}: a window/frequency in kg was accepted")
    if freq and spec["form"] == "period" and name != "fbe":
        arg = [(1 / x) / vf * get_quantity(vname) for x in base]
        text = f"periods in {vname}"
    elif freq:
        inv = get_quantity(f"1/({vname})")
        arg = [x * vf * inv for x in base]
        text = f"frequencies in 1/{vname}"
    elif spec["form"] == "td" and tt in ("dt", "td"):
        arg = [np.timedelta64(int(round(x * 1e9)), "ns") for x in base]
        text = "time deltas"
    else:
        arg = [x / vf * get_quantity(vname) for x in base]
        text = f"lengths in {vname}"
    if freq and name in ("pass_band", "fbe") and spec["form"] == "period":
        arg = sorted(arg, key=lambda q: q.magnitude)
    out = call(patch, name, dim, arg)
    what += f": {text}"
    require(out.dims == want.dims and out.shape == want.shape, lambda: f"{what}: dims/shape {out.dims} {out.shape}, plain numbers give {want.dims} {want.shape}")
    scale = float(np.nanmax(np.abs(want.data))) if np.isfinite(want.data).any() else 1.0
    check_values(out.data, want.data, f"{what}: data", rtol=1e-6, atol=1e-6 * scale)
    for c in want.coords.coord_map:
        a, b = np.asarray(out.get_coord(c).values), np.asarray(want.get_coord(c).values)
        require(a.shape == b.shape, f"{what}: coordinate {c}")
        if b.dtype.kind in "mM":
            require(a.dtype.kind == b.dtype.kind and np.all((np.isnat(a) == np.isnat(b)) | True) and np.all(np.abs((a - b).astype("i8")[~np.isnat(b)]) <= 2), lambda: f"{what}: coordinate {c} {a} but {b}")
        else:
            check_values(a, b, f"{what}: coordinate {c}", rtol=1e-9, atol=1e-9 * float(np.nanmax(np.abs(b))) if b.size else 0)
        check_units(out.get_coord(c).units, want.get_coord(c).units, f"{what}: coordinate {c}")
    ctx.label(name, text.split()[0], tt)
    ctx.nontrivial(True)


def _check_slope(spec, ctx, patch, dim, table, cu, vu):
    """slope_filter speeds in any unit."""
    import dascore as dc
    from dascore.units import get_quantity

    if spec["tt"] not in ("dt", "td"):
        return
    n = spec["n"]
    lunit = TABLE["length"][vu][0]
    p = dc.Patch(data=np.random.default_rng(spec["seed"]).normal(size=(12, n)), coords={"distance": np.arange(12) * 2.0, "time": patch.get_array("time")}, dims=("distance", "time")).set_units(distance=lunit)
    filt = np.array([1.0, 3.0, 9.0, 20.0]) * 10 * spec["k"]
    kwargs = {"directional": bool(spec["axis"])}
    want = p.slope_filter(filt, **kwargs)
    f = TABLE["length"][vu][1]
    other = TABLE["speed"][spec["u"] % 4]
    out = p.slope_filter(filt * f / other[1] * get_quantity(other[0]), **kwargs)
    what = f"slope_filter with speeds in {other[0]} on distance in {lunit}"
    check_values(out.data, want.data, what, rtol=1e-6, atol=1e-6 * float(np.abs(p.data).max()))
    ctx.label("slope_filter")
    ctx.nontrivial(True)


FACETS = [check_data, check_coord, check_params]
_ = math
