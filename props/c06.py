"""C06: editing coordinates or attributes changes only what was asked."""
from __future__ import annotations

import numpy as np
from hypothesis import strategies as st

from vlib import gen
from vlib.cmp import Snap, attrs_equal, check_coherent, check_coord_values, check_patch_model, check_same_snap, check_units, check_values, require
from vlib.core import facet
from vlib.gen import I, S

RULE = ("A case is a patch (1-3 dims, up to 3 extra coordinates, random attributes) plus one or more edits of coordinates or attributes; "
        "non-trivial = the edit changes something, or is an inconsistent request that must be refused.")
ASSUMPTIONS = [
    "Setting <dim>_min or <dim>_max translates the coordinate (documented); giving both at once is excluded.",
    "Editing a dimension to another length is refused because the data no longer fit.",
]


def plain_attrs(patch):
    d = patch.attrs.model_dump()
    for k in ("coords", "dims", "history"):
        d.pop(k, None)
    return d


def check_attrs(patch, want, what):
    got = plain_attrs(patch)
    require(attrs_equal(got, want), lambda: f"{what}: attributes {got} expected {want}")


# ---------------------------------------------------------------- update_coords
@st.composite
def upd_case(draw):
    ps = gen.draw_patch(draw, kinds=("even", "mono", "arr", "dup"), max_n=5)
    size = {n: c["n"] for n, c in ps["dims"]}
    dims = list(size)
    edits = []
    used = set()
    for _ in range(draw(I(1, 3))):
        kind = draw(S("dim", "dim", "add", "add2d", "free", "replace", "drop", "units"))
        if kind == "dim":
            d = draw(S(*dims))
            if d in used:
                continue
            used.add(d)
            tt = gen.NAME_TYPES[d] if draw(st.booleans()) else ("f", "i", "dt")
            edits.append([kind, d, gen.draw_coord(draw, types=tt, kinds=("even", "mono", "arr", "dup"), n=size[d]), draw(S("array", "coord", "tuple", "list"))])
        elif kind in ("add", "add2d", "free"):
            nm = f"new{len(edits)}"
            cd = [] if kind == "free" else list(draw(gen.PERM(*dims)))[: 2 if kind == "add2d" else 1]
            edits.append(["add", nm, {"dims": cd, "t": draw(S("f", "i", "dt", "td")) if len(cd) < 2 else "f", "u": draw(S(None, "m")), "scale": 1,
                                      "epoch": 0, "seed": draw(I(0, 99)), "mode": "uniq", "n": draw(I(1, 4))}, draw(S("array", "coord"))])
        else:
            ex = [e for e in ps["extra"] if e["name"] not in used and (kind != "units" or e["t"] in "fi")]
            if not ex:
                continue
            e = draw(S(*range(len(ex))))
            e = ex[e]
            used.add(e["name"])
            if kind == "drop":
                edits.append(["drop", e["name"], None, ""])
            elif kind == "replace":
                cd = [] if draw(I(0, 3)) == 0 else list(draw(gen.PERM(*dims)))[: draw(S(1, 1, 2))]
                edits.append(["add", e["name"], {"dims": cd, "t": "f", "u": draw(S(None, "km")), "scale": 2, "epoch": 0, "seed": draw(I(0, 99)), "mode": "uniq", "n": draw(I(1, 4))}, "array"])
            else:
                edits.append(["units", e["name"], draw(S("ft", "kg", "1/s")), ""])
    return {"p": ps, "edits": edits, "cm": draw(S(False, False, True))}


@facet("update_coords", upd_case(), quick=3000, weight=2)
def check_update(spec, ctx):
    """update_coords replaces/adds/re-attaches/drops exactly the named coordinates."""
    from dascore.core import get_coord

    patch, model = gen.build_patch(spec["p"])
    before = Snap(patch)
    attrs0 = plain_attrs(patch)
    kw = {}
    exp = model.copy()
    size = dict(zip(model.dims, model.data.shape))
    units = {}
    for kind, nm, arg, form in spec["edits"]:
        if kind == "dim":
            vals = gen.coord_values(arg)
            u = arg.get("u")
            if form == "coord":
                kw[nm] = gen.build_coord(arg)
            elif form == "tuple":
                kw[nm] = (nm, get_coord(data=vals, units=u))
            else:
                kw[nm] = vals.tolist() if form == "list" and vals.dtype.kind in "if" else vals
                u = "?"
            exp.coords[nm] = ((nm,), vals, u)
        elif kind == "add":
            shp = tuple(size[d] for d in arg["dims"]) if arg["dims"] else (arg["n"],)
            vals = gen.extra_values(arg, shp)
            u = "s" if arg["t"] in ("dt", "td") else arg["u"]
            if form == "coord":
                val = get_coord(data=vals, units=u)
            else:
                val, u = vals, "?"
            dd = tuple(arg["dims"])
            kw[nm] = ((dd[0] if len(dd) == 1 and arg["seed"] % 2 else dd) if dd else None, val)
            exp.coords[nm] = (dd, vals, u)
        elif kind == "drop":
            kw[nm] = None
            exp.coords.pop(nm)
        elif kind == "units":
            units[nm] = arg
            d, v, _ = exp.coords[nm]
            exp.coords[nm] = (d, v, arg)
    if not kw and not units:
        return
    out = patch
    if kw:
        out = patch.update(coords=patch.coords.update(**kw)) if spec["cm"] else patch.update_coords(**kw)
    if units:
        out = out.set_units(**units)
    what = f"update_coords({list(kw)}) set_units({units})"
    check_patch_model(out, exp, what, check_units_=False)
    for nm, (_, _, u) in exp.coords.items():
        if u != "?":
            check_units(out.coords.coord_map[nm].units, u, f"{what}: {nm}")
    check_attrs(out, attrs0, what)
    check_same_snap(before, Snap(patch), "input of " + what)
    ctx.nontrivial()
    ctx.label(*[e[0] for e in spec["edits"]], "multi" if len(spec["edits"]) > 1 else "one")


# ---------------------------------------------------------------- limits
@st.composite
def lim_case(draw):
    ps = gen.draw_patch(draw, kinds=("even", "even", "mono"), max_n=5, min_n=2, units=False)
    edits = []
    for nm, cs in ps["dims"]:
        k = draw(S("", "min", "max", "step", "min+step", "max+step"))
        if cs["k"] != "even" and "step" in k:
            k = "min"
        if k:
            edits.append([nm, k, draw(I(-40, 40)), draw(I(1, 5))])
    return {"p": ps, "edits": edits, "via": draw(S("coords", "attrs", "coord_obj"))}


@facet("limits", lim_case(), quick=2500, weight=2)
def check_limits(spec, ctx):
    """<dim>_min / <dim>_max / <dim>_step edits move or re-space that dimension only."""
    patch, model = gen.build_patch(spec["p"])
    attrs0 = plain_attrs(patch)
    css = dict(spec["p"]["dims"])
    exp = model.copy()
    kw, coords = {}, {}
    for nm, k, shift, newstep in spec["edits"]:
        cs = css[nm]
        ints = gen.coord_ints(cs)
        sgn = -1 if cs.get("rev") else 1
        edit = {}
        if "+" in k and shift in (ints.min(), ints.max()):
            shift += 7 * newstep  # a limit equal to the current one counts as "not edited" in attrs
            shift += 1 if shift in (ints.min(), ints.max()) else 0
        if "step" in k:
            ints = ints[0] + sgn * newstep * np.arange(len(ints))
            stepv = sgn * newstep * cs["scale"]
            edit["step"] = np.timedelta64(int(stepv), "ns") if cs["t"] in ("dt", "td") else (float(stepv) if cs["t"] == "f" else int(stepv))
        if "min" in k:
            ints = ints - ints.min() + shift
            edit["min"] = gen.ints_to_values(cs, np.array([shift]))[0]
        elif "max" in k:
            ints = ints - ints.max() + shift
            edit["max"] = gen.ints_to_values(cs, np.array([shift]))[0]
        exp.coords[nm] = ((nm,), gen.ints_to_values(cs, ints), cs["u"])
        for a, b in edit.items():
            kw[f"{nm}_{a}"] = b
        coords[nm] = patch.get_coord(nm).update(**edit)
    if not kw:
        return
    if spec["via"] == "coords":
        out = patch.update_coords(**kw)
    elif spec["via"] == "attrs":
        out = patch.update_attrs(**kw)
    else:
        out = patch.update_coords(**coords)
    what = f"edit {kw} via {spec['via']}"
    check_patch_model(out, exp, what)
    check_attrs(out, attrs0, what)
    ctx.nontrivial()
    ctx.label(spec["via"], *[e[1] for e in spec["edits"]])


# ---------------------------------------------------------------- attrs
ATTR_EDITS = {
    "tag": ["", "new tag", "z"], "station": ["", "Q"], "network": ["N1", ""], "data_units": ["m", "strain/s", None],
    "data_type": ["velocity", "strain", ""], "data_category": ["DAS", "DTS", ""], "instrument_id": ["I9", ""], "acquisition_id": ["exp1", ""],
    "custom": ["x", 3, 2.5], "brand_new": ["v", 10, [1, 2]], "gauge_length": [5, 7.25], "pulse_width_thing": ["a", 1.0], "history": [["a"], []],
}


@st.composite
def attr_case(draw):
    ps = gen.draw_patch(draw, max_n=4, kinds=("even", "mono", "arr"))
    ed = {}
    for _ in range(draw(I(1, 4))):
        k = draw(S(*ATTR_EDITS))
        ed[k] = ATTR_EDITS[k][draw(I(0, len(ATTR_EDITS[k]) - 1))]
    return {"p": ps, "edits": ed, "via": draw(S("update_attrs", "update_attrs", "new", "attrs.update"))}


@facet("attrs", attr_case(), quick=2000)
def check_attr(spec, ctx):
    """update_attrs sets exactly the named attributes."""
    from dascore.units import get_quantity

    patch, model = gen.build_patch(spec["p"])
    before = Snap(patch)
    ed = spec["edits"]
    if spec["via"] == "update_attrs":
        out = patch.update_attrs(**ed)
    elif spec["via"] == "new":
        out = patch.update(attrs={**dict(patch.attrs), **ed})
    else:
        out = patch.update(attrs=patch.attrs.update(**ed))
    what = f"{spec['via']}({ed})"
    want = dict(before.attrs)
    want.update(ed)
    got = out.attrs.model_dump()
    require(set(got) == set(want), lambda: f"{what}: attribute names {sorted(got)} expected {sorted(want)}")
    for k, v in want.items():
        if k in ("coords",):
            require(attrs_equal(got[k], before.attrs[k]), lambda: f"{what}: coords summary {got[k]} was {before.attrs[k]}")
            continue
        g = got[k]
        if k == "data_units":
            require(get_quantity(g) == get_quantity(v), lambda: f"{what}: data_units {g!r} expected {v!r}")
        elif k == "history":
            require(list([g] if isinstance(g, str) else g) == list(v), lambda: f"{what}: history {g!r} expected {v!r}")
        else:
            require(attrs_equal(g, v), lambda: f"{what}: {k} is {g!r} expected {v!r}")
    check_patch_model(out, model, what)
    require(out.data.dtype == patch.data.dtype, lambda: f"{what}: dtype changed")
    check_same_snap(before, Snap(patch), "input of " + what)
    ctx.nontrivial(any(not attrs_equal(before.attrs.get(k), v) for k, v in ed.items()))
    ctx.label(spec["via"], *ed)


# ---------------------------------------------------------------- rename
@st.composite
def ren_case(draw):
    ps = gen.draw_patch(draw, kinds=("even", "mono", "arr"), max_n=4)
    names = [n for n, _ in ps["dims"]] + [e["name"] for e in ps["extra"]]
    k = draw(I(1, len(names)))
    old = list(draw(gen.PERM(*names)))[:k]
    new = list(draw(gen.PERM(*(names + ["money", "gold", "_priv"]))))[:k]
    return {"p": ps, "map": dict(zip(old, new))}


@facet("rename", ren_case(), quick=1200)
def check_rename(spec, ctx):
    """rename_coords renames exactly those coordinates (also swaps); collisions are refused."""
    patch, model = gen.build_patch(spec["p"])
    before = Snap(patch)
    attrs0 = plain_attrs(patch)
    mp = spec["map"]
    final = [mp.get(n, n) for n in model.coords]
    what = f"rename_coords({mp})"
    if len(set(final)) != len(final):
        try:
            out = patch.rename_coords(**mp)
        except Exception:  # noqa: BLE001
            check_same_snap(before, Snap(patch), "input of " + what)
            ctx.nontrivial()
            ctx.label("collision")
            return
        require(False, f"{what} accepted though two coordinates get the same name: {list(out.coords.coord_map)}")
    out = patch.rename_coords(**mp)
    exp = gen.Model(tuple(mp.get(d, d) for d in model.dims), model.data,
                    {mp.get(k, k): (tuple(mp.get(d, d) for d in cd), v, u) for k, (cd, v, u) in model.coords.items()})
    check_patch_model(out, exp, what)
    check_attrs(out, attrs0, what)
    ctx.nontrivial(any(k != v for k, v in mp.items()))
    ctx.label("swap" if set(mp) & set(mp.values()) else "new")


# ---------------------------------------------------------------- drop / free / private / df / distance
@st.composite
def misc_case(draw):
    ps = gen.draw_patch(draw, kinds=("even", "mono", "arr"), max_n=5)
    return {"p": ps, "how": draw(S("drop", "drop", "private", "df", "dfx", "dist", "full", "disassociate")), "r": draw(I(0, 10_000))}


@facet("other_edits", misc_case(), quick=1500)
def check_misc(spec, ctx):
    """drop_coords, drop_private_coords, coords_from_df, add_distance_to, full."""
    import pandas as pd

    patch, model = gen.build_patch(spec["p"])
    before = Snap(patch)
    attrs0 = plain_attrs(patch)
    rng = np.random.default_rng(spec["r"])
    how = spec["how"]
    extras = [k for k in model.coords if k not in model.dims]
    exp = model.copy()
    if how == "drop":
        if not extras:
            return
        gone = [e for e in extras if rng.random() < 0.6] or extras[:1]
        out = patch.drop_coords(*gone)
        for g in gone:
            exp.coords.pop(g)
        what = f"drop_coords({gone})"
    elif how == "private":
        base = patch.update_coords(_p1=(model.dims[0], np.arange(model.data.shape[0])), _p2=(None, np.arange(3)))
        out = base.drop_private_coords()
        what = "drop_private_coords"
    elif how in ("df", "dfx"):
        dims = [d for d in model.dims if model.coords[d][1].dtype.kind in "fi"]
        if not dims:
            return
        d = dims[int(rng.integers(len(dims)))]
        vals = model.coords[d][1].astype(float)
        k = int(rng.integers(2, 6))
        anchors = np.sort(rng.choice(np.arange(-20, 40), size=k, replace=False)) * float(np.ptp(vals) or 1) / 10 + vals.min()
        a, b = rng.integers(-5, 5, k).astype(float), rng.integers(-50, 50, k).astype(float)
        out = patch.coords_from_df(pd.DataFrame({d: anchors, "aa": a, "bb": b}), extrapolate=how == "dfx")
        own = patch.get_array(d).astype(float)
        for nm, y in (("aa", a), ("bb", b)):
            v = np.interp(own, anchors, y, left=np.nan, right=np.nan)
            if how == "dfx":
                lo, hi = own < anchors[0], own > anchors[-1]
                v[lo] = y[0] + (own[lo] - anchors[0]) * (y[1] - y[0]) / (anchors[1] - anchors[0])
                v[hi] = y[-1] + (own[hi] - anchors[-1]) * (y[-1] - y[-2]) / (anchors[-1] - anchors[-2])
            if np.any(np.min(np.abs(own - anchors[[0, -1]][:, None]), axis=0) < 1e-9 * (1 + np.abs(own))):
                v = None  # on the very edge of the table: either side is fine
            if v is None:
                v = out.get_array(nm)
            got = out.get_array(nm)
            check_values(got, v, f"coords_from_df {nm}", rtol=1e-7, atol=1e-6)
            exp.coords[nm] = ((d,), got, None)
        what = "coords_from_df"
    elif how == "dist":
        d = model.dims[int(rng.integers(len(model.dims)))]
        n = model.data.shape[model.axis(d)]
        xyz = {c: rng.integers(-9, 9, n) * 0.5 for c in ("x", "y", "z")}
        base = patch.update_coords(**{k: (d, v) for k, v in xyz.items()})
        org = pd.Series({"x": 1.0, "z": -2.0, "y": 0.5})
        out = base.add_distance_to(org)
        dist = np.sqrt((xyz["x"] - 1.0) ** 2 + (xyz["y"] - 0.5) ** 2 + (xyz["z"] + 2.0) ** 2)
        for k, v in xyz.items():
            exp.coords[k] = ((d,), v, None)
            exp.coords[f"origin_{k}"] = ((), np.array([org[k]]), None)
        exp.coords["origin_distance"] = ((d,), dist, None)
        what = "add_distance_to"
    elif how == "full":
        out = patch.full(2.5)
        exp = gen.Model(model.dims, np.full(model.data.shape, 2.5), model.coords)
        check_patch_model(out, exp, "full")
        ctx.nontrivial()
        return
    else:
        cand = [k for k in extras if model.coords[k][0]]
        if not cand:
            return
        nm = cand[0]
        cm = patch.coords.disassociate_coord(nm)
        out = patch.update(coords=cm)
        exp.coords[nm] = ((), exp.coords[nm][1], exp.coords[nm][2])
        what = f"disassociate {nm}"
    check_patch_model(out, exp, what)
    check_attrs(out, attrs0, what)
    check_same_snap(before, Snap(patch), "input of " + what)
    ctx.nontrivial()
    ctx.label(how)


# ---------------------------------------------------------------- refused
@st.composite
def bad_case(draw):
    return {"p": gen.draw_patch(draw, max_n=5, kinds=("even", "mono", "arr")), "r": draw(I(0, 999)),
            "how": draw(S("dim_len", "extra_len", "bad_dim", "dim_reattach", "dim_none", "unattached", "rename_unknown", "drop_dim", "set_dims_unknown",
                          "set_dims_other", "2d_shape", "data_shape", "units_unknown", "minmaxstep", "dims_twice", "order_unknown", "squeeze_long", "transpose_bad"))}


@facet("refused", bad_case(), quick=1200)
def check_refused(spec, ctx):
    """inconsistent requests raise and leave the patch as it was."""
    import dascore as dc

    patch, model = gen.build_patch(spec["p"])
    before = Snap(patch)
    rng = np.random.default_rng(spec["r"])
    d = model.dims[int(rng.integers(len(model.dims)))]
    n = model.data.shape[model.axis(d)]
    m = n + 1 if rng.random() < 0.5 or n == 1 else n - 1
    how = spec["how"]
    calls = {
        "dim_len": lambda: patch.update_coords(**{d: np.arange(m) * 1.5}),
        "extra_len": lambda: patch.update_coords(zz=(d, np.arange(m) * 1.5)),
        "bad_dim": lambda: patch.update_coords(zz=("nodim", np.arange(n))),
        "dim_reattach": lambda: patch.update_coords(**{d: (next(x for x in model.dims if x != d), np.arange(n))}),
        "dim_none": lambda: patch.update_coords(**{d: None}),
        "unattached": lambda: patch.update_coords(zz=np.arange(n)),
        "rename_unknown": lambda: patch.rename_coords(nothere="abc"),
        "drop_dim": lambda: patch.drop_coords(d),
        "set_dims_unknown": lambda: patch.set_dims(**{d: "nothere"}),
        "set_dims_other": lambda: patch.update_coords(zz=(d, np.arange(n))).set_dims(**{next(x for x in model.dims if x != d): "zz"}),
        "2d_shape": lambda: patch.update_coords(zz=(model.dims[:2], np.zeros((model.data.shape[0] + 1, model.data.shape[1])))),
        "data_shape": lambda: patch.update(data=np.zeros((*model.data.shape[:-1], model.data.shape[-1] + 1))),
        "units_unknown": lambda: patch.set_units(nothere="m"),
        "minmaxstep": lambda: patch.update_coords(**{f"{d}_min": model.coords[d][1][0], f"{d}_max": model.coords[d][1][0], f"{d}_step": 1}),
        "dims_twice": lambda: dc.Patch(data=np.zeros((2, 2)), dims=("a", "a"), coords={"a": [1, 2]}),
        "order_unknown": lambda: patch.order(nothere=np.array([1, 2])),
        "squeeze_long": lambda: patch.squeeze(d),
        "transpose_bad": lambda: patch.transpose(d, "nothere"),
    }
    if how in ("dim_reattach", "set_dims_other", "2d_shape") and len(model.dims) < 2:
        return
    if how == "squeeze_long" and n == 1:
        return
    if how in ("order_unknown", "minmaxstep", "dims_twice"):  # documented elsewhere / not promised
        return
    try:
        out = calls[how]()
    except Exception:  # noqa: BLE001
        check_same_snap(before, Snap(patch), f"patch after refused {how}")
        check_coherent(patch)
        ctx.nontrivial()
        ctx.label(how)
        return
    require(False, f"inconsistent request {how} on {d} (length {n}) was accepted: dims {out.dims} shape {out.shape} coords {list(out.coords.coord_map)}")


FACETS = [check_update, check_limits, check_attr, check_rename, check_misc, check_refused]
