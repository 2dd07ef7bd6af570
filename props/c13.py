"""C13: concatenating and stacking patches keep every sample under its label."""
from __future__ import annotations

import copy
import warnings

import numpy as np
from hypothesis import strategies as st

from vlib import gen
from vlib.cmp import Snap, check_coherent, check_same_snap, check_units, check_values, fail, require
from vlib.core import facet
from vlib.gen import I, L, S

RULE = ("A case is a sequence of 1-6 patches derived from one (1-3 dims of every coordinate type, associated and free coordinates, units, float/int/float32/complex data) of which some differ: other labels "
        "or another length along the dimension, other labels or units along any dimension, other dimension order or names, other or missing associated coordinates, other attributes or dtypes; a dimension to "
        "concatenate (existing or new) with a group size, or to stack over; and every way of handling incompatible patches, as function or spool method. The oracle decides compatibility with the first patch "
        "from names, values and units and joins or sums plain arrays. Non-trivial = at least two compatible patches that are not equal, or an incompatible one.")
ASSUMPTIONS = [
    "Compatible means: equal dims, and every shared coordinate other than the dimension concerned has equal values and units (and, for stacking, the dimension has the same length).",
    "Attributes, including the data units, are not compared; the first patch of each group provides them.",
    "Patches with different dims may be refused by concatenate whatever was asked (documented by its tests).",
    "Coordinates depending on the concatenated dimension may be dropped, but not be wrong.",
    "The stacked dimension is relabelled from zero (documented).",
]


@st.composite
def group_case(draw, stack=False):
    ps = gen.draw_patch(draw, min_n=1, max_n=5, data=("float", "uniq", "int", "f4", "cplx"), extra_2d=True)
    names = [d[0] for d in ps["dims"]]
    dim = draw(S(*names))
    cs = dict(ps["dims"])[dim]
    types = (cs["t"],)
    vary = []
    for _ in range(draw(I(0, 5))):
        how = draw(S("same", "dim", "dim", "dim", "len", "len", "contiguous", "unit", "other", "order", "name", "extra", "gone", "attrs", "dtype"))
        v = {"how": how, "seed": draw(I(0, 50))}
        if how in ("dim", "len"):
            n = cs["n"] if how == "dim" else draw(I(1, 6))
            c = gen.draw_coord(draw, types=types, min_n=n, max_n=n)
            c["u"] = cs["u"]
            v["coord"] = c
        vary.append(v)
    return {"p": ps, "dim": dim, "vary": vary, "new": draw(S(None, None, "wave")), "val": draw(S(None, None, 1, 2, 3)), "check": draw(S("warn", None, "raise", "default")),
            "api": draw(S("func", "spool")), "which": draw(S(True, False))}


UNIT_SWAP = {"m": "ft", "ft": "m", "s": None, None: "m"}


def one_array(ps):
    """Single labels do not define a step, so do not declare one either."""
    for _, c in ps["dims"]:
        if c["n"] == 1 and "form" in c:
            c["form"] = "array"
    return ps


def make(spec):
    """[(patch, model)] of a case."""
    out = []
    base = one_array(spec["p"])
    dim = spec["dim"]
    out.append(gen.build_patch(base))
    for v in spec["vary"]:
        ps = copy.deepcopy(base)
        how = v["how"]
        ps["data"]["seed"] = v["seed"] + 1000
        cs = dict(ps["dims"])
        if how in ("dim", "len"):
            cs[dim].clear()
            cs[dim].update(v["coord"])
        elif how == "contiguous" and cs[dim]["k"] == "even":
            cs[dim]["start"] += cs[dim]["n"] * cs[dim]["step"] * (-1 if cs[dim]["rev"] else 1)
        elif how == "unit":
            d = list(cs)[v["seed"] % len(cs)]
            if cs[d]["t"] in ("f", "i"):
                cs[d]["u"] = UNIT_SWAP.get(cs[d]["u"], "m")
        elif how == "other":
            d = [x for x in cs if x != dim]
            if d:
                d = d[v["seed"] % len(d)]
                if cs[d]["k"] in ("even", "mono"):
                    cs[d]["start"] += 1 + v["seed"] % 3
                elif cs[d]["n"] > 1:
                    cs[d]["scale"] = cs[d]["scale"] * 2
        elif how == "name":
            i = v["seed"] % len(ps["dims"])
            old = ps["dims"][i][0]
            ps["dims"][i][0] = "other"
            for e in ps["extra"]:
                e["dims"] = ["other" if x == old else x for x in e["dims"]]
        elif how == "extra" and ps["extra"]:
            e = ps["extra"][v["seed"] % len(ps["extra"])]
            e["seed"] += 1
        elif how == "gone" and ps["extra"]:
            ps["extra"].pop(v["seed"] % len(ps["extra"]))
        elif how == "attrs":
            ps["attrs"] = dict(ps.get("attrs") or {}, tag="other", history=["did(something)"])
        elif how == "dtype":
            ps["data"]["k"] = "int" if ps["data"]["k"] != "int" else "float"
        one_array(ps)
        p, m = gen.build_patch(ps)
        if how == "order" and p.ndim > 1:
            p, m = p.transpose(*p.dims[::-1]), m.transpose(m.dims[::-1])
        out.append((p, m))
    return out


def same_coord(a, b):
    """Whether two (dims, values, units) are the same."""
    (d1, v1, u1), (d2, v2, u2) = a, b
    if tuple(d1) != tuple(d2) or v1.shape != v2.shape or v1.dtype.kind != v2.dtype.kind or u1 != u2:
        return False
    return bool(np.array_equal(v1, v2))


def compatible(first, model, ignore, shape=False):
    if first.dims != model.dims:
        return False
    for n in set(first.coords) & set(model.coords):
        a, b = first.coords[n], model.coords[n]
        if n == ignore:
            if a[2] != b[2] or (shape and a[1].shape != b[1].shape):
                return False
            continue
        if not same_coord(a, b):
            return False
    return True


def run(call, behaviour, bad, refuse, what):
    """Call and check how incompatible patches are handled; None if refused."""
    from dascore.exceptions import IncompatiblePatchError, PatchCoordinateError

    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        try:
            out = call()
        except (IncompatiblePatchError, PatchCoordinateError) as e:
            require(bad and (behaviour == "raise" or refuse), f"{what}: refused with {e!r}")
            require(refuse or isinstance(e, IncompatiblePatchError), f"{what}: refused with {e!r}")
            return None
    if bad and behaviour == "raise":
        fail(f"{what}: an incompatible patch was not refused")
    warned = [w for w in rec if issubclass(w.category, UserWarning) and "ompatible" in str(w.message)]
    require(bool(warned) == (bad and behaviour == "warn"), f"{what}: {len(warned)} warnings")
    return out


def check_meta(out, first, before, what, name):
    a, b = before.attrs, Snap(out).attrs
    for k in a:
        if k not in ("history", "coords", "dims"):
            require(str(a[k]) == str(b.get(k)), f"{what}: attribute {k} is {b.get(k)!r} but was {a[k]!r}")
    h0, h1 = list(first.attrs.history), list(out.attrs.history)
    require(h1[:-1] == h0 and h1[-1].startswith(name), f"{what}: history {h1} after {h0}")


@facet("concatenate", group_case(), quick=2500, weight=2)
def check_concatenate(spec, ctx):
    """Concatenating keeps the samples and labels of all compatible patches in order."""
    import dascore as dc
    from dascore.utils.patch import concatenate_patches

    pairs = make(spec)
    snaps = [Snap(p) for p, _ in pairs]
    new = spec["new"]
    dim = new or spec["dim"]
    first = pairs[0][1]
    good = [i for i, (_, m) in enumerate(pairs) if compatible(first, m, None if new else dim)]
    bad = len(good) < len(pairs)
    refuse = any(m.dims != first.dims for _, m in pairs)
    kw = {} if spec["check"] == "default" else {"check_behavior": spec["check"]}
    behaviour = kw.get("check_behavior", "warn")
    patches = [p for p, _ in pairs]
    what = f"concatenate({dim}={spec['val']}, {kw}) of {len(patches)} patches {[v['how'] for v in spec['vary']]} {first.dims}"
    if spec["api"] == "spool":
        out = run(lambda: list(dc.spool(patches).concatenate(**kw, **{dim: spec["val"]})), behaviour, bad, refuse, what)
    else:
        out = run(lambda: concatenate_patches(patches, **kw, **{dim: spec["val"]}), behaviour, bad, refuse, what)
    for p, s in zip(patches, snaps):
        check_same_snap(s, Snap(p), f"{what}: an input")
    ctx.label("new" if new else "existing", str(behaviour), "incompatible" if bad else "compatible", str(spec["val"]))
    ctx.nontrivial(len(good) > 1 or bad)
    if out is None:
        return
    size = spec["val"] or len(good)
    groups = [good[i: i + size] for i in range(0, len(good), size)]
    require(len(out) == len(groups), f"{what}: {len(out)} patches but expected {len(groups)}")
    for o, g in zip(out, groups):
        check_coherent(o, what)
        ms = [pairs[i][1] for i in g]
        dims = first.dims + ((new,) if new else ())
        require(o.dims == dims, f"{what}: dims {o.dims}")
        if new:
            want = np.stack([m.data for m in ms], axis=-1)
            require(len(o.get_coord(new)) == len(g), f"{what}: {new}")
        else:
            ax = first.dims.index(dim)
            want = np.concatenate([m.data for m in ms], axis=ax)
            labels = np.concatenate([m.coords[dim][1] for m in ms])
            check_values(np.asarray(o.get_array(dim)), labels, f"{what}: labels", atol=1e-9 * float(np.abs(labels).max()) if labels.dtype.kind == "f" else 0)
            check_units(o.get_coord(dim).units, ms[0].coords[dim][2], f"{what}: units of {dim}")
        check_values(np.asarray(o.data), want, f"{what}: data")
        require(o.data.dtype == want.dtype, f"{what}: dtype {o.data.dtype}")
        for n, (cd, vals, u) in ms[0].coords.items():
            if n == dim:
                continue
            if dim not in cd:
                require(n in o.coords.coord_map, f"{what}: coordinate {n} of {cd} was lost")
            elif n in o.coords.coord_map:
                vals = np.concatenate([m.coords[n][1] for m in ms], axis=cd.index(dim)) if all(n in m.coords for m in ms) else None
                require(vals is not None, f"{what}: coordinate {n} is not in all patches")
            else:
                continue
            check_values(np.asarray(o.get_array(n)), vals, f"{what}: coord {n}", atol=1e-9 * float(np.abs(vals).max()) if vals.dtype.kind == "f" else 0)
            check_units(o.get_coord(n).units, u, f"{what}: coord {n}")
        check_meta(o, patches[g[0]], snaps[g[0]], what, "concatenate")


@facet("stack", group_case(), quick=2500, weight=2)
def check_stack(spec, ctx):
    """Stacking sums all compatible patches."""
    import dascore as dc
    from dascore.utils.patch import stack_patches

    pairs = make(spec)
    snaps = [Snap(p) for p, _ in pairs]
    first = pairs[0][1]
    dim = spec["dim"] if spec["which"] else None
    good = [i for i, (_, m) in enumerate(pairs) if compatible(first, m, dim, shape=True)]
    bad = len(good) < len(pairs)
    kw = {} if spec["check"] == "default" else {"check_behavior": spec["check"]}
    behaviour = kw.get("check_behavior", "warn")
    if dim:
        kw["dim_vary"] = dim
    patches = [p for p, _ in pairs]
    what = f"stack({kw}) of {len(patches)} patches {[v['how'] for v in spec['vary']]} {first.dims}"
    out = run(lambda: dc.spool(patches).stack(**kw) if spec["api"] == "spool" else stack_patches(patches, **kw), behaviour, bad, False, what)
    for p, s in zip(patches, snaps):
        check_same_snap(s, Snap(p), f"{what}: an input")
    ctx.label("vary" if dim else "equal", str(behaviour), "incompatible" if bad else "compatible")
    ctx.nontrivial(len(good) > 1 or bad)
    if out is None:
        return
    check_coherent(out, what)
    require(out.dims == first.dims, f"{what}: dims {out.dims}")
    want = sum(pairs[i][1].data for i in good[1:]) + first.data if len(good) > 1 else first.data
    check_values(np.asarray(out.data), want, f"{what}: data", atol=(1e-5 if any(p.data.dtype == np.float32 for p in patches) else 1e-12) * float(np.abs(want).max()))
    require(out.data.dtype == want.dtype, f"{what}: dtype {out.data.dtype}")
    for n, (cd, vals, u) in first.coords.items():
        require(n in out.coords.coord_map and out.coords.dim_map[n] == tuple(cd), f"{what}: coordinate {n} of {cd} was lost")
        got = np.asarray(out.get_array(n))
        if n == dim:
            ref = vals - vals.min()
            zero = got.min()
            require(zero.astype("i8") == 0 if got.dtype.kind in "mM" else abs(zero) <= 1e-9 * float(np.abs(vals).max() + 1), f"{what}: {n} starts at {zero}")
            got = got - zero
            vals = ref
        check_values(got, vals, f"{what}: coord {n}", atol=1e-9 * (float(np.abs(vals).max()) + float(np.abs(first.coords[n][1]).max())) if vals.dtype.kind == "f" else 0)
        check_units(out.get_coord(n).units, u, f"{what}: coord {n}")
    check_meta(out, patches[0], snaps[0], what, "stack")


_ = L
FACETS = [check_concatenate, check_stack]
