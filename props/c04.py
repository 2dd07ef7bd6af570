"""C04: reordering and reshaping never separate a sample from its labels."""
from __future__ import annotations

import numpy as np
from hypothesis import strategies as st

from vlib import gen
from vlib.cmp import Snap, check_coherent, check_coord_values, check_patch_model, check_same_snap, check_units, check_values, fail, require
from vlib.core import facet
from vlib.gen import I, S

RULE = ("A case is a patch (1-3 dims of mixed kinds and types, extra 0/1/2-D coordinates, mostly with data values that identify each "
        "sample) plus one rearranging call or a chain of them; non-trivial = the oracle result has its samples in another order, "
        "position or shape than the input.")
ASSUMPTIONS = [
    "When labels tie, any order among the tied samples is accepted, as long as each keeps its own labels.",
    "Rolling without update_coord and flipping with flip_coords=False move data against labels by documented request.",
]
KINDS = ("even", "mono", "arr", "dup", "dupmono")


def as_key(v):
    v = np.asarray(v)
    return v.astype(np.int64) if v.dtype.kind in "mM" else v


def by_unique(out, model, dim, what):
    """Index array along dim deduced from the unique data values."""
    ax = model.axis(dim)
    require(tuple(out.dims) == model.dims, lambda: f"{what}: dims {out.dims} expected {model.dims}")
    first = np.moveaxis(model.data, ax, 0).reshape(model.data.shape[ax], -1)[:, 0]
    require(out.data.ndim == model.data.ndim, lambda: f"{what}: data ndim {out.data.ndim}")
    got = np.moveaxis(np.asarray(out.data), ax, 0).reshape(out.data.shape[ax], -1)[:, 0]
    pos = {float(v): i for i, v in enumerate(first)}
    try:
        return [pos[float(v)] for v in got]
    except KeyError as exc:
        fail(f"{what}: value {exc} does not belong at this position; data {np.asarray(out.data).tolist()} from {model.data.tolist()}")


# ------------------------------------------------------------------ sort
@st.composite
def sort_case(draw):
    ps = gen.draw_patch(draw, kinds=KINDS, max_n=6, data=("uniq",))
    names = [n for n, _ in ps["dims"]]
    pool = [[n] for n in names] + [[e["name"]] for e in ps["extra"] if len(e["dims"]) == 1] + [[], names]
    return {"p": ps, "names": pool[draw(I(0, len(pool) - 1))], "rev": draw(st.booleans())}


@facet("sort", sort_case(), quick=2500, weight=2)
def check_sort(spec, ctx):
    """sort_coords: labels sorted as asked, every sample under its own labels."""
    patch, model = gen.build_patch(spec["p"])
    before = Snap(patch)
    names = spec["names"]
    out = patch.sort_coords(*names, reverse=spec["rev"])
    what = f"sort_coords({names}, reverse={spec['rev']})"
    for nm in names or model.dims:
        idx = np.argsort(as_key(model.coords[nm][1]), kind="stable")
        want = as_key(model.coords[nm][1])[idx]
        if spec["rev"]:
            want = want[::-1]
        got = as_key(out.coords.coord_map[nm].values)
        check_values(got, want, f"{what}: labels of {nm}", atol=1e-9 * (np.abs(want).max() + 1) if want.dtype.kind == "f" else 0)
    exp = model
    # now deduce the permutation actually used and require everything to follow it
    # dims sorted together: peel one dimension at a time through the unique data
    perm = {}
    flat = {float(v): np.unravel_index(i, model.data.shape) for i, v in enumerate(model.data.ravel())}
    require(out.data.shape == model.data.shape, lambda: f"{what}: shape {out.data.shape}")
    origin = np.array([[flat[float(v)]] for v in np.asarray(out.data).ravel()]).reshape(*model.data.shape, len(model.dims))
    for ax, dim in enumerate(model.dims):
        sel = [0] * len(model.dims)
        sel[ax] = slice(None)
        perm[dim] = origin[tuple(sel)][..., ax].tolist()
        exp = exp.take(dim, perm[dim])
        require(sorted(perm[dim]) == list(range(model.data.shape[ax])), lambda: f"{what}: samples along {dim} come from {perm[dim]}")
    check_patch_model(out, exp, what)
    check_same_snap(before, Snap(patch), "input of " + what)
    ctx.nontrivial(any(p != list(range(len(p))) for p in perm.values()))
    ctx.label("multi" if len(names) != 1 else "dim" if names[0] in model.dims else "attached", "rev" if spec["rev"] else "fwd")


# ------------------------------------------------------------------ order
@st.composite
def order_case(draw):
    ps = gen.draw_patch(draw, kinds=KINDS, max_n=6, data=("uniq",))
    dims = dict(ps["dims"])
    names = list(dims)
    targets = names + [e["name"] for e in ps["extra"] if len(e["dims"]) == 1]
    nm = targets[draw(I(0, len(targets) - 1))]
    dim = nm if nm in dims else next(e["dims"][0] for e in ps["extra"] if e["name"] == nm)
    n = dims[dim]["n"]
    return {"p": ps, "nm": nm, "samples": draw(st.booleans()), "idx": draw(st.lists(I(0, n - 1), min_size=1, max_size=n + 2)),
            "neg": draw(S(False, False, True)), "extra": draw(S(False, False, True)), "copy": draw(st.booleans())}


@facet("order", order_case(), quick=2500, weight=2)
def check_order(spec, ctx):
    """order(): samples come out in the requested order, repeats repeated."""
    patch, model = gen.build_patch(spec["p"])
    nm = spec["nm"]
    dim = model.coords[nm][0][0]
    own = np.asarray(patch.coords.coord_map[nm].values)
    n = len(own)
    idx = np.array(spec["idx"], int)
    if spec["samples"]:
        arg = idx
        out = patch.order(samples=True, copy=spec["copy"], **{nm: arg})
        keep = idx.tolist()
    else:
        arg = own[idx]
        if spec["extra"] and own.dtype.kind in "fi":
            arg = np.concatenate([arg, np.array([own.max() + 1000]).astype(own.dtype)])
        k = as_key(own)
        keep = [i for v in as_key(arg) for i in np.flatnonzero(k == v).tolist()]
        out = patch.order(copy=spec["copy"], **{nm: arg})
        if len(np.unique(k)) != len(k):  # tied labels may come in any order among themselves
            perm = by_unique(out, model, dim, "order")
            require(sorted(perm) == sorted(keep) and k[perm].tolist() == k[keep].tolist(),
                    lambda: f"order({nm}={arg}) of {own} gave samples {perm}, expected {keep} up to ties")
            keep = perm
    check_patch_model(out, model.take(dim, keep), f"order({nm}={arg}, samples={spec['samples']})")
    ctx.nontrivial(keep != list(range(n)))
    ctx.label("samples" if spec["samples"] else "values", "dim" if nm == dim else "attached")


# ------------------------------------------------------------------ flip / transpose / rename / squeeze / append / set_dims / roll
def draw_op(draw, ps, st_dims, sizes, extras):
    """One shape op given the current dims (names) and sizes; returns JSON op."""
    kinds = ["flip", "transpose", "rename", "append", "roll", "flipdata"]
    if any(sizes[d] == 1 for d in st_dims) and len(st_dims) > 1:
        kinds += ["squeeze", "squeeze"]
    if extras:
        kinds.append("set_dims")
        kinds.append("rename_extra")
    return draw(S(*kinds))


@st.composite
def chain_case(draw):
    ps = gen.draw_patch(draw, kinds=("even", "mono", "arr", "dup"), max_n=4, min_n=1)
    return {"p": ps, "ops": draw(st.lists(st.tuples(S("flip", "flip", "transpose", "rename", "append", "roll", "rollc", "flipdata", "squeeze", "set_dims", "rename_extra", "sort", "select", "order"), I(0, 10_000)), min_size=1, max_size=5))}


def m_flip(model, dims, coords=True):
    m = model
    for d in dims:
        idx = np.arange(m.data.shape[m.axis(d)])[::-1]
        if coords:
            m = m.take(d, idx)
        else:
            m = gen.Model(m.dims, np.take(m.data, idx, axis=m.axis(d)), m.coords, m.attrs)
    return m


def rename_model(m, mapping):
    dims = tuple(mapping.get(d, d) for d in m.dims)
    coords = {mapping.get(k, k): (tuple(mapping.get(d, d) for d in cd), v, u) for k, (cd, v, u) in m.coords.items()}
    return gen.Model(dims, m.data, coords, m.attrs)


def apply_op(patch, m, op, r, ctx):
    """Apply op (with r as entropy) to both. Returns (patch, model) or None if not applicable."""
    rng = np.random.default_rng(r)
    dims = list(m.dims)
    shape = m.data.shape
    if op in ("flip", "flipdata"):
        k = int(rng.integers(1, len(dims) + 1))
        chosen = [dims[i] for i in rng.permutation(len(dims))[:k]]
        return patch.flip(*chosen, flip_coords=op == "flip"), m_flip(m, chosen, op == "flip"), f"{op}{chosen}"
    if op == "transpose":
        perm = [dims[i] for i in rng.permutation(len(dims))]
        form = int(rng.integers(0, 4))
        if form == 0:
            return patch.transpose(*perm), m.transpose(perm), f"transpose{perm}"
        if form == 1:
            return patch.transpose(), m.transpose(dims[::-1]), "transpose()"
        d = perm[0]
        rest = [x for x in dims if x != d]
        if form == 2:
            return patch.transpose(d, ...), m.transpose([d, *rest]), f"transpose({d}, ...)"
        return patch.transpose(..., d), m.transpose([*rest, d]), f"transpose(..., {d})"
    if op in ("rename", "rename_extra"):
        pool = dims if op == "rename" else [k for k in m.coords if k not in dims]
        if not pool:
            return None
        k = int(rng.integers(1, len(pool) + 1))
        chosen = [pool[i] for i in rng.permutation(len(pool))[:k]]
        mapping = {c: f"n{i}{rng.integers(0, 9)}{c[:3]}" for i, c in enumerate(chosen)}
        if any(v in m.coords for v in mapping.values()):
            return None
        return patch.rename_coords(**mapping), rename_model(m, mapping), f"rename{mapping}"
    if op == "append":
        if len(dims) > 3:
            return None
        nm = f"ap{rng.integers(0, 99)}"
        if nm in m.coords:
            return None
        form = int(rng.integers(0, 3))
        if form == 2:
            vals = np.sort(rng.choice(20, size=int(rng.integers(1, 4)), replace=False)) * 1.5
            out = patch.append_dims(**{nm: vals})
            n = len(vals)
        else:
            n = 1 if form == 0 else int(rng.integers(1, 4))
            vals = None
            out = patch.append_dims(nm) if form == 0 else patch.append_dims(**{nm: n})
        data = np.broadcast_to(m.data[..., None], (*shape, n))
        coords = dict(m.coords)
        coords[nm] = ((nm,), np.full(n, np.nan) if vals is None else vals, None)
        return out, gen.Model((*m.dims, nm), data, coords, m.attrs), f"append({nm}: {n})"
    if op == "squeeze":
        ones = [d for d, s in zip(dims, shape) if s == 1]
        if not ones or len(ones) == len(dims):
            return None
        if rng.random() < 0.5:
            gone, out, txt = ones, patch.squeeze(), "squeeze()"
        else:
            gone = [ones[int(rng.integers(len(ones)))]]
            out, txt = patch.squeeze(gone[0]), f"squeeze({gone})"
        keep = [d for d in dims if d not in gone]
        data = m.data.reshape([s for d, s in zip(dims, shape) if d not in gone])
        coords = {k: v for k, v in m.coords.items() if not set(v[0]) & set(gone)}
        return out, gen.Model(keep, data, coords, m.attrs), txt
    if op == "set_dims":
        pool = [(k, v[0][0]) for k, v in m.coords.items() if k not in dims and len(v[0]) == 1]
        if not pool:
            return None
        new, old = pool[int(rng.integers(len(pool)))]
        nd = tuple(new if d == old else d for d in dims)
        coords = {k: (tuple(new if d == old else d for d in cd), v, u) for k, (cd, v, u) in m.coords.items()}
        return patch.set_dims(**{old: new}), gen.Model(nd, m.data, coords, m.attrs), f"set_dims({old}={new})"
    if op in ("roll", "rollc"):
        even = [d for d in dims if patch.get_coord(d).evenly_sampled and len(patch.get_coord(d)) > 1]
        if not even:
            return None
        d = even[int(rng.integers(len(even)))]
        n = shape[m.axis(d)]
        k = int(rng.integers(-2 * n, 2 * n + 1))
        ax = m.axis(d)
        idx = np.roll(np.arange(n), k)
        if op == "rollc":
            exp = m.take(d, idx)
        else:
            exp = gen.Model(m.dims, np.roll(m.data, k, axis=ax), m.coords, m.attrs)
        c = patch.get_coord(d)
        if rng.random() < 0.5 and k >= 0 and c.sorted:
            val = k * c.step
            if c.dtype.kind == "f":
                val = float(val)
            out = patch.roll(update_coord=op == "rollc", **{d: val})
        else:
            val = k
            out = patch.roll(samples=True, update_coord=op == "rollc", **{d: k})
        return out, exp, f"{op}({d}={val})"
    if op in ("sort", "order", "select"):
        d = dims[int(rng.integers(len(dims)))]
        vals = m.coords[d][1]
        if np.asarray(vals).dtype.kind == "f" and np.isnan(vals).any():
            return None
        n = shape[m.axis(d)]
        if op == "sort":
            key = as_key(vals)
            if len(np.unique(key)) != n:
                return None
            return patch.sort_coords(d), m.take(d, np.argsort(key)), f"sort({d})"
        if op == "order":
            idx = rng.integers(0, n, size=int(rng.integers(1, n + 2)))
            return patch.order(samples=True, **{d: idx}), m.take(d, idx), f"order({d}={idx})"
        a = int(rng.integers(0, n))
        return patch.select(samples=True, **{d: (a, None)}), m.take(d, np.arange(a, n)), f"select({d}=({a},None))"
    raise ValueError(op)


@facet("chain", chain_case(), quick=4500, weight=3)
def check_chain(spec, ctx):
    """chains of flip/transpose/rename/append_dims/squeeze/set_dims/roll/sort/order/select against a labelled-array model."""
    patch, model = gen.build_patch(spec["p"])
    done = []
    for op, r in spec["ops"]:
        before = Snap(patch)
        res = apply_op(patch, model, op, r, ctx)
        if res is None:
            continue
        out, exp, txt = res
        done.append(txt)
        check_patch_model(out, exp, " -> ".join(done))
        check_same_snap(before, Snap(patch), f"input of {txt}")
        ctx.label(op)
        ctx.nontrivial(exp.data.shape != model.data.shape or not np.array_equal(exp.data, model.data, equal_nan=exp.data.dtype.kind == "f"))
        patch, model = out, exp
        if patch.data.size == 0:
            break


# ------------------------------------------------------------------ align_to_coord
@st.composite
def align_case(draw):
    nd = draw(I(2, 3))
    dims = ["time", "distance", "depth"][:nd]
    ps = gen.draw_patch(draw, dims=dims, kinds=("even", "mono"), even_dims=("time",), max_n=5, min_n=1, extra=False, allow_rev=False,
                        dim_kw={"time": {"types": ("dt", "td", "f"), "min_n": 2}}, data=("uniq", "float"), units=False)
    others = [d for d in dims if d != "time"]
    k = draw(I(1, len(others)))
    cd = list(draw(gen.PERM(*others)))[:k]
    size = {n: c["n"] for n, c in ps["dims"]}
    n = int(np.prod([size[d] for d in cd]))
    nt = size["time"]
    mode = draw(S("full", "same", "valid"))
    lim = nt + 2 if mode == "full" else nt - 1
    shifts = draw(st.lists(I(-lim, lim), min_size=n, max_size=n))
    return {"p": ps, "cd": cd, "shifts": shifts, "mode": mode, "samples": draw(st.booleans()), "reverse": draw(st.booleans()),
            "fill": draw(S("nan", "0"))}


@facet("align", align_case(), quick=1500)
def check_align(spec, ctx):
    """align_to_coord: every trace moved by its shift, labels extended/trimmed by mode, fill elsewhere."""
    patch, model = gen.build_patch(spec["p"])
    cd = tuple(spec["cd"])
    size = dict(zip(model.dims, model.data.shape))
    shifts = np.array(spec["shifts"], int).reshape([size[d] for d in cd])
    nt = size["time"]
    cs = dict(spec["p"]["dims"])["time"]
    vals = shifts if spec["samples"] else None
    if vals is None:
        stepv = patch.get_coord("time").step
        # value shifts round up to whole samples; floats stay clear of rounding
        vals = (shifts - 0.25 * np.sign(shifts)) * stepv if cs["t"] == "f" else shifts * stepv
    p = patch.update_coords(sh=(cd, vals))
    sgn = -1 if spec["reverse"] else 1
    s = shifts * sgn
    mode = spec["mode"]
    if mode == "full":
        a, b = s.min(), s.max()
    elif mode == "same":
        a = b = 0
    else:
        a, b = max(s.max(), 0), min(s.min(), 0)
    n_out = nt + b - a
    if n_out <= 0:
        ctx.label("nothing-overlaps")
        return
    fill = np.nan if spec["fill"] == "nan" else 0.0
    shape = list(model.data.shape)
    ax = model.axis("time")
    shape[ax] = n_out
    exp = np.full(shape, fill)
    cax = [model.axis(d) for d in cd]
    for idx in np.ndindex(*model.data.shape):
        sh = s[tuple(idx[a_] for a_ in cax)]
        pos = idx[ax] + sh - a
        if 0 <= pos < n_out:
            j = list(idx)
            j[ax] = pos
            exp[tuple(j)] = model.data[idx]
    out = p.align_to_coord(time="sh", mode=mode, samples=spec["samples"], reverse=spec["reverse"], fill_value=fill)
    what = f"align_to_coord(mode={mode}, shifts={s.tolist()}, samples={spec['samples']})"
    coords = dict(model.coords)
    cs2 = dict(cs)
    ints = gen.coord_ints(cs)
    step_i = cs["step"]
    new_ints = ints[0] + step_i * (a + np.arange(n_out))
    coords["time"] = (("time",), gen.ints_to_values(cs, new_ints), cs["u"])
    coords["sh"] = (cd, vals, None)
    m = gen.Model(model.dims, exp, coords)
    check_coherent(out, what)
    require(tuple(out.dims) == m.dims, lambda: f"{what}: dims {out.dims}")
    check_values(out.data, exp, what)
    for k, (d, v, u) in coords.items():
        require(tuple(out.coords.dim_map[k]) == tuple(d), lambda: f"{what}: {k} on {out.coords.dim_map[k]}")
        check_coord_values(out.coords.coord_map[k].values, v, f"{what}: coord {k}")
    ctx.nontrivial(len(set(spec["shifts"])) > 1)
    ctx.label(mode, "2d" if len(cd) > 1 else "1d", cs["t"], "samples" if spec["samples"] else "values")


# ------------------------------------------------------------------ broadcast
@st.composite
def bc_case(draw):
    ps = gen.draw_patch(draw, kinds=("even", "mono", "arr"), max_n=3, max_dims=3, extra=False)
    return {"p": ps, "ones": draw(st.lists(st.booleans(), min_size=3, max_size=3)), "target": draw(gen.L(1, 3, 3)), "drop": draw(st.booleans()), "partial": draw(st.booleans())}


@facet("broadcast", bc_case(), quick=600)
def check_broadcast(spec, ctx):
    """make_broadcastable_to repeats samples along expandable dims only; refuses otherwise."""
    from dascore.exceptions import PatchBroadcastError

    patch, model = gen.build_patch(spec["p"])
    dims = model.dims
    ones = [d for d, f in zip(dims, spec["ones"]) if f]
    p, m = patch, model
    full = dict(zip(dims, model.data.shape))
    for d in ones:
        if spec["partial"] and full[d] > 1:
            p = p.mean(d)
            m = gen.Model(m.dims, m.data.mean(axis=m.axis(d), keepdims=True), {**m.coords, d: ((d,), np.array([np.nan]), None)})
        else:
            p = p.select(samples=True, **{d: (0, 1)})
            m = m.take(d, [0])
    shape = m.data.shape
    target = tuple(t if s == 1 else s for s, t in zip(shape, spec["target"]))
    grow = [d for d, s, t in zip(dims, shape, target) if t > s]
    could = spec["drop"] or all(d in ones and spec["partial"] and full[d] > 1 for d in grow)
    try:
        out = p.make_broadcastable_to(target, drop_coords=spec["drop"])
    except PatchBroadcastError:
        require(not could, f"broadcast of {shape} to {target} refused though every growing dim is a non-coordinate")
        ctx.label("refused")
        ctx.nontrivial()
        return
    require(could, lambda: f"coordinate dims {grow} were silently broadcast from {shape} to {target}")
    check_coherent(out, "broadcast")
    check_values(out.data, np.broadcast_to(m.data, target), f"broadcast {shape}->{target}", rtol=1e-12, atol=1e-12)
    for d in dims:
        if d not in grow and d not in ones:
            check_coord_values(out.get_array(d), m.coords[d][1], f"coord {d}")
            check_units(out.get_coord(d).units, m.coords[d][2], f"coord {d}")
    ctx.nontrivial(bool(grow))
    ctx.label("grow" if grow else "same")


FACETS = [check_sort, check_order, check_chain, check_align, check_broadcast]
