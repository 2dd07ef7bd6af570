"""C10: a spool is an immutable ordered sequence of patches."""
from __future__ import annotations

import concurrent.futures as cf
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vlib import spools
from vlib.cmp import Snap, check_same_snap, fail, require
from vlib.core import facet
from vlib.gen import I, L, S

RULE = ("A case is a collection of patches (1-3 stations/tags/shapes, shuffled, some contiguous), held as a memory, single-file or directory spool, optionally chunked or selected "
        "first, and a program of 1-5 sequence operations (slices with any start/stop/step, integer arrays with repeats and negatives, boolean arrays, sorting, splitting, mapping, "
        "update); after each one length, iteration, indexing from both ends, out-of-range errors and the contents table are compared with the same operation on a plain Python "
        "list of patches, and all earlier spools are re-examined. Non-trivial = at least two operations were applied and a spool of at least two patches resulted from one.")
ASSUMPTIONS = [
    "Directory spools hold patches with absolute times (what the index stores).",
    "The order of equal keys when sorting is free; so is the initial order of a file or directory spool.",
    "Which patches a chunked or selected spool holds is judged by C11 and C12; here the list observed once is the model for everything that follows.",
    "Equality of spools is only decided for spools built by the same operations from equal patches, and for spools whose patches differ.",
]

OPS = ("slice", "slice", "ints", "bools", "sort", "split", "map", "identity", "sort", "ints")


@st.composite
def seq_case(draw):
    sp = spools.draw_streams(draw, max_streams=3, max_segs=3, max_n=4, min_n=2, overlaps=draw(S((), (), (1, 2, 4))))
    kind = draw(S("memory", "memory", "memory", "memory", "memory", "memory", "file", "dir"))
    if kind == "dir":
        sp["tt"], sp["scale"] = "dt", draw(S(*spools.TSCALE["dt"]))
    pre = draw(S(None, None, None, "chunk", "chunk", "merge", "select", "select_attr"))
    return {"s": sp, "kind": kind, "pre": pre, "prek": draw(I(2, 5)), "ops": [[draw(S(*OPS)), draw(L(-9, 9, 4))] for _ in range(draw(I(1, 5 if kind == "memory" else 2)))]}


def contents_match(spool, patches, what):
    df = spool.get_contents()
    require(len(df) == len(patches), f"{what}: contents table has {len(df)} rows for {len(patches)} patches")
    rows = df.to_dict("records")
    for i, p in enumerate(patches):
        row = rows[i]
        for name in p.dims:
            c = p.get_coord(name)
            for suffix, val in (("min", c.min()), ("max", c.max()), ("step", c.step)):
                col = f"{name}_{suffix}"
                if col not in df.columns and name != "time" and "dir spool" in what:
                    continue  # the directory index only stores time limits
                require(col in df.columns, f"{what}: contents table has no column {col}: {list(df.columns)}")
                if suffix == "step" and (val is None or len(c) < 2):
                    continue
                got = row[col]
                ok = bool(pd.isnull(got)) if pd.isnull(val) else (not pd.isnull(got) and (got == val or (isinstance(val, float | np.floating) and np.isclose(got, val, rtol=1e-9, atol=0))))
                require(ok, lambda: f"{what}: row {i} of the contents says {col}={got!r}, the patch has {val!r}")
        for name in ("station", "tag", "network", "data_type"):
            got, val = row.get(name, ""), p.attrs.get(name)
            got = "" if pd.isnull(got) else got
            require(got == val, lambda: f"{what}: row {i} of the contents says {name}={got!r}, the patch has {val!r}")
        dims = row["dims"]
        require(tuple(dims.split(",") if isinstance(dims, str) else dims) == tuple(p.dims), f"{what}: row {i} has dims {dims!r}, patch {p.dims}")


def check_list(spool, snaps, what, full=True):
    """The spool is exactly this list of patches."""
    n = len(snaps)
    require(len(spool) == n, f"{what}: length {len(spool)} expected {n}")
    got = list(spool)
    require(len(got) == n, f"{what}: iteration gave {len(got)} patches, expected {n}")
    for i, (p, s) in enumerate(zip(got, snaps)):
        check_same_snap(s, Snap(p), f"{what}: patch {i} of iteration")
    if not full:
        return got
    for i in ({-n, -1, 0, n // 2, n - 1} if what.startswith("memory") else {-1, n // 2}) if n else ():
        check_same_snap(snaps[i], Snap(spool[i]), f"{what}: spool[{i}]")
    if n:
        check_same_snap(snaps[0], Snap(spool[np.int64(0)]), f"{what}: spool[np.int64(0)]")
    for i in (n, -n - 1):
        try:
            p = spool[i]
        except IndexError:
            continue
        fail(f"{what}: spool[{i}] of {n} patches returned {p!r}")
    contents_match(spool, got, what)
    return got


@facet("sequence", seq_case(), quick=800, weight=4)
def check_sequence(spec, ctx):
    """Programs of sequence operations against a list of patches."""
    from dascore.exceptions import ChunkError

    sp = spec["s"]
    orig = [p for _, _, p in spools.build_patches(sp)]
    spool = spools.make_spool(orig, spec["kind"], ctx.tmpdir())
    what = f"{spec['kind']} spool"
    first = list(spool)
    want = sorted((Snap(p) for p in orig), key=_order)
    if spec["kind"] == "memory":
        for a, b in zip(orig, first):
            check_same_snap(Snap(a), Snap(b), what)
    require(len(first) == len(orig), f"{what}: {len(first)} patches, {len(orig)} were put in")
    for a, b in zip(want, sorted((Snap(p) for p in first), key=_order)):
        check_same_snap(a, b, f"{what}: patches put in", stored=spec["kind"] != "memory")
    pre = spec["pre"]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if pre == "chunk":
            k = spec["prek"] * sp["scale"]
            try:
                spool = spool.chunk(time=k / 1e9 if sp["tt"] != "f" else k, keep_partial=bool(spec["prek"] % 2))
            except ChunkError:
                return  # no segment is long enough
        elif pre == "merge":
            spool = spool.chunk(time=None)
        elif pre == "select":
            a, b = spools.label(sp, [1, 1 + spec["prek"]])
            spool = spool.select(time=(a, b))
        elif pre == "select_attr":
            spool = spool.select(station=["A", ""])
    what += f" pre={pre}"
    snaps = [Snap(p) for p in spool]
    history = [(spool, snaps, what)]
    check_list(spool, snaps, what)
    napplied = 0
    for op, r in spec["ops"]:
        spool, snaps, what = history[-1] if r[3] > -7 else history[0]
        n = len(snaps)
        if op == "slice":
            step = {0: 1, 7: -1, 8: 2, 9: -2}.get(abs(r[2]), 1)
            sl = slice(r[0] if abs(r[0]) < 8 else None, r[1] if abs(r[1]) < 8 else None, step if r[2] % 2 else None)
            out, model = spool[sl], snaps[sl]
            text = f"[{sl.start}:{sl.stop}:{sl.step}]"
        elif op == "ints":
            if not n:
                continue
            idx = np.array([x % n - (n if x % 2 else 0) for x in r], dtype=np.int64)[: 1 + abs(r[0]) % 4]
            out, model = spool[idx], [snaps[i] for i in idx]
            text = f"[array {idx.tolist()}]"
        elif op == "bools":
            m = np.array([(r[i % 4] + i * r[(i + 1) % 4]) % 3 > 0 for i in range(n)], dtype=bool)
            out, model = spool[m], [s for s, k in zip(snaps, m) if k]
            text = f"[bool {m.tolist()}]"
        elif op == "sort":
            key = ["time", "station", "tag", "distance", "time_max", "network"][r[0] % 6]
            if not n:
                continue
            if key == "distance" and spec["kind"] == "dir":
                key = "time_max"  # not in the index
            out = spool.sort(key)
            text = f".sort({key!r})"
            vals = [_sort_key(p, key) for p in out]
            require(all(not (b < a) for a, b in zip(vals, vals[1:])), f"{what}{text}: not sorted: {vals}")
            model = [Snap(p) for p in out]
            for a, b in zip(sorted(snaps, key=_order), sorted(model, key=_order)):
                check_same_snap(a, b, f"{what}{text}: patches")
        elif op == "split":
            k = abs(r[0]) % 5 + 1
            if r[1] % 2:
                parts, text = list(spool.split(size=k)), f".split(size={k})"
                sizes = [min(k, n - i) for i in range(0, n, k)]
                require([len(x) for x in parts] == sizes, f"{what}{text}: sizes {[len(x) for x in parts]} expected {sizes}")
            else:
                parts, text = list(spool.split(count=k)), f".split(count={k})"
                require(len(parts) == min(k, n), f"{what}{text}: {len(parts)} spools of {n} patches")
                ls = [len(x) for x in parts]
                require(sum(ls) == n and (not ls or min(ls) >= 1), f"{what}{text}: sizes {ls}")
            pos = 0
            for part in parts:
                check_list(part, snaps[pos: pos + len(part)], what + text + f" part at {pos}", full=pos == 0)
                pos += len(part)
            if not parts:
                continue
            j = r[2] % len(parts)
            start = sum(len(x) for x in parts[:j])
            out, model = parts[j], snaps[start: start + len(parts[j])]
            text += f"[{j}]"
        elif op == "map":
            func = _shape_sum
            want_map = [(s.dims, float(np.sum(s.data)), 3) for s in snaps]
            got = spool.map(func, progress=False, extra=3)
            require(list(got) == want_map, f"{what}.map: {got} expected {want_map}")
            with cf.ThreadPoolExecutor(3) as ex:
                got = spool.map(func, progress=False, client=ex, size=(abs(r[0]) % 3 + 1 if r[1] % 2 else None), extra=3)
            require(list(got) == want_map, f"{what}.map(client): {got} expected {want_map}")
            continue
        else:
            # the same construction and the same operations give an equal spool
            require(spool == spool[:] or len(history) > 1 or pre is not None, f"{what}: differs from its full slice")
            if n:
                shorter = spool[1:]
                require(shorter != spool, f"{what}: equal to itself without the first patch")
                if any(_order(a) != _order(snaps[0]) for a in snaps[1:]):
                    rev = spool[np.arange(n)[::-1]]
                    if [_order(a) for a in snaps] != [_order(a) for a in snaps[::-1]]:
                        require(rev != spool, f"{what}: equal to its reverse")
            continue
        what = what + text
        check_list(out, model, what)
        history.append((out, model, what))
        ctx.label(op)
        napplied += 1
        if len(model) > 1 and napplied >= 2:
            ctx.nontrivial(True)
    for j, (spool, snaps, what) in enumerate(history[:-1]):
        if j in (0, len(history) - 2):
            check_list(spool, snaps, what + " (re-examined)", full=j == 0)
    ctx.label(spec["kind"], f"pre {pre}")


def _shape_sum(patch, extra):
    return (tuple(patch.dims), float(np.sum(patch.data)), extra)


def _order(snap):
    a = np.asarray(snap.data).ravel()
    return (str(snap.dims), a.shape, a.tobytes())


def _sort_key(p, key):
    if key in p.dims:
        return p.get_coord(key).min()
    if key == "time_max":
        return p.get_coord("time").max()
    return p.attrs.get(key)


# ---------------------------------------------------------------- equality
@st.composite
def eq_case(draw):
    return {"s": spools.draw_streams(draw, max_streams=2, max_segs=3, max_n=3, min_n=2), "pre": draw(S(None, "chunk", "merge", "select", "slice", "sort", "ints")), "k": draw(I(2, 4)),
            "change": draw(S("none", "none", "data", "attr", "label", "drop", "order", "dup")), "which": draw(I(0, 9)), "touch": draw(st.booleans())}


@facet("equal", eq_case(), quick=600)
def check_equal(spec, ctx):
    """Equal constructions are equal; any difference in the patches makes spools differ."""
    import dascore as dc
    from dascore.exceptions import ChunkError

    sp = spec["s"]

    def ops(s):
        pre, k = spec["pre"], spec["k"]
        if pre == "chunk":
            return s.chunk(time=(k * sp["scale"]) / (1e9 if sp["tt"] != "f" else 1), keep_partial=True)
        if pre == "merge":
            return s.chunk(time=None)
        if pre == "select":
            return s.select(time=tuple(spools.label(sp, [1, 1 + k])))
        if pre == "slice":
            return s[: k]
        if pre == "sort":
            return s.sort("time")
        if pre == "ints":
            return s[np.arange(len(s))[::-1]]
        return s

    a = [p for _, _, p in spools.build_patches(sp)]
    b = [p for _, _, p in spools.build_patches(sp)]
    ch, i = spec["change"], spec["which"] % len(b)
    if ch == "data":
        data = np.array(b[i].data)
        data.flat[spec["which"] % data.size] += 0.5
        b[i] = b[i].new(data=data)
    elif ch == "attr":
        b[i] = b[i].update_attrs(acquisition_id="other")
    elif ch == "label":
        b[i] = b[i].update_coords(distance=b[i].get_array("distance") + 0.5)
    elif ch == "drop":
        b.pop(i)
    elif ch == "order":
        b = b[1:] + b[:1]
        if len(b) < 2:
            return
    elif ch == "dup":
        b.append(b[i])
    s1, s2 = dc.spool(a), dc.spool(b)
    if spec["touch"]:
        s1.get_contents(), len(s2), list(s1)
    same = ch == "none"
    require((s1 == s2) == same and (s2 == s1) == same, f"spools of patches (difference: {ch}) compare {'different' if same else 'equal'}")
    require(s1 == s1 and not (s1 != s1), "a spool differs from itself")
    if not same and spec["pre"] not in ("slice", "ints", "sort"):
        return
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            o1, o2 = ops(s1), ops(s2)
        except ChunkError:
            return
    if same:
        require(o1 == o2, f"after {spec['pre']} (k={spec['k']}): the same operations on equal spools give different spools")
    elif spec["pre"] in ("slice", "ints", "sort"):
        l1, l2 = [Snap(p) for p in o1], [Snap(p) for p in o2]
        differs = len(l1) != len(l2) or any(_differ(x, y) for x, y in zip(l1, l2))
        if differs:
            require(o1 != o2, f"after {spec['pre']} (k={spec['k']}, difference: {ch}): spools with different patches compare equal")
    ctx.label(ch, f"pre {spec['pre']}")
    ctx.nontrivial(len(a) > 1)


def _differ(x, y):
    from vlib.core import Violation

    try:
        check_same_snap(x, y, "")
    except Violation:
        return True
    return False


FACETS = [check_sequence, check_equal]
