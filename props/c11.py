"""C11: selecting from a spool equals selecting from each of its patches."""
from __future__ import annotations

import fnmatch

import numpy as np
from hypothesis import strategies as st

from vlib import spools
from vlib.cmp import Snap, check_coherent, check_same_snap, fail, require
from vlib.core import facet
from vlib.gen import I, S

RULE = ("A case is a collection of patches (1-3 streams with different stations, tags, networks, dimension orders, sizes and optional associated coordinates; contiguous, gapped or overlapping "
        "segments) held in a memory, single-file or directory spool, optionally chunked, merged, sliced or sorted first, and 1-3 successive selections mixing coordinate ranges (on, between and "
        "outside of samples, open, reversed, in every spelling) with attribute values, wildcards and collections, optionally followed by another spool operation. The oracle matches the attributes "
        "with fnmatch and equality and applies Patch.select to each patch. Non-trivial = the selections dropped or trimmed some patch and some samples remain.")
ASSUMPTIONS = [
    "A selection which leaves no sample of a patch may drop the patch or return it empty.",
    "Directory spools hold patches with absolute times and filter attributes stored in their index.",
    "Patch.select is the reference for trimming (its own meaning is judged by C03); queries it supports but the spool's documentation does not mention (samples, relative, arrays, quantities) are not generated.",
]


@st.composite
def range_query(draw, last):
    """A range in half steps relative to the first sample: [lo, hi] with open ends."""
    lo, hi = draw(S(None, *range(-3, last))), draw(S(None, *range(-3, last)))
    if lo is not None and hi is not None and abs(hi - lo) < 4 and draw(st.booleans()):
        hi += last // 2
    return {"lo": lo, "hi": hi, "off": draw(S(0, 0, 0, 1, 2)), "form": draw(S("native", "native", "alt", "ellipsis", "list")), "rev": draw(S(False, False, False, True)), "int": draw(S(False, True))}


ATTRS = {"station": ["", "A", "B", "?", "*", "[AB]", "[!A]", "Z", "a"], "tag": ["", "x", "raw y", "*y", "raw*", "r?w *", "*", "raw", "y"], "network": ["N1", "", "N?", "N", "*1"],
         "data_type": ["velocity", "", "vel*", "*loc*"]}
COLLS = {"station": [["A"], ["", "A"], ["A", "B", "Z"], ["*"], []], "tag": [["x", ""], ["raw y"]], "network": [["N1"], ["", "N1"]], "data_type": [["velocity", "strain"]]}


@st.composite
def query(draw, sp, extra):
    q = {}
    names = draw(st.lists(S(*(["time", "time", "time", "distance", "station", "tag", "network", "data_type"] + extra)), unique=True, min_size=1, max_size=draw(S(1, 2, 2, 3))))
    last = max(2 * sum(seg) + 2 for stream in sp["streams"] for seg in stream["segs"])
    for n in names:
        if n in ("time", "distance", "lat"):
            q[n] = draw(range_query(last if n == "time" else 8))
        elif draw(S(True, True, False)) and sp["streams"]:
            # an attribute of one of the streams, or a pattern made from it
            v = draw(S(*[x["type" if n == "data_type" else n] for x in sp["streams"]]))
            q[n] = {"v": draw(S(v, v, v[:1] + "*", "*" + v[1:], v.replace("a", "?"), "*"))}
        elif draw(S(True, True, False)):
            q[n] = {"v": draw(S(*ATTRS[n]))}
        else:
            q[n] = {"c": draw(I(0, len(COLLS[n]) - 1)), "as": draw(S("list", "tuple", "set", "array"))}
    return q


@st.composite
def spool_case(draw, kind="memory"):
    sp = spools.draw_streams(draw, max_streams=3, max_segs=4, max_n=6, min_n=1, tts=("dt", "dt", "f", "td") if kind != "dir" else ("dt",), overlaps=draw(S((), (), (1, 2, 4))))
    n = draw(I(1, 3 if kind == "memory" else 2))
    sp["ds"] = draw(S(2.0, 2.0, 0.7, 1.25, 1.021))
    return {"s": sp, "kind": kind, "pre": draw(S(None, None, None, "chunk", "merge", "slice", "sort", "array")), "prek": draw(I(2, 5)),
            "q": [draw(query(sp, ["lat"])) for _ in range(n)], "post": draw(S(None, None, "slice", "sort", "merge", "chunk")), "postk": draw(I(2, 4))}


def bound(spec, name, half, off):
    """The value of a bound given in half samples (plus a small offset in either direction)."""
    s = spec["s"]
    if name == "distance":
        return (half / 2 + 2) * s.get("ds", 2.0) + [0, 1e-3, -1e-3][off]
    if name == "lat":
        return 40 + half * 0.25 + [0, 1e-3, -1e-3][off]
    if s["tt"] == "f":
        v = spools.label(s, [0, 1])
        return float(v[0] + (v[1] - v[0]) * half / 2 + [0, 1e-3, -1e-3][off])
    v = spools.label(s, [0, 1])
    step = int((v[1] - v[0]) / np.timedelta64(1, "ns"))
    return v[0] + np.timedelta64(step * half // 2 + [0, 1, -1][off], "ns")


def build_query(spec, q):
    """kwargs for the spool, and ranges/attributes for the oracle."""
    import pandas as pd

    kw, ranges, attrs = {}, {}, {}
    for name, d in q.items():
        if "lo" in d:
            lo = None if d["lo"] is None else bound(spec, name, d["lo"], d["off"])
            hi = None if d["hi"] is None else bound(spec, name, d["hi"], d["off"])
            if lo is not None and hi is not None and lo > hi and not d["rev"]:
                lo, hi = hi, lo
            if d.get("int"):  # whole numbers are often given as such
                lo, hi = (int(round(x)) if isinstance(x, float) else x for x in (lo, hi))
            ranges[name] = (lo, hi)
            form = d["form"]

            def spell(x):
                if x is None:
                    return ... if form == "ellipsis" else None
                if form == "alt":
                    if isinstance(x, np.datetime64):
                        return str(x) if d["off"] else pd.Timestamp(x)
                    if isinstance(x, np.timedelta64):
                        return pd.Timedelta(x)
                    return np.float64(x)
                return x

            pair = (spell(lo), spell(hi))
            kw[name] = list(pair) if form == "list" else pair
        elif "v" in d:
            kw[name] = d["v"]
            attrs[name] = lambda a, v=d["v"]: fnmatch.fnmatchcase(a, v)
        else:
            vals = COLLS[name][d["c"]]
            kw[name] = {"list": list, "tuple": tuple, "set": set, "array": lambda x: np.array(x, dtype=object if not x else None)}[d["as"]](vals)
            attrs[name] = lambda a, v=tuple(vals): a in v
    return kw, ranges, attrs


def oracle(patches, ranges, attrs):
    out = []
    for p in patches:
        if not all(f(p.attrs.get(k) or "") for k, f in attrs.items()):
            continue
        if not all(n in p.coords.coord_map for n in ranges):
            continue
        if any(lo is not None and hi is not None and lo > hi for lo, hi in ranges.values()):
            ranges = {k: (hi, lo) if lo is not None and hi is not None and lo > hi else (lo, hi) for k, (lo, hi) in ranges.items()}
        out.append(p.select(**ranges) if ranges else p)
    return out


def full_ones(patches):
    return [p for p in patches if 0 not in p.shape]


def apply_op(spool, name, k):
    import dascore as dc

    if name == "chunk":
        step = None
        for p in spool:
            step = p.get_coord("time").step if step is None and p.get_coord("time").step is not None else step
        return spool.chunk(time=step * k, keep_partial=True) if step is not None else spool
    if name == "merge":
        return spool.chunk(time=None)
    if name == "slice":
        return spool[k % 2: None]
    if name == "array":
        return spool[np.arange(len(spool))[::-1]]
    if name == "sort":
        return spool.sort("time") if len(spool) else spool
    return spool


def multi(patches):
    return sorted(patches, key=lambda p: repr((p.attrs.station, p.attrs.tag, p.attrs.network, p.dims, p.shape, np.asarray(p.data).ravel().tolist())))


def compare(got, want, what, ordered):
    require(len(got) == len(want), lambda: f"{what}: {len(got)} patches {[spools.key(p) for p in got]} expected {len(want)}: {[spools.key(p) for p in want]}")
    if not ordered:
        got, want = multi(got), multi(want)
    for i, (a, b) in enumerate(zip(got, want)):
        check_coherent(a, f"{what}: patch {i}")
        check_same_snap(Snap(b), Snap(a), f"{what}: patch {i}", stored=True)


def run_case(spec, ctx):
    import warnings

    import dascore as dc

    items = [p for _, _, p in spools.build_patches(spec["s"])]
    tmp = ctx.tmpdir() / "d"
    tmp.mkdir()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        kind = {"memory": "memory", "file": "file", "dir": "directory"}[spec["kind"]]
        sp = spools.make_spool(items, kind, tmp)
        what = spec["kind"]
        if spec["pre"]:
            sp = apply_op(sp, spec["pre"], spec["prek"])
            what += f" {spec['pre']}"
        base = list(sp)
        current, model, changed = sp, base, False
        for q in spec["q"]:
            has_lat = ["lat" in p.coords.coord_map for p in model]
            if not any(has_lat) or (spec["kind"] == "dir" and not all(has_lat)):
                q = {k: v for k, v in q.items() if k != "lat"}  # unknown names are refused
            kw, ranges, attrs = build_query(spec, q)
            what += f" select({kw})"
            new = oracle(model, ranges, attrs)
            try:
                out = current.select(**kw)
                got = list(out)
            except Exception as exc:  # noqa: BLE001
                fail(f"{what} of {[spools.key(p) for p in model]}: {type(exc).__name__}: {exc}")
            compare(full_ones(got), full_ones(new), what, True)
            require(len(out) >= len(got), f"{what}: length {len(out)} but {len(got)} patches")
            again = list(current)
            require(len(again) == len(list(model)) or spec["kind"] != "memory", f"{what}: the spool which was selected from changed")
            changed |= len(full_ones(new)) < len(full_ones(model)) or sum(p.size for p in new) < sum(p.size for p in model)
            current, model = out, (got if spec["kind"] == "memory" else new)
        ctx.nontrivial(changed and full_ones(model))
        ctx.label(f"{spec['pre']}/{spec['post']}")
        left = full_ones(model)
        # (the spool still knows the step of patches trimmed to a single sample)
        if spec["post"] and len(left) == len(current) and left and not (spec["post"] in ("merge", "chunk") and (spools.ties(left) or spec["pre"] in ("merge", "chunk"))) and all(p.coord_shapes["time"][0] > 1 for p in [*left, *items]):
            name, k = spec["post"], spec["postk"]
            try:
                want = list(apply_op(dc.spool(left), name, k))
            except Exception:  # noqa: BLE001
                return
            out = apply_op(current, name, k)
            compare(full_ones(list(out)), full_ones(want), f"{what} then {name}({k})", name == "slice")


@facet("memory", spool_case("memory"), quick=600, weight=3)
def check_memory(spec, ctx):
    """selections on spools of patches in memory."""
    run_case(spec, ctx)


@facet("file", spool_case("file"), quick=130, weight=2)
def check_file(spec, ctx):
    """selections on a file of patches."""
    run_case(spec, ctx)


@facet("directory", spool_case("dir"), quick=130, weight=2)
def check_directory(spec, ctx):
    """selections on a directory of files."""
    run_case(spec, ctx)


FACETS = [check_memory, check_file, check_directory]
