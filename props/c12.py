"""C12: chunking and merging neither lose, duplicate nor relabel samples."""
from __future__ import annotations

import math
import tempfile
import warnings
from fractions import Fraction
from pathlib import Path

import numpy as np
from hypothesis import strategies as st

from vlib import gen, spools
from vlib.cmp import check_coherent, check_units, check_values, fail, require
from vlib.core import facet
from vlib.gen import I, S

RULE = ("A case is a collection of 1-4 groups (differing in station, tag, network, data type, dimension order or sampling) of 1-6 patches each, on a grid along a datetime/timedelta/float/integer dimension "
        "(time or distance, forward, 1 ns to 1e6 s steps), with contiguous, gapped, overlapping, contained and repeated patches, equal or conflicting data where they overlap, associated coordinates on either "
        "dimension, on both or on none, units, differing dtypes, shuffled; held in memory or in a directory; and a chunk: merge or a length (also not a multiple of the step) with overlap (also negative), partial "
        "segments, tolerance, snapping or not, and conflicting attributes. The oracle works on integers: which samples each contiguous run has and which segments it is cut into. Non-trivial = "
        "a merge of at least two patches or a run cut into at least two segments.")
ASSUMPTIONS = [
    "Patches have a sampling interval, increasing labels on a common grid, and agree on their other dimensions (other cases are refused).",
    "A trailing partial segment of a single sample is not kept (pinned by the tests).",
    "Runs shorter than the length without keep_partial are dropped; if none is left a ChunkError is raised (documented).",
    "Where patches overlap with different data either is returned, sample by sample, as all of them carry that label.",
    "Bridging a gap by a tolerance while snapping changes labels (documented, warned about): labels are only compared without snapping then.",
    "Attributes are dropped, refused or kept by the conflict policy only among the patches joined into one; an attribute that differs is 'kept first' from any one of them, as the order of a spool is not defined for this.",
]

TT = {"dt": [1_000_000_000, 4_000_000, 1, 333_333], "td": [1_000_000_000, 1_000_000], "f": [1.0, 0.25, 0.1, 3.3], "i": [1, 3]}


@st.composite
def chunk_case(draw, tts=("dt", "dt", "dt", "f", "td", "i"), conflict=False):
    tt = draw(S(*tts))
    spec = {"tt": tt, "scale": draw(S(*TT[tt])), "epoch": draw(S(1_500_000_000, 1_500_000_000, 0)), "dim": draw(S("time", "time", "distance")) if tt == "f" else "distance" if tt == "i" else "time",
            "u": draw(S("m", None, "ft")) if tt in ("f", "i") else "s", "nd": draw(I(1, 3)), "groups": [], "shuffle": draw(I(0, 99)), "one_d": draw(S(False, False, False, True))}
    for g in range(draw(S(1, 1, 1, 2, 3))):
        segs, pos = [], draw(I(0, 5))
        for k in range(draw(I(1, 6))):
            n = draw(I(2, 7)) if not k else draw(S(1, 2, 3, 4, 5, 6, 7))
            if k:
                how = draw(S("touch", "touch", "touch", "gap", "gap1", "over", "inside", "repeat"))
                if how == "gap":
                    pos += draw(I(2, 9))
                elif how == "gap1":
                    pos += 1
                elif how == "over":
                    pos -= draw(I(1, 4))
                elif how == "inside":
                    last = segs[draw(I(0, len(segs) - 1))]
                    pos = last[0] + draw(I(0, last[1] - 1))
                elif how == "repeat":
                    pos, n = segs[draw(I(0, len(segs) - 1))][:2]
                pos = max(pos, 0)
            segs.append([pos, n, draw(S("=", "=", "x")), draw(S("f8", "f8", "f8", "i4", "f4"))])
            pos = max(a + b for a, b, *_ in segs)
        spec["groups"].append({"station": ["A", "B", ""][g], "tag": draw(S("", "raw")), "network": draw(S("", "N")), "data_type": draw(S("", "velocity")), "rev_dims": draw(S(False, False, True)),
                               "mult": draw(S(1, 1, 1, 2)), "segs": segs})
    spec["extra"] = [e for e in ("along", "other", "both", "free", "along2") if draw(S(False, False, True))]
    kind = draw(S("merge", "merge", "len", "len", "len"))
    spec["chunk"] = {"kind": kind, "num": draw(I(2, 12)), "frac": draw(S(0, 0, 0, 1, 2)), "over": draw(S(0, 0, 0, 1, 2, -1, -2)), "partial": draw(S(False, True)), "tol": draw(S(None, None, None, 3.4, 1.2)),
                     "snap": draw(S(None, None, False)), "form": draw(S("num", "td"))}
    if conflict:
        spec["chunk"].update(tol=None, conflict=draw(S("raise", "drop", "keep_first")))
        spec["diff"] = [draw(S(None, None, "instrument_id", "data_units", "custom", "half", "free", "other")) for _ in range(2)]
    return spec


def values(spec, ints):
    return gen.ints_to_values({"t": spec["tt"], "scale": spec["scale"], "epoch": spec["epoch"]}, np.asarray(ints))


def build(spec, diff=()):
    """List of (group, start, n, mult, patch, rows)."""
    import dascore as dc
    from dascore.core import get_coord

    dim = spec["dim"]
    other = "distance" if dim == "time" else "depth"
    nd = spec["nd"]
    out = []
    for g, grp in enumerate(spec["groups"]):
        for k, (pos, n, same, dtype) in enumerate(grp["segs"]):
            idx = (pos + np.arange(n)) * grp["mult"]
            t = values(spec, idx)
            data = (g * 100_000 + idx[:, None] * 8 + np.arange(nd)[None] + (0 if same == "=" else 10_000 * (k + 1))).astype(dtype)
            coords = {dim: get_coord(data=t, units=spec["u"])}
            names = [dim, other]
            odd = bool(diff) and k == len(grp["segs"]) - 1 and k > 0
            if spec["one_d"]:
                data, names = data[:, 0], [dim]
            else:
                coords[other] = get_coord(data=np.arange(nd) * 2.0 + 1, units="m")
            ex = spec["extra"]
            if "along" in ex:
                coords["qual"] = (dim, get_coord(data=idx * 0.5 + 7, units="m"))
            if "along2" in ex:
                coords["num"] = (dim, (idx * 7) % 5)
            if "other" in ex and not spec["one_d"]:
                coords["lat"] = (other, get_coord(data=np.arange(nd) * 0.5 + 40 + (1 if odd and "other" in diff else 0), units="m"))
            if "both" in ex and not spec["one_d"]:
                coords["grid"] = ((dim, other), idx[:, None] * 10.0 + np.arange(nd)[None])
            if "free" in ex:
                coords["free"] = ((), np.array([1.0, 2.0, 5.0 if odd and "free" in diff else 3.0]))
            attrs = {a: grp[a] for a in ("station", "tag", "network", "data_type")}
            if diff:
                attrs.update(instrument_id="i2" if odd and "instrument_id" in diff else "i1", data_units="m" if odd and "data_units" in diff else "m/s", custom=2 if odd and "custom" in diff else 1)
                if "half" in diff and not odd:
                    attrs["half"] = "yes"
            p = dc.Patch(data=data, coords=coords, dims=tuple(names), attrs=attrs)
            if grp["rev_dims"] and not spec["one_d"]:
                p = p.transpose(*names[::-1])
            out.append((g, idx, p, data))
    order = np.random.default_rng(spec["shuffle"]).permutation(len(out))
    return [out[i] for i in order]


def group_key(spec, g):
    grp = spec["groups"][g]
    return (grp["station"], grp["tag"], grp["network"], grp["data_type"], grp["rev_dims"] and not spec["one_d"], grp["mult"])


def runs_of(spec, items, tol):
    """Contiguous runs: [(key, sorted item list)]."""
    keys = {}
    for it in items:
        keys.setdefault(group_key(spec, it[0]), []).append(it)
    out = []
    for key, its in keys.items():
        its = sorted(its, key=lambda x: (x[1][0], x[1][-1]))
        mult = key[-1]
        cur, end = [its[0]], its[0][1][-1]
        for it in its[1:]:
            if (it[1][0] - end) > Fraction(tol).limit_denominator(100) * mult:
                out.append((key, cur))
                cur, end = [it], it[1][-1]
            else:
                cur.append(it)
                end = max(end, it[1][-1])
        out.append((key, cur))
    return out


def expect(spec, items):
    """[(key, sample indices of the segment, items of the run)]; indices that no patch has are absent."""
    c = spec["chunk"]
    tol = 1.5 if c["tol"] is None else c["tol"]
    out = []
    for key, its in runs_of(spec, items, tol):
        mult = key[-1]
        have = np.unique(np.concatenate([i[1] for i in its]))
        if c["kind"] == "merge":
            out.append((key, have, its))
            continue
        length = seg_length(c)
        over = c["over"]
        lo, hi = have[0], have[-1]
        total = (hi - lo) + mult
        if total < length and not c["partial"]:
            continue
        k = 0
        while True:
            a = lo + k * (length - over)
            if a > hi:
                break
            # grid positions within [a, a + length)
            first = lo + math.ceil((a - lo) / mult) * mult
            stop = lo + math.ceil((a + length - lo) / mult) * mult
            last = stop - mult
            k += 1
            if last < first or first > hi:
                continue
            if last > hi:
                if not c["partial"] or first + mult > hi:
                    continue
                last = hi
            out.append((key, have[(have >= first) & (have <= last)], its))
    return out


def seg_length(c):
    return Fraction(c["num"]) + Fraction(c["frac"], 3)


def tick(spec, q):
    """A length in samples of the base grid, as (float in units, exact)."""
    if spec["tt"] in ("dt", "td"):
        return float(q * spec["scale"]) / 1e9
    return float(q * Fraction(spec["scale"]).limit_denominator(1000))


def chunk_kwargs(spec):
    c = spec["chunk"]
    kw = {}
    if c["tol"] is not None:
        kw["tolerance"] = c["tol"]
    if c["snap"] is not None:
        kw["snap_coords"] = c["snap"]
    if "conflict" in c:
        kw["conflict"] = c["conflict"]
    if c["kind"] == "merge":
        return {**kw, spec["dim"]: None if c["form"] == "num" else ...}
    length = seg_length(c)

    def form(q):
        if spec["tt"] in ("dt", "td") and (c["form"] == "td" or q * spec["scale"] < 100_000):
            return np.timedelta64(int(q * spec["scale"]), "ns")
        return tick(spec, q)

    if c["over"]:
        kw["overlap"] = form(Fraction(c["over"]))
    if c["partial"]:
        kw["keep_partial"] = True
    return {**kw, spec["dim"]: form(length)}


def in_domain(spec):
    c = spec["chunk"]
    if c["kind"] == "len":
        length = seg_length(c)
        if c["over"] >= length or c["over"] < 0 and False:
            return False
        exact = length * Fraction(spec["scale"]).limit_denominator(1000)
        # lengths must be whole ns for time; floats only away from rounding edges
        if spec["tt"] in ("dt", "td") and exact.denominator != 1:
            return False
        if spec["tt"] in ("dt", "td") and spec["scale"] < 100:
            return exact.denominator == 1
    return True


def check_segments(out, spec, items, what, labels=True):
    """The patches are exactly the expected segments."""
    from collections import Counter

    dim = spec["dim"]
    want = expect(spec, items)
    got = []
    for p in out:
        check_coherent(p, what)
        a = p.attrs
        d = np.asarray(p.data)
        names = [dim] if spec["one_d"] else [dim, "distance" if dim == "time" else "depth"]
        require(set(p.dims) == set(names), f"{what}: dims {p.dims}")
        rev = p.dims != tuple(names)
        d = d.T if rev else d
        got.append((p, (a.station, a.tag, a.network, a.data_type, rev), d))
    have = Counter()
    exp = Counter((key[:5], len(idx)) for key, idx, _ in want)
    for p, k, d in got:
        have[(k, d.shape[0])] += 1
    require(have == exp, f"{what}: segments (group, samples) {dict(have)} but expected {dict(exp)}")
    left = list(range(len(want)))
    for p, k, d in got:
        lab = np.asarray(p.get_array(dim))
        best = None
        for w in left:
            key, idx, its = want[w]
            if key[:5] != k or len(idx) != d.shape[0]:
                continue
            err = find(spec, d, lab, idx, its, labels)
            if err is None:
                best = w
                break
            best_err = err
        if best is None:
            fail(f"{what}: the segment of {k} labelled {lab[:3]}..{lab[-1:]} is none of the expected ones: {best_err}")
        left.remove(best)
        key, idx, its = want[best]
        require(np.asarray(p.data).dtype == np.result_type(*[i[3].dtype for i in its]) or np.asarray(p.data).dtype in [i[3].dtype for i in its], f"{what}: dtype {p.data.dtype}")
        check_extras(p, spec, idx, labels, what)
        if labels and len(idx) > 1 and (np.diff(idx) == key[-1]).all():
            c = p.get_coord(dim)
            require(c.evenly_sampled, f"{what}: the segment has no sampling interval")
    require(not left, f"{what}: missing segments {[(want[w][0], want[w][1].tolist()) for w in left]}")
    return want


def find(spec, d, lab, idx, its, labels):
    """None if the data (and labels) are those of the sample indices."""
    want = values(spec, idx)
    if labels:
        try:
            check_values(lab, want, "labels", atol=1e-9 * (float(np.abs(want).max()) + float(spec["scale"])) if want.dtype.kind == "f" else 0)
        except Exception as e:  # noqa: BLE001
            return str(e)
    ok = np.zeros(d.shape, bool)
    for _, ii, _, data in its:
        pos = {int(v): j for j, v in enumerate(ii)}
        rows = [(r, pos[int(v)]) for r, v in enumerate(idx) if int(v) in pos]
        if rows:
            r, s = map(np.array, zip(*rows))
            ok[r] |= d[r] == data[s]
    if not ok.all():
        return f"sample {np.argwhere(~ok)[0].tolist()} is {d[tuple(np.argwhere(~ok)[0])]}"
    return None


def check_extras(p, spec, idx, labels, what):
    cm = p.coords.coord_map
    dim = spec["dim"]
    check_units(p.get_coord(dim).units, spec["u"], f"{what}: units of {dim}")
    other = "distance" if dim == "time" else "depth"
    nd = spec["nd"]
    want = {}
    if not spec["one_d"]:
        want[other] = ((other,), np.arange(nd) * 2.0 + 1, "m")
    if "along" in spec["extra"]:
        want["qual"] = ((dim,), idx * 0.5 + 7, "m")
    if "along2" in spec["extra"]:
        want["num"] = ((dim,), (idx * 7) % 5, None)
    if "other" in spec["extra"] and not spec["one_d"]:
        want["lat"] = ((other,), np.arange(nd) * 0.5 + 40, "m")
    if "both" in spec["extra"] and not spec["one_d"]:
        want["grid"] = ((dim, other), idx[:, None] * 10.0 + np.arange(nd)[None], None)
    if "free" in spec["extra"]:
        want["free"] = ((), np.array([1.0, 2.0, 3.0]), None)
    may_drop = set()
    if spec["chunk"].get("conflict") in ("drop", "keep_first"):
        may_drop = {"lat" if x == "other" else x for x in spec.get("diff", ()) if x in ("other", "free")}
    for n, (cd, vals, u) in want.items():
        if n in may_drop:
            continue
        require(n in cm, f"{what}: coordinate {n} of {cd} was lost")
        got = np.asarray(p.get_array(n))
        require(p.coords.dim_map[n] == cd or (set(p.coords.dim_map[n]) == set(cd)), f"{what}: dims of {n}: {p.coords.dim_map[n]}")
        if p.coords.dim_map[n] != cd:
            got = got.T
        check_values(got, vals, f"{what}: coord {n}", atol=1e-9 * (float(np.abs(vals).max()) + 1) if vals.dtype.kind == "f" else 0)
        check_units(p.get_coord(n).units, u, f"{what}: coord {n}")


def run(spool, kw, what, items, spec):
    """The chunked patches, or None when nothing is long enough."""
    from dascore.exceptions import ChunkError

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            ch = spool.chunk(**kw)
        except ChunkError:
            require(not expect(spec, items), f"{what}: refused but segments were expected")
            return None
        out = [ch[i] for i in range(len(ch))]
        it = list(ch)
    require(len(it) == len(out), f"{what}: iterating gives {len(it)} of {len(out)} patches")
    df = ch.get_contents()
    return ch, out, df


def bridged(spec, items):
    tol = 1.5 if spec["chunk"]["tol"] is None else spec["chunk"]["tol"]
    return any((np.diff(np.unique(np.concatenate([i[1] for i in its]))) != key[-1]).any() for key, its in runs_of(spec, items, tol))


@facet("memory", chunk_case(), quick=2000, weight=3)
def check_memory(spec, ctx):
    """Chunks of a spool in memory have exactly the samples of its patches."""
    import dascore as dc

    if not in_domain(spec):
        return
    items = build(spec)
    gaps = bridged(spec, items)
    if gaps and spec["chunk"]["kind"] == "len":
        return  # segments in a bridged gap have no defined number of samples
    kw = chunk_kwargs(spec)
    segs = [[s[:3] for s in g["segs"]] for g in spec["groups"]]
    what = f"chunk({kw}) of {segs} x {spec['scale']}"
    spool = dc.spool([i[2] for i in items])
    res = run(spool, kw, what, items, spec)
    if res is None:
        ctx.label("too short")
        return
    ch, out, df = res
    snap = spec["chunk"]["snap"]
    want = check_segments(out, spec, items, what, labels=not gaps or snap is False)
    # the contents tell the same
    require(len(df) == len(out), f"{what}: {len(df)} rows for {len(out)} patches")
    dim = spec["dim"]
    if not gaps or snap is False:
        for row, p in zip(df.to_dict("records"), out):
            c = p.get_coord(dim)
            for name, v in (("min", c.min()), ("max", c.max())):
                r = row[f"{dim}_{name}"]
                if isinstance(v, np.datetime64 | np.timedelta64):
                    r = r.to_numpy() if hasattr(r, "to_numpy") else r
                    ok = r == v
                else:
                    ok = math.isclose(r, v, rel_tol=1e-9, abs_tol=1e-9 * spec["scale"])
                require(ok, f"{what}: {dim}_{name} of the contents is {r} but the patch has {v}")
    for g, idx, p, data in items:
        d = np.asarray(p.data)
        require(np.array_equal(d.T if d.ndim == 2 and spec["groups"][g]["rev_dims"] else d, data), f"{what}: an input was changed")
    ctx.label(spec["chunk"]["kind"], spec["tt"], "overlap" if spec["chunk"]["over"] else "", "bridged" if gaps else "", *spec["extra"])
    ctx.nontrivial(any(len(its) > 1 for _, _, its in want) or len(want) > 1)


@facet("directory", chunk_case(tts=("dt",)), quick=100, weight=2)
def check_directory(spec, ctx):
    """Chunks of a directory spool, or of a chunked, selected or sorted spool, are the same."""
    if not in_domain(spec):
        return
    items = build(spec)
    if bridged(spec, items):
        return
    kw = chunk_kwargs(spec)
    what = f"directory: chunk({kw}) of {[[s[:3] for s in g['segs']] for g in spec['groups']]}"
    with tempfile.TemporaryDirectory() as t:
        spool = spools.make_spool([i[2] for i in items], "directory", Path(t))
        res = run(spool, kw, what, items, spec)
        if res is None:
            return
        want = check_segments(res[1], spec, items, what)
        again = run(res[0], kw, what + " again", items, spec)
        check_segments(again[1], spec, items, what + " again")
    ctx.label(spec["chunk"]["kind"])
    ctx.nontrivial(any(len(its) > 1 for _, _, its in want) or len(want) > 1)


@facet("conflict", chunk_case(tts=("dt", "f"), conflict=True), quick=900)
def check_conflict(spec, ctx):
    """Differing attributes and coordinates are refused, dropped or kept as asked."""
    import dascore as dc
    from dascore.exceptions import AttributeMergeError, CoordMergeError

    if not in_domain(spec):
        return
    diff = [d for d in spec["diff"] if d]
    diff = [d for d in diff if d not in ("free", "other") or d in spec["extra"] and (d == "free" or not spec["one_d"])]
    items = build(spec, tuple(diff) or ("none",))
    if bridged(spec, items):
        return
    spec = dict(spec, diff=diff)
    kw = chunk_kwargs(spec)
    conflict = spec["chunk"]["conflict"]
    what = f"chunk({kw}) with differing {diff} of {[[s[:3] for s in g['segs']] for g in spec['groups']]}"
    spool = dc.spool([i[2] for i in items])

    def odd(it):
        return it[2].attrs.get("instrument_id") == "i2" or it[2].attrs.get("data_units") == dc.get_quantity("m") or it[2].attrs.get("custom") == 2

    try:
        res = run(spool, kw, what, items, spec)
    except (AttributeMergeError, CoordMergeError) as e:
        require(conflict == "raise" and diff, f"{what}: refused with {e!r}")
        # there must be a run in which they differ
        require(any(len(its) > 1 for _, its in runs_of(spec, items, 1.5)), f"{what}: refused with {e!r} without joining patches")
        ctx.label("refused")
        ctx.nontrivial(True)
        return
    if res is None:
        return
    if conflict != "raise" or not diff:
        check_segments(res[1], spec, items, what)
    for p in res[1]:
        d = np.asarray(p.data)
        key = (p.attrs.station, p.attrs.tag, p.attrs.network, p.attrs.data_type)
        lab = np.asarray(p.get_array(spec["dim"]))
        # patches with a sample in this segment
        src = []
        for it in items:
            if group_key(spec, it[0])[:4] != key or (it[2].dims != p.dims):
                continue
            v = values(spec, it[1])
            half = (v[1] - v[0] if len(v) > 1 else spec["scale"] / 5) / 2 if v.dtype.kind == "f" else v[0] - v[0]
            if v[-1] >= lab[0] - half and v[0] <= lab[-1] + half:
                src.append(it)
        for name in ("instrument_id", "data_units", "custom", "half"):
            vals = {str(s[2].attrs.get(name)) for s in src}
            got = str(p.attrs.get(name))
            if len(vals) == 1:
                require(got == next(iter(vals)), f"{what}: attribute {name} is {got} but was {vals}")
            elif conflict == "keep_first":
                require(got in vals, f"{what}: attribute {name} is {got} but was one of {vals}")
            else:
                # an overlap resolved in favour of one patch leaves no conflict
                require(got in ("None", "") or got in vals and len(p.get_array(spec["dim"])) and any(len(set(a[1]) & set(b[1])) for a in src for b in src if a is not b), f"{what}: attribute {name} is {got} although it differs: {vals}")
        _ = d
    ctx.label(conflict, *diff)
    ctx.nontrivial(bool(diff))


_ = I
FACETS = [check_memory, check_directory, check_conflict]
