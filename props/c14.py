"""C14: files return exactly the patches that were written to them."""
from __future__ import annotations

import io

import numpy as np
from hypothesis import strategies as st

from vlib import gen, spools
from vlib.cmp import Snap, attrs_equal, check_coherent, check_same_snap, fail, require
from vlib.core import facet
from vlib.gen import I, L, S

RULE = ("A case is a patch (any dims, dtype, coordinate kinds incl. empty, 2-D and free-standing ones, units, odd attribute values) written in the native or pickle format by every "
        "entry point and read back by every entry point; or a sequence of writes of (overlapping, repeated, same-second) patches to one file, optionally indexed; or a file of several "
        "patches read with coordinate and attribute queries and scanned. The oracle is the patch in memory, a list model of the file, and Patch.select. Non-trivial = at least one "
        "patch with more than one sample went through a file (and, for queries, the query drops some samples but not all).")
ASSUMPTIONS = [
    "The class of a coordinate (range or array) and the order in which coordinates are listed are representation, not content; float labels may be recomputed within round-off.",
    "Writing a patch whose metadata (attributes, history, coordinate limits) are identical to one already in the file replaces that one (documented by the test suite); anything else is kept.",
    "Coordinates without values (length only) are stored as missing values (PyTables issue 423, marked as known in the test suite) and are outside the domain.",
    "The index embedded in a file stores absolute times: indexed files only hold patches with datetime time coordinates.",
    "Scanning an indexed file only reports what the index stores (time limits and the indexed attributes).",
]

class _Keep(io.BytesIO):
    """A buffer which survives being closed."""

    def close(self):
        pass


CUSTOM = [{}, {}, {"custom_f": 1.25}, {"custom_i": 7, "custom_s": "a/b c"}, {"custom_l": [1, 2, 3]}, {"custom_b": True}, {"custom_n": None}, {"custom_u": "µε ü"},
          {"custom_dt": {"dt": "2020-01-02T03:04:05.000000006"}}, {"custom_td": {"td": 1500}}, {"custom_nan": float("nan")}, {"custom_d": {"a": 1}}, {"custom_a": {"arr": [1.5, 2.5]}},
          {"custom_long": "x" * 300}, {"custom_e": ""}, {"tag": "a[1]*"}, {"station": "?", "custom_t": (1, 2)}]


def _custom(c):
    out = {}
    for k, v in c.items():
        if isinstance(v, dict) and "dt" in v:
            v = np.datetime64(v["dt"], "ns")
        elif isinstance(v, dict) and "td" in v:
            v = np.timedelta64(v["td"], "ns")
        elif isinstance(v, dict) and "arr" in v:
            v = np.array(v["arr"])
        out[k] = v
    return out


@st.composite
def trip_case(draw):
    ps = gen.draw_patch(draw, max_n=5, min_n=1, kinds=("even", "even", "mono", "arr", "dup"), data=("uniq", "float", "int", "nan", "cplx", "f4", "i2", "bool"))
    return {"p": ps, "fmt": draw(S("dasdae", "dasdae", "dasdae", "pickle")), "w": draw(S("io.write", "dc.write", "spool", "fiberio", "bytes")), "r": draw(S("read", "read_fmt", "spool", "dir", "iospool")),
            "op": draw(S(None, None, "transpose", "empty", "one", "flip", "decimate", "process", "nat")), "k": draw(I(0, 99)), "custom": draw(S(*range(len(CUSTOM)))),
            "index": draw(S(False, False, False, True))}


def prepare(spec):
    patch, _ = gen.build_patch(spec["p"])
    c = _custom(CUSTOM[spec["custom"]])
    if c:
        patch = patch.update_attrs(**c)
    op, k = spec["op"], spec["k"]
    dim = patch.dims[k % patch.ndim]
    if op == "transpose":
        patch = patch.transpose(*patch.dims[::-1])
    elif op == "empty":
        patch = patch.select(**{dim: (3, 1)}, samples=True) if False else patch.order(**{dim: np.array([], dtype=int)}, samples=True)
    elif op == "one":
        patch = patch.select(**{dim: 0}, samples=True)
    elif op == "flip":
        patch = patch.flip(dim, flip_coords=bool(k % 2))
    elif op == "decimate" and patch.get_coord(dim).evenly_sampled and patch.get_coord(dim).shape[0] > 2:
        patch = patch.decimate(**{dim: 2}, filter_type=None, copy=bool(k % 2))
    elif op == "process" and patch.data.dtype.kind == "f":
        patch = (patch.abs() * 2).rename_coords(**{dim: dim + "_x"})
    elif op == "nat":
        v = np.array([np.datetime64("2020-01-01", "ns") + np.timedelta64(i, "s") for i in range(patch.coord_shapes[dim][0])])
        v[:: 2] = np.datetime64("NaT")
        patch = patch.update_coords(pick=(dim, v))
    return patch


def write(patches, path, how, fmt, index=False):
    import dascore as dc
    from dascore.io.core import FiberIO

    spool = dc.spool(list(patches))
    if index and fmt == "dasdae":
        FiberIO.manager.get_fiberio(format="DASDAE", version="1").write(spool, path, index=True)
    elif how == "io.write" and len(patches) == 1:
        patches[0].io.write(path, fmt)
    elif how == "dc.write" and len(patches) == 1:
        dc.write(patches[0], path, fmt)
    elif how == "fiberio":
        FiberIO.manager.get_fiberio(format=fmt.upper()).write(spool, path)
    else:
        dc.write(spool, path, fmt)


def read_all(path, how, fmt):
    import dascore as dc

    if how == "read":
        return list(dc.read(path))
    if how == "read_fmt":
        return list(dc.read(path, file_format=fmt.upper()))
    if how == "spool":
        return list(dc.spool(path))
    if how == "dir":
        return list(dc.spool(path.parent).update(progress=None))
    return list(dc.spool(str(path), file_format=fmt.upper()))


@facet("roundtrip", trip_case(), quick=800, weight=3)
def check_roundtrip(spec, ctx):
    """One patch of any kind through every writer and reader."""
    import dascore as dc
    from dascore.io.core import FiberIO

    patch = prepare(spec)
    what = f"{spec['w']}->{spec['fmt']}->{spec['r']} op={spec['op']} custom={CUSTOM[spec['custom']]}"
    before = Snap(patch)
    tmp = ctx.tmpdir() / "d"
    tmp.mkdir()
    path = tmp / ("p.h5" if spec["fmt"] == "dasdae" else "p.pkl")
    if spec["fmt"] == "pickle" and spec["w"] == "bytes":
        buf = _Keep()
        dc.write(patch, buf, "pickle")
        buf.seek(0)
        got = list(FiberIO.manager.get_fiberio(format="PICKLE").read(buf))
    else:
        r = spec["r"]
        dt = [n for n in patch.dims if n == "time" and np.asarray(patch.get_coord(n).values).dtype.kind == "M"]
        write([patch], path, spec["w"], spec["fmt"], spec["index"] and dt and 0 not in patch.shape)
        if (r == "dir" and not dt) or 0 in patch.shape:
            r = "read"  # the directory index is about times, and spools drop empty patches
        got = read_all(path, r, spec["fmt"])
    check_same_snap(before, Snap(patch), f"{what}: the patch written")
    require(len(got) == 1, f"{what}: {len(got)} patches read")
    out = got[0]
    check_coherent(out, what)
    check_same_snap(before, Snap(out), what, stored=True)
    if not any(v != v for v in _custom(CUSTOM[spec["custom"]]).values() if isinstance(v, float)) and "custom_a" not in CUSTOM[spec["custom"]]:
        require(patch == out or spec["op"] == "nat" or bool(np.isnan(patch.data).any()), f"{what}: the patch read compares different from the one written")
    ctx.label(spec["fmt"], spec["w"], spec["r"], f"op {spec['op']}")
    ctx.nontrivial(patch.data.size > 1)


# ---------------------------------------------------------------- histories of writes
@st.composite
def hist_case(draw):
    sp = spools.draw_streams(draw, max_streams=2, max_segs=4, max_n=3, min_n=1, overlaps=draw(S((), (1, 2, 3))))
    n = sum(len(s["segs"]) for s in sp["streams"])
    return {"s": sp, "writes": [[draw(L(0, n - 1, draw(I(1, 3)))), draw(S("plain", "plain", "plain", "index", "update", "attr", "data"))] for _ in range(draw(I(1, 4)))],
            "fmt": draw(S("dasdae", "dasdae", "dasdae", "dasdae", "pickle")), "src": draw(S("list", "list", "spool", "file", "chunk"))}


def _ident(p):
    return (_canon(p.attrs.model_dump()), tuple(p.dims))


def _canon(x):
    """A hashable form of nested dicts in which the order of keys doesn't matter."""
    if hasattr(x, "items"):
        return tuple(sorted((str(k), _canon(v)) for k, v in x.items()))
    return repr(x)


def _sorted(snaps):
    return sorted(snaps, key=lambda s: (str(s.dims), s.data.shape, s.data.tobytes(), repr(sorted(s.attrs.items(), key=str))))


@facet("writes", hist_case(), quick=500, weight=3)
def check_writes(spec, ctx):
    """Sequences of writes to one file keep what is there and lose nothing."""
    import dascore as dc

    sp = spec["s"]
    patches = [p for _, _, p in spools.build_patches(sp)]
    tmp = ctx.tmpdir()
    fmt = spec["fmt"]
    path = tmp / ("f.h5" if fmt == "dasdae" else "f.pkl")
    model = []  # (identity, snap)
    indexed = False
    can_index = sp["tt"] == "dt"
    for num, (idx, how) in enumerate(spec["writes"]):
        group = [patches[i] for i in idx]
        if how == "attr":
            group = [p.update_attrs(acquisition_id="acq 2", history=["some step"]) for p in group]
        elif how == "data":
            group = [p.new(data=p.data + 0.5) for p in group]
        src, given = spec["src"], group
        if src == "file" and num:
            other = tmp / f"other{num}.h5"
            dc.write(dc.spool(group), other, "dasdae")
            given = dc.spool(other)
            group = list(dc.read(other))
        elif src == "chunk":
            given = dc.spool(group).chunk(time=2 * sp["scale"] / (1e9 if sp["tt"] != "f" else 1), keep_partial=True) if all(p.get_coord("time").step is not None for p in group) else dc.spool(group)
            group = list(given)
        elif src == "spool" or len(group) != 1:
            given = dc.spool(group)
        else:
            given = group[0]
        if how == "index" and fmt == "dasdae" and can_index:
            from dascore.io.core import FiberIO

            FiberIO.manager.get_fiberio(format="DASDAE", version="1").write(dc.spool(group) if isinstance(given, dc.Patch) else given, path, index=True)
            indexed = True
        else:
            dc.write(given, path, fmt)
        if how == "update" and fmt == "dasdae" and can_index:
            dc.spool(path).update()
            indexed = True
        done = set()
        for p in group:
            ident, pos = _ident(p), len(model)
            for j, (other, _) in enumerate(model if fmt == "dasdae" else ()):
                if other == ident and j not in done:
                    pos = j
                    break
            model[pos:pos + 1] = [(ident, Snap(p))]
            done.add(pos)
        what = f"after write {num} ({how}) of {len(group)} patches from {src}"
        want = _sorted([s for _, s in model])
        for reader in ("read", "spool"):
            got = [Snap(p) for p in read_all(path, reader, fmt)]
            require(len(got) == len(want), f"{what}: {reader} returns {len(got)} patches, {len(want)} expected")
            for a, b in zip(want, _sorted(got)):
                check_same_snap(a, b, f"{what}: {reader}", stored=True)
        scanned = dc.scan(path)
        require(len(scanned) == len(want), f"{what}: scan finds {len(scanned)} patches, {len(want)} expected")
    ctx.label(fmt, f"writes {len(spec['writes'])}", "indexed" if indexed else "plain", spec["src"], *[h for _, h in spec["writes"]])
    ctx.nontrivial(len(model) > 1)


# ---------------------------------------------------------------- queries and scans
@st.composite
def query_case(draw):
    sp = spools.draw_streams(draw, max_streams=3, max_segs=3, max_n=6, min_n=1)
    return {"s": sp, "t": draw(L(-2, 26, 2)), "frac": draw(L(0, 2, 2)), "open": draw(S("", "", "", "lo", "hi")), "d": draw(S(None, None, (1, 4), (0, 2), (3, 30), (None, 2), (50, 60))), "attr": draw(S(None, None, None, "station", "tag", "wild", "list", "two")),
            "fmt": draw(S("dasdae", "dasdae", "pickle")), "tnone": draw(S(False, False, True)), "via": draw(S("read", "fiberio", "spool"))}


@facet("query", query_case(), quick=500, weight=2)
def check_query(spec, ctx):
    """Reading a query equals selecting it from everything; scanning agrees with reading."""
    import dascore as dc
    from dascore.io.core import FiberIO

    sp = spec["s"]
    patches = [p for _, _, p in spools.build_patches(sp)]
    path = ctx.tmpdir() / ("f.h5" if spec["fmt"] == "dasdae" else "f.pkl")
    dc.write(dc.spool(patches), path, spec["fmt"])
    everything = list(dc.read(path))
    # scan
    scanned = dc.scan(path)
    require(len(scanned) == len(everything), f"scan finds {len(scanned)} patches, reading {len(everything)}")
    for a, p in zip(scanned, everything):
        a, b = a.model_dump(), p.attrs.model_dump()
        for k in ("path", "file_format", "file_version", "history"):
            a.pop(k, None), b.pop(k, None)
        for k in set(a) | set(b):
            require(attrs_equal(a.get(k), b.get(k)), f"scan says {k}={a.get(k)!r}, the patch read has {b.get(k)!r}")
    df = dc.scan_to_df(path)
    require(len(df) == len(everything), "scan_to_df has another number of rows")
    # query
    q = {}
    if not spec["tnone"]:
        a, b = sorted(spec["t"])
        lo, hi = spools.label(sp, [a * 2 + spec["frac"][0], b * 2 + spec["frac"][1]]) if False else spools.label({**sp, "scale": sp["scale"] / 2 if sp["tt"] == "f" else sp["scale"] // 2}, [a * 2 + spec["frac"][0], b * 2 + spec["frac"][1]])
        q["time"] = (None if spec["open"] == "lo" else lo, None if spec["open"] == "hi" else hi)
    if spec["d"] is not None:
        q["distance"] = tuple(spec["d"])
    if not q and spec["attr"] is None:
        return
    want = [p.select(**q) for p in everything]
    attr = {}
    if spec["attr"] and spec["fmt"] == "dasdae":
        attr = {"station": {"station": "A"}, "tag": {"tag": "x"}, "wild": {"tag": "r*"}, "list": {"station": ["A", "B"]}, "two": {"station": "A", "tag": "x"}}[spec["attr"]]
        want = [p for p in want if _attr_match(p, attr)]
    want = [p for p in want if p.data.size]
    what = f"{spec['via']} of {q} {attr}"
    if spec["via"] == "fiberio":
        got = list(FiberIO.manager.get_fiberio(format=spec["fmt"].upper()).read(path, **q, **attr))
    elif spec["via"] == "spool":
        got = [p for p in dc.spool(path).select(**q, **attr) if p.data.size]
    else:
        got = list(dc.read(path, **q, **attr))
    require(len(got) == len(want), f"{what}: {len(got)} patches, expected {len(want)}")
    for a, b in zip(_sorted([Snap(p) for p in want]), _sorted([Snap(p) for p in got])):
        a.attrs.pop("history"), b.attrs.pop("history")
        check_same_snap(a, b, what, stored=True)
    ctx.label(spec["fmt"], spec["via"], f"attr {spec['attr']}")
    total = sum(p.data.size for p in everything)
    ctx.nontrivial(0 < sum(p.data.size for p in want) < total)


def _attr_match(p, attr):
    for k, v in attr.items():
        val = p.attrs.get(k)
        if isinstance(v, list):
            if val not in v:
                return False
        elif v.endswith("*"):
            if not val.startswith(v[:-1]):
                return False
        elif val != v:
            return False
    return True


FACETS = [check_roundtrip, check_writes, check_query]
