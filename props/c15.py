"""C15: a directory spool reflects exactly the files in its directory."""
from __future__ import annotations

import os
import shutil
import warnings

import numpy as np
from hypothesis import strategies as st

from vlib.cmp import Snap, check_coherent, check_same_snap, require
from vlib.core import facet
from vlib.gen import I, S

RULE = ("A case is a history of 3-9 steps on a scratch directory: files of 1-3 patches are written (DASDAE or pickle; odd names, nested and hidden directories, long paths, unicode attributes), rewritten, moved in "
        "from elsewhere with old time stamps, given time stamps around the last update or in the future; foreign, empty, truncated and hidden files are dropped in; the spool is updated, updated "
        "again, reopened, opened on a sub-directory, queried by time or attribute, sliced. After each update the spool must list and return exactly the patches in the directory's readable files. "
        "Non-trivial = at least two updates, each after new files.")
ASSUMPTIONS = [
    "Files are not deleted (the index documents no pruning) and directories of files are not moved in as a whole with their old time stamps (updates look for files changed since the last one).",
    "Hidden files and directories are not part of a directory spool.",
    "Patches have attributes which fit in the index; times are absolute (the index stores times as such).",
]

NAMES = ["a.h5", "b.hdf5", "c", "with space.h5", "dots.in.name.h5", "ünï.h5", "a.h5.bak", "UPPER.H5", "x" * 60 + ".h5"]
DIRS = ["", "", "", "sub", "sub/deep", "other dir", "a.h5.d", "d" * 50 + "/" + "e" * 40]
TAGS = ["", "x", "raw y", "ü" * 20, "t" * 90, "nan", "None", "0"]


@st.composite
def new_file(draw):
    segs = [[draw(I(0, 40)), draw(I(1, 6))] for _ in range(draw(S(1, 1, 1, 2, 3)))]
    return {"op": "add", "name": draw(S(*NAMES)), "dir": draw(S(*DIRS)), "fmt": draw(S("dasdae", "dasdae", "pickle")), "segs": segs, "tag": draw(S(*TAGS)), "station": draw(S("", "A", "B", "ünïcode")),
            "type": draw(S("", "velocity")), "lat": draw(S(False, False, True)), "tt": draw(S("dt", "dt", "dt", "none")), "rev": draw(S(False, False, True)), "how": draw(S("write", "write", "write", "move", "copy")),
            "mtime": draw(S(None, None, None, "old", "future", "last", "now"))}


@st.composite
def history(draw):
    n = draw(I(3, 9))
    ops = [draw(new_file())]
    for _ in range(n):
        kind = draw(S("add", "add", "add", "update", "update", "update", "junk", "reopen", "query", "subspool", "fresh"))
        if kind == "add":
            ops.append(draw(new_file()))
        elif kind == "junk":
            ops.append({"op": "junk", "what": draw(S("empty", "text", "hdf", "truncated", "hidden", "hiddendir", "pickle", "zeros")), "dir": draw(S("", "sub")), "k": draw(I(0, 3))})
        elif kind == "query":
            ops.append({"op": "query", "lo": draw(S(None, *range(-2, 45))), "hi": draw(S(None, *range(-2, 45))), "station": draw(S(None, None, "", "A", "*")), "tag": draw(S(None, None, "", "raw*"))})
        else:
            ops.append({"op": kind})
    ops.append({"op": "update"})
    return {"ops": ops, "index": draw(S("default", "default", "default", "custom"))}


def build_file(op, num):
    import dascore as dc

    out = []
    # (the index has no numeric times to tell patches of a file apart)
    for k, (start, n) in enumerate(op["segs"][:1] if op.get("tt") == "f" else op["segs"]):
        t = np.datetime64("2020-01-01T00:00:00", "ns") + (start * 10 + np.arange(n)) * np.timedelta64(100, "ms")
        tt = op.get("tt", "dt")
        t = t if tt == "dt" else start + np.arange(n) * 0.5
        name = "other" if tt == "none" else "time"
        coords = {name: t, "distance": np.arange(2) * 2.0}
        if op["lat"]:
            coords["lat"] = ("distance", np.arange(2) * 0.5)
        data = (num * 1000 + k * 100 + np.arange(2 * n)).reshape(n, 2) * 1.0
        dims = (name, "distance")
        if op["rev"]:
            data, dims = data.T, dims[::-1]
        out.append(dc.Patch(data=data, coords=coords, dims=dims, attrs={"tag": op["tag"], "station": op["station"], "data_type": op["type"], "network": f"n{k}"}))
    return out


def put_file(op, num, root, scratch, last):
    import dascore as dc

    folder = root / op["dir"]
    folder.mkdir(parents=True, exist_ok=True)
    path = folder / op["name"]
    if path.is_dir():
        return None, []
    patches = build_file(op, num)
    if op["fmt"] == "pickle":
        patches = patches[:1]
    target = path if op["how"] == "write" else scratch / f"staging{num}"
    if target.exists():
        target.unlink()
    dc.write(dc.spool(patches) if op["fmt"] == "dasdae" else patches[0], target, op["fmt"])
    stamp = {None: None, "old": 1.5e9, "future": 4e9, "last": last, "now": None}[op["mtime"]]
    if stamp is not None and (op["how"] != "write" or op["mtime"] != "old"):
        os.utime(target, (stamp, stamp))
    if op["how"] == "move":
        os.replace(target, path)
    elif op["how"] == "copy":
        shutil.copy2(target, path)
    return path, patches


def junk(op, num, root, scratch):
    import dascore as dc
    import h5py

    folder = root / op["dir"]
    folder.mkdir(parents=True, exist_ok=True)
    what, path = op["what"], folder / f"junk{num}{['', '.h5', '.txt', '.pkl'][op['k']]}"
    good = build_file({"segs": [[0, 3]], "lat": False, "rev": False, "tag": "hid", "station": "H", "type": ""}, 99)[0]
    if what == "empty":
        path.write_bytes(b"")
    elif what == "text":
        path.write_text("nothing to see here\n" * 3)
    elif what == "zeros":
        path.write_bytes(b"\0" * 4096)
    elif what == "hdf":
        with h5py.File(path, "w") as fi:
            fi["data"] = np.arange(5)
    elif what == "truncated":
        good.io.write(path, "dasdae")
        raw = path.read_bytes()
        path.write_bytes(raw[: len(raw) // 3])
    elif what == "pickle":
        import pickle

        path.write_bytes(pickle.dumps({"not": "a patch"}))
    elif what == "hidden":
        good.io.write(folder / f".hid{num}.h5", "dasdae")
    elif what == "hiddendir":
        (folder / ".hid").mkdir(exist_ok=True)
        good.io.write(folder / ".hid" / f"f{num}.h5", "dasdae")


def sig(p):
    return repr((p.attrs.station, p.attrs.tag, p.attrs.network, p.dims, p.shape, np.asarray(p.data).ravel().tolist()))


def limits(p):
    """The time limits of a patch as the index shows them (numbers are seconds since 1970)."""
    if "time" not in p.dims:
        return np.datetime64("NaT", "ns"), np.datetime64("NaT", "ns")
    out = p.get_coord("time").min(), p.get_coord("time").max()
    if isinstance(out[0], np.datetime64):
        return out
    return tuple(np.datetime64(int(round(x * 1e9)), "ns") for x in out)


def listing(df):
    cols = sorted(set(df.columns) & {"path", "time_min", "time_max", "time_step", "station", "tag", "network", "dims", "file_format", "file_version", "data_type"})
    return df[cols].sort_values(cols).reset_index(drop=True)


def check_spool(sp, files, root, what):
    """The spool has exactly the patches in files (a dict of path: patches)."""
    want = [p for ps in files.values() for p in ps]
    df = sp.get_contents()
    paths = sorted(str(x) for x in df["path"])
    expected = sorted(str(path.relative_to(root)) for path, ps in files.items() for _ in ps)
    require(paths == expected, lambda: f"{what}: lists {paths} but the directory has {expected}")
    require(len(sp) == len(want), lambda: f"{what}: length {len(sp)}, expected {len(want)}")
    got = list(sp)
    require(len(got) == len(want), lambda: f"{what}: returned {len(got)} patches, expected {len(want)}")
    for a, b in zip(sorted(got, key=sig), sorted(want, key=sig)):
        check_coherent(a, what)
        check_same_snap(Snap(b), Snap(a), what, stored=True)
    # each row describes a patch of that file
    rows = sorted((str(r["path"]), str(r["time_min"].to_datetime64()), str(r["time_max"].to_datetime64()), r["station"], r["tag"], r["network"], r["dims"], r["data_type"]) for r in df.to_dict("records"))
    truth = sorted((str(path.relative_to(root)), *map(str, limits(p)), p.attrs.station, p.attrs.tag, p.attrs.network, ",".join(p.dims), p.attrs.data_type)
                   for path, ps in files.items() for p in ps)
    for a, b in zip(rows, truth):
        require(a == b, lambda: f"{what}: lists {a} but the file has {b}")
    return df


def label(k):
    return np.datetime64("2020-01-01T00:00:00", "ns") + k * np.timedelta64(500, "ms")


def run(spec, ctx):
    import dascore as dc

    tmp = ctx.tmpdir()
    root, scratch = tmp / "root", tmp / "scratch"
    root.mkdir()
    scratch.mkdir()
    kw = {"index_path": scratch / "idx.h5"} if spec["index"] == "custom" else {}

    def open_spool():
        if kw:
            from dascore.clients.dirspool import DirectorySpool

            return DirectorySpool(root, **kw)
        return dc.spool(root)

    files, spool, indexed, updates, dirty, last = {}, None, {}, 0, False, None
    for num, op in enumerate(spec["ops"]):
        what = f"step {num} {op['op']} of {[o['op'] for o in spec['ops']]}"
        if op["op"] == "add":
            path, patches = put_file(op, num, root, scratch, last)
            if path is not None:
                files[path] = patches
                dirty = True
        elif op["op"] == "junk":
            junk(op, num, root, scratch)
        elif op["op"] in ("update", "fresh"):
            if spool is None or op["op"] == "fresh":
                spool = open_spool()
            new = spool.update(progress=None)
            idx = new.indexer._index_table.last_updated_timestamp
            last = idx if idx is not None else last
            df = check_spool(new, files, root, what)
            again = new.update(progress=None)
            df2 = check_spool(again, files, root, what + " repeated")
            require(listing(df).equals(listing(df2)), lambda: f"{what}: contents changed on a second update")
            indexed = dict(files)
            updates += dirty
            dirty = False
            spool = new
        elif op["op"] == "reopen":
            # Opening without updating shows what was indexed last (or all, the first time).
            spool = open_spool()
            if not updates:
                indexed = dict(files)
            if not dirty or not updates:
                check_spool(spool, indexed, root, what)
                updates += dirty
                dirty = False
        elif op["op"] == "subspool":
            sub = {p: ps for p, ps in files.items() if (root / "sub") in p.parents}
            if (root / "sub").exists():
                check_spool(dc.spool(root / "sub").update(progress=None), sub, root / "sub", what)
        elif op["op"] == "query" and spool is not None and updates and not dirty:
            q, rng = {}, {}
            if op["lo"] is not None or op["hi"] is not None:
                lo, hi = op["lo"], op["hi"]
                if lo is not None and hi is not None and lo > hi:
                    lo, hi = hi, lo
                q["time"] = rng["time"] = tuple(None if x is None else label(x) for x in (lo, hi))
            want = [p for ps in indexed.values() for p in ps]
            if q and any(p.get_coord("time").dtype.kind != "M" for p in want if "time" in p.dims):
                continue
            if q:
                want = [p for p in want if "time" in p.dims]
            for name in ("station", "tag"):
                if op[name] is not None:
                    import fnmatch

                    q[name] = op[name]
                    want = [p for p in want if fnmatch.fnmatchcase(getattr(p.attrs, name), op[name])]
            want = [p.select(**rng) if rng else p for p in want]
            want = sorted([p for p in want if p.size], key=sig)
            got = sorted([p for p in spool.select(**q) if p.size], key=sig)
            require(len(got) == len(want), lambda: f"{what} {q}: {len(got)} patches, expected {len(want)}")
            for a, b in zip(got, want):
                check_same_snap(Snap(b), Snap(a), f"{what} {q}", stored=True)
    ctx.nontrivial(updates >= 2 and len(files) > 1)


@facet("history", history(), quick=150, weight=4)
def check_history(spec, ctx):
    """histories of files being added to, and updates of, a directory."""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        run(spec, ctx)


FACETS = [check_history]
