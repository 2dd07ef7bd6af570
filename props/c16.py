"""C16: scanning and format detection agree with reading and survive bad input."""
from __future__ import annotations

import hashlib
import os
import pickle as pkl
import re
import warnings
from pathlib import Path

import numpy as np
from hypothesis import strategies as st

from vlib import gen
from vlib.cmp import Snap, _Close, attrs_equal, check_coherent, check_same_snap, check_values, fail, require
from vlib.core import facet
from vlib.gen import I, S

RULE = ("A case is one or more generated patches written by a writer (DASDAE with and without index, pickle, SEGY 1.0/2.0/2.1/0.x, RSF, WAV) under any file name, then left intact or truncated, bit-flipped, emptied, "
        "extended, overwritten with arbitrary bytes or text, or replaced by a header of one format with the body of another, alone or in a directory with good files. Non-trivial = the file holds data, or the damage "
        "changed its bytes.")
ASSUMPTIONS = [
    "RSF and WAV files are only written by DASCore (no reader); their content is parsed independently.",
    "SEGY files hold float32 samples, channel numbers and times from a whole second on, to the microsecond; everything else is refused or documented to be lost.",
    "Damage inside the structure of a file (flipped or overwritten bytes) surfaces as an error of the library which parses it; reading may raise any exception then (scanning none).",
    "Flipped bits inside the samples of a file without check sums cannot be noticed; for them only crashes, hangs, undocumented errors and misreported shapes count.",
    "A truncated SEGY or pickle file that ends at a whole trace or pickle is well formed; its patches must be leading parts of the original.",
    "Bit-flipped pickles are not loaded (pickle can run arbitrary code).",
]


def quiet(func):
    def check(spec, ctx):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            func(spec, ctx)

    check.__doc__ = func.__doc__
    check.__name__ = func.__name__
    return check


def digest(path):
    return {str(p.relative_to(path)): (hashlib.sha1(p.read_bytes()).hexdigest(), p.stat().st_mtime_ns) for p in sorted(Path(path).rglob("*")) if p.is_file() and not p.name.startswith(".")}


NAMES = ("data.h5", "data.hdf5", "data", "data.pkl", "data.segy", "data.sgy", "data.tdms", "data.xml", "we ird.name.H5", "data.raw", "x.txt", "data.das")


@st.composite
def fmt_case(draw):
    kind = draw(S("DASDAE", "DASDAE", "DASDAE", "PICKLE", "PICKLE"))
    n = draw(S(1, 1, 2, 3))
    return {"w": kind, "p": [gen.draw_patch(draw, min_n=1, max_n=4, max_dims=3, data=("uniq", "float", "int", "f4", "nan")) for _ in range(n)], "tags": draw(st.booleans()),
            "index": draw(S(False, False, True)), "name": draw(S(*NAMES)), "how": draw(S("spool", "patch")), "other": draw(S(None, None, "dir")), "typ": draw(S("path", "str"))}


def key(patch):
    return (patch.attrs.tag, patch.attrs.station, patch.dims, patch.shape, str([[f"{v:.9g}" if isinstance(v, float) else v for v in np.asarray(patch.get_array(d)).tolist()] for d in patch.dims]), np.asarray(patch.data).tobytes())


def summary_of(attrs, what):
    out = attrs.model_dump()
    out.pop("history", None)
    for n in ("path", "file_format", "file_version"):
        out.pop(n, None)
    coords = {}
    for name, summary in out.get("coords", {}).items():
        summary = dict(summary)
        lo, hi = summary.get("min"), summary.get("max")
        if lo == hi or lo != lo:  # a single value, or none, has no step
            summary.pop("step", None)
        for k in ("min", "max", "step"):
            if isinstance(summary.get(k), (float, np.floating)) and np.isfinite(summary[k]):
                summary[k] = _Close(float(summary[k]), 1e-9 * max(abs(float(lo)), abs(float(hi)), 1e-300))
        coords[name] = summary
    out["coords"] = coords
    return out


@facet("formats", fmt_case(), quick=350, weight=4)
@quiet
def check_formats(spec, ctx):
    """detection, scanning and reading of written files agree."""
    import dascore as dc
    from dascore.io.core import FiberIO

    tmp = Path(ctx.tmpdir())
    path = tmp / spec["name"]
    types = [{(n, c["t"]) for n, c in p["dims"]} | {(e["name"], e["t"]) for e in p["extra"]} for p in spec["p"]]
    mixed = len(set.union(*types)) > len({n for t in types for n, _ in t})  # one coordinate of several types has no place in a table
    patches = [gen.build_patch(p)[0] for p in (spec["p"][:1] if mixed else spec["p"])]
    if spec["tags"]:
        patches = [p.update_attrs(tag=f"t{i}") for i, p in enumerate(patches)]
    obj = patches[0] if spec["how"] == "patch" else dc.spool(patches)
    stored = patches[:1] if spec["how"] == "patch" else list(obj)
    can = all(p.get_coord("time").dtype.kind == "M" for p in patches if "time" in p.coords.coord_map)  # an index holds absolute times
    kw = {"index": True} if spec["index"] and spec["w"] == "DASDAE" and can else {}
    out = dc.write(obj, path, spec["w"], **kw)
    require(Path(out) == path and path.exists(), lambda: f"write returned {out}")
    before = digest(tmp)
    src = path if spec["typ"] == "path" else str(path)
    what = f"{spec['w']} file {path.name!r} with {len(stored)} patches"
    name, version = dc.get_format(src)
    require(name == spec["w"], lambda: f"{what}: detected as {name} {version}")
    latest = max(FiberIO.manager._format_version[spec["w"]])
    require(version == latest, lambda: f"{what}: detected version {version}, written as {latest}")
    # no other format may claim the file, whatever the order in which they are tried.
    for other in FiberIO.manager._get_prioritized_list("file"):
        if other.name.upper() == spec["w"]:
            continue
        try:
            claim = other.get_format(path)
        except Exception:  # noqa: BLE001  (formats may raise)
            claim = False
        require(not claim, lambda: f"{what}: also claimed by {other.name} {other.version}: {claim}")
    plain = list(dc.read(src))
    require(len(plain) == len(stored) or spec["w"] == "DASDAE", lambda: f"{what}: read {len(plain)} patches")
    for kw2 in ({"file_format": name}, {"file_format": name, "file_version": version}):
        again = list(dc.read(src, **kw2))
        require(len(again) == len(plain), lambda: f"{what}: {len(again)} patches read with {kw2}, {len(plain)} without")
        for a, b in zip(again, plain):
            check_same_snap(Snap(a), Snap(b), f"{what}: read with {kw2}", stored=True)
    scans = {"scan": dc.scan(src), "scan of format": dc.scan(src, file_format=name, file_version=version)}
    if spec["other"] == "dir":
        scans["scan of directory"] = dc.scan(tmp)
    for how, scan in scans.items():
        require(len(scan) == len(plain), lambda: f"{what}: {how} finds {len(scan)} patches, reading {len(plain)}")
        left = list(plain)
        for attrs in scan:
            require(Path(str(attrs.path)) == path and attrs.file_format == name and str(attrs.file_version) == str(version), lambda: f"{what}: {how} gives {attrs.path} {attrs.file_format} {attrs.file_version}")
            got = summary_of(attrs, what)
            for k, p in enumerate(left):
                if kw:  # an index only stores limits of some coordinates
                    if attrs.dims == p.attrs.dims and (attrs.tag, attrs.station, attrs.network) == (p.attrs.tag, p.attrs.station, p.attrs.network):
                        break
                elif attrs_equal(got, summary_of(p.attrs, what)):
                    break
            else:
                fail(f"{what}: {how} reports {got} which is none of {[summary_of(p.attrs, what) for p in left]}")
            left.pop(k)
    spool = dc.spool(src)
    require(len(spool) == len(plain), lambda: f"{what}: a spool of the file has {len(spool)} patches, reading {len(plain)}")
    got = sorted((key(p) for p in spool), key=repr)
    require(repr(got) == repr(sorted((key(p) for p in plain), key=repr)), f"{what}: the patches of a spool of the file are not those read")
    require(len(dc.scan_to_df(src)) == len(plain), f"{what}: scan_to_df finds another number of patches")
    require(digest(tmp) == before, f"{what}: the file changed by looking at it")
    ctx.nontrivial(sum(p.size for p in patches) > 0)


# ---------------------------------------------------------------- writers of other formats
@st.composite
def writer_case(draw):
    fmt = draw(S("segy", "segy", "segy", "rsf", "wav"))
    dt = draw(S(1_000_000, 4_000_000, 1000, 20_000, 1_234_000, 32_767_000, 40_000_000, 100_000_000, 1_000_000_000, 500, 1500, 333_333))
    return {"fmt": fmt, "ver": draw(S(None, None, "1.0", "2.0", "2.1", "0.0")), "dims": list(draw(S(("time", "distance"), ("distance", "time"), ("time", "channel"), ("channel", "time"), ("distance", "time"), ("time", "depth"), ("time",), ("distance", "channel"), ("time", "distance", "channel")))),
            "n": [draw(I(1, 7)), draw(I(1, 5)), draw(I(1, 2))], "dt": dt, "start": draw(S(0, 10**9, 1_500_000_000_000_000_000, 1_583_020_799_000_000_000, 1_500_000_000_123_000_000, 951_782_399_000_000_000)), "uneven": draw(S(False, False, False, False, True)),
            "tt": draw(S("dt", "dt", "dt", "dt", "td")), "dtype": draw(S("f8", "f4", "i2", "i4", "f8")), "n_patch": draw(S(1, 1, 1, 1, 2, 0)), "seed": draw(I(0, 99)), "sep": draw(S(False, True)), "d0": draw(S(0, 0, 3)),
            "ext": draw(S(True, True, False)), "units": draw(S(True, True, False)), "as": draw(S("spool", "patch"))}


def make(spec, k=0):
    import dascore as dc

    rng = np.random.default_rng(spec["seed"] + k)
    dims = spec["dims"]
    coords, shape = {}, []
    for i, d in enumerate(dims):
        n = spec["n"][0] if d == "time" else spec["n"][1 + (i > 1)]
        shape.append(n)
        if d == "time":
            ints = np.arange(n) * spec["dt"]
            if spec["uneven"] and n > 2:
                ints[-1] += spec["dt"] * 3
            vals = ints.astype("m8[ns]")
            coords[d] = vals + np.datetime64(spec["start"], "ns") if spec["tt"] == "dt" else vals
        else:
            coords[d] = (np.arange(n) + spec["d0"]) * (1.0 if d != "channel" else 1)
    data = (rng.normal(size=shape) * 1000).astype(spec["dtype"])
    patch = dc.Patch(data=data, coords=coords, dims=dims)
    if spec["units"]:
        patch = patch.set_units(**{d: "m" for d in dims if d in ("distance", "depth")})
    return patch, data, coords


@facet("writers", writer_case(), quick=500, weight=2)
@quiet
def check_writers(spec, ctx):
    """SEGY, RSF and WAV files hold what was written or the patch is refused."""
    import dascore as dc
    from dascore.exceptions import DASCoreError

    tmp = Path(ctx.tmpdir())
    fmt = spec["fmt"]
    made = [make(spec, k) for k in range(spec["n_patch"])]
    name = {"segy": "data.segy", "rsf": "data.rsf", "wav": "data.wav"}[fmt] if spec["ext"] or fmt == "rsf" else "data"
    path = tmp / name
    obj = made[0][0] if spec["as"] == "patch" and len(made) == 1 else dc.spool([m[0] for m in made])
    dims = spec["dims"]
    nt = spec["n"][0]
    uneven = "time" in dims and spec["uneven"] and nt > 2
    fits = {
        "segy": len(made) == 1 and len(dims) == 2 and "time" in dims and set(dims) & {"distance", "channel"} and not uneven and (spec["dt"] % 1000 == 0 and spec["dt"] <= 32_767_000 or nt == 1),
        "rsf": len(made) == 1 and not uneven,
        "wav": len(made) == 1 and len(dims) == 2 and "time" in dims and not uneven and nt > 1,
    }[fmt]
    loose = {"segy": nt == 1 or spec["dt"] < 10_000, "rsf": min(made[0][0].shape) == 1 or not spec["units"] if made else False, "wav": fits and (10**9 / spec["dt"] < 1 or 10**9 / spec["dt"] > 2**31)}[fmt]
    kw = {"data_path": tmp / "bin.rsf"} if fmt == "rsf" and spec["sep"] else {}
    what = f"{fmt} {spec['ver'] or ''} of {[m[0].shape for m in made]} {dims} {spec['dtype']} dt={spec['dt']}"
    ver = spec["ver"] if fmt == "segy" else None
    try:
        dc.write(obj, path, fmt, file_version=ver, **kw)
    except (DASCoreError, ValueError, AssertionError, AttributeError, TypeError, IndexError) as exc:
        documented = isinstance(exc, DASCoreError | ValueError | AssertionError)
        require(documented or not fits, lambda: f"{what}: {type(exc).__name__}: {exc}")
        require(not fits or loose, lambda: f"{what}: refused: {type(exc).__name__}: {exc}")
        return
    require(len(made) == 1, f"{what}: not refused although a file holds one patch")
    patch, data, coords = made[0]
    if fmt == "segy":
        require(fits or loose, f"{what}: not refused although a SEGY file cannot hold it")
        want = np.asarray(patch.transpose("time", ...).data).astype("f4")
        fm, v = dc.get_format(path)
        require(fm.lower() == "segy" and (ver is None or v == ver), lambda: f"{what}: detected as {fm} {v}")
        (attrs,) = dc.scan(path)
        (back,) = dc.read(path)
        check_coherent(back, what)
        require(back.dims == ("time", "channel"), lambda: f"{what}: dims {back.dims}")
        check_values(np.asarray(back.data), want, f"{what}: data", rtol=1e-6, atol=1e-6)  # IBM floats
        got = back.get_array("time").astype("M8[ns]").astype(np.int64)
        floor = spec["start"] // 10**9 * 10**9 if spec["tt"] == "dt" else 0  # (relative times are taken from the epoch)
        if nt > 1:
            require((got - floor == np.arange(nt) * spec["dt"]).all(), lambda: f"{what}: times {back.get_array('time')} expected {coords['time']}")
        else:
            require(got[0] == floor, lambda: f"{what}: times {back.get_array('time')} expected {coords['time']}")
        check_values(back.get_array("channel"), np.arange(want.shape[1]), f"{what}: channels")
        require(attrs_equal(summary_of(attrs, what), summary_of(back.attrs, what)), lambda: f"{what}: scan {attrs} read {back.attrs}")
        for fv in ("file_format", "file_version", "path"):
            require(str(getattr(attrs, fv)) == str({"file_format": attrs.file_format, "file_version": v, "path": path}[fv]), lambda: f"{what}: scan gives {fv} {getattr(attrs, fv)}")
    elif fmt == "rsf":
        raw = path.read_bytes()
        cut = raw.find(b'in="')
        text = raw[:cut].decode()
        binary = (tmp / "bin.rsf@").read_bytes() if kw else raw[raw.find(b"\n\n", cut) + 2:]
        info = dict(re.findall(r"^(\w+)=\"?([^\"\n]*)\"?$", text, flags=re.M))
        n = [int(info[f"n{i + 1}"]) for i in range(len(dims))]
        require(tuple(n) == data.shape, lambda: f"{what}: header shape {n}")
        require([info[f"label{i + 1}"] for i in range(len(dims))] == list(dims), lambda: f"{what}: header labels {info}")
        check_values(np.frombuffer(binary, "f4").reshape(data.shape, order="F"), data.astype("f4"), f"{what}: samples")
        for i, d in enumerate(dims):
            if data.shape[i] > 1:
                step = spec["dt"] / 1e9 if d == "time" else 1.0
                require(abs(float(info[f"d{i + 1}"]) - step) <= 1e-9 * step, lambda: f"{what}: d{i + 1} is {info[f'd{i + 1}']} expected {step}")
            if d != "time":
                require(float(info[f"o{i + 1}"]) == spec["d0"], lambda: f"{what}: o{i + 1} is {info[f'o{i + 1}']}")
    else:
        require(fits or loose, f"{what}: not refused although a WAV file cannot hold it")
        from scipy.io import wavfile

        order = [d for d in dims if d != "time"]
        pat = np.asarray(patch.transpose("time", *order).data).astype(float)
        from scipy.signal import detrend

        want = detrend(pat, axis=0, type="linear")
        peak = np.abs(want).max(axis=0, keepdims=True)
        noise = 1e-9 * np.abs(pat).max(axis=0, keepdims=True)
        want = want / np.where(peak == 0, 1, peak)
        labels = patch.get_array(order[0])
        if name.endswith(".wav"):
            rate, got = wavfile.read(path)
            got = got.reshape(len(got), -1)
        else:
            files = [path / f"{order[0]}_{v}.wav" for v in labels]
            require(sorted(os.listdir(path)) == sorted(f.name for f in files), lambda: f"{what}: files {os.listdir(path)}")
            cols = [wavfile.read(f) for f in files]
            rate = cols[0][0]
            got = np.stack([c[1] for c in cols], axis=1)
        require(rate == round(1e9 / spec["dt"]) or loose, lambda: f"{what}: rate {rate}")
        require(got.shape == want.shape and got.dtype == np.float32, lambda: f"{what}: {got.shape} {got.dtype}")
        for c in range(want.shape[1]):
            if peak[0, c] > noise[0, c]:
                check_values(got[:, c], want[:, c], f"{what}: channel {c}", rtol=1e-4, atol=1e-4)
    ctx.nontrivial(True)


# ---------------------------------------------------------------- bad input
@st.composite
def bad_case(draw):
    fmt = draw(S("DASDAE", "DASDAE", "DASDAE", "segy", "segy", "PICKLE"))
    dmg = draw(S("trunc", "trunc", "trunc", "flip", "flip", "empty", "random", "text", "zeros", "append", "head", "tail", "rename", "missing"))
    return {"fmt": fmt, "dmg": dmg, "frac": draw(st.integers(0, 1000)), "cut": draw(S(None, 1, 2, 8, 100, 512, 2048)), "bits": draw(st.lists(st.tuples(I(0, 100_000), I(0, 7)), min_size=1, max_size=draw(S(1, 3, 40)))), "seed": draw(I(0, 999)), "size": draw(S(1, 7, 100, 4000)),
            "name": draw(S(*NAMES)), "index": draw(S(False, False, True)), "n": draw(S(1, 1, 2)), "shape": [draw(I(1, 6)), draw(I(1, 4))], "before": draw(st.booleans()), "text": draw(S("hello", "dascore.core Patch Spool", "<xml></xml>", "{}", "\x89HDF\r\n\x1a\n"))}


DOCUMENTED = (OSError, ValueError, TypeError)  # the errors for which scanning skips a file (#346)


@facet("bad_input", bad_case(), quick=500, weight=6)
@quiet
def check_bad(spec, ctx):
    """bad files are refused or skipped, never reported as good, never changed."""
    import dascore as dc
    from dascore.exceptions import DASCoreError, UnknownFiberFormatError

    tmp = Path(ctx.tmpdir())
    good = dc.Patch(data=np.arange(6.0).reshape(2, 3), dims=("time", "distance"), coords={"time": np.datetime64("2020-01-01", "ns") + np.arange(2) * np.timedelta64(1, "s"), "distance": np.arange(3.0)}, attrs={"tag": "good"})
    good_path = tmp / "m_good.h5"
    dc.write(good, good_path, "DASDAE")
    path = tmp / (("a_" if spec["before"] else "z_") + spec["name"])
    rng = np.random.default_rng(spec["seed"])
    patches = []
    for k in range(spec["n"] if spec["fmt"] != "segy" else 1):
        nt, nd = spec["shape"][0] + (spec["fmt"] == "segy"), spec["shape"][1]
        coords = {"time": np.datetime64("2021-03-04", "ns") + (np.arange(nt) + 100 * k) * np.timedelta64(1, "ms"), "distance": np.arange(nd) * 1.0}
        patches.append(dc.Patch(data=rng.integers(-99, 99, size=(nt, nd)) * 1.0, dims=("time", "distance"), coords=coords, attrs={"tag": f"bad{k}"}))
    dc.write(dc.spool(patches), path, spec["fmt"], **({"index": True} if spec["index"] and spec["fmt"] == "DASDAE" else {}))
    raw = path.read_bytes()
    dmg = spec["dmg"]
    if spec["fmt"] == "PICKLE" and dmg in ("flip", "head", "tail"):
        dmg = "trunc"
    n = len(raw)
    if dmg == "trunc":
        new = raw[: max(0, n - spec["cut"]) if spec["cut"] else n * spec["frac"] // 1001]
    elif dmg == "flip":
        arr = bytearray(raw)
        for pos, bit in spec["bits"]:
            # most of the positions within the structures at the front
            arr[(pos % n) if pos % 3 == 0 else (pos % min(n, 4096))] ^= 1 << bit
        new = bytes(arr)
    elif dmg == "empty":
        new = b""
    elif dmg == "random":
        new = rng.bytes(spec["size"])
    elif dmg == "text":
        new = (spec["text"] * (1 + spec["size"] // 10)).encode("latin1")
    elif dmg == "zeros":
        new = bytes(spec["size"])
    elif dmg == "append":
        new = raw + rng.bytes(spec["size"])
    elif dmg == "head":
        new = raw[: min(n, spec["size"])] + rng.bytes(max(0, n - spec["size"]))
    elif dmg == "tail":
        new = rng.bytes(min(n, spec["size"])) + raw[spec["size"]:]
    else:
        new = raw
    path.write_bytes(new)
    if dmg == "missing":
        path.unlink()
    what = f"{spec['fmt']} file {path.name!r} ({dmg}, {n} -> {len(new)} bytes)"
    before = digest(tmp)
    intact = dmg in ("missing", "rename") or new == raw
    # 1. detection
    try:
        fmt = dc.get_format(path)
        require(isinstance(fmt, tuple) and len(fmt) == 2 and all(isinstance(x, str) for x in fmt) and fmt[0], lambda: f"{what}: format {fmt!r}")
    except UnknownFiberFormatError:
        fmt = None
    except FileNotFoundError:
        require(dmg == "missing", f"{what}: not found")
        fmt = None
    except Exception as exc:  # noqa: BLE001
        fail(f"{what}: get_format raises {type(exc).__name__}: {exc}")
    if dmg in ("empty", "random", "text", "zeros", "missing"):
        require(fmt is None, lambda: f"{what}: detected as {fmt}")
    if dmg == "rename":
        require(fmt is not None and fmt[0].lower() == spec["fmt"].lower(), lambda: f"{what}: detected as {fmt}")
    # 2. reading
    back = None
    try:
        back = list(dc.read(path))
    except (DASCoreError, *DOCUMENTED, pkl.UnpicklingError):
        require(not (intact and dmg != "missing"), f"{what}: intact file refused")
    except Exception as exc:  # noqa: BLE001
        require(dmg in ("flip", "head", "tail"), lambda: f"{what}: read raises {type(exc).__name__}: {exc}")
    if back is not None:
        require(dmg not in ("empty", "random", "text", "zeros", "missing"), f"{what}: read gives {back}")
        for p in back:
            check_coherent(p, what)
        if dmg in ("trunc", "rename") or intact:
            originals = [np.asarray(p.data) for p in patches]
            for p in back:
                d = np.asarray(p.data)
                ok = any(d.shape[0] <= o.shape[0] and d.shape[1] <= o.shape[1] and np.allclose(d, o[: d.shape[0], : d.shape[1]], rtol=1e-6) for o in originals if o.ndim == d.ndim)
                require(ok and d.size, lambda: f"{what}: reports data which was never written: {d.tolist()}")
            if dmg == "trunc" and spec["fmt"] != "segy" and len(new) < n:
                require(len(back) < len(patches) or spec["fmt"] == "PICKLE", f"{what}: truncated file read as if it was complete")
    # 3. scanning, alone and with good files
    for target in (path, tmp):
        if dmg == "missing" and target is path:
            continue
        try:
            found = dc.scan(target)
        except (UnknownFiberFormatError, *(() if target is tmp else DOCUMENTED)) as exc:
            require(target is path, lambda: f"{what}: scan of its directory raises {type(exc).__name__}: {exc}")
            continue
        except Exception as exc:  # noqa: BLE001
            fail(f"{what}: scan of {'its directory' if target is tmp else 'it'} raises {type(exc).__name__}: {exc}")
        mine = [a for a in found if Path(str(a.path)) == path]
        rest = [a for a in found if Path(str(a.path)) != path]
        if target is tmp:
            require(len(rest) == 1 and rest[0].tag == "good" and Path(str(rest[0].path)) == good_path, lambda: f"{what}: the good file next to it is scanned as {rest}")
        if back is None and dmg in ("empty", "random", "text", "zeros", "trunc", "missing"):
            require(not mine, lambda: f"{what}: scanned as {mine} although it cannot be read")
        if back is not None and (dmg == "trunc" or intact):
            require(len(mine) == len(back), lambda: f"{what}: scan finds {len(mine)} patches, reading {len(back)}")
    # 4. spools of the directory
    try:
        spool = dc.spool(tmp).update()
        contents = spool.get_contents()
    except Exception as exc:  # noqa: BLE001
        fail(f"{what}: a spool of its directory raises {type(exc).__name__}: {exc}")
    require((contents["tag"] == "good").sum() == 1, lambda: f"{what}: the good file is lost from the spool of the directory")
    one = spool.select(tag="good")[0]
    check_values(np.asarray(one.data), np.arange(6.0).reshape(2, 3), f"{what}: good data next to it")
    require(digest(tmp) == before, f"{what}: files changed by looking at them")
    ctx.nontrivial(not intact)


FACETS = [check_formats, check_writers, check_bad]
