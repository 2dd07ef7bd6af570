"""C02: operations never modify their inputs."""
from __future__ import annotations

import copy
import pickle

import numpy as np
from hypothesis import strategies as st

from vlib import gen, ops
from vlib.cmp import Snap, check_same_snap, check_values, require, attrs_equal
from vlib.core import facet
from vlib.gen import I, S, L

RULE = ("A case is one or more live objects (patches, coordinates, coordinate managers, attribute models, spools, raw arguments) and a random sequence of operations on "
        "them, some of them failing; deep snapshots of every object and argument taken before are compared with the objects after each operation. "
        "Non-trivial = at least one operation really produced a result different from its input (or raised half way).")
ASSUMPTIONS = ["Only changes visible through the public interface (data, coordinates, units, attributes, history, contents, equality) count as modification; internal caches may fill."]


def freeze(x):
    """A deep, comparable copy of an argument."""
    import pandas as pd

    import dascore as dc

    if isinstance(x, dc.Patch):
        return ("patch", Snap(x))
    if isinstance(x, np.ndarray):
        return ("array", x.copy(), x.dtype)
    if isinstance(x, (pd.DataFrame, pd.Series)):
        return ("pd", x.copy(deep=True))
    if isinstance(x, dict):
        return ("dict", {k: freeze(v) for k, v in x.items()})
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [freeze(v) for v in x])
    if callable(x) or x is None or isinstance(x, (str, bool, int, float, type(Ellipsis))):
        return ("atom", x)
    return ("other", repr(x))


def check_frozen(x, f, what):
    kind = f[0]
    if kind == "patch":
        check_same_snap(f[1], Snap(x), what)
    elif kind == "array":
        require(x.dtype == f[2], f"{what}: array argument changed dtype to {x.dtype} from {f[2]}")
        check_values(x, f[1], what)
    elif kind == "pd":
        require(x.equals(f[1]), f"{what}: pandas argument changed:\n{x}\nwas\n{f[1]}")
    elif kind == "dict":
        require(list(x) == list(f[1]), f"{what}: dict argument keys {list(x)} were {list(f[1])}")
        for k in x:
            check_frozen(x[k], f[1][k], f"{what}[{k}]")
    elif kind in ("list", "tuple"):
        require(len(x) == len(f[1]), f"{what}: length {len(x)} was {len(f[1])}")
        for i, v in enumerate(x):
            check_frozen(v, f[1][i], f"{what}[{i}]")
    elif kind == "other":
        require(repr(x) == f[1], f"{what}: {x!r} was {f[1]}")


# ----------------------------------------------------------------- patch operations
@st.composite
def patch_case(draw):
    ps = gen.draw_patch(draw, kinds=("even", "even", "even", "mono", "arr"), max_n=draw(S(4, 6, 14)), data=("uniq", "float", "float", "int", "nan", "cplx", "f4"))
    return {"p": ps, "ops": [list(x) for x in draw(st.lists(st.tuples(S(*ops.NAMES), I(0, 100_000)), min_size=1, max_size=5))]}


@facet("patch", patch_case(), quick=4000, weight=5)
def check_patch(spec, ctx):
    """every patch and argument of a chain of operations is unchanged at the end."""
    patch, _ = gen.build_patch(spec["p"])
    live = [(patch, Snap(patch), "original patch")]
    changed = 0
    for name, seed in spec["ops"]:
        pl = ops.plan(name, seed, patch)
        if pl is None:
            continue
        label, func, args, kwargs = pl
        fa, fk = freeze(args), freeze(kwargs)
        try:
            out = ops.invoke(func, label, patch, args, kwargs)
        except Exception as exc:  # noqa: BLE001
            ctx.label(f"refused:{label}")
            out = None
        check_frozen(args, fa, f"positional argument of {label}")
        check_frozen(kwargs, fk, f"keyword argument of {label}")
        for p, s, what in live:
            check_same_snap(s, Snap(p), f"{what} after {label}{kwargs if len(str(kwargs)) < 100 else ''}")
        if out is None or out.data.nbytes > 200_000:
            continue
        ctx.label(label)
        changed += out.data is not patch.data or out.coords != patch.coords
        live.append((out, Snap(out), f"result of {label}"))
        patch = out
    ctx.nontrivial(changed)


# ----------------------------------------------------------------- documented copies
@st.composite
def copy_case(draw):
    ps = gen.draw_patch(draw, kinds=("even", "mono"), max_n=8, min_n=2, data=("uniq", "float"), allow_rev=False)
    return {"p": ps, "how": draw(S("select", "select", "order", "decimate", "__array__", "deepcopy", "pickle", "np.array", "update", "attrs_update", "caller_attrs", "caller_list",
                                    "poke", "poke", "contents")), "r": draw(I(0, 9999))}


def poke(patch):
    """Try to write through everything a patch hands out; only refusals or private copies are fine."""
    handed = [patch.data, *(c.values for c in patch.coords.coord_map.values()), *(patch.get_array(k) for k in patch.coords.coord_map)]
    for a in handed:
        try:
            if a.dtype.kind in "fic":
                a[...] = -77
            elif a.dtype.kind in "mM":
                a[...] = 5
        except ValueError:
            pass
    for obj in (patch.attrs, patch.coords):
        for k, v in (("tag", "poked"), ("dims", ("poked",))):
            try:
                setattr(obj, k, v)
            except Exception:  # noqa: BLE001
                pass
    for m in (patch.coords.coord_map, patch.coords.dim_map, patch.attrs.coords):
        try:
            m["poked"] = 1
        except Exception:  # noqa: BLE001
            pass
    try:
        patch.attrs["tag"] = "poked"
    except Exception:  # noqa: BLE001
        pass


@facet("copies", copy_case(), quick=900)
def check_copies(spec, ctx):
    """writing into the result of an operation that copies never reaches the original."""
    import dascore as dc

    patch, model = gen.build_patch(spec["p"])
    rng = np.random.default_rng(spec["r"])
    snap = Snap(patch)
    how, d = spec["how"], patch.dims[int(rng.integers(patch.ndim))]
    n = len(patch.get_coord(d))

    def separate(a):
        require(not np.shares_memory(a, patch.data), f"the copy returned by {how} shares memory with the original")
        try:
            a.flags.writeable = True
            a[...] = -77.0
        except ValueError:
            pass

    ctx.label(how)
    ctx.nontrivial()
    if how == "select":
        kw = {d: (None, None)} if rng.random() < 0.3 else {d: (int(rng.integers(0, n)), None)}
        out = patch.select(copy=True, samples=True, **kw)
        if out is patch:  # nothing was removed: the (immutable) patch itself
            return
        separate(out.data)
    elif how == "order":
        out = patch.order(copy=True, samples=True, **{d: np.arange(n)})
        separate(out.data)
    elif how == "decimate":
        if not patch.get_coord(d).evenly_sampled:
            return
        out = patch.decimate(filter_type=None, copy=True, **{d: 1 + int(rng.integers(2))})
        separate(out.data)
    elif how == "__array__":
        a = patch.__array__(copy=True)
        separate(a)
    elif how == "np.array":
        a = np.array(patch)
        separate(a)
    elif how == "deepcopy":
        out = copy.deepcopy(patch)
        check_same_snap(snap, Snap(out), "deepcopy")
        separate(out.data)
    elif how == "pickle":
        out = pickle.loads(pickle.dumps(patch))
        check_same_snap(snap, Snap(out), "pickle copy")
        separate(out.data)
    elif how == "update":
        new = np.asarray(patch.data) * 2
        keep = new.copy()
        out = patch.update(data=new)
        check_values(out.data, keep, "update(data)")
        check_values(new, keep, "caller's array")
    elif how == "attrs_update":
        a = patch.attrs.model_dump()
        b = patch.attrs.update(tag="zzz", distance_min=5)
        require(attrs_equal(a, patch.attrs.model_dump()), "attrs.update changed the attrs it was called on")
        require(b.tag == "zzz", "attrs.update ignored the value")
    elif how == "caller_attrs":
        attrs = {"tag": "q", "custom": "c", "history": ["h1"], "coords": {}}
        attrs.pop("coords")
        before = copy.deepcopy(attrs)
        coords = {k: (tuple(v[0]), v[1]) for k, v in model.coords.items()}
        bc = freeze(coords)
        dc.Patch(data=model.data, coords=coords, dims=model.dims, attrs=attrs)
        require(attrs == before, f"constructing a patch changed the attrs dict to {attrs}")
        check_frozen(coords, bc, "coords dict given to Patch()")
        patch.update(attrs=attrs)
        patch.update_coords(**{k: v for k, v in coords.items() if k not in model.dims})
        require(attrs == before, f"update changed the attrs dict to {attrs}")
        check_frozen(coords, bc, "coords dict given to update_coords()")
    elif how == "caller_list":
        lst = [patch, patch.update_attrs(tag="second")]
        sp = dc.spool(lst)
        sp.get_contents()
        require(len(lst) == 2 and lst[0] is patch, "spool changed the list")
        lst.append(patch)
        require(len(sp) == 2, "appending to the caller's list changed the spool")
    elif how == "poke":
        poke(patch)
        poke(patch.transpose()), poke(patch.select(samples=True, **{d: (0, None)})), poke(patch.abs())
    elif how == "contents":
        sp = dc.spool([patch, patch.update_attrs(tag="second")])
        df = sp.get_contents()
        ref = df.copy(deep=True)
        df["tag"] = "broken"
        df.drop(index=df.index[0], inplace=True)
        require(sp.get_contents().equals(ref), "writing into the contents table changed the spool")
    check_same_snap(snap, Snap(patch), f"original after writing into the result of {how}")


# ----------------------------------------------------------------- coords and managers
@st.composite
def coord_case(draw):
    ps = gen.draw_patch(draw, kinds=("even", "mono", "arr", "dup"), max_n=6, min_n=1)
    return {"p": ps, "ops": [list(x) for x in draw(st.lists(st.tuples(I(0, 40), I(0, 9999)), min_size=1, max_size=6))]}


def coord_snap(c):
    return (type(c).__name__, np.array(c.values, copy=True), c.units, str(c.dtype), c.step, tuple(c.shape), c.min() if c.shape and c.shape[0] else None, c.max() if c.shape and c.shape[0] else None)


def check_coord_snap(c, s, what):
    t = coord_snap(c)
    require(t[0] == s[0] and t[3] == s[3] and t[5] == s[5], f"{what}: {t} was {s}")
    check_values(t[1], s[1], what)
    require(t[2] == s[2], f"{what}: units {t[2]} were {s[2]}")
    require(repr(t[4]) == repr(s[4]) and repr(t[6:]) == repr(s[6:]), f"{what}: step/limits {t} were {s}")


@facet("coords", coord_case(), quick=1500)
def check_coords(spec, ctx):
    """coordinate and coordinate-manager operations leave the originals (and array arguments) unchanged."""
    patch, model = gen.build_patch(spec["p"])
    cm = patch.coords
    snaps = {k: coord_snap(v) for k, v in cm.coord_map.items()}
    dims, dim_map = tuple(cm.dims), {k: tuple(v) for k, v in cm.dim_map.items()}
    h = hash(cm) if False else None
    data = np.array(patch.data)
    keep = data.copy()
    for code, r in spec["ops"]:
        rng = np.random.default_rng(r)
        name = list(cm.coord_map)[int(rng.integers(len(cm.coord_map)))]
        c = cm.coord_map[name]
        vals = np.asarray(c.values).ravel()
        n = len(vals)
        d = dims[int(rng.integers(len(dims)))]
        dl = len(cm.coord_map[d])
        arr = vals[rng.permutation(n)] if n else vals
        idx = rng.integers(0, max(dl, 1), max(dl, 1))
        argf = freeze([arr, idx])
        calls = [
            lambda: c.sort(), lambda: c.sort(reverse=True), lambda: c.select((arr[0], None)), lambda: c.select(arr), lambda: c.order(arr), lambda: c.snap(),
            lambda: c.convert_units("ft"), lambda: c.set_units("ft"), lambda: c.update(min=arr[0]), lambda: c.update(units="km"), lambda: c.update_limits(max=arr[-1]),
            lambda: c.change_length(n + 2), lambda: c.empty(), lambda: c.get_next_index(arr[0]), lambda: c.get_next_index(arr, allow_out_of_bounds=True), lambda: c.simplify_units(),
            lambda: c[:: 2], lambda: c[idx[: max(1, n)] % max(n, 1)], lambda: c.to_summary(), lambda: c.model_dump(), lambda: c.get_sample_count(arr[0]), lambda: c.align_to(c[::1]), lambda: c.update_data(arr), lambda: c.index(idx % max(n, 1)),
            lambda: cm.select(array=data, **{d: (None, None)}), lambda: cm.select(array=data, samples=True, **{d: idx}), lambda: cm.order(array=data, samples=True, **{d: idx}), lambda: cm.sort(d, array=data),
            lambda: cm.snap(d, array=data), lambda: cm.update(**{name: None}), lambda: cm.update(**{d: np.arange(dl) * 1.0}), lambda: cm.update_from_attrs({f"{d}_min": 3}), lambda: cm.rename_coord(**{name: "zz"}),
            lambda: cm.drop_coords(d, array=data), lambda: cm.transpose(*dims[::-1]), lambda: cm.set_units(**{d: "m"}), lambda: cm.convert_units(**{d: "km"}), lambda: cm.squeeze(), lambda: cm.to_summary_dict(), lambda: cm.flip(*dims), lambda: cm.decimate(**{d: 2}),
        ]
        try:
            calls[code % len(calls)]()
            ctx.nontrivial()
            ctx.label(f"call{code}")
        except Exception:  # noqa: BLE001
            ctx.label(f"refused{code}")
        check_frozen([arr, idx], argf, f"array arguments of call {code}")
        check_values(data, keep, f"data array handed to call {code}")
        require(tuple(cm.dims) == dims and {k: tuple(v) for k, v in cm.dim_map.items()} == dim_map, f"coordinate manager changed by call {code}")
        for k, s in snaps.items():
            check_coord_snap(cm.coord_map[k], s, f"coordinate {k} after call {code}")


# ----------------------------------------------------------------- spools
@st.composite
def spool_case(draw):
    n = draw(I(1, 5))
    return {"n": n, "start": draw(I(0, 100)), "gaps": draw(L(0, 3, n)), "len": draw(L(2, 6, n)), "tags": draw(L(0, 1, n)), "dir": draw(S(False, False, False, True)),
            "ops": [list(x) for x in draw(st.lists(st.tuples(I(0, 13), I(0, 9999)), min_size=1, max_size=6))]}


def make_patches(spec):
    import dascore as dc

    out, t = [], spec["start"]
    base = np.datetime64("2020-01-01T00:00:00", "ns")
    for i in range(spec["n"]):
        m = spec["len"][i]
        time = base + (np.arange(m) + t) * np.timedelta64(1, "s")
        out.append(dc.Patch(data=np.arange(m * 3).reshape(m, 3) + 100.0 * i, coords={"time": time, "distance": np.arange(3) * 2.0}, dims=("time", "distance"),
                            attrs={"tag": f"t{spec['tags'][i]}", "station": "S"}))
        t += m + spec["gaps"][i]
    return out


def spool_snap(sp):
    return sp.get_contents().copy(deep=True), [Snap(p) for p in sp], len(sp)


def check_spool_snap(sp, s, what):
    require(len(sp) == s[2], f"{what}: length {len(sp)} was {s[2]}")
    df = sp.get_contents()
    require(list(df.columns) == list(s[0].columns) and df.reset_index(drop=True).equals(s[0].reset_index(drop=True)), f"{what}: contents\n{df}\nwere\n{s[0]}")
    for i, snap in enumerate(s[1]):
        check_same_snap(snap, Snap(sp[i]), f"{what}: patch {i}")


@facet("spool", spool_case(), quick=450, weight=4)
def check_spool(spec, ctx):
    """spool operations leave every earlier spool and its patches unchanged."""
    import dascore as dc
    from dascore.utils.patch import concatenate_patches, stack_patches

    patches = make_patches(spec)
    psnaps = [Snap(p) for p in patches]
    if spec["dir"]:
        d = ctx.tmpdir() / "spool"
        d.mkdir()
        for i, p in enumerate(patches):
            dc.write(p, d / f"f{i}.h5", "dasdae")
        sp = dc.spool(d).update()
    else:
        sp = dc.spool(list(patches))
    live = [(sp, spool_snap(sp), "first spool")]
    base = np.datetime64("2020-01-01T00:00:00", "ns")
    for code, r in spec["ops"]:
        rng = np.random.default_rng(r)
        cur = live[int(rng.integers(len(live)))][0]
        n = len(cur)
        t1 = base + np.timedelta64(int(rng.integers(0, 130)), "s")
        kw = [{"time": (t1, None)}, {"time": (None, t1)}, {"tag": "t0"}, {"tag": ["t1"]}, {"distance": (2, None)}][int(rng.integers(5))]
        kwf = freeze(kw)
        idx = np.arange(n)[rng.random(n) < 0.6]
        idxf = freeze(idx)
        calls = [
            lambda: cur.select(**kw), lambda: cur.select(**kw), lambda: cur.chunk(time=float(rng.integers(1, 4)), keep_partial=bool(rng.integers(2))), lambda: cur.chunk(time=...), lambda: cur.sort("time"), lambda: cur.sort("tag"),
            lambda: cur[int(rng.integers(0, n)): n], lambda: cur[idx], lambda: next(iter(cur.split(size=1))), lambda: cur.concatenate(time=None), lambda: cur.stack(dim_vary="time"),
            lambda: cur.update(), lambda: [p + 1 for p in cur][:0] or cur, lambda: cur.map(lambda p: p.abs(), progress=False) and cur,
        ]
        try:
            out = calls[code]()
            ctx.label(f"call{code}")
        except Exception as exc:  # noqa: BLE001
            ctx.label(f"refused{code}:{type(exc).__name__}")
            out = None
        check_frozen(kw, kwf, "selection arguments")
        check_frozen(idx, idxf, "index array")
        for s, sn, what in live:
            check_spool_snap(s, sn, f"{what} after call {code}")
        for p, s in zip(patches, psnaps):
            check_same_snap(s, Snap(p), f"patch in the caller's list after call {code}")
        if out is not None and hasattr(out, "get_contents") and len(out) < 60:
            live.append((out, spool_snap(out), f"result of call {code}"))
            ctx.nontrivial()
        if len(live) > 4:
            live.pop(1)


# ----------------------------------------------------------------- writing, viz, conversions
@st.composite
def export_case(draw):
    ps = gen.draw_patch(draw, dims=("time", "distance"), kinds=("even",), max_n=8, min_n=4, data=("float", "uniq", "nan"), allow_rev=False, types={"time": ("dt",), "distance": ("f",)})
    return {"p": ps, "how": draw(S("dasdae", "pickle", "wav", "xarray", "obspy", "waterfall", "wiggle", "str", "hash_eq", "scan", "df", "names", "rich"))}


@facet("export", export_case(), quick=160, weight=3)
def check_export(spec, ctx):
    """writing, plotting, printing and converting a patch leave it unchanged."""
    import dascore as dc
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt

    patch, _ = gen.build_patch(spec["p"])
    snap = Snap(patch)
    how = spec["how"]
    td = ctx.tmpdir()
    ctx.label(how)
    ctx.nontrivial()
    try:
        if how in ("dasdae", "pickle"):
            patch.io.write(td / "x.h5", how)
        elif how == "wav":
            patch.io.write(td / "x.wav", "wav")
        elif how == "xarray":
            patch.io.to_xarray()
        elif how == "obspy":
            patch.io.to_obspy()
        elif how in ("waterfall", "wiggle"):
            getattr(patch.viz, how)()
            plt.close("all")
        elif how == "str":
            str(patch), repr(patch), str(patch.coords), str(patch.attrs)
        elif how == "rich":
            patch.__rich__(), patch.coords.__rich__()
        elif how == "hash_eq":
            patch == patch.update_attrs(tag="other"), patch.equals(patch), patch.coords == patch.coords
        elif how == "scan":
            dc.scan(patch), dc.scan_to_df([patch])
        elif how == "df":
            dc.spool(patch).get_contents()
        elif how == "names":
            patch.get_patch_name()
    except Exception as exc:  # noqa: BLE001
        ctx.label(f"refused:{how}:{type(exc).__name__}")
    check_same_snap(snap, Snap(patch), f"patch after {how}")


# ----------------------------------------------------------------- free functions
@st.composite
def func_case(draw):
    return {"f": draw(I(0, 15)), "n": draw(I(0, 5)), "r": draw(I(0, 9999)), "kind": draw(S("M8[ns]", "M8[s]", "m8[ns]", "m8[ms]", "f8", "i8", "obj", "str"))}


@facet("functions", func_case(), quick=1200)
def check_functions(spec, ctx):
    """time, unit and array helpers never write into the arrays they are given."""
    import pandas as pd

    import dascore as dc
    from dascore.units import convert_units
    from dascore.utils.time import is_datetime64, to_datetime64, to_float, to_int, to_timedelta64
    from dascore.utils.chunk import get_intervals

    rng = np.random.default_rng(spec["r"])
    ints = rng.integers(0, 10**9, spec["n"])
    k = spec["kind"]
    if k == "obj":
        a = np.array([None if rng.random() < 0.3 else np.datetime64(int(i), "s") for i in ints], dtype=object)
    elif k == "str":
        a = np.array([str(np.datetime64(int(i), "s")) for i in ints], dtype=object)
    elif k == "f8":
        a = ints / 7.0
        if len(a):
            a[rng.random(len(a)) < 0.2] = np.nan
    else:
        a = ints.astype(k)
        if k[0] in "mM" and len(a):
            a[rng.random(len(a)) < 0.2] = "NaT"
    fr = freeze(a)
    ser = pd.Series(a) if k != "obj" else None
    sf = freeze(ser) if ser is not None else None
    fs = [lambda: to_datetime64(a), lambda: to_timedelta64(a), lambda: to_float(a), lambda: to_int(a), lambda: to_datetime64(ser), lambda: to_timedelta64(ser), lambda: to_float(ser), lambda: to_int(ser),
          lambda: convert_units(a, to_units="ft", from_units="m"), lambda: convert_units(a, to_units="degF", from_units="degC"), lambda: dc.get_coord(data=a), lambda: dc.get_coord(data=a).sort(), lambda: dc.get_coord(data=a).snap(),
          lambda: dc.get_coord(data=a).get_next_index(a), lambda: is_datetime64(a), lambda: get_intervals(a[0], a[-1], a[-1] - a[0])]
    try:
        fs[spec["f"]]()
        ctx.nontrivial(len(a) > 0)
        ctx.label(f"f{spec['f']}:{k}")
    except Exception:  # noqa: BLE001
        ctx.label("refused")
    if k in ("obj", "str"):
        require(all((x is y) or x == y for x, y in zip(a.tolist(), fr[1].tolist())), f"object array changed to {a} from {fr[1]}")
    else:
        check_frozen(a, fr, f"array argument of helper {spec['f']}")
    if ser is not None:
        check_frozen(ser, sf, f"series argument of helper {spec['f']}")


FACETS = [check_patch, check_copies, check_coords, check_spool, check_export, check_functions]
