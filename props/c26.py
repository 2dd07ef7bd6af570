"""C26: conversions to and from other libraries preserve the patch."""
from __future__ import annotations

import warnings

import numpy as np
from hypothesis import strategies as st

from vlib import gen
from vlib.cmp import Snap, check_coherent, check_same_snap, check_units, check_values, fail, require
from vlib.core import facet
from vlib.gen import I, S

RULE = ("A case is a patch (1-3 dims in any order and of any name; even, uneven, unsorted, reversed datetime/timedelta/float/integer coordinates with and without units; associated coordinates of one or two "
        "dimensions or none; float/int/float32/complex/bool/NaN data; attributes), converted to an xarray DataArray, an obspy Stream or a pandas DataFrame, whose contents are compared with the patch, and "
        "back; or a generated DataArray or Stream converted to a patch and back; or a collection of patches tabulated. Non-trivial = a conversion which is not refused, of at least two samples.")
ASSUMPTIONS = [
    "A DataFrame carries two dimensions, the attributes are in its attrs (and given back explicitly); associated coordinates have no place in it.",
    "A Stream carries evenly sampled absolute times, one further dimension and attributes; units of coordinates and associated coordinates have no place in it. Times are exact to the rounding of its sampling rate.",
    "Coordinates without values (of length 0) or not associated with dimensions are not part of a DataArray.",
    "Steps of single-valued and the class (array or range) of coordinates are not part of equality.",
]


@st.composite
def xr_case(draw):
    return {"p": gen.draw_patch(draw, min_n=1, max_n=5, max_dims=3, data=("uniq", "float", "int", "f4", "i2", "nan", "cplx", "bool"))}


def xr_equal(arr, patch, what):
    require(tuple(arr.dims) == patch.dims, lambda: f"{what}: dims {arr.dims} were {patch.dims}")
    check_values(np.asarray(arr.values), np.asarray(patch.data), f"{what}: data")
    require(arr.dtype == patch.data.dtype, lambda: f"{what}: dtype {arr.dtype} was {patch.data.dtype}")
    names = {n for n, c in patch.coords.coord_map.items() if not c._partial and len(patch.coords.dim_map[n]) == c.ndim}
    require(set(arr.coords) == names, lambda: f"{what}: coords {sorted(arr.coords)} were {sorted(names)}")
    for n in names:
        require(tuple(arr.coords[n].dims) == tuple(patch.coords.dim_map[n]) or (arr.coords[n].dims == () and patch.coords.dim_map[n] == ()), lambda: f"{what}: {n} has dims {arr.coords[n].dims}")
        check_values(np.asarray(arr.coords[n].values), np.asarray(patch.get_array(n)), f"{what}: coord {n}")


def quiet(func):
    def check(spec, ctx):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            func(spec, ctx)

    check.__doc__ = func.__doc__
    check.__name__ = func.__name__
    return check


@facet("xarray", xr_case(), quick=900, weight=2)
@quiet
def check_xarray(spec, ctx):
    """patch to DataArray and back."""
    from dascore.utils.io import xarray_to_patch

    patch = gen.build_patch(spec["p"])[0]
    before = Snap(patch)
    arr = patch.io.to_xarray()
    xr_equal(arr, patch, "to_xarray")
    back = xarray_to_patch(arr)
    check_coherent(back, "xarray_to_patch")
    loose = [n for n, c in patch.coords.coord_map.items() if len(patch.coords.dim_map[n]) != c.ndim]
    check_same_snap(Snap(patch.drop_coords.func(patch, *loose)) if loose else before, Snap(back), "xarray round trip", stored=True)
    check_same_snap(before, Snap(patch), "the converted patch", stored=False)
    ctx.nontrivial(patch.size > 1)


@st.composite
def xr_rev_case(draw):
    nd = draw(I(1, 3))
    names = list(draw(gen.PERM("time", "distance", "x", "frequency y")))[:nd]
    return {"dims": names, "shape": [draw(I(1, 4)) for _ in range(nd)], "coord": [draw(S("f", "dt", "td", "i", "rev", "arr", "none")) for _ in range(nd)], "seed": draw(I(0, 99)),
            "extra": draw(S(None, None, 0, 1)), "isel": draw(S(False, False, True)), "attrs": draw(S(None, "station", "units", "free")), "kind": draw(S("f8", "f4", "i8", "c16")), "res": draw(S("ns", "us", "s"))}


@facet("from_xarray", xr_rev_case(), quick=500, weight=1)
@quiet
def check_from_xarray(spec, ctx):
    """DataArray to patch and back."""
    import xarray as xr

    from dascore.utils.io import xarray_to_patch

    rng = np.random.default_rng(spec["seed"])
    coords = {}
    for name, n, kind in zip(spec["dims"], spec["shape"], spec["coord"]):
        k = np.arange(n)
        if kind == "none":
            continue
        coords[name] = {"f": k * 0.5 + 3, "dt": np.datetime64("2021-05-01", spec["res"]) + k, "td": k.astype(f"m8[{spec['res']}]"), "i": k + 5, "rev": (10 - k) * 1.0, "arr": rng.permutation(n) * 1.5}[kind]
    data = rng.normal(size=spec["shape"]).astype(spec["kind"])
    if spec["extra"] is not None and spec["extra"] < len(spec["dims"]):
        d = spec["extra"]
        coords["lat"] = (spec["dims"][d], rng.integers(-9, 9, size=spec["shape"][d]) / 4)
    attrs = {None: {}, "station": {"station": "AB", "tag": "t"}, "units": {"data_units": "m/s"}, "free": {"custom": 3, "other": "x"}}[spec["attrs"]]
    arr = xr.DataArray(data, dims=spec["dims"], coords=coords, attrs=attrs)
    patch = xarray_to_patch(arr)
    what = "xarray_to_patch"
    check_coherent(patch, what)
    require(patch.dims == tuple(arr.dims), lambda: f"{what}: dims {patch.dims}")
    check_values(np.asarray(patch.data), data, f"{what}: data")
    for n in arr.coords:
        check_values(np.asarray(patch.get_array(n)), np.asarray(arr.coords[n].values), f"{what}: coord {n}")
        require(tuple(patch.coords.dim_map[n]) == tuple(arr.coords[n].dims), lambda: f"{what}: coord {n} on {patch.coords.dim_map[n]}")
    for k, v in attrs.items():
        if k == "data_units":
            check_units(patch.attrs.data_units, v, what)
        else:
            require(patch.attrs.get(k) == v, lambda: f"{what}: attr {k} is {patch.attrs.get(k)}")
    xr_equal(patch.io.to_xarray(), patch, "back to xarray")
    ctx.nontrivial(patch.size > 1)


# ---------------------------------------------------------------- dataframe
@st.composite
def df_case(draw):
    return {"p": gen.draw_patch(draw, min_n=draw(S(0, 1, 1, 1)), max_n=6, min_dims=draw(S(1, 2, 2, 2, 2)), max_dims=draw(S(2, 2, 2, 3)), data=("uniq", "float", "int", "f4", "nan", "bool"), extra=draw(S(False, False, True))),
            "attrs": draw(S("own", "own", "model", "none", "dict")), "named": draw(S(True, True, False))}


@facet("dataframe", df_case(), quick=900, weight=2)
@quiet
def check_dataframe(spec, ctx):
    """patch to DataFrame and back."""
    from dascore.io import dataframe_to_patch

    patch = gen.build_patch(spec["p"])[0]
    before = Snap(patch)
    try:
        df = patch.io.to_dataframe()
    except Exception as exc:  # noqa: BLE001
        require(patch.ndim != 2, lambda: f"to_dataframe refused a 2D patch: {type(exc).__name__}: {exc}")
        return
    require(patch.ndim == 2, "to_dataframe accepted a patch without two dimensions")
    what = "to_dataframe"
    one, two = patch.dims
    require((df.index.name, df.columns.name) == patch.dims, lambda: f"{what}: names {df.index.name}, {df.columns.name}")
    check_values(df.to_numpy(), np.asarray(patch.data), f"{what}: data")
    check_values(np.asarray(df.index.to_numpy()), patch.get_array(one), f"{what}: index")
    check_values(np.asarray(df.columns.to_numpy()), patch.get_array(two), f"{what}: columns")
    require(df.attrs.get("station", "") == patch.attrs.station and df.attrs.get("tag") == patch.attrs.tag, "to_dataframe: attrs lost")
    check_same_snap(before, Snap(patch), "the converted patch", stored=False)
    want = patch.drop_coords.func(patch, *[n for n in patch.coords.coord_map if n not in patch.dims])
    how = spec["attrs"]
    attrs = {"own": df.attrs, "model": want.attrs, "none": None, "dict": {"station": "XX", "dims": patch.dims}}[how]
    if not spec["named"] and how != "none":
        df = df.rename_axis(index=None, columns=None)
    back = dataframe_to_patch(df, attrs=attrs)
    check_coherent(back, "dataframe_to_patch")
    if patch.size and how == "own":
        check_same_snap(Snap(want), Snap(back), f"dataframe round trip ({how})", stored=True)
    else:
        check_values(np.asarray(back.data), np.asarray(patch.data), "dataframe_to_patch: data")
        require(back.dims == patch.dims, lambda: f"dataframe_to_patch: dims {back.dims}")
        for n in patch.dims:
            check_values(back.get_array(n), patch.get_array(n), f"dataframe_to_patch: {n}", rtol=1e-12)
        require(how != "model" or (back.attrs.station, back.attrs.tag, back.attrs.history) == (patch.attrs.station, patch.attrs.tag, patch.attrs.history), "dataframe_to_patch: attrs ignored")
        require(how != "dict" or back.attrs.station == "XX", "dataframe_to_patch: attrs ignored")
    ctx.nontrivial(patch.size > 1)


# ---------------------------------------------------------------- obspy
@st.composite
def obspy_case(draw):
    return {"p": gen.draw_patch(draw, dims=draw(S(("time", "distance"), ("time", "distance"), ("time", "distance"), ("time", "depth"), ("time", "chan"), ("time",), ("distance", "depth"), ("time", "distance", "depth"), ("distance",))),
                                min_n=1, max_n=6, types={"time": draw(S(("dt",), ("dt",), ("dt",), ("td",), ("f",)))}, kinds=("even", "even", "mono", "arr"), data=("uniq", "float", "int", "f4", "i2", "nan"),
                                dim_kw={"time": {"kinds": draw(S(("even",), ("even",), ("even",), ("mono", "arr"))), "min_n": draw(S(1, 2, 2, 2))}}, extra=draw(S(False, False, True)))}


@facet("obspy", obspy_case(), quick=900, weight=2)
@quiet
def check_obspy(spec, ctx):
    """patch to Stream and back."""
    from dascore.exceptions import DASCoreError
    from dascore.io import obspy_to_patch

    patch = gen.build_patch(spec["p"])[0]
    before = Snap(patch)
    time = patch.get_coord("time") if "time" in patch.dims else None
    ok = patch.ndim == 2 and time is not None and time.dtype.kind == "M" and time.step is not None and time.step > np.timedelta64(0) and len(time) > 1
    what = f"to_obspy of {patch.dims} with {None if time is None else (time.dtype, time.step, len(time))}"
    try:
        stream = patch.io.to_obspy()
    except DASCoreError as exc:
        require(not ok, lambda: f"{what}: refused with {exc}")
        return
    except Exception as exc:  # noqa: BLE001
        fail(f"{what}: {type(exc).__name__}: {exc}")
    if not ok and time is not None and len(time) == 1:
        return
    require(ok, f"{what}: not refused")
    other = next(x for x in patch.dims if x != "time")
    flat = np.asarray(patch.transpose(other, "time").data)
    require(len(stream) == len(flat), lambda: f"{what}: {len(stream)} traces, expected {len(flat)}")
    labels = patch.get_array(other)
    times = patch.get_array("time").astype("M8[ns]").astype(np.int64)
    for k, tr in enumerate(stream):
        check_values(np.asarray(tr.data), flat[k], f"{what}: trace {k}")
        require(tr.stats[other] == labels[k], lambda: f"{what}: trace {k} has {other} {tr.stats[other]} expected {labels[k]}")
        require(abs(tr.stats.starttime.ns - int(times[0])) == 0, lambda: f"{what}: trace starts {tr.stats.starttime} expected {times[0]}")
        require(abs(tr.stats.endtime.ns - int(times[-1])) <= 1000 + abs(times[-1] - times[0]) * 1e-12, lambda: f"{what}: trace ends {tr.stats.endtime} expected {patch.get_array('time')[-1]}")
        require(tr.stats.station == patch.attrs.station and tr.stats.network == patch.attrs.network and tr.stats.tag == patch.attrs.tag, f"{what}: attributes lost")
    check_same_snap(before, Snap(patch), "the converted patch", stored=False)
    if not len(flat):
        return
    back = obspy_to_patch(stream, dim=other)
    check_coherent(back, "obspy_to_patch")
    what = what.replace("to_obspy", "obspy round trip")
    require(back.dims == (other, "time"), lambda: f"{what}: dims {back.dims}")
    check_values(np.asarray(back.data), flat, f"{what}: data")
    check_values(back.get_array(other), labels, f"{what}: {other}", rtol=1e-12)
    got = back.get_array("time").astype("M8[ns]").astype(np.int64)
    require(np.abs(got - times).max() <= 1 + (times[-1] - times[0]) * 1e-12, lambda: f"{what}: times {back.get_array('time')} were {patch.get_array('time')}")
    for name, val in patch.attrs.model_dump().items():
        if name in ("coords", "dims"):
            continue
        if name == "data_units":
            check_units(back.attrs.data_units, val, what)
            continue
        require(back.attrs.get(name) == val or (val != val), lambda: f"{what}: attribute {name} is {back.attrs.get(name)!r} was {val!r}")
    stray = {k for k in back.attrs.model_dump() if k not in patch.attrs.model_dump()} & (set(patch.dims) | {"delta", "npts", "starttime", "endtime"})
    require(not stray, lambda: f"{what}: coordinates left in the attributes: {stray}")
    ctx.nontrivial(True)


@st.composite
def stream_case(draw):
    return {"n": draw(I(0, 4)), "npts": draw(I(1, 6)), "rate": draw(S(1.0, 250.0, 1000.0, 3.0, 0.1, 50000.0, 44100.0)), "start": draw(S(0, 1_500_000_000_123_456_789, 1_600_000_000_000_000_001, -5_000_000_000, 999)),
            "labels": draw(S("f", "i", "rev", "arr")), "dim": draw(S("distance", "chan")), "dtype": draw(S("f8", "f4", "i4", "i2")), "bad": draw(S(None, None, None, "len", "dim", "rate", "start")), "seed": draw(I(0, 99))}


@facet("from_obspy", stream_case(), quick=500, weight=1)
@quiet
def check_from_obspy(spec, ctx):
    """Stream to patch and back."""
    import obspy

    from dascore.exceptions import DASCoreError
    from dascore.io import obspy_to_patch

    rng = np.random.default_rng(spec["seed"])
    n, npts, bad = spec["n"], spec["npts"], spec["bad"]
    k = np.arange(n)
    labels = {"f": k * 0.5, "i": k + 3, "rev": (9 - k) * 1.0, "arr": rng.permutation(n) * 2}[spec["labels"]]
    traces = []
    for i in range(n):
        last = i == n - 1 and n > 1
        stats = {"starttime": obspy.UTCDateTime(ns=spec["start"] + (10**11 if last and bad == "start" else 0)), "sampling_rate": spec["rate"] * (2 if last and bad == "rate" else 1), "station": "ST", "network": "NT", "channel": "HHZ"}
        if not (last and bad == "dim"):
            stats[spec["dim"]] = labels[i]
        traces.append(obspy.Trace(data=(rng.normal(size=npts + (1 if last and bad == "len" else 0)) * 100).astype(spec["dtype"]), header=stats))
    stream = obspy.Stream(traces)
    what = f"obspy_to_patch of {n} traces of {npts} at {spec['rate']} Hz (bad: {bad})"
    wrong = bad is not None and n > 1 and (bad != "rate" or npts > 1)
    try:
        patch = obspy_to_patch(stream, dim=spec["dim"])
    except DASCoreError as exc:
        require(wrong, lambda: f"{what}: refused with {exc}")
        return
    except Exception as exc:  # noqa: BLE001
        fail(f"{what}: {type(exc).__name__}: {exc}")
    require(not wrong, f"{what}: not refused, although traces do not fit in one patch")
    if not n:
        require(patch.dims == (), f"{what}: not empty")
        return
    check_coherent(patch, what)
    require(patch.dims == (spec["dim"], "time"), lambda: f"{what}: dims {patch.dims}")
    check_values(np.asarray(patch.data), np.stack([t.data for t in traces]), f"{what}: data")
    check_values(patch.get_array(spec["dim"]), np.asarray(labels), f"{what}: labels")
    got = patch.get_array("time").astype("M8[ns]").astype(np.int64)
    exact = [spec["start"] + round(i * 1e9 / spec["rate"]) for i in range(npts)]
    err = np.abs(got - np.array(exact)).max()
    # (a step of whole nanoseconds may round the sampling interval)
    require(err <= 1 + npts, lambda: f"{what}: times off by {err} ns: {got.tolist()} expected {exact}")
    require(patch.attrs.station == "ST" and patch.attrs.network == "NT", f"{what}: attributes")
    if npts > 1:
        again = patch.io.to_obspy()
        for a, b in zip(again, traces):
            check_values(a.data, b.data, f"{what}: back: data")
            require(a.stats.starttime.ns == b.stats.starttime.ns and abs(a.stats.sampling_rate - b.stats.sampling_rate) <= 1e-3 * b.stats.sampling_rate and a.stats.get("channel") == "HHZ", lambda: f"{what}: back: {a.stats}")
    ctx.nontrivial(n * npts > 1)


# ---------------------------------------------------------------- tables of patches
@st.composite
def table_case(draw):
    return {"p": [gen.draw_patch(draw, min_n=1, max_n=4, max_dims=2, data=("uniq",)) for _ in range(draw(I(1, 3)))]}


@facet("tables", table_case(), quick=400, weight=1)
@quiet
def check_tables(spec, ctx):
    """tables of the contents of patches."""
    import pandas as pd

    import dascore as dc
    from dascore.utils.patch import patches_to_df

    patches = [gen.build_patch(p)[0] for p in spec["p"]]
    for name, df in [("patches_to_df", patches_to_df(patches)), ("scan_to_df", dc.scan_to_df(dc.spool(patches))), ("get_contents", dc.spool(patches).get_contents())]:
        require(len(df) == len(patches), lambda: f"{name}: {len(df)} rows for {len(patches)} patches")
        rows = df.to_dict("records")
        if name != "patches_to_df":  # order may change
            continue
        for row, p in zip(rows, patches):
            require(row["dims"] == ",".join(p.dims), lambda: f"{name}: dims {row['dims']}")
            for attr in ("station", "tag", "network", "data_type"):
                require(row[attr] == getattr(p.attrs, attr), lambda: f"{name}: {attr} {row[attr]!r} was {getattr(p.attrs, attr)!r}")
            for dim in p.dims:
                c = p.get_coord(dim)
                for what, val in (("min", c.min()), ("max", c.max()), ("step", c.step)):
                    got = row[f"{dim}_{what}"]
                    if val is None or pd.isnull(val):
                        require(pd.isnull(got), lambda: f"{name}: {dim}_{what} is {got} expected none")
                    else:
                        require(got == val or (np.asarray(val).dtype.kind not in "mM" and abs(got - val) <= 1e-9 * abs(val)), lambda: f"{name}: {dim}_{what} is {got} expected {val}")
    ctx.nontrivial(len(patches) > 1)


FACETS = [check_xarray, check_from_xarray, check_dataframe, check_obspy, check_from_obspy, check_tables]
