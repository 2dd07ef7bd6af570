"""C18: time conversions are exact and mutually consistent."""
from __future__ import annotations

import datetime as pydt
import warnings
from fractions import Fraction

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vlib.cmp import fail, require
from vlib.core import facet
from vlib.gen import I, S

RULE = ("A case is a list of instants or durations (integers of nanoseconds from 1677 to 2262, with missing ones), a representation for them (strings of any precision, numpy scalars and "
        "arrays of any unit, pandas scalars and Series of any unit, python datetimes, integers and floats of any width) and a container (scalar, 0-d, list, tuple, array, object array, 2-d, Series, strided or "
        "read-only array). The oracle is integer (for floats: rational) arithmetic on the nanoseconds. Non-trivial = at least one value that is neither missing nor zero.")
ASSUMPTIONS = [
    "A float number of seconds denotes its value up to the spacing of floats at that size (seconds and nanoseconds), at least one nanosecond.",
    "to_int and to_float of plain numbers are not judged (pinned by the tests as they are), nor is to_int of NaT (numpy's own sentinel).",
    "Time zones other than a trailing Z are not generated.",
]

UNITS = {"s": 10**9, "ms": 10**6, "us": 10**3, "ns": 1, "m": 60 * 10**9, "h": 3600 * 10**9, "D": 86400 * 10**9}
EPOCHS = [0, 0, 1_500_000_000 * 10**9, 1_700_000_000 * 10**9, -2_000_000_000 * 10**9, 9_000_000_000 * 10**9, -9_000_000_000 * 10**9]
NAT = np.iinfo(np.int64).min


@st.composite
def ints(draw, dt=True):
    epoch = draw(S(*EPOCHS)) if dt else draw(S(0, 0, 0, 10**15, 10**18, -(10**18)))
    quantum = draw(S(1, 10**3, 10**6, 10**9, 10**9, 60 * 10**9, 86400 * 10**9, 10**8, 123))
    n = draw(I(0, 4))
    out = []
    for _ in range(n):
        k = draw(I(-1000, 1000))
        out.append(None if draw(I(0, 7)) == 0 else epoch + k * quantum)
    return out


DT_REPS = ("str", "strz", "str_short", "np", "np", "pd", "py", "int", "float", "npint", "npfloat", "td", "mixed")
TD_REPS = ("np", "np", "pd", "py", "int", "float", "npint", "npfloat", "str", "mixed")
CONT = ("scalar", "scalar", "list", "tuple", "array", "array", "object", "series", "series", "2d", "0d", "strided", "readonly")


@st.composite
def case(draw, dt):
    return {"v": draw(ints(dt)), "rep": draw(S(*(DT_REPS if dt else TD_REPS))), "unit": draw(S("s", "ms", "us", "ns", "ns", "m", "h", "D")), "cont": draw(S(*CONT)), "width": draw(S("i8", "i4", "i2", "u4", "f8", "f4")), "null": draw(S("NaT", "None", "nan", "pdNaT", "NA"))}


def _exact(n, unit):
    """The instant on the grid of the unit."""
    return n - n % unit


def _represent(n, rep, unit, width, dt, null="NaT"):
    """(object, exact ns or None, tolerance ns) of one value."""
    if n is None:
        obj = {"NaT": np.datetime64("NaT", "ns") if dt else np.timedelta64("NaT", "ns"), "None": None, "nan": float("nan"), "pdNaT": pd.NaT, "NA": pd.NA}[null]
        if rep in ("float", "npfloat"):
            obj = float("nan") if rep == "float" else np.dtype(width if width[0] == "f" else "f8").type("nan")
        elif rep == "np":
            obj = (np.datetime64 if dt else np.timedelta64)("NaT", unit)
        elif rep == "td":
            obj = np.timedelta64("NaT", unit)
        return obj, None, 0
    f = UNITS[unit]
    if rep == "np" or rep == "td":
        n = _exact(n, f)
        return (np.datetime64 if rep == "np" and dt else np.timedelta64)(n // f, unit), n, 0
    if rep in ("str", "strz", "str_short"):
        if not dt:
            n = _exact(n, f)
            name = {"s": "second", "ms": "millisecond", "us": "microsecond", "ns": "nanosecond", "m": "minute", "h": "hour", "D": "day"}[unit]
            return f"{n // f} {name}s", n, 0
        n = _exact(n, f)
        u = unit if rep != "str" else "ns"
        text = str(np.datetime64(n, "ns").astype(f"datetime64[{u}]"))
        return text + ("Z" if rep == "strz" and "T" in text else ""), n, 0
    if rep == "pd":
        u = unit if unit in ("s", "ms", "us", "ns") else "s"
        n = _exact(n, UNITS[u])
        return ((pd.Timestamp(n, unit="ns") if dt else pd.Timedelta(n, unit="ns")).as_unit(u)), n, 0
    if rep == "py":
        n = _exact(n, 1000)
        return (pydt.datetime(1970, 1, 1) if dt else pydt.timedelta(0)) + pydt.timedelta(microseconds=n // 1000), n, 0
    if rep == "int":
        n = _exact(n, 10**9)
        return n // 10**9, n, 0
    if rep == "npint":
        info = np.iinfo(width if width[0] in "iu" else "i8")
        s = n // 10**9
        s = s if info.min <= s <= info.max else int(s % 1000)
        return np.dtype(info.dtype).type(s), s * 10**9, 0
    if rep == "float":
        x = float(Fraction(n, 10**9))
    else:
        x = np.dtype(width if width[0] == "f" else "f8").type(n / 1e9)
    exact = Fraction(float(x)) * 10**9
    near = int(round(exact))
    if abs(near) > 9.2e18:
        x = type(x)(1.5)
        near = 1500000000
    tol = 1 + int(np.spacing(abs(float(near)))) + 1
    return x, near, tol


def _contain(objs, cont, rep, unit, width, dt):
    if cont == "list":
        return list(objs)
    if cont == "tuple":
        return tuple(objs)
    if cont == "series":
        return pd.Series(_native(objs, rep, unit, width, dt), index=[f"r{i}" for i in range(len(objs))])
    if cont == "object":
        out = np.empty(len(objs), dtype=object)
        out[:] = list(objs)
        return out
    arr = _native(objs, rep, unit, width, dt)
    if cont == "2d":
        return np.array(arr).reshape(1, -1) if len(objs) % 2 else np.array(arr).reshape(2, -1)
    if cont == "strided":
        big = np.repeat(np.asarray(arr), 2)
        return big[::2] if len(objs) % 2 else np.asarray(arr)[::-1][::-1]
    if cont == "readonly":
        arr = np.array(arr)
        arr.setflags(write=False)
    return arr


def _native(objs, rep, unit, width, dt):
    if rep in ("np", "td"):
        return np.array(objs, dtype=f"{'M8' if dt and rep == 'np' else 'm8'}[{unit}]")
    if rep == "npint" and all(not _null(x) for x in objs):
        return np.array(objs, dtype=width if width[0] in "iu" else "i8")
    if rep == "npfloat":
        return np.array(objs, dtype=width if width[0] == "f" else "f8")
    if rep == "float":
        return np.array(objs, dtype="f8")
    if rep == "int" and all(not _null(x) for x in objs):
        return np.array(objs, dtype="i8")
    if rep.startswith("str") and all(not _null(x) for x in objs):
        return np.array(objs)
    out = np.empty(len(objs), dtype=object)
    out[:] = list(objs)
    return out


def _null(x):
    return x is None or bool(np.all(pd.isnull(x)))


def build(spec, dt):
    rep = spec["rep"]
    vals = spec["v"]
    reps = [rep] * len(vals)
    if rep == "mixed":
        pool = ("str", "np", "pd", "py", "int", "float") if dt else ("np", "pd", "py", "int", "float")
        reps = [pool[(i * 7 + len(vals)) % len(pool)] for i in range(len(vals))]
    if spec["cont"] in ("list", "tuple") and rep not in ("np", "td", "npfloat", "float"):
        spec["null"] = "None"  # numpy itself coerces other mixtures in lists
        if rep == "mixed":
            spec["cont"] = "object"
    trip = [_represent(n, r, spec["unit"], spec["width"], dt, spec["null"]) for n, r in zip(vals, reps)]
    return trip


def _as_ns(out, kind, what):
    """The result as list of integers (None for missing)."""
    arr = np.asarray(out)
    require(arr.dtype == np.dtype(f"{kind}8[ns]"), lambda: f"{what}: dtype is {arr.dtype}")
    return [None if x == NAT else int(x) for x in arr.ravel().view("i8")]


def check_conversion(spec, ctx, dt):
    from dascore.utils.time import to_datetime64, to_timedelta64

    func, kind = (to_datetime64, "M") if dt else (to_timedelta64, "m")
    spec = dict(spec)
    trip = build(spec, dt)
    cont, rep = spec["cont"], spec["rep"]
    what = f"{func.__name__} of {cont} of {rep}[{spec['unit']}/{spec['width']}] {[x for x, _, _ in trip]}"

    def agree(got, want):
        require(len(got) == len(want), lambda: f"{what}: {len(got)} values")
        for g, (obj, w, tol) in zip(got, want):
            require((g is None) == (w is None), lambda: f"{what}: {obj!r} became {g}")
            if w is not None:
                require(abs(g - w) <= tol, lambda: f"{what}: {obj!r} became {g} ns, is {w} ns")

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if cont in ("scalar", "0d"):
            for t in trip:
                obj = t[0]
                if cont == "0d":
                    if not isinstance(obj, np.generic):
                        continue
                    obj = np.array(obj)
                out = func(obj)
                require(np.ndim(out) == 0, f"{what}: a scalar gave {out!r}")
                agree(_as_ns(out, kind, what), [t])
                again = func(out)
                require(_as_ns(again, kind, what) == _as_ns(out, kind, what), f"{what}: converting twice changed {out!r} to {again!r}")
        else:
            arg = _contain([x for x, _, _ in trip], cont, rep, spec["unit"], spec["width"], dt)
            if cont == "2d" and not (rep in ("np", "td") and len(trip)):
                return  # only time arrays can have several dimensions
            if not dt and rep == "str" and (any(_null(x) for x, _, _ in trip) or (cont == "series" and any(abs(w) > 2**53 for _, w, _ in trip))):
                return  # (pandas parses strings of durations with the precision of floats)
            keep = arg.copy() if hasattr(arg, "copy") else arg
            out = func(arg)
            agree(_as_ns(out, kind, what), trip)
            if cont == "series":
                require(isinstance(out, pd.Series) and list(out.index) == list(arg.index), f"{what}: result is {type(out)}")
            else:
                require(isinstance(out, np.ndarray) and out.shape == np.shape(arg), f"{what}: result {type(out)} of shape {np.shape(out)}")
            require(repr(keep) == repr(arg), f"{what}: the argument changed")
            again = func(out)
            require(_as_ns(again, kind, what) == _as_ns(out, kind, what), f"{what}: converting twice changed the values")
    ctx.label(cont, rep)
    ctx.nontrivial(any(w for _, w, _ in trip))


@facet("datetime", case(True), quick=12000)
def check_datetime(spec, ctx):
    """to_datetime64 of every representation and container."""
    check_conversion(spec, ctx, True)


@facet("timedelta", case(False), quick=12000)
def check_timedelta(spec, ctx):
    """to_timedelta64 of every representation and container."""
    check_conversion(spec, ctx, False)


# ---------------------------------------------------------------- back again
@st.composite
def back_case(draw):
    dt = draw(S(True, False))
    return {**draw(case(dt)), "dt": dt, "rep": draw(S("np", "np", "pd", "py")), "cont": draw(S("scalar", "list", "array", "series", "strided", "readonly"))}


@facet("back", back_case(), quick=8000)
def check_back(spec, ctx):
    """to_int and to_float give the nanoseconds and seconds, which convert back to the same time."""
    from dascore.utils.time import dtype_time_like, is_datetime64, is_timedelta64, to_datetime64, to_float, to_int, to_timedelta64

    dt, cont = spec["dt"], spec["cont"]
    func = to_datetime64 if dt else to_timedelta64
    spec = {**spec, "v": [x for x in spec["v"] if x is not None]}
    trip = build(spec, dt)
    rep = spec["rep"]
    what = f"{cont} of {rep}[{spec['unit']}] {[x for x, _, _ in trip]}"
    items = [([x], [w], x) for x, w, _ in trip] if cont == "scalar" else [([x for x, _, _ in trip], [w for _, w, _ in trip], None)]
    for objs, want, scalar in items:
        if cont == "scalar":
            arg = scalar
        elif rep == "np":
            arg = _contain(objs, cont, rep, spec["unit"], spec["width"], dt)
        else:
            arg = pd.Series(objs, dtype=f"{'datetime64' if dt else 'timedelta64'}[{spec['unit'] if spec['unit'] in ('s', 'ms', 'us', 'ns') and rep == 'pd' else 'us' if rep == 'py' else 's'}]")
        if rep == "py" and cont == "scalar" and not dt:
            got_int = None  # not registered
        else:
            got_int = to_int(arg)
            require(np.asarray(got_int).ravel().tolist() == want, lambda: f"to_int of {what} is {got_int!r}")
            if objs:
                back = np.asarray(np.asarray(got_int), dtype="i8").view("M8[ns]" if dt else "m8[ns]")
                require(_as_ns(back, "M" if dt else "m", what) == want, f"{what}: integers do not convert back")
        got = np.asarray(to_float(arg), dtype=float).ravel()
        for g, w in zip(got, want):
            x = float(Fraction(w, 10**9))
            require(abs(g - x) <= 2 * np.spacing(abs(x)), lambda: f"to_float of {what}: {g!r}, exactly {x!r}")
        back = _as_ns(np.atleast_1d(func(got)), "M" if dt else "m", what) if objs else []
        for g, w in zip(back, want):
            tol = 2 + 2 * int(np.spacing(abs(float(w)))) + int(np.spacing(abs(w / 1e9)) * 2e9)
            require(abs(g - w) <= tol, lambda: f"{what}: {w} ns became {g} ns after to_float")
        if objs:
            require(is_datetime64(arg) == dt if not isinstance(arg, (pydt.datetime, pydt.timedelta)) or isinstance(arg, (pd.Timestamp, pd.Timedelta)) else True, f"is_datetime64 of {what}")
            require(is_timedelta64(arg) != dt if not isinstance(arg, (pydt.datetime, pydt.timedelta)) or isinstance(arg, (pd.Timestamp, pd.Timedelta)) else True, f"is_timedelta64 of {what}")
            if isinstance(arg, (np.ndarray, pd.Series)):
                require(dtype_time_like(arg) and dtype_time_like(arg.dtype), f"dtype_time_like of {what}")
        # the text of a time is that time; one second is one second
        for w, x in zip(want, objs if rep == "np" else []):
            text = str(np.datetime64(w, "ns") if dt else np.timedelta64(w, "ns"))
            require(_as_ns(func(text), "M" if dt else "m", what) == [w], lambda: f"{func.__name__}({text!r}) is not {w} ns")
        if dt and objs:
            a = to_datetime64(np.array(want, "i8").view("M8[ns]")) - to_datetime64(0)
            require(_as_ns(to_timedelta64(arg if cont != "scalar" else [arg]) if rep == "np" else to_timedelta64(np.array(want, "M8[ns]")), "m", what) == _as_ns(a, "m", what), f"to_timedelta64 of instants {what} is not the time since 1970")
    ctx.label(cont, rep, "dt" if dt else "td")
    ctx.nontrivial(any(w for _, w, _ in trip))


# ---------------------------------------------------------------- limits
@st.composite
def lim_case(draw):
    return {"a": draw(S(None, 0, 0, 1, -5, 10**9, "nat")), "b": draw(S(None, 0, 0, 2, -3, 10**9 + 7, "nat")), "form": draw(S("int", "float", "np", "str", "pd", "td"))}


@facet("limits", lim_case(), quick=300)
def check_limits(spec, ctx):
    """Open, epoch and reversed limits of a time range."""
    from dascore.constants import LARGEDT64, SMALLDT64
    from dascore.utils.time import get_max_min_times

    def form(x):
        if x is None or x == "nat":
            return None if x is None else np.datetime64("NaT")
        f = spec["form"]
        if f == "int":
            return x
        if f == "float":
            return float(x)
        if f == "np":
            return np.datetime64(x, "s")
        if f == "pd":
            return pd.Timestamp(x, unit="s")
        return str(np.datetime64(x, "s"))

    a, b = (None if x in (None, "nat") else np.datetime64(x, "s").astype("M8[ns]") for x in (spec["a"], spec["b"]))
    arg = (form(spec["a"]), form(spec["b"]))
    lo, hi = (SMALLDT64 if a is None else a), (LARGEDT64 if b is None else b)
    if lo > hi:
        try:
            out = get_max_min_times(arg)
        except ValueError:
            return
        fail(f"limits {arg} are reversed but gave {out}")
    out = get_max_min_times(arg)
    require(tuple(out) == (lo, hi), lambda: f"limits {arg} gave {out}, expected {(lo, hi)}")
    ctx.label(spec["form"])
    ctx.nontrivial(a is not None or b is not None)


# ---------------------------------------------------------------- times given to patches
@st.composite
def use_case(draw):
    return {"epoch": draw(S(*EPOCHS)), "step": draw(S(1, 10**6, 10**9, 333, 60 * 10**9)), "n": draw(I(2, 6)), "lo": draw(I(0, 5)), "hi": draw(I(0, 5)), "rep": draw(S("str", "np", "pd", "py", "int", "float")), "unit": draw(S("s", "ms", "us", "ns")), "how": draw(S("coord", "select", "range", "attr"))}


@facet("use", use_case(), quick=3000)
def check_use(spec, ctx):
    """Times given to coordinates, selections and attributes mean the same instants."""
    import dascore as dc
    from dascore.core.coords import get_coord

    n, step = spec["n"], spec["step"]
    vals = [spec["epoch"] + i * step for i in range(n)]
    lo, hi = sorted((spec["lo"] % n, spec["hi"] % n))
    arr = np.array(vals, "i8").view("M8[ns]")
    trip = [_represent(v, spec["rep"], spec["unit"], "f8", True) for v in vals]
    exact = [w for _, w, _ in trip] == vals and all(t == 0 for _, _, t in trip)
    if not exact:
        return
    objs = [o for o, _, _ in trip]
    how = spec["how"]
    what = f"{how} with {objs}"
    if how == "coord" and spec["rep"] not in ("int", "pd", "py"):
        out = dc.to_datetime64(objs)
        c = get_coord(data=out)
        require(_as_ns(c.values, "M", what) == vals, f"{what}: {c.values}")
    elif how == "range":
        c = get_coord(start=dc.to_datetime64(objs[0]), stop=(arr[-1] + np.timedelta64(step, "ns")), step=np.timedelta64(step, "ns"))
        require(_as_ns(c.values, "M", what) == vals, f"{what}: {c.values}")
    elif how == "select":
        p = dc.Patch(data=np.arange(n), coords={"time": arr}, dims=("time",))
        out = p.select(time=(objs[lo], objs[hi]))
        require(out.data.tolist() == list(range(lo, hi + 1)), lambda: f"{what}: [{lo}, {hi}] kept {out.data.tolist()}")
    else:
        p = dc.Patch(data=np.arange(n), coords={"time": arr}, dims=("time",))
        out = p.update_coords(time_min=objs[lo])
        require(int(out.get_coord("time").min().astype("M8[ns]").view("i8")) == vals[lo], lambda: f"{what}: {out.get_coord('time').min()}")
    ctx.label(how, spec["rep"])
    ctx.nontrivial(True)


FACETS = [check_datetime, check_timedelta, check_back, check_limits, check_use]
