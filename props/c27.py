"""C27: processing history and combined metadata tell the truth."""
from __future__ import annotations

import numpy as np
from hypothesis import strategies as st

from vlib import gen, ops
from vlib.cmp import check_coherent, fail, require
from vlib.core import facet
from vlib.gen import I, S

RULE = ("A case is a patch with some history and either a chain of catalogue operations with random arguments, a chain of calls which together cover every history-recording patch "
        "method (explicit arguments, positional or by keyword), or user-made patch functions of every recording mode; or 2-4 sets of attributes (equal, conflicting, unshared, null "
        "and array values, histories, coordinate summaries) combined by each policy through arithmetic, combine_patch_attrs and spool operations. The oracle rebuilds the entry from the "
        "call and the combined attributes from dictionaries. Non-trivial = at least one entry recorded, or at least one attribute shared and one differing between the sets.")
ASSUMPTIONS = [
    "Selecting, ordering, transposing and appending dimensions, arithmetic and numpy functions, and direct updates (new, update, update_attrs, set_dims) promise no entry; every other patch method does.",
    "A call which returns the patch it was given (nothing to do) appends nothing.",
    "The text of array, patch and function valued arguments is not part of the promise, only that the argument is named; arguments whose value is None may be left out.",
    "Null values (None, NaN, NaT) agree with each other; attributes at their default value count as not set when combining.",
]

SILENT = {"select", "order", "transpose", "append_dims", "add", "subtract", "multiply", "divide", "maximum", "minimum", "exp", "log", "log2", "log10", "is_finite", "isinf", "isnan",
          "new", "update", "set_dims", "pipe", "iselect", "apply_ufunc", "tran"}
NAME_ONLY = {"coords_from_df"}
HIST = [[], [], ["first"], ["only (a) string"], ["first", "second(x=1)"], ["a(b='c')", "a(b='c')", ""]]


def fmt(v):
    """The text of simple argument values; None when not promised."""
    if isinstance(v, (list, tuple)):
        parts = [fmt(x) for x in v]
        if any(x is None for x in parts):
            return None
        return ("({})" if isinstance(v, tuple) else "[{}]").format(",".join(parts))
    if isinstance(v, (str, bool, int, float, np.integer, np.floating, np.bool_, np.datetime64, np.timedelta64)) or v is None or v is ...:
        return str(v)
    return None


def given_args(func, patch, args, kwargs):
    import inspect

    try:
        bound = inspect.signature(func).bind(patch, *args, **kwargs)
    except (TypeError, ValueError):
        return None
    out = {}
    for name, value in list(bound.arguments.items())[1:]:
        kind = bound.signature.parameters[name].kind
        if kind is inspect.Parameter.VAR_KEYWORD:
            out.update(value)
        else:
            out[name] = value
    return out


def check_entry(entry, name, func, patch, args, kwargs, what):
    require(isinstance(entry, str) and entry.startswith(f"{name}(") and entry.endswith(")"), f"{what}: the entry {entry!r} does not name {name}")
    require(" object at 0x" not in entry, f"{what}: the entry shows an internal object: {entry!r}")
    given = given_args(func, patch, args, kwargs) or {}
    for k, v in given.items():
        if v is None:
            continue
        require(f"{k}=" in entry, f"{what}: argument {k} is missing from the entry {entry!r}")
        text = fmt(v)
        if text is not None and "'" not in text and "\\" not in text:
            require(f"{k}={text!r}" in entry, f"{what}: the entry {entry!r} does not record {k}={text!r}")


def check_step(before, patch, out, label, func, args, kwargs, what):
    """Return the number of entries which were added."""
    hist, new = list(before), list(out.attrs.history)
    require(list(patch.attrs.history) == hist, f"{what}: history of the input changed to {patch.attrs.history}")
    if label in SILENT or out is patch:
        require(new == hist, f"{what}: history is {new} expected it unchanged {hist}")
        return 0
    require(new[: len(hist)] == hist, f"{what}: earlier entries lost: {new} had {hist}")
    added = new[len(hist):]
    require(len(added) == 1, f"{what}: {len(added)} entries added: {added}")
    if label in NAME_ONLY:
        require(added[0] == label, f"{what}: entry {added[0]!r}")
    elif label.startswith("rolling."):
        require(added[0].startswith("rolling(") and label.split(".")[1] in added[0], f"{what}: entry {added[0]!r}")
    else:
        check_entry(added[0], label, func, patch, args, kwargs, what)
    return 1


# ---------------------------------------------------------------- catalogue
@st.composite
def chain_case(draw):
    ps = gen.draw_patch(draw, kinds=("even", "even", "mono", "arr"), max_n=draw(S(4, 6, 10)), data=("uniq", "float", "float", "int", "nan", "cplx"))
    return {"p": ps, "hist": draw(I(0, len(HIST) - 1)), "ops": [list(x) for x in draw(st.lists(st.tuples(S(*ops.NAMES), I(0, 100_000)), min_size=1, max_size=5))]}


def short(x):
    s = repr(x)
    return s if len(s) < 150 else s[:150] + ".."


@facet("chain", chain_case(), quick=4000, weight=3)
def check_chain(spec, ctx):
    """the history along a chain of catalogue operations."""
    patch, _ = gen.build_patch(spec["p"])
    patch = patch.update_attrs(history=HIST[spec["hist"]])
    added = 0
    for name, seed in spec["ops"]:
        pl = ops.plan(name, seed, patch)
        if pl is None:
            continue
        label, func, args, kwargs = pl
        if label in ("align_to_coord", "dft.idft", "update_attrs") or (label == "new" and kwargs):
            continue  # several steps at once, or setting the attributes directly
        before = list(patch.attrs.history)
        try:
            out = ops.invoke(func, label, patch, args, kwargs)
        except Exception:  # noqa: BLE001
            require(list(patch.attrs.history) == before, f"{label}: refused but the history changed")
            continue
        method = getattr(type(patch), label, None)
        added += check_step(before, patch, out, label, getattr(method, "func", func), args, kwargs, f"{label}({short(args)},{short(kwargs)})")
        if out.data.nbytes > 200_000:
            break
        patch = out
    ctx.nontrivial(added)


# ---------------------------------------------------------------- every recording method
def _q(v, u):
    import dascore as dc

    return v * dc.get_unit(u)


def calls():
    """name -> f(rng, patch) -> (preparation, args, kwargs); the patch has dims distance (m) and time (s)."""
    D = lambda r: str(r.choice(["time", "distance"]))  # noqa: E731
    red = lambda r: {"dim": D(r), "dim_reduce": str(r.choice(["empty", "mean", "first", "squeeze"]))}  # noqa: E731
    n = lambda r, a, b: int(r.integers(a, b))  # noqa: E731
    ident = lambda p: p  # noqa: E731
    C = {k: (lambda r, p: (ident, (), {})) for k in ("abs", "conj", "real", "imag", "angle", "drop_private_coords", "convert_units", "simplify_units", "tau_p_", "all", "any")}
    C.pop("tau_p_")
    C.update({k: (lambda r, p: (ident, (), red(r))) for k in ("min", "max", "mean", "median", "std", "first", "last", "sum", "any", "all")})
    C.update({k: (lambda r, p: (ident, (D(r),), {})) for k in ("demean", "demedian", "detrend", "standardize", "normalize", "dropna", "hilbert", "envelope", "phase_weighted_stack", "squeeze_")})
    C.pop("squeeze_")
    C.update({
        "aggregate": lambda r, p: (ident, (), {"method": str(r.choice(["mean", "max", "std"])), **red(r)}),
        "normalize": lambda r, p: (ident, (D(r),), {"norm": str(r.choice(["l1", "l2", "max", "bit"]))}),
        "squeeze": lambda r, p: ((lambda q: q.mean("distance")), ("distance",) if r.integers(2) else (), {}),
        "fillna": lambda r, p: (ident, (float(n(r, 0, 9)),), {"include_inf": bool(r.integers(2))}),
        "pad": lambda r, p: (ident, (), {"time": (n(r, 0, 3), n(r, 1, 3)), "samples": True, "mode": "constant", "constant_values": n(r, 0, 3)}),
        "roll": lambda r, p: (ident, (), {"distance": n(r, 1, 4), "samples": True, "update_coord": bool(r.integers(2))}),
        "where": lambda r, p: (ident, (p.new(data=p.data > 0.5) if r.integers(2) else p.data > 0.5,), {"other": n(r, 0, 4)}),
        "flip": lambda r, p: (ident, (D(r),), {"flip_coords": bool(r.integers(2))}),
        "full": lambda r, p: (ident, (float(n(r, 0, 9)),), {}),
        "snap_coords": lambda r, p: ((lambda q: q.sort_coords("time", reverse=True)), ("time",), {"reverse": bool(r.integers(2))}),
        "sort_coords": lambda r, p: (ident, (D(r),), {"reverse": True}),
        "rename_coords": lambda r, p: (ident, (), {"distance": "chan", "time": "tt"} if r.integers(2) else {"distance": "depth"}),
        "update_coords": lambda r, p: (ident, (), {"distance": np.arange(p.coord_shapes["distance"][0]) * 2} if r.integers(2) else {"distance_min": n(r, 0, 30)}),
        "drop_coords": lambda r, p: ((lambda q: q.update_coords(qq=("distance", np.arange(q.coord_shapes["distance"][0])))), ("qq",), {}),
        "make_broadcastable_to": lambda r, p: ((lambda q: q.mean("time")), (p.shape,), {"drop_coords": True}),
        "set_units": lambda r, p: (ident, (str(r.choice(["m", "m/s", "strain"])),) if r.integers(2) else (), {"distance": str(r.choice(["cm", "ft"]))}),
        "convert_units": lambda r, p: (ident, (), {"distance": str(r.choice(["cm", "ft", "m"]))}),
        "simplify_units": lambda r, p: ((lambda q: q.set_units("km/h")), (), {}),
        "line_mute": lambda r, p: (ident, (), {"distance": (1, 3), "relative": True, "invert": bool(r.integers(2))}),
        "slope_mute": lambda r, p: (ident, (np.array([0.5, 5.0]),), {"invert": bool(r.integers(2))}),
        "align_to_coord": lambda r, p: ((lambda q: q.update_coords(shft=("distance", np.arange(q.coord_shapes["distance"][0])))), (), {"time": "shft", "samples": True, "mode": str(r.choice(["full", "valid", "same"]))}),
        "pass_filter": lambda r, p: (ident, (), {"corners": n(r, 2, 5), "time": (1, 10)} if r.integers(2) else {"time": (None, 10.5)}),
        "sobel_filter": lambda r, p: (ident, (D(r),), {"mode": "reflect", "cval": 0.0} if r.integers(2) else {}),
        "median_filter": lambda r, p: (ident, (), {"samples": True, D(r): 3}),
        "notch_filter": lambda r, p: (ident, (), {"q": 30, "time": n(r, 2, 15)}),
        "savgol_filter": lambda r, p: (ident, (2,), {"samples": True, D(r): 5, "mode": "nearest"}),
        "gaussian_filter": lambda r, p: (ident, (), {"samples": True, D(r): 2, "truncate": 3.5}),
        "slope_filter": lambda r, p: (ident, (np.array([1.0, 5.0, 20.0, 40.0]),), {"directional": bool(r.integers(2))}),
        "wiener_filter": lambda r, p: (ident, (), {"samples": True, D(r): 3}),
        "hampel_filter": lambda r, p: (ident, (), {"samples": True, "time": 3, "threshold": 3.5, **({"distance": 3} if r.integers(2) else {})}),
        "taper": lambda r, p: (ident, (), {D(r): 0.2, "window_type": str(r.choice(["hann", "triang"]))}),
        "taper_range": lambda r, p: (ident, (), {"distance": (1, 2, 3, 4), "samples": True, "invert": bool(r.integers(2))}),
        "whiten": lambda r, p: (ident, (), {"time": [2, 10], "water_level": 0.1} if r.integers(2) else {"smooth_size": 5, "time": None}),
        "correlate_shift": lambda r, p: ((lambda q: q.dft("time").conj().idft("time") if False else q), ("time",), {"undo_weighting": False}),
        "correlate": lambda r, p: ((lambda q: q.dft("time", real=True)) if r.random() < 0.2 else ident, (), {"distance": n(r, 0, 3), "samples": True, "lag": 0.1} if r.integers(2) else {"distance": n(r, 0, 3), "samples": True}),
        "decimate": lambda r, p: (ident, (), {"time": 2, "filter_type": None if r.integers(2) else "iir"}),
        "interpolate": lambda r, p: (ident, (), {"distance": np.array([1.5, 2.5, 3.0]), "kind": str(r.choice(["linear", "nearest"]))}),
        "resample": lambda r, p: (ident, (), [{"time": np.timedelta64(25, "ms")}, {"distance": n(r, 3, 8), "samples": True}, {"distance": 1.25, "window": None}][n(r, 0, 3)]),
        "differentiate": lambda r, p: (ident, (D(r),), {"order": 2, "step": 1}),
        "integrate": lambda r, p: (ident, (D(r),), {"definite": bool(r.integers(2))}),
        "velocity_to_strain_rate": lambda r, p: ((lambda q: q.update_attrs(data_type="velocity")), (), {"step_multiple": 2}),
        "velocity_to_strain_rate_edgeless": lambda r, p: ((lambda q: q.update_attrs(data_type="velocity")), (), {"step_multiple": n(r, 1, 3)}),
        "radians_to_strain": lambda r, p: ((lambda q: q.set_units("radians")), (), {"gauge_length": 10.5}),
        "stalta": lambda r, p: (ident, (), {"time": (2, 6), "samples": True}),
        "kurtosis": lambda r, p: (ident, (), {D(r): 4, "samples": True, "recursive": bool(r.integers(2))}),
        "rfft": lambda r, p: (ident, ("time",), {}),
        "dft": lambda r, p: (ident, (D(r),), [{"real": True}, {"pad": False}, {"output": str(r.choice(["AS", "PS", "PSD"])), "db": bool(r.integers(2))}][n(r, 0, 3)]),
        "idft": lambda r, p: ((lambda q: q.dft("time")), (), {}),
        "stft": lambda r, p: (ident, (), {"time": 8, "overlap": 4, "samples": True, **({"detrend": True, "taper_window": "hann"} if r.integers(2) else {})}),
        "istft": lambda r, p: ((lambda q: q.stft(time=8, overlap=4, samples=True)), (), {}),
        "spectrogram": lambda r, p: (ident, ("time",), {}),
        "dispersion_phase_shift": lambda r, p: (ident, (np.array([100.0, 200.0]),), {"approx_resolution": 2.0, "approx_freq": [2.0, 10.0]}),
        "tau_p": lambda r, p: (ident, (np.array([100.0, 200.0]),), {}),
        "fbe": lambda r, p: (ident, (), {"time": (2, 10), "window": 0.2, "db": bool(r.integers(2))}),
        "add_distance_to": None, "coords_from_df": None,
    })
    import pandas as pd

    C["coords_from_df"] = lambda r, p: (ident, (pd.DataFrame({"distance": [0.0, 100.0], "xx": [0.0, 5.0]}),), {"extrapolate": True, "units": {"xx": "m"}})
    C["add_distance_to"] = lambda r, p: ((lambda q: q.update_coords(yy=("distance", np.arange(q.coord_shapes["distance"][0])))), (pd.Series({"yy": 1.0}),), {"prefix": "org"})
    C["dropna"] = lambda r, p: ((lambda q: q.new(data=np.where(q.data > 0.9, np.nan, q.data))), ("time",), {"how": "any"})
    return C


CALLS = None
CALL_NAMES = ("abs aggregate align_to_coord all angle any add_distance_to conj convert_units coords_from_df correlate correlate_shift decimate demean demedian detrend dft differentiate "
              "dispersion_phase_shift drop_coords drop_private_coords dropna envelope fbe fillna first flip full gaussian_filter hampel_filter hilbert idft imag integrate interpolate istft "
              "kurtosis last line_mute make_broadcastable_to max mean median median_filter min normalize notch_filter pad pass_filter phase_weighted_stack radians_to_strain real "
              "rename_coords resample rfft roll savgol_filter set_units simplify_units slope_filter slope_mute snap_coords sobel_filter sort_coords spectrogram squeeze stalta "
              "standardize std stft sum taper taper_range tau_p update_coords velocity_to_strain_rate velocity_to_strain_rate_edgeless where whiten wiener_filter").split()


@st.composite
def call_case(draw):
    return {"names": draw(st.lists(S(*CALL_NAMES), min_size=1, max_size=4)), "seed": draw(I(0, 10**6)), "hist": draw(I(0, len(HIST) - 1)), "nd": draw(I(7, 12)), "nt": draw(I(24, 48)),
            "tstep": draw(S(20, 10, 25)), "flip": draw(S(False, False, True)), "func": draw(S(False, False, True))}


@facet("methods", call_case(), quick=2500, weight=3)
def check_methods(spec, ctx):
    """exactly one truthful entry for each call of every recording method."""
    import dascore as dc

    global CALLS
    CALLS = CALLS or calls()
    rng = np.random.default_rng(spec["seed"])
    t = np.datetime64("2020-01-01", "ns") + np.arange(spec["nt"]) * np.timedelta64(spec["tstep"], "ms")
    dims = ("distance", "time")
    data = rng.random((spec["nd"], spec["nt"])) + 0.1
    base = dc.Patch(data=data, coords={"distance": np.arange(spec["nd"]) * 1.0, "time": t}, dims=dims, attrs={"history": HIST[spec["hist"]], "tag": "q"}).set_units.func(
        dc.Patch(data=data, coords={"distance": np.arange(spec["nd"]) * 1.0, "time": t}, dims=dims, attrs={"history": HIST[spec["hist"]], "tag": "q"}), distance="m", time="s")
    if spec["flip"]:
        base = base.transpose()
    added = 0
    for name in spec["names"]:
        prep, args, kwargs = CALLS[name](rng, base)
        patch = prep(base)
        before = list(patch.attrs.history)
        what = f"{name}({short(args)},{short(kwargs)})"
        method = getattr(dc.Patch, name)
        try:
            out = getattr(patch, name)(*args, **kwargs)
        except Exception as exc:  # noqa: BLE001
            ctx.label(f"refused:{name}:{type(exc).__name__}")
            require(list(patch.attrs.history) == before, f"{what}: refused but the history changed")
            continue
        added += check_step(before, patch, out, name, method.func, args, kwargs, what)
        ctx.label(name)
        if spec["func"] and hasattr(method, "raw_function"):
            raw = method.raw_function(patch, *args, **kwargs)
            require(list(raw.attrs.history) == before, f"{what}: the undecorated function recorded history: {raw.attrs.history} had {before}")
        for o in args:
            if isinstance(o, dc.Patch):
                require(list(o.attrs.history) == list(base.attrs.history), f"{what}: history of a patch argument changed")
        # a step on a patch with history depends only on the call, not on what came before
        fresh = patch.update_attrs(history=["zz"])
        again = getattr(fresh, name)(*args, **kwargs)
        require(list(again.attrs.history)[1:] == list(out.attrs.history)[len(before):], f"{what}: entries {again.attrs.history} and {out.attrs.history} differ for equal calls")
        if {"distance", "time"} == set(out.dims) and out.shape == base.shape and out.data.dtype.kind == "f" and out.coords == base.coords:
            base = out.update_attrs(data_type="", data_units=None)
    ctx.nontrivial(added)


# ---------------------------------------------------------------- user functions
VALS = [1, 2.5, "abc", True, (1, 2), [3.5, "x"], None, {"t": (None, 4)}, {"arr": 3}, {"arr": 40}, {"patch": 1}, {"dt": 5}, "with space", "", (1.5, (2, "z"))]


def _val(v, patch):
    if isinstance(v, dict):
        k, x = next(iter(v.items()))
        return {"t": x, "arr": np.arange(x if k == "arr" else 1) * 1.5, "patch": patch, "dt": np.datetime64("2020-01-01T00:00:05", "ns")}[k]
    return tuple(v) if isinstance(v, list) and False else v


@st.composite
def user_case(draw):
    def one():
        return {"mode": draw(S("full", "full", "method_name", None)), "ret": draw(S("new", "new", "same", "silent", "func", "attrs", "number")), "pos": draw(st.lists(I(0, len(VALS) - 1), min_size=1, max_size=2)),
                "c": draw(S(None, *range(len(VALS)))), "kw": draw(st.dictionaries(S("time", "zeta", "alpha"), I(0, len(VALS) - 1), max_size=2)), "form": draw(S("method", "call", "kwargs")),
                "dtype": draw(S(None, None, "envelope", "")), "validate": draw(S(False, False, True)), "name": draw(S("my_func", "f", "select"))}
    return {"p": gen.draw_patch(draw, max_dims=2, max_n=4), "hist": draw(I(0, len(HIST) - 1)), "form": draw(S("list", "tuple", "str")), "funcs": [one() for _ in range(draw(I(1, 4)))]}


@facet("user", user_case(), quick=1500, weight=1)
def check_user(spec, ctx):
    """functions made with patch_function record what they were told to."""
    import dascore as dc

    patch, _ = gen.build_patch(spec["p"])
    hist = HIST[spec["hist"]]
    patch = patch.update_attrs(history=hist[0] if spec["form"] == "str" and len(hist) == 1 else hist if spec["form"] == "list" else tuple(hist))
    want = list(hist)
    added = 0
    for f in spec["funcs"]:
        def my_func(patch, a, b=2, *, c=None, **kwargs):
            res = {"new": lambda: patch.new(data=patch.data), "same": lambda: patch, "silent": lambda: patch.transpose(*patch.dims[::-1]).transpose(*patch.dims),
                    "func": lambda: dc.Patch.abs.func(patch) if patch.data.dtype.kind in "fi" else patch.new(), "attrs": lambda: patch.update_attrs(tag="changed"), "number": lambda: 10}[f["ret"]]()
            same_obj.append(res is patch)
            return res

        same_obj = []
        my_func.__name__ = f["name"]
        deco = dc.patch_function(history=f["mode"], data_type=f["dtype"], validate_call=f["validate"])(my_func)
        pos = [_val(VALS[i], patch) for i in f["pos"]]
        kw = {k: _val(VALS[i], patch) for k, i in f["kw"].items()}
        if f["c"] is not None:
            kw["c"] = _val(VALS[f["c"]], patch)
        call_kw = dict(kw)
        bound = {"a": pos[0], "b": pos[1] if len(pos) > 1 else 2, **kw}
        if f["form"] == "method":
            out = patch.pipe(deco, *pos, **kw)
        elif f["form"] == "call":
            out = deco(patch, *pos, **kw)
        else:
            call_kw.update(zip("ab", pos))
            out = deco(patch, **call_kw)
        before = patch.attrs.history
        require(([before] if isinstance(before, str) else list(before)) == want, "history of the input changed")
        if f["ret"] == "number":
            require(out == 10, "a result which is not a patch was changed")
            continue
        if same_obj[-1] and f["dtype"] is not None:
            continue
        if f["dtype"] is not None:
            require(out.attrs.data_type == f["dtype"], f"data_type {out.attrs.data_type!r} expected {f['dtype']!r}")
        if not same_obj[-1] and f["mode"] is not None:
            if f["mode"] == "method_name":
                want = [*want, f["name"]]
            else:
                last = out.attrs.history[-1]
                texts = {k: fmt(v) for k, v in bound.items() if v is not None}
                if all(x is not None for x in texts.values()):
                    exp = f"{f['name']}(" + ",".join(sorted(f"{k}={v!r}" for k, v in texts.items())) + ")"
                    require(last == exp, f"entry {last!r} expected {exp!r}")
                else:
                    require(last.startswith(f["name"] + "(") and all(f"{k}=" in last for k in texts), f"entry {last!r} for arguments {list(texts)}")
                want = [*want, last]
            added += 1
        got = out.attrs.history
        require(([got] if isinstance(got, str) else list(got)) == want, f"history {out.attrs.history} expected {want} after {f}")
        check_coherent(out, "user function")
        patch = out
    ctx.nontrivial(added)


# ---------------------------------------------------------------- combining
FIELDS = {"tag": ["", "a", "b"], "station": ["", "S1", "S2"], "instrument_id": ["", "i1"], "cust_i": [1, 2, None], "cust_f": [1.5, 2.5, {"nan": 1}, None], "cust_s": ["x", "y", ""],
          "cust_l": [[1, 2], [1, 3]], "cust_d": [{"dict": 1}, {"dict": 2}], "cust_t": [{"dt": 1}, {"dt": 2}, {"nat": 1}], "cust_a": [{"arr": [1, 2]}, {"arr": [1, 3]}, {"arr": [1, 2, 3]}]}


def attr_value(v):
    if isinstance(v, dict):
        k, x = next(iter(v.items()))
        if k == "nan":
            return float("nan")
        if k == "dict":
            return {"a": x}
        if k == "dt":
            return np.datetime64("2020-01-01", "ns") + np.timedelta64(x, "s")
        if k == "nat":
            return np.datetime64("NaT", "ns")
        return np.array(x)
    return v


@st.composite
def sets_case(draw):
    keys = draw(st.lists(S(*FIELDS), unique=True, min_size=1, max_size=4))
    base = {k: draw(I(0, len(FIELDS[k]) - 1)) for k in keys}
    sets = []
    for _ in range(draw(I(2, 4))):
        d = dict(base)
        for k in keys:
            c = draw(S(0, 0, 0, 0, 1, 2))
            if c == 1:
                d[k] = draw(I(0, len(FIELDS[k]) - 1))
            elif c == 2:
                d.pop(k)
        sets.append({k: d[k] for k in sorted(d, key=lambda x: (hash_order(x, len(sets)), x))})
    return {"sets": sets, "hist": [draw(S(0, 0, 0, 2, 4)) for _ in sets], "pol": draw(S("raise", "drop", "keep_first")), "drop": draw(S(None, None, "tag", "cust_f,station", "history")),
            "as": draw(S("attrs", "attrs", "dict")), "coord": draw(S(None, None, "same", "join", "other")), "op": draw(S("add", "subtract", "multiply")), "swap": draw(S(False, True))}


def hash_order(x, k):
    return (len(x) * 7 + k * 3) % 5


def same(a, b):
    import pandas as pd

    def null(v):
        return v is None or (not isinstance(v, (list, tuple, dict, np.ndarray, str)) and bool(pd.isnull(v)))

    if null(a) or null(b):
        return null(a) and null(b)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and bool((a == b).all())
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return list(a) == list(b)
    return type(a) is type(b) and a == b or a == b


DEFAULTS = {"tag": "", "station": "", "instrument_id": "", "history": ()}


def values(spec, i):
    out = {k: attr_value(FIELDS[k][v]) for k, v in spec["sets"][i].items()}
    out["history"] = list(HIST[spec["hist"][i]])
    return out


def set_keys(d):
    """Attributes which are not at their default."""
    return {k: v for k, v in d.items() if not (k in DEFAULTS and same(v, DEFAULTS[k]))}


@facet("policies", sets_case(), quick=2500, weight=1)
def check_policies(spec, ctx):
    """combine_patch_attrs refuses, drops or keeps exactly as asked."""
    import dascore as dc
    from dascore.exceptions import AttributeMergeError
    from dascore.utils.attrs import combine_patch_attrs

    sets = [values(spec, i) for i in range(len(spec["sets"]))]
    coords = [None] * len(sets)
    if spec["coord"] and spec["as"] == "attrs":
        for i in range(len(sets)):
            k = i if spec["coord"] == "join" else 0
            coords[i] = {"time": dc.core.get_coord(start=10 * k, stop=10 * (k + 1), step=1).to_summary(dims=("time",))}
            if spec["coord"] == "other":
                coords[i]["distance"] = dc.core.get_coord(start=i, stop=i + 5, step=1).to_summary(dims=("distance",))
    make = dc.PatchAttrs if spec["as"] == "attrs" else dict
    models = [make(**s, **({"coords": c} if c else {})) for s, c in zip(sets, coords)]
    snaps = [str(m) for m in models]
    drop = (spec["drop"] or "").split(",")
    kept = [{k: v for k, v in (set_keys(s) if spec["as"] == "attrs" else s).items() if k not in drop} for s in sets]
    kw = {"conflicts": spec["pol"]}
    if spec["drop"]:
        kw["drop_attrs"] = drop if len(drop) > 1 else drop[0]
    if coords[0]:
        kw["coord_name"] = "time"
    allkeys = sorted(set().union(*kept))
    conflict = [k for k in allkeys if not all(k in d and same(d[k], kept[0].get(k)) for d in kept)]
    coord_conflict = spec["coord"] == "other" and coords[0] is not None
    what = f"combine {kept} coord={spec['coord']} {kw}"
    try:
        out = combine_patch_attrs(models, **kw)
    except AttributeMergeError as exc:
        require(spec["pol"] == "raise" and (conflict or coord_conflict), f"{what}: refused with {exc}")
        ctx.nontrivial(conflict and len(allkeys) > len(conflict))
        return
    require(not (spec["pol"] == "raise" and (conflict or coord_conflict)), f"{what}: accepted although {conflict} differ: {out}")
    require([str(m) for m in models] == snaps, f"{what}: an input changed")
    got = dict(out)
    for k in allkeys:
        if spec["pol"] == "keep_first":
            want = next(d[k] for d in kept if k in d)
        elif k in conflict:
            if k in DEFAULTS:
                require(same(got[k], DEFAULTS[k]), f"{what}: {k} differs but is {got[k]!r}")
            else:
                require(k not in got, f"{what}: {k} differs but is {got.get(k)!r}")
            continue
        else:
            want = kept[0][k]
        require(k in got and same(got[k], want), f"{what}: {k} is {got.get(k, 'missing')!r} expected {want!r}")
    extra = {k for k in set_keys(got) if k not in allkeys and k not in ("coords", "dims") and k not in drop and k in FIELDS}
    require(not extra, f"{what}: {extra} appeared")
    if coords[0] and not (coord_conflict and spec["pol"] == "drop"):
        c = out.coords["time"]
        hi = 10 * (len(sets) if spec["coord"] == "join" else 1) - 1
        require((c.min, c.max, c.step) == (0, hi, 1), f"{what}: time summary is {c}")
    ctx.nontrivial(conflict and len(allkeys) > len(conflict))


@facet("arithmetic", sets_case(), quick=2000, weight=1)
def check_arithmetic(spec, ctx):
    """operations between two patches merge or refuse their metadata, and record nothing."""
    import dascore as dc
    from dascore.exceptions import IncompatiblePatchError

    sets = [values(spec, i) for i in range(2)]
    data = np.arange(6.0).reshape(2, 3) + 1
    coords = {"time": np.arange(3) * 1.0, "distance": np.arange(2)}
    ps = [dc.Patch(data=data + i, coords=coords, dims=("distance", "time"), attrs=s) for i, s in enumerate(sets)]
    full = [dict(p.attrs) for p in ps]
    common = [k for k in full[0] if k in full[1] and k not in ("history", "dims", "coords")]
    conflict = [k for k in common if not same(full[0][k], full[1][k])]
    what = f"{sets[0]} {spec['op']} {sets[1]}"
    try:
        out = getattr(ps[0], spec["op"])(ps[1]) if not spec["swap"] else getattr(np, spec["op"])(ps[0], ps[1])
    except IncompatiblePatchError as exc:
        require(conflict, f"{what}: refused with {exc}")
        ctx.nontrivial()
        return
    require(not conflict, f"{what}: accepted although {conflict} differ")
    got = dict(out.attrs)
    require(list(out.attrs.history) == sets[0]["history"], f"{what}: history {out.attrs.history} expected that of the first patch")
    for k in set(full[0]) | set(full[1]):
        if k in ("coords", "history"):
            continue
        want = full[0][k] if k in full[0] else full[1][k]
        require(k in got and same(got[k], want), f"{what}: {k} is {got.get(k, 'missing')!r} expected {want!r}")
    require(set(got) <= set(full[0]) | set(full[1]), f"{what}: new attributes {set(got) - set(full[0]) - set(full[1])}")
    for i, p in enumerate(ps):
        require(list(p.attrs.history) == sets[i]["history"], f"{what}: history of an operand changed")
    # with numbers and arrays nothing but the data changes
    for other in (2, 2.5, np.ones((2, 3)), np.ones(3), np.ones((2, 1))):
        alone = getattr(ps[0], spec["op"])(other)
        require(list(alone.attrs.history) == sets[0]["history"], f"{spec['op']} with {short(other)}: history {alone.attrs.history} expected {sets[0]['history']}")
        for k in full[0]:
            require(k == "coords" or same(dict(alone.attrs).get(k), full[0][k]), f"{spec['op']} with {short(other)}: attribute {k} changed")
    check_coherent(out, what)
    ctx.nontrivial(set(full[0]) != set(full[1]) or spec["hist"][0] != spec["hist"][1])


@facet("spools", sets_case(), quick=700, weight=1)
def check_spools(spec, ctx):
    """stacking and concatenating record one entry after the history of the first patch."""
    import dascore as dc

    sets = [values(spec, i) for i in range(len(spec["sets"]))]
    data = np.arange(6.0).reshape(2, 3) + 1
    ps = [dc.Patch(data=data, coords={"time": np.arange(3) * 1.0, "distance": np.arange(2)}, dims=("distance", "time"), attrs=s) for s in sets]
    sp = dc.spool(ps)
    for name, func in (("stack", lambda: sp.stack(check_behavior=None) if True else None), ("concatenate", lambda: sp.concatenate(time=None, check_behavior=None)[0])):
        try:
            out = func()
        except Exception as exc:  # noqa: BLE001
            fail(f"{name} of patches with {sets} failed: {type(exc).__name__} {exc}")
        first = dc.spool(ps)[0].attrs.history
        new = list(out.attrs.history)
        require(new[:-1] == list(first) and new[-1].startswith(name), f"{name}: history {new} expected {list(first)} and one entry")
        for p, s in zip(ps, sets):
            require(list(p.attrs.history) == s["history"], f"{name}: history of an input changed")
    ctx.nontrivial(len(set(spec["hist"])) > 1)


FACETS = [check_chain, check_methods, check_user, check_policies, check_arithmetic, check_spools]
