"""C08: aggregations equal the reduction over the named dimensions."""
from __future__ import annotations

import warnings

import numpy as np
from hypothesis import strategies as st

from vlib import gen
from vlib.cmp import attrs_equal, check_coherent, check_coord_values, check_units, check_values, coord_tol, fail, require
from vlib.core import facet
from vlib.gen import I, L, PERM, S

RULE = ("A case is a patch (1-4 dimensions in any order, labels of any type, NaN/int/bool/float data), the dimensions to reduce (one, several in any order, all), the "
        "reduction (shortcut method, aggregate by name or callable, numpy function, ufunc reduce) and the treatment of the reduced dimension; the oracle is the numpy "
        "reduction of each trace, one named dimension after the other (documented order), and the labels computed from the plain coordinate values. "
        "Non-trivial = a reduced dimension has more than one sample.")
ASSUMPTIONS = [
    "Several dimensions are reduced one after the other in the order given, as documented (this matters for median and std).",
    "For datetime labels only label reductions that give an instant (min, max, first, last, mean, median) have a documented value.",
    "Coordinates attached to a reduced dimension may be dropped; if kept they must still be coherent.",
]


def _trace_wise(f):
    def reduce(data, axis):
        moved = np.moveaxis(data, axis, -1)
        flat = moved.reshape(-1, moved.shape[-1])
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            out = np.array([f(x) for x in flat])
        return out.reshape(moved.shape[:-1])

    return reduce


def _valid(x):
    return x[~np.isnan(x)] if x.dtype.kind in "fc" else x


def _or_nan(f):
    return lambda x: f(_valid(x)) if len(_valid(x)) else np.nan


REF = {
    "min": _trace_wise(_or_nan(np.min)), "max": _trace_wise(_or_nan(np.max)), "mean": _trace_wise(_or_nan(lambda x: np.sum(x.astype(float) if x.dtype.kind != "c" else x) / len(x))),
    "median": _trace_wise(_or_nan(lambda x: np.median(x))), "std": _trace_wise(_or_nan(lambda x: np.sqrt(np.mean(np.abs(x - np.mean(x)) ** 2)))),
    "sum": _trace_wise(lambda x: np.sum(_valid(x))), "first": _trace_wise(lambda x: x[0]), "last": _trace_wise(lambda x: x[-1]),
    "any": _trace_wise(lambda x: bool(np.any(x))), "all": _trace_wise(lambda x: bool(np.all(x))),
}
NAMED = ("min", "max", "mean", "median", "std", "sum", "first", "last")
CALLABLES = {"np.min": np.min, "np.ptp": np.ptp, "np.prod": np.prod, "np.nanvar": np.nanvar, "lambda_rms": lambda a, axis: np.sqrt(np.mean(np.abs(a) ** 2, axis=axis)),
             "np.argmax": np.argmax}
REF_CALL = {"np.min": _trace_wise(np.min), "np.ptp": _trace_wise(lambda x: np.max(x) - np.min(x)), "np.prod": _trace_wise(np.prod),
            "np.nanvar": _trace_wise(_or_nan(lambda x: np.mean(np.abs(x - np.mean(x)) ** 2))), "lambda_rms": _trace_wise(lambda x: np.sqrt(np.mean(np.abs(x) ** 2))),
            "np.argmax": _trace_wise(np.argmax)}
DIM_REDUCE = ("empty", "squeeze", "mean", "min", "max", "first", "last", "median", "callable_max", "callable_mid", "std", "sum")


def label_of(vals, how):
    """The documented summary label, as a float/int/time scalar; None = undocumented."""
    if how == "callable_max":
        return np.max(vals)
    if how == "callable_mid":
        return vals[len(vals) // 2]
    if how in ("min", "max", "first", "last"):
        return {"min": np.min, "max": np.max, "first": lambda v: v[0], "last": lambda v: v[-1]}[how](vals)
    if vals.dtype.kind in "mM":
        ints = [int(x) for x in vals.astype(np.int64)]
        if how == "mean":
            out = sum(ints) / len(ints) if abs(max(ints)) < 2**50 else ints[0] + sum(x - ints[0] for x in ints) / len(ints)
        elif how == "median":
            s = sorted(ints)
            h = len(s) // 2
            out = s[h] if len(s) % 2 else s[h - 1] + (s[h] - s[h - 1]) / 2
        else:
            return None
        return out, vals.dtype
    return {"mean": np.mean, "median": np.median, "std": np.std, "sum": np.sum}[how](vals)


@st.composite
def agg_case(draw):
    ps = gen.draw_patch(draw, max_dims=4, max_n=5, data=("uniq", "float", "int", "nan", "nan", "f4", "i2", "bool", "cplx"))
    nd = len(ps["dims"])
    return {"p": ps, "order": draw(PERM(*range(nd))), "nred": draw(I(1, nd)), "dim": draw(S("str", "str", "list", "list", "tuple", "none")),
            "how": draw(S("method", "name", "callable")), "func": draw(S(*NAMED, "any", "all")), "call": draw(S(*CALLABLES)), "red": draw(S(*DIM_REDUCE, "empty", "squeeze"))}


def _callable_mid(vals):
    return np.asarray(vals)[len(vals) // 2]


@facet("agg", agg_case(), quick=2500, weight=3)
def check_agg(spec, ctx):
    """aggregate and its shortcuts."""
    patch, model = gen.build_patch(spec["p"])
    red = spec["red"]
    dims = [patch.dims[i] for i in spec["order"][: spec["nred"]]]
    if spec["dim"] == "str":
        dims = dims[:1]
        dim_arg = dims[0]
    elif spec["dim"] == "none":
        dims = list(patch.dims)
        dim_arg = None
    else:
        dim_arg = (list if spec["dim"] == "list" else tuple)(dims)
    dim_reduce = {"callable_max": np.max, "callable_mid": _callable_mid}.get(red, red)
    how = spec["how"]
    name = spec["func"] if how != "callable" else spec["call"]
    ref = REF[name] if how != "callable" else REF_CALL[name]
    if model.data.dtype.kind == "b" and name in ("std", "median", "np.ptp", "np.nanvar", "mean"):
        return
    if model.data.dtype.kind == "c" and name in ("min", "max", "median", "np.min", "np.ptp", "np.argmax", "std", "np.nanvar"):
        return
    if name in ("np.ptp", "np.argmax", "np.min", "np.prod") and model.data.dtype.kind == "f" and np.isnan(model.data).any():
        return
    if name == "np.prod" and model.data.dtype.kind in "iu":
        return

    def run():
        kw = {"dim_reduce": dim_reduce}
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if how == "method" or (how == "name" and name in ("any", "all")):
                return getattr(patch, name)(dim_arg, **kw)
            method = name if how == "name" else CALLABLES[name]
            return patch.aggregate(dim=dim_arg, method=method, **kw)

    what = f"{how} {name} over {dim_arg!r} dim_reduce={red}"
    if red == "squeeze" and set(dims) == set(patch.dims):
        from dascore.exceptions import ParameterError

        try:
            run()
        except ParameterError:
            ctx.label("squeeze all refused")
            return
        fail(f"{what}: squeezing every dimension was accepted")
    want = np.asarray(model.data)
    odims = list(model.dims)
    for d in dims:
        ax = odims.index(d)
        out = ref(want, ax)
        if red == "squeeze":
            odims.remove(d)
            want = out
        else:
            want = np.expand_dims(out, ax)
    got = run()
    check_coherent(got, what)
    require(list(got.dims) == odims, f"{what}: dims {got.dims} expected {odims}")
    exact = name in ("min", "max", "first", "last", "any", "all", "np.min", "np.argmax")
    tol = 0 if exact else (2e-5 if model.data.dtype == np.float32 else 1e-9)
    check_values(got.data, want, f"{what}: data", rtol=tol, atol=tol * 10)
    if exact and name not in ("any", "all", "np.argmax"):
        require(got.data.dtype == model.data.dtype, f"{what}: dtype {got.data.dtype}")
    # labels
    for nm, (cd, vals, u) in model.coords.items():
        if not set(cd) & set(dims):
            require(nm in got.coords.coord_map, f"{what}: coordinate {nm} of {cd} was dropped")
            require(tuple(got.coords.dim_map[nm]) == tuple(cd), f"{what}: coord {nm} attached to {got.coords.dim_map[nm]}")
            check_coord_values(got.coords.coord_map[nm].values, vals, f"{what}: coord {nm}")
            check_units(got.coords.coord_map[nm].units, u, f"{what}: coord {nm}")
    for d in dims:
        if red == "squeeze":
            require(d not in got.coords.coord_map, f"{what}: squeezed coordinate {d} is still there")
            continue
        coord = got.get_coord(d)
        vals, u = model.coords[d][1:]
        check_units(coord.units, u, f"{what}: reduced coord {d}")
        if red == "empty":
            require(len(coord) == 1, f"{what}: {d} has {len(coord)} labels")
            if len(vals) == 1:
                check_coord_values(coord.values, vals, f"{what}: single label {d}")
            else:
                # No label may be invented for the collapsed dimension.
                v = np.asarray(coord.values)
                null = np.isnat(v) if v.dtype.kind in "mM" else np.isnan(v.astype(float)) if v.dtype.kind in "fiu" else np.array([False])
                require(bool(null.all()) or type(coord).__name__ == "CoordPartial", f"{what}: {d} got the label {v}")
            continue
        lab = label_of(vals, red)
        if lab is None:
            continue
        got_v = np.asarray(coord.values)
        require(got_v.shape == (1,), f"{what}: reduced {d} has labels {got_v}")
        if isinstance(lab, tuple):
            require(got_v.dtype.kind == lab[1].kind, f"{what}: reduced {d} dtype {got_v.dtype}")
            span = int(np.ptp(vals.astype(np.int64))) if len(vals) > 1 else 0
            require(abs(int(got_v.astype(lab[1].str.replace("[ns]", "") + "[ns]").astype(np.int64)[0]) - lab[0]) <= 2 + 1e-12 * span,
                    f"{what}: {d} label {got_v[0]!r} expected {lab[0]} ns ({red} of {vals})")
        elif got_v.dtype.kind in "mM":
            check_values(got_v, np.array([lab]), f"{what}: {d} label")
        else:
            tolc = coord_tol(np.asarray(vals, float)) * 10
            require(abs(float(got_v[0]) - float(lab)) <= tolc, f"{what}: {d} label {got_v[0]!r} expected {lab!r}")
    a, b = patch.attrs.model_dump(), got.attrs.model_dump()
    # any and all declare an empty data type
    for k in ("history", "coords", "data_units", "dims", *(("data_type",) if name in ("any", "all") else ())):
        a.pop(k, None), b.pop(k, None)
    require(attrs_equal(a, b), f"{what}: attrs {b} were {a}")
    if name not in ("any", "all", "np.argmax", "np.prod", "np.nanvar"):
        check_units(got.attrs.data_units, patch.attrs.data_units, f"{what}: data units")
    ctx.label(name, red, spec["dim"], f"{len(dims)} dims")
    ctx.nontrivial(any(len(model.coords[d][1]) > 1 for d in dims))


# ---------------------------------------------------------------- numpy functions
NPF = {
    "mean": np.mean, "nanmean": np.nanmean, "sum": np.sum, "max": np.max, "min": np.min, "amax": np.amax, "median": np.median, "std": np.std, "var": np.var, "prod": np.prod,
    "any": np.any, "all": np.all, "ptp": np.ptp, "argmax": np.argmax, "argmin": np.argmin, "nansum": np.nansum, "count_nonzero": np.count_nonzero, "cumsum": np.cumsum,
    "cumprod": np.cumprod, "nanmax": np.nanmax,
}
ONE_AXIS = ("argmax", "argmin", "cumsum", "cumprod")
UF = {"add": np.add, "multiply": np.multiply, "maximum": np.maximum, "minimum": np.minimum, "logical_and": np.logical_and, "logical_or": np.logical_or}


@st.composite
def np_case(draw):
    ps = gen.draw_patch(draw, max_dims=4, max_n=4, data=("uniq", "float", "int", "pos", "nan", "f4"))
    nd = len(ps["dims"])
    return {"p": ps, "form": draw(S("func", "func", "ufunc_reduce", "ufunc_acc", "patch_reduce", "patch_acc", "patch_class_reduce")), "func": draw(S(*NPF)), "uf": draw(S(*UF)),
            "axes": draw(PERM(*range(nd))), "nax": draw(I(1, nd)), "neg": draw(L(0, 1, nd)), "ax": draw(S("int", "int", "tuple", "none", "default")), "pos": draw(st.booleans()),
            "keep": draw(S(None, None, False, True)), "dimname": draw(S("str", "int", "tuple"))}


@facet("numpy", np_case(), quick=1800, weight=2)
def check_numpy(spec, ctx):
    """numpy reductions, ufunc.reduce and accumulate on a patch."""
    from dascore.utils.array import PatchUFunc

    patch, model = gen.build_patch(spec["p"])
    nd = patch.ndim
    axes = list(spec["axes"][: spec["nax"]])
    form = spec["form"]
    ax = spec["ax"]
    data = np.asarray(model.data)
    acc = form in ("ufunc_acc", "patch_acc")
    if acc and ax in ("tuple", "none"):
        ax = "int"
    if form == "func" and spec["func"] in ONE_AXIS and ax in ("tuple",):
        ax = "int"
    if form == "func" and spec["func"] in ("cumsum", "cumprod") and ax in ("none", "default"):
        ax = "int"
    if ax == "int":
        axes = axes[:1]
    signed = [a - nd if n else a for a, n in zip(axes, spec["neg"])]
    axis = {"int": signed[0], "tuple": tuple(signed), "none": None, "default": None}[ax]
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        if form == "func":
            f = NPF[spec["func"]]
            kw = {}
            if spec["keep"] is not None and spec["func"] not in ONE_AXIS:
                kw["keepdims"] = spec["keep"]
            args = ()
            if ax != "default":
                if spec["pos"]:
                    args = (axis,)
                else:
                    kw["axis"] = axis
            want = f(data, *args, **{k: v for k, v in kw.items() if k != "keepdims"})
            got = f(patch, *args, **kw)
            eff = list(range(nd)) if axis is None else [a % nd for a in (axis if isinstance(axis, tuple) else (axis,))]
            cumulative = spec["func"] in ("cumsum", "cumprod")
            what = f"np.{spec['func']}(patch, {args}, {kw})"
        else:
            uf = UF[spec["uf"]]
            if spec["uf"] not in ("add", "multiply", "maximum", "minimum", "logical_and", "logical_or"):
                return
            cumulative = acc
            if form in ("ufunc_reduce", "ufunc_acc"):
                kw = {} if ax == "default" else {"axis": axis}
                f = uf.accumulate if acc else uf.reduce
                eff = [0] if ax == "default" else list(range(nd)) if axis is None else [a % nd for a in (axis if isinstance(axis, tuple) else (axis,))]
                want = f(data, **kw)
                got = f(patch, **kw)
                what = f"np.{spec['uf']}.{'accumulate' if acc else 'reduce'}(patch, {kw})"
            else:
                if ax in ("none", "default"):
                    ax = "int"
                    axes = axes[:1]
                dims = tuple(patch.dims[a] for a in axes)
                dim = dims[0] if ax == "int" else dims
                eff = axes
                attr = {"logical_and": "minimum", "logical_or": "maximum"}.get(spec["uf"], spec["uf"])
                uf = UF[attr]
                npf = uf.accumulate if acc else uf.reduce
                want = npf(data, axis=axes[0] if ax == "int" else tuple(axes))
                if form == "patch_class_reduce":
                    got = PatchUFunc(uf).reduce(patch, dim=dim)
                elif acc:
                    got = getattr(patch, attr).accumulate(dim=dim)
                else:
                    got = getattr(patch, attr).reduce(dim=dim)
                what = f"patch.{attr}.{'accumulate' if acc else 'reduce'}(dim={dim})"
    check_coherent(got, what)
    require(got.dims == patch.dims, f"{what}: dims {got.dims}")
    want = np.asarray(want)
    if not cumulative:
        want = want.reshape(tuple(1 if i in eff else s for i, s in enumerate(data.shape)))
    check_values(got.data, want, f"{what}: data", rtol=1e-12 if data.dtype != np.float32 else 1e-5)
    require(got.data.dtype == want.dtype, f"{what}: dtype {got.data.dtype} expected {want.dtype}")
    red_dims = set() if cumulative else {patch.dims[a] for a in eff}
    for nm, (cd, vals, u) in model.coords.items():
        if set(cd) & red_dims:
            continue
        require(nm in got.coords.coord_map, f"{what}: coordinate {nm} dropped")
        check_coord_values(got.coords.coord_map[nm].values, vals, f"{what}: coord {nm}")
        check_units(got.coords.coord_map[nm].units, u, f"{what}: coord {nm}")
    for d in red_dims:
        c = got.get_coord(d)
        vals, u = model.coords[d][1:]
        check_units(c.units, u, f"{what}: coord {d}")
        if len(vals) > 1:
            require(type(c).__name__ == "CoordPartial", f"{what}: {d} got the label {c.values}")
        else:
            check_coord_values(c.values, vals, f"{what}: coord {d}")
    ctx.label(form, ax, spec["func"] if form == "func" else spec["uf"])
    ctx.nontrivial(any(data.shape[a] > 1 for a in eff))


# ---------------------------------------------------------------- refusals
@st.composite
def refuse_case(draw):
    return {"p": gen.draw_patch(draw, max_n=4), "what": draw(S("unknown", "unknown_many", "bad_reduce", "bad_method", "out")), "func": draw(S(*NAMED, "any", "all"))}


@facet("refuse", refuse_case(), quick=150)
def check_refuse(spec, ctx):
    """Unknown dimensions, reducers and methods raise."""
    patch, _ = gen.build_patch(spec["p"])
    w, f = spec["what"], spec["func"]
    try:
        if w == "unknown":
            out = getattr(patch, f)("nope")
        elif w == "unknown_many":
            out = getattr(patch, f)([patch.dims[0], "nope"])
        elif w == "bad_reduce":
            out = getattr(patch, f)(patch.dims[0], dim_reduce="nope")
        elif w == "bad_method":
            out = patch.aggregate(patch.dims[0], method="nope")
        else:
            out = np.mean(patch, axis=0, out=np.zeros(patch.shape[1:]))
    except Exception:  # noqa: BLE001
        ctx.label(w)
        ctx.nontrivial(True)
        return
    fail(f"{w}: {f} returned {out} instead of raising")


FACETS = [check_agg, check_numpy, check_refuse]
