"""C09: rolling windows summarise exactly the samples they are labelled with."""
from __future__ import annotations

import warnings

import numpy as np
from hypothesis import strategies as st

from vlib import gen
from vlib.cmp import attrs_equal, check_coherent, check_coord_values, check_units, check_values, fail, require
from vlib.core import facet
from vlib.gen import I, S

RULE = ("A case is a patch (1-3 dimensions in any order, evenly sampled, forward or reversed, time or numeric labels, NaN/int/complex data), a rolling dimension, window, "
        "stride or overlap (samples, coordinate units, quantities, percent), centring, statistic and engine; the oracle loops over output labels and applies the statistic to "
        "the window of samples ending at (centred on) the label. Non-trivial = the window has more than one sample and at least one window is complete.")
ASSUMPTIONS = [
    "A centred window of even length extends one sample further before its label than after it (the pandas convention the documentation refers to).",
    "std is the population standard deviation, as in Patch.std.",
    "A window that contains a missing value is missing.",
    "The pandas engine refuses patches of more than two dimensions (documented); complex data with the pandas engine is outside the domain.",
]

STATS = {"mean": np.mean, "median": np.median, "min": np.min, "max": np.max, "std": np.std, "sum": np.sum}
CUSTOM = {"ptp": np.ptp, "p80": np.percentile, "lastsq": None}


def _last_sq(frame, axis=-1, scale=1.0):
    frame = np.asarray(frame)
    return np.take(frame, -1, axis=axis) ** 2 * scale


@st.composite
def roll_case(draw):
    ps = gen.draw_patch(draw, max_dims=3, max_n=9, kinds=("even",), min_n=1, data=("uniq", "float", "int", "nan", "f4", "i2", "bool", "cplx"))
    nd = len(ps["dims"])
    k = draw(I(0, nd - 1))
    n = ps["dims"][k][1]["n"]
    return {"p": ps, "dim": k, "w": draw(I(1, max(n, 1))), "step": draw(S(None, 1, 2, 2, 3, 3, 4)), "stepform": draw(S("step", "step", "overlap", "percent")), "center": draw(st.booleans()),
            "stat": draw(S(*STATS, "ptp", "p80", "lastsq")), "engine": draw(S("numpy", "pandas", None)), "form": draw(S("samples", "samples", "value", "quantity", "timedelta")),
            "trans": draw(st.booleans())}


def oracle(data, axis, w, step, center, func):
    """NaN-padded windowed statistic at every step-th sample."""
    moved = np.moveaxis(np.asarray(data), axis, 0)
    n = moved.shape[0]
    labels = range(0, n, step)
    out_dtype = np.complex128 if moved.dtype.kind == "c" else np.float64
    out = np.full((len(labels), *moved.shape[1:]), np.nan, dtype=out_dtype)
    for j, i in enumerate(labels):
        hi = i + ((w - 1) // 2 if center else 0)
        lo = hi - w + 1
        if lo < 0 or hi >= n:
            continue
        out[j] = func(moved[lo: hi + 1])
    return np.moveaxis(out, 0, axis)


@facet("roll", roll_case(), quick=2000, weight=2)
def check_roll(spec, ctx):
    """Every statistic, engine, stride, centring and dimension order."""
    import dascore as dc

    ps = spec["p"]
    patch, model = gen.build_patch(ps)
    if spec["trans"]:
        patch = patch.transpose(*patch.dims[::-1])
        model = model.transpose(model.dims[::-1])
    dim, cs = ps["dims"][spec["dim"]]
    axis = patch.dims.index(dim)
    n = patch.shape[axis]
    engine, stat = spec["engine"], spec["stat"]
    cplx = model.data.dtype.kind == "c"
    if cplx and (engine == "pandas" or stat not in ("mean", "sum") or patch.ndim == 1):
        return
    if stat in ("ptp", "p80", "lastsq") and model.data.dtype.kind == "b":
        return
    coord = patch.get_coord(dim)
    if coord.step is None:
        return  # a single label gives no sampling interval
    w, step = min(spec["w"], n), spec["step"]
    if step is not None and step > n:
        step = None
    kw = {}
    form = spec["form"]
    unit_step = abs(cs["step"] * cs["scale"])  # ns for time-like, coordinate units otherwise
    timelike = cs["t"] in ("dt", "td")

    def size(k):
        if form == "samples":
            return k
        if timelike:
            if form == "value":
                return float(k * unit_step) / 1e9
            if form == "timedelta":
                return np.timedelta64(int(k * unit_step), "ns")
            return dc.get_quantity("ms") * (k * unit_step / 1e6)
        if form == "quantity" and cs.get("u"):
            return dc.get_quantity(cs["u"]) * (k * unit_step)
        return k * unit_step

    def run():
        kw = {dim: size(w), "center": spec["center"], "engine": engine}
        if form == "samples":
            kw["samples"] = True
        if step is not None:
            sf = spec["stepform"]
            if sf == "overlap" and 1 <= step < w:
                kw["overlap"] = size(w - step)
            elif sf == "percent" and w in (2, 4, 5, 8) and step < w:
                kw["overlap"] = dc.get_quantity("percent") * (100 * (w - step) / w)
            else:
                kw["step"] = size(step)
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            roller = patch.rolling(**kw)
            if stat in STATS:
                return getattr(roller, stat)()
            if stat == "ptp":
                return roller.apply(np.ptp)
            if stat == "p80":
                return roller.apply(np.percentile, 80)
            return roller.apply(_last_sq, scale=2.0)

    what = f"rolling({dim}={w} samples as {form}, step={step}, center={spec['center']}, engine={engine}).{stat}"
    if engine == "pandas" and patch.ndim > 2:
        from dascore.exceptions import ParameterError

        try:
            run()
        except ParameterError:
            return
        fail(f"{what}: accepted a {patch.ndim}-dimensional patch")
    got = run()
    func = {**{k: (lambda x, f=f: f(x, axis=0)) for k, f in STATS.items()}, "ptp": lambda x: np.ptp(x, axis=0), "p80": lambda x: np.percentile(x, 80, axis=0),
            "lastsq": lambda x: x[-1] ** 2 * 2.0}[stat]
    data = model.data.astype(float) if model.data.dtype.kind in "iub" or model.data.dtype == np.float32 else model.data
    if stat == "lastsq" and model.data.dtype.kind == "f" and np.isnan(model.data).any():
        return  # a custom function may look past missing samples
    want = oracle(data, axis, w, step or 1, spec["center"], func)
    check_coherent(got, what)
    require(got.dims == patch.dims, f"{what}: dims {got.dims}")
    big = np.nanmax(np.abs(data)) if np.isfinite(data).any() else 1
    tol = (1e-5 if model.data.dtype == np.float32 else 1e-9) * (1 + big) ** (2 if stat == "lastsq" else 1)
    if stat == "std":  # one-pass variance: rounding enters under the square root
        tol = max(tol, 1e-6 * (1 + big))
    check_values(got.data, want, f"{what}: data", atol=tol)
    idx = np.arange(0, n, step or 1)
    for nm, (cd, vals, u) in model.coords.items():
        if nm not in got.coords.coord_map:
            require(dim in cd and cd != (dim,) or nm != dim and dim in cd and (step or 1) > 1, f"{what}: coordinate {nm} dropped")
            continue
        if dim in cd:
            vals = np.take(vals, idx, axis=cd.index(dim))
        check_coord_values(got.coords.coord_map[nm].values, vals, f"{what}: coord {nm}")
        check_units(got.coords.coord_map[nm].units, u, f"{what}: coord {nm}")
    a, b = patch.attrs.model_dump(), got.attrs.model_dump()
    for k in ("history", "coords"):
        a.pop(k, None), b.pop(k, None)
    require(attrs_equal(a, b), f"{what}: attrs {b} were {a}")
    ctx.label(stat, str(engine), "center" if spec["center"] else "right", f"step {step}", form)
    ctx.nontrivial(w > 1 and bool(np.isfinite(want).any()))


# ---------------------------------------------------------------- refusals
@st.composite
def refuse_case(draw):
    return {"p": gen.draw_patch(draw, max_dims=2, min_n=2, max_n=6, kinds=("even", "mono"), allow_rev=False), "what": draw(S("large", "zero", "uneven", "both", "two_dims", "overlap_ge", "neg_step", "float_samples")), "d": draw(I(0, 1))}


@facet("refuse", refuse_case(), quick=250)
def check_refuse(spec, ctx):
    """Windows that cannot be honoured are refused rather than rounded to something else."""
    patch, _ = gen.build_patch(spec["p"])
    dim = patch.dims[spec["d"] % patch.ndim]
    coord = patch.get_coord(dim)
    even = coord.evenly_sampled
    w = spec["what"]
    if (w == "uneven") == bool(even):
        return
    n = len(coord)
    kw = {"large": {dim: n + 1}, "zero": {dim: 0}, "uneven": {dim: 2}, "both": {dim: 2, "step": 1, "overlap": 1}, "two_dims": {d: 2 for d in patch.dims},
          "overlap_ge": {dim: 2, "overlap": 2}, "neg_step": {dim: 2, "step": -1}, "float_samples": {dim: 1.5}}[w]
    if w == "two_dims" and patch.ndim < 2:
        return
    try:
        out = patch.rolling(samples=True, **kw).mean()
    except Exception:  # noqa: BLE001
        ctx.label(w)
        ctx.nontrivial(True)
        return
    fail(f"rolling({kw}, samples=True) on {n} samples (even={even}) returned data of shape {out.shape}")


FACETS = [check_roll, check_refuse]
