"""C21: integration, differentiation and strain match their numerical definitions."""
from __future__ import annotations

import math

import numpy as np
from hypothesis import strategies as st

from vlib import gen
from vlib.cmp import Snap, attrs_equal, check_coherent, check_same_snap, check_units, check_values, fail, require
from vlib.core import facet
from vlib.gen import I, PERM, S

RULE = ("A case is a patch (1-3 dims in any order; even, uneven and reversed datetime/timedelta/float/integer coordinates; integer, float, complex data; units) and an integral (running or "
        "definite, over one, several or all dims), a derivative (order, step, one or several dims) or a strain conversion (step multiple, order, gauge length in several units). The oracle sums "
        "trapezoids and differentiates interpolating polynomials point by point. Non-trivial = at least 4 samples along a named dimension.")
ASSUMPTIONS = [
    "Differentiation needs at least order+1 samples per (strided) trace; shorter ones are refused by numpy.",
    "Coordinates must be sorted (documented: unsorted ones are refused).",
    "A definite integral is labelled by a value within the range of the old coordinate, with its limits in pre_integrate_<dim>_min/max.",
    "Units of strain rates are unspecified if the distance coordinate has no units.",
    "At the edges stencils of order > 2 may use any one-sided points of the same accuracy: there only polynomials up to that order are compared.",
]


def positions(coord_values):
    """Coordinate as float positions relative to its first value."""
    v = np.asarray(coord_values)
    if v.dtype.kind in "mM":
        return (v - v[0]).astype("m8[ns]").astype(np.int64) / 1e9
    return (v - v[0]).astype(float)


def qprod(names, patch, power):
    from dascore.units import get_quantity

    q = get_quantity(patch.attrs.data_units)
    if q is None:
        return None
    for d in names:
        u = get_quantity(patch.get_coord(d).units)
        if u is not None:
            q = q * u**power
    return q


def same_quantity(got, want, what):
    from dascore.units import get_quantity

    got = get_quantity(got)
    require((got is None) == (want is None) and (got is None or (got.dimensionality == want.dimensionality and abs((got / want).to_base_units().magnitude - 1) < 1e-9)), lambda: f"{what}: units {got}, expected {want}")


def same_rest(before, after, what, dims=(), skip_attrs=(), extra=()):
    """Coordinates not along dims, and attributes, are unchanged."""
    for n, c in before.coords.items():
        if set(c[0]) & set(dims):
            continue
        require(n in after.coords and after.coords[n][0] == c[0], f"{what}: coord {n} was lost or moved")
        check_values(after.coords[n][1], c[1], f"{what}: coord {n}")
        check_units(after.coords[n][2], c[2], f"{what}: coord {n}")
    new = [n for n in after.coords if n not in before.coords and n not in extra]
    require(not new, f"{what}: new coordinates {new}")
    for k in set(before.attrs) | set(after.attrs):
        if k in ("history", "coords", "dims", "data_units", *skip_attrs):
            continue
        require(attrs_equal(before.attrs.get(k), after.attrs.get(k)), lambda: f"{what}: attribute {k} is {after.attrs.get(k)!r} but was {before.attrs.get(k)!r}")


UNITS = (None, "m/s", "strain", "10 V")


def pick_dims(draw, ps, lo=1):
    names = [d[0] for d in ps["dims"]]
    return list(draw(PERM(*names)))[: draw(I(lo, len(names)))]


@st.composite
def integ_case(draw):
    ps = gen.draw_patch(draw, max_n=6, min_n=1, kinds=("even", "mono"), data=("float", "uniq", "int", "cplx", "f4", "i2"))
    return {"p": ps, "dims": pick_dims(draw, ps), "as": draw(S("one", "list", "none")), "def": draw(S(True, False)), "du": draw(S(*UNITS)), "m": draw(S("method", "method", "back"))}


def trapz(data, x, ax):
    d = np.moveaxis(data, ax, -1)
    out = np.zeros(d.shape, dtype=np.result_type(d.dtype, np.float64))
    for i in range(1, d.shape[-1]):
        out[..., i] = out[..., i - 1] + (d[..., i] + d[..., i - 1]) / 2 * (x[i] - x[i - 1])
    return np.moveaxis(out, -1, ax)


@facet("integrate", integ_case(), quick=2500, weight=2)
def check_integrate(spec, ctx):
    """Running and definite integrals."""
    patch, _ = gen.build_patch(spec["p"])
    patch = patch.set_units(spec["du"])
    for d in spec["p"]["dims"]:
        # a single sample has no interval; skip coordinates dascore cannot integrate over.
        if d[1]["n"] == 1 and (d[1]["k"] != "even" or d[1]["form"] != "range"):
            spec = dict(spec, dims=[x for x in spec["dims"] if x != d[0]], **{"as": "list" if spec["as"] == "none" else spec["as"]})
    dims = spec["dims"]
    if not dims:
        return
    arg = dims[0] if spec["as"] == "one" and len(dims) == 1 else dims
    if spec["as"] == "none":
        arg, dims = None, list(patch.dims)
    before = Snap(patch)
    what = f"integrate({arg}, definite={spec['def']})"
    out = patch.integrate(arg, definite=spec["def"])
    check_coherent(out, what)
    want = before.data.astype(np.result_type(before.data.dtype, np.float64))
    for d in dims:
        ax = patch.dims.index(d)
        want = trapz(want, positions(patch.get_array(d)), ax)
    if spec["def"]:
        for d in dims:
            want = np.take(want, [-1], axis=patch.dims.index(d))
    after = Snap(out)
    scale = float(np.abs(before.data.astype(want.dtype)).max())
    for d in dims:
        x = positions(patch.get_array(d))
        scale *= max(float(np.abs(x).max()), 1e-300)
    check_values(out.data.astype(want.dtype), want, f"{what}: data", atol=(1e-5 if before.dtype == np.float32 else 1e-9) * scale)
    require(out.dims == patch.dims, f"{what}: dims {out.dims}")
    same_quantity(out.attrs.data_units, qprod(dims, patch, 1), what)
    extra = [f"pre_integrate_{d}_{m}" for d in dims for m in ("min", "max")] if spec["def"] else []
    same_rest(before, after, what, dims=dims if spec["def"] else (), skip_attrs=("data_type",), extra=extra)
    if spec["def"]:
        for d in dims:
            v = before.coords[d][1]
            got = after.coords[d][1]
            require(len(got) == 1 and v.min() <= got[0] <= v.max() or abs(float(v.max()) - float(v.min())) < 1e-9, lambda: f"{what}: label {got} of {d} outside {v}")
            check_units(after.coords[d][2], before.coords[d][2], f"{what}: {d}")
            for m in ("min", "max"):
                check_values(after.coords[f"pre_integrate_{d}_{m}"][1], [getattr(v, m)()], f"{what}: pre_integrate_{d}_{m}")
    check_same_snap(before, Snap(patch), f"{what}: the original")
    ctx.label("definite" if spec["def"] else "running", f"dims {len(dims)}")
    ctx.nontrivial(max(len(before.coords[d][1]) for d in dims) > 3)


# ---------------------------------------------------------------- derivatives
def poly_weights(x, at):
    """Weights of the derivative at x[at] of the polynomial through all points."""
    n = len(x)
    w = np.zeros(n)
    for j in range(n):
        s = 0.0
        for m in range(n):
            if m == j:
                continue
            term = 1.0 / (x[j] - x[m])
            for r in range(n):
                if r not in (j, m):
                    term *= (x[at] - x[r]) / (x[j] - x[r])
            s += term
        w[j] = s
    return w


def derivative_matrix(x, order):
    """Dense matrix of the finite differences; rows not uniquely defined are nan for order > 2."""
    n, p = len(x), order // 2
    out = np.zeros((n, n))
    for i in range(n):
        lo = min(max(i - p, 0), n - order - 1)
        out[i, lo: lo + order + 1] = poly_weights(x[lo: lo + order + 1], i - lo)
        if lo != i - p and order > 2:
            out[i] = np.nan
    return out


def apply(mat, data, ax):
    return np.moveaxis(np.tensordot(mat, data, axes=([1], [ax])), 0, ax)


@st.composite
def diff_case(draw):
    ps = gen.draw_patch(draw, max_n=5, min_n=3, kinds=("even", "mono"), data=("float", "uniq", "int", "cplx", "f4", "i2"))
    dims = pick_dims(draw, ps)
    order = draw(S(2, 2, 2, 4, 6))
    step = draw(S(1, 1, 2, 3))
    if order > 2 or step > 1:
        dims = dims[:1]
        for d in ps["dims"]:
            if d[0] == dims[0]:
                n = (2 * order + 2) * step + draw(I(0, 3))
                d[1]["n"] = n
                if d[1]["k"] == "mono":
                    d[1]["deltas"] = [draw(I(1, 3)) for _ in range(n - 1)]
    return {"p": ps, "dims": dims, "order": order, "step": step, "as": draw(S("one", "list", "none")), "du": draw(S(*UNITS)), "poly": draw(S(False, True)), "deg": draw(I(0, 6))}


@facet("differentiate", diff_case(), quick=2500, weight=2)
def check_diff(spec, ctx):
    """Derivatives of any order, step and dims."""
    patch, _ = gen.build_patch(spec["p"])
    patch = patch.set_units(spec["du"])
    dims, order, step = spec["dims"], spec["order"], spec["step"]
    arg = dims[0] if spec["as"] == "one" and len(dims) == 1 else dims
    if spec["as"] == "none" and len(dims) == patch.ndim:
        arg, dims = None, list(patch.dims)
    if order > 2 and len(dims) > 1:
        return
    poly = spec["poly"] and len(dims) == 1
    what = f"differentiate({arg}, order={order}, step={step})"
    if poly:
        ax = patch.dims.index(dims[0])
        x = positions(patch.get_array(dims[0]))
        xs = x / max(np.abs(x).max(), 1e-300)
        deg = min(spec["deg"], order)
        shape = [1] * patch.ndim
        shape[ax] = -1
        amp = np.asarray(patch.data, dtype=float) if np.isrealobj(patch.data) else np.abs(patch.data)
        amp = np.take(amp, [0], axis=ax)
        patch = patch.new(data=amp * (xs**deg).reshape(shape))
        exact = amp * ((deg * xs ** max(deg - 1, 0) if deg else 0 * xs) / max(np.abs(x).max(), 1e-300)).reshape(shape)
    before = Snap(patch)
    out = patch.differentiate(arg, order=order, step=step)
    check_coherent(out, what)
    want = before.data.astype(np.result_type(before.data.dtype, np.float64))
    scale = float(np.abs(want).max()) or 1.0
    for d in dims:
        ax = patch.dims.index(d)
        x = positions(patch.get_array(d))
        mat = np.zeros((len(x), len(x)))
        for s in range(step):
            ix = np.arange(s, len(x), step)
            mat[np.ix_(ix, ix)] = derivative_matrix(x[ix], order)
        rows_ok = np.isfinite(mat).all(axis=1)
        scale *= float(np.nansum(np.abs(mat), axis=1).max())
        want = apply(np.where(np.isfinite(mat), mat, 0), want, ax)
    got = out.data.astype(want.dtype)
    if order > 2:
        got, want = np.compress(rows_ok, got, axis=ax), np.compress(rows_ok, want, axis=ax)
    tol = 1e-5 if before.dtype == np.float32 else 1e-9
    check_values(got, want, f"{what}: data", atol=tol * scale)
    if poly:
        check_values(out.data, exact, f"{what} of a polynomial of degree {deg}", atol=1e-6 * scale)
    require(out.dims == patch.dims, what)
    same_quantity(out.attrs.data_units, qprod(dims, patch, -1), what)
    same_rest(before, Snap(out), what, skip_attrs=("data_type",))
    check_same_snap(before, Snap(patch), f"{what}: the original")
    ctx.label(f"order {order}", f"step {step}", f"dims {len(dims)}")
    ctx.nontrivial(max(patch.shape[patch.dims.index(d)] for d in dims) > 3)


# ---------------------------------------------------------------- strain
@st.composite
def strain_case(draw):
    which = draw(S("rate", "rate", "edgeless", "edgeless", "radians"))
    order = draw(S(2, 2, 4)) if which == "rate" else 2
    n = draw(I(1, 6)) if which == "edgeless" else 2 * draw(I(1, 3))
    ps = gen.draw_patch(draw, max_n=4, min_n=1, dims=("distance", "time") if draw(S(True, True, False)) else ("distance", "depth", "time"), even_dims=("distance",), data=("float", "uniq", "int", "f4", "i2"))
    for d in ps["dims"]:
        if d[0] == "distance":
            d[1]["n"] = (order + 1) * (n // 2) + draw(I(0, 6)) + order if which == "rate" else n + 1 + draw(I(0, 6))
    return {"p": ps, "which": which, "n": n, "order": order, "du": draw(S("m/s", None, "mm/s", "10 m/s")), "old": draw(S(False, False, True)), "gl": draw(S("arg", "attr", "quantity", "none", "zero")), "g": draw(S(10, 7.5, 1)),
            "ru": draw(S("radians", "radians/s", "milliradian", "radian*Hz", "m/s", None)), "const": draw(S(None, "w", "s", "n"))}


@facet("strain", strain_case(), quick=2000)
def check_strain(spec, ctx):
    """Velocity to strain rate, and phase to strain."""
    import warnings

    from dascore.exceptions import ParameterError
    from dascore.units import get_quantity

    which, n, order = spec["which"], spec["n"], spec["order"]
    patch, _ = gen.build_patch(spec["p"])
    ax = patch.dims.index("distance")
    x = positions(patch.get_array("distance"))
    if which != "radians":
        patch = patch.update_attrs(data_type="velocity").set_units(spec["du"])
        before = Snap(patch)
        step = x[1] - x[0]
        data = before.data.astype(float)
        what = f"velocity_to_strain_rate{'_edgeless' if which == 'edgeless' else ''}(step_multiple={n}, order={order})"
        if which == "rate":
            if spec["old"] and n % 2 == 0:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    out = patch.velocity_to_strain_rate(gauge_multiple=n // 2, order=order)
            else:
                out = patch.velocity_to_strain_rate(step_multiple=n, order=order)
            s = n // 2
            mat = np.zeros((len(x), len(x)))
            for k in range(s):
                ix = np.arange(k, len(x), s)
                mat[np.ix_(ix, ix)] = derivative_matrix(x[ix], order)
            ok = np.isfinite(mat).all(axis=1)
            want = apply(np.where(np.isfinite(mat), mat, 0), data, ax)
            check_values(np.compress(ok, out.data, axis=ax), np.compress(ok, want, axis=ax), f"{what}: data", atol=(1e-5 if before.dtype == np.float32 else 1e-9) * np.abs(data).max() * 10 / abs(step))
            if order == 2:  # the documented formula
                m = np.moveaxis(data, ax, 0)
                g = np.moveaxis(np.asarray(out.data, dtype=float), ax, 0)
                f = (m[n:] - m[:-n]) / (n * step)
                check_values(g[s:-s], f, f"{what}: data", atol=(1e-5 if before.dtype == np.float32 else 1e-9) * np.abs(data).max() / abs(step))
            same_rest(before, Snap(out), what, skip_attrs=("data_type", "gauge_length"))
            for bad in (0, -2, 3):
                try:
                    patch.velocity_to_strain_rate(step_multiple=bad)
                except ParameterError:
                    continue
                fail(f"step_multiple={bad} was accepted")
        else:
            out = patch.velocity_to_strain_rate_edgeless(step_multiple=n)
            m = np.moveaxis(data, ax, 0)
            want = np.moveaxis((m[n:] - m[:-n]) / (n * step), 0, ax)
            check_values(out.data.astype(float), want, f"{what}: data", atol=(1e-5 if before.dtype == np.float32 else 1e-9) * np.abs(data).max() / abs(step))
            v = before.coords["distance"][1].astype(float)
            after = Snap(out)
            check_values(after.coords["distance"][1].astype(float), (v[n:] + v[:-n]) / 2, f"{what}: distance", atol=1e-9 * max(1.0, np.abs(v).max()))
            check_units(after.coords["distance"][2], before.coords["distance"][2], f"{what}: units of distance")
            same_rest(before, after, what, dims=("distance",), skip_attrs=("data_type", "gauge_length"))
        check_coherent(out, what)
        require(out.attrs.data_type == "strain_rate", f"{what}: data_type {out.attrs.data_type}")
        check_values(abs(float(out.attrs.gauge_length)), abs(n * step), f"{what}: gauge_length", rtol=1e-9)
        if before.coords["distance"][2] is not None:
            same_quantity(out.attrs.data_units, qprod(["distance"], patch, -1), what)
        require(out.dims == patch.dims, what)
        check_same_snap(before, Snap(patch), f"{what}: the original")
        ctx.label(which, f"order {order}")
        ctx.nontrivial(True)
        return
    patch = patch.set_units(spec["ru"])
    gl, kwargs = spec["gl"], {}
    if gl == "attr":
        patch = patch.update_attrs(gauge_length=spec["g"])
    elif gl == "arg":
        kwargs["gauge_length"] = spec["g"]
    elif gl == "quantity":
        kwargs["gauge_length"] = spec["g"] * 100 * get_quantity("cm")
    elif gl == "zero":
        kwargs["gauge_length"] = 0
    elif gl == "none" and patch.attrs.get("gauge_length") is not None:
        patch = patch.update_attrs(gauge_length=spec["g"])
        gl = "attr"
    before = Snap(patch)
    w, z, nn = 1550e-9, 0.79, 1.445
    if spec["const"] == "w":
        w = kwargs["wave_length"] = 1310e-9
    elif spec["const"] == "s":
        z = kwargs["stress_constant"] = 0.735
    elif spec["const"] == "n":
        nn = kwargs["refractive_index"] = 1.468
    what = f"radians_to_strain({kwargs}) of {spec['ru']}"
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            out = patch.radians_to_strain(**kwargs)
    except ParameterError:
        require(gl in ("zero", "none"), f"{what}: refused")
        return
    require(gl not in ("zero", "none"), f"{what}: accepted without a gauge length")
    if spec["ru"] in (None, "m/s"):
        check_same_snap(before, Snap(out), what)
        return
    q = get_quantity(spec["ru"])
    fac = w / (4 * math.pi * nn * spec["g"] * z)
    want = before.data.astype(float) * fac
    # the physical quantity: numbers times units.
    u = get_quantity(out.attrs.data_units)
    ratio = (u / (q / get_quantity("radian") * get_quantity("strain"))).to_base_units().magnitude
    check_values(out.data.astype(float) * ratio, want, f"{what}: data", rtol=1e-5 if before.dtype == np.float32 else 1e-9, atol=1e-30)
    require("rad" not in str(u), f"{what}: units {u}")
    same_rest(before, Snap(out), what, skip_attrs=("data_type",))
    check_same_snap(before, Snap(patch), f"{what}: the original")
    ctx.label(which)
    ctx.nontrivial(True)


FACETS = [check_integrate, check_diff, check_strain]
