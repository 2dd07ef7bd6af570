"""C22: filters act only along the named dimensions, as the reference filter does."""
from __future__ import annotations

import math

import numpy as np
from hypothesis import strategies as st

from vlib import gen
from vlib.cmp import Snap, attrs_equal, check_coherent, check_same_snap, check_units, check_values, fail, require
from vlib.core import facet
from vlib.gen import I, PERM, S

RULE = ("A case is a patch (1-3 dims in any order; even forward or reversed datetime/timedelta/float/integer axes with units, associated coordinates, float/int/float32/complex data) and a filter, "
        "detrend, whitening, envelope or window statistic over one or several dims with its window in samples, coordinate units or a quantity, or its frequency in Hz, as a period, or a number. The "
        "oracle applies the reference algorithm (scipy's 1-D function or explicit loops) to each trace alone. Non-trivial = more than one trace, or a window longer than one sample.")
ASSUMPTIONS = [
    "Windows given in coordinate units are rounded up to whole samples (documented in get_sample_count); the generated ones are not near the rounding point.",
    "Filters need traces longer than their padding; the generated ones are.",
    "Filters of a reversed axis process samples in array order.",
    "The statistics of windows use data without NaN; labels are those of the right edge (or the centre, with the later one for even windows, as pandas does).",
    "The pandas engine of rolling only supports one and two dimensions (documented error).",
]


def float_step(coord):
    v = np.asarray(coord.values)
    if v.dtype.kind in "mM":
        return float((v[1] - v[0]).astype("m8[ns]").astype(np.int64)) / 1e9
    return float(v[1] - v[0])


def per_trace(data, ax, func):
    """Apply func to each 1-D trace alone."""
    m = np.moveaxis(np.asarray(data), ax, -1)
    flat = np.ascontiguousarray(m).reshape(-1, m.shape[-1])
    out = [np.asarray(func(t.copy())) for t in flat]
    res = np.stack(out).reshape(m.shape[:-1] + (out[0].shape[-1],))
    return np.moveaxis(res, -1, ax)


def window_arg(coord, k, form):
    """A window of k samples in the requested form; returns (value, samples flag)."""
    from dascore.units import get_quantity

    if form == "samples":
        return k, True
    kind = np.asarray(coord.values).dtype.kind
    step = abs(float_step(coord))
    val = (k - 0.4) * step
    if form == "td" and kind in "mM" and step > 1e-7:
        return np.timedelta64(int(round(val * 1e9)), "ns"), False
    if form == "quantity" and coord.units is not None and step > 1e-7:
        u = get_quantity(coord.units)
        if u.check("[time]"):
            return (val * u).to("ms"), False
        if u.check("[length]"):
            return (val * u).to("cm"), False
        return val * u, False
    if kind in "mM" and step <= 1e-7:
        return k, True
    return val, False


def unchanged(before, after, what, attrs=()):
    """Labels, coordinates, units and attributes are unchanged."""
    require(before.dims == after.dims, f"{what}: dims {after.dims}")
    require(list(before.coords) == list(after.coords), f"{what}: coords {list(after.coords)}")
    for n, c in before.coords.items():
        require(after.coords[n][0] == c[0], f"{what}: coord {n}")
        check_values(after.coords[n][1], c[1], f"{what}: coord {n}")
        check_units(after.coords[n][2], c[2], f"{what}: coord {n}")
    for k in set(before.attrs) | set(after.attrs):
        if k in ("history", "coords", *attrs):
            continue
        require(attrs_equal(before.attrs.get(k), after.attrs.get(k)), lambda: f"{what}: attribute {k} is {after.attrs.get(k)!r} but was {before.attrs.get(k)!r}")


FORMS = ("samples", "number", "quantity", "td")
MODES = ("reflect", "constant", "nearest", "mirror", "wrap")
ONE = ("pass_filter", "pass_filter", "notch", "detrend", "sobel", "hilbert", "envelope", "kurtosis", "kurtosis_rec", "stalta", "savgol", "median", "gaussian", "hampel", "wiener")


def base_patch(draw, lo, hi, ndmax=3, data=("float", "uniq", "int", "f4", "i2")):
    ps = gen.draw_patch(draw, max_n=4, min_n=1, max_dims=ndmax, kinds=("even",), data=data)
    for d in ps["dims"]:
        if d[1]["n"] == 1:
            d[1]["n"] = 2
    dim = ps["dims"][draw(I(0, len(ps["dims"]) - 1))]
    dim[1]["n"] = draw(I(lo, hi))
    return ps, dim[0]


@st.composite
def one_case(draw):
    name = draw(S(*ONE))
    long = name in ("pass_filter", "notch")
    cplx = name in ("pass_filter", "detrend")
    ps, dim = base_patch(draw, 34 if long else 8, 48 if long else 20, data=("float", "uniq", "int", "f4", "i2") + (("cplx",) if cplx else ()))
    return {"p": ps, "dim": dim, "f": name, "k": draw(I(2, 6)), "form": draw(S(*FORMS)), "mode": draw(S(*MODES)), "a": draw(I(1, 9)), "b": draw(I(1, 9)), "which": draw(S("band", "high", "low")),
            "ff": draw(S("number", "freq", "period", "khz")), "corners": draw(S(4, 2, 1)), "zp": draw(S(True, False)), "du": draw(S(None, "m/s", "strain")), "opt": draw(S(True, False)), "none": draw(S("none", "dots")),
            "lin": draw(S(True, False)), "perm": draw(S(True, False))}


def freq_forms(coord, freqs, form):
    """The frequencies (cycles per coordinate unit; None allowed) in the requested form."""
    from dascore.units import get_quantity

    if form == "number" or coord.units is None:
        return freqs, False
    inv = 1 / get_quantity(coord.units)
    if form == "period":
        if None in freqs:  # the position of an open limit is kept
            return [None if f is None else 1 / (f * inv) for f in freqs], True
        return [None if f is None else 1 / (f * inv) for f in freqs][::-1], True
    scale = 1000 if form == "khz" else 1
    return [None if f is None else (f * inv) if scale == 1 else get_quantity(f"1/(0.001*({coord.units.units if hasattr(coord.units, 'units') else coord.units}))") * (f / 1000) for f in freqs], False


def build_one(spec):
    """Return (call(patch), reference(trace), tolerance, linear, changed attrs)."""
    from scipy import ndimage, signal

    name, dim, k = spec["f"], spec["dim"], spec["k"]
    patch, _ = gen.build_patch(spec["p"])
    patch = patch.set_units(spec["du"])
    coord = patch.get_coord(dim)
    step = abs(float_step(coord))
    fs = 1 / step
    mode = spec["mode"]
    cplx = np.iscomplexobj(patch.data)
    if name == "pass_filter":
        f1, f2 = sorted([spec["a"] * 0.048 * fs, (spec["b"] * 0.048 + 0.01) * fs])
        if spec["which"] == "band":
            lims, bt, wn = [f1, f2], "band", [2 * f1 * step, 2 * f2 * step]
        elif spec["which"] == "high":
            lims, bt, wn = [f1, None], "highpass", 2 * f1 * step
        else:
            lims, bt, wn = [None, f2], "lowpass", 2 * f2 * step
        lims, _ = freq_forms(coord, lims, spec["ff"])
        arg = tuple(... if x is None and spec["none"] == "dots" else x for x in lims)
        sos = signal.iirfilter(spec["corners"], wn, btype=bt, ftype="butter", output="sos")

        def ref(t):
            return signal.sosfiltfilt(sos, t) if spec["zp"] else signal.sosfilt(sos, t)

        return patch, (lambda p: p.pass_filter(corners=spec["corners"], zerophase=spec["zp"], **{dim: arg})), ref, 1e-6, True, ()
    if name == "notch":
        f = spec["a"] * 0.05 * fs
        (arg,), _ = freq_forms(coord, [f], spec["ff"])
        b, a = signal.iirnotch(f, Q=spec["b"], fs=fs)
        return patch, (lambda p: p.notch_filter(q=spec["b"], **{dim: arg})), (lambda t: signal.filtfilt(b, a, t)), 1e-7, True, ()
    if name == "detrend":
        kind = "linear" if spec["opt"] else "constant"

        def ref(t):
            t = t.astype(complex if cplx else float)
            if kind == "constant":
                return t - t.mean()
            x = np.arange(len(t), dtype=float)
            A = np.stack([x, np.ones_like(x)], 1)
            return t - A @ np.linalg.lstsq(A, t, rcond=None)[0]

        return patch, (lambda p: p.detrend(dim, type=kind) if not spec["zp"] or kind != "linear" else p.detrend(dim)), ref, 1e-8, True, ()
    if name == "sobel":
        return patch, (lambda p: p.sobel_filter(dim, mode=mode)), None, 1e-9, False, ()
    if name in ("hilbert", "envelope"):

        def ref(t):
            n = len(t)
            X = np.array([np.sum(t * np.exp(-2j * np.pi * kk * np.arange(n) / n)) for kk in range(n)])
            h = np.zeros(n)
            h[0] = 1
            h[1: (n + 1) // 2] = 2
            if n % 2 == 0:
                h[n // 2] = 1
            z = np.array([np.sum(X * h * np.exp(2j * np.pi * np.arange(n) * j / n)) for j in range(n)]) / n
            return z if name == "hilbert" else np.abs(z)

        return patch, (lambda p: getattr(p, name)(dim)), ref, 1e-8, name == "hilbert", ("data_type",)
    val, samples = window_arg(coord, k, spec["form"])
    if name.startswith("kurtosis"):
        rec = name.endswith("rec")

        def ref(t):
            t = t.astype(float)
            n = len(t)
            out = np.zeros(n)
            if rec:
                c, var0 = 1 - 1 / k, t.var()
                mean = var = kurt = 0.0
                for i in range(n):
                    mean = c * mean + (1 - c) * t[i]
                    var = c * var + (1 - c) * (t[i] - mean) ** 2
                    norm = max(var, var0) ** 2
                    kurt = c * kurt + (1 - c) * (t[i] - mean) ** 4 / norm if norm > 0 else np.nan
                    out[i] = kurt
                return out
            left = k // 2
            for i in range(n):
                w = t[max(0, i - left): i + (k - left)]
                w = w - w.mean()
                m2 = (w**2).mean()
                out[i] = (w**4).mean() / m2**2 if m2 > 1e-3 * np.abs(t).max() ** 2 else np.nan
            return out

        return patch, (lambda p: p.kurtosis(samples=samples, recursive=rec, **{dim: val})), ref, 1e-5, False, ("data_type", "data_units")
    if name == "stalta":
        long, s2 = window_arg(coord, k + 2, "samples" if samples else spec["form"])
        if samples != s2:
            return None

        def ref(t):
            t = t.astype(float)
            out = np.full(len(t), np.nan)
            for i in range(k + 1, len(t)):
                d = t[i - k - 1: i + 1].mean()
                out[i] = t[i - k + 1: i + 1].mean() / d if abs(d) > 1e-4 else np.inf
            return out

        return patch, (lambda p: p.stalta(samples=samples, **{dim: (val, long)})), ref, 1e-6, False, ("data_type", "data_units")
    if name == "savgol":
        order = min(spec["a"] % 3, k - 1)
        m = mode if mode != "reflect" else "interp"
        return patch, (lambda p: p.savgol_filter(polyorder=order, samples=samples, mode=m, **{dim: val})), (lambda t: signal.savgol_filter(t, k, order, mode=m)), 1e-7, True, ()
    if name == "median":
        return patch, (lambda p: p.median_filter(samples=samples, mode=mode, cval=2.0, **{dim: val})), (lambda t: ndimage.median_filter(t, size=k, mode=mode, cval=2.0)), 1e-9, False, ()
    if name == "gaussian":
        return patch, (lambda p: p.gaussian_filter(samples=samples, mode=mode, cval=1.0, truncate=3.0, **{dim: val})), (lambda t: ndimage.gaussian_filter1d(t, k, mode=mode, cval=1.0, truncate=3.0)), 1e-7, False, ()
    if name == "hampel":
        kk = k if k % 2 else k + 1
        kk = max(kk, 3)
        val, samples = window_arg(coord, kk, spec["form"])
        thr = spec["a"] / 2

        def ref(t):
            f = t.astype(float)
            med = ndimage.median_filter(f, size=kk, mode="reflect")
            dev = np.abs(f - med)
            mad = ndimage.median_filter(dev, size=kk, mode="reflect")
            mad = np.where(mad == 0, np.finfo(f.dtype).eps, mad)
            close = np.abs(dev / mad - thr) < 1e-4
            out = np.where(dev / mad > thr, med, f)
            out = np.rint(out) if t.dtype.kind == "i" else out
            return np.where(close, np.nan, out)

        # the exact algorithm; the approximation may differ at the edges (documented).
        return patch, (lambda p: p.hampel_filter(threshold=thr, samples=samples, approximate=False, **{dim: val})), ref, 1e-6, False, ()
    if name == "wiener":
        noise = float(spec["a"]) if spec["opt"] else 0.5
        return patch, (lambda p: p.wiener_filter(noise=noise, samples=samples, **{dim: val})), None, 1e-7, False, ()
    raise AssertionError(name)


@facet("one", one_case(), quick=2500, weight=3)
def check_one(spec, ctx):
    """Filters along one dimension: each trace as by the reference alone; linearity; dimension order."""
    import warnings

    from scipy import ndimage, signal

    made = build_one(spec)
    if made is None:
        return
    patch, call, ref, tol, linear, attrs = made
    dim, name = spec["dim"], spec["f"]
    ax = patch.dims.index(dim)
    before = Snap(patch)
    what = f"{name} along {dim} of {patch.dims} ({spec['form'] if name not in ('pass_filter', 'notch') else spec['ff']})"
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out = call(patch)
        check_coherent(out, what)
        f4 = before.dtype == np.float32
        if f4:
            tol = 2e-3 if name in ("pass_filter", "notch") else max(tol, 1e-4)
        data = before.data
        if name == "sobel":
            # the standard Sobel kernel: a difference along the axis, smoothing along the rest.
            want = per_trace(data, ax, lambda t: ndimage.correlate1d(t, [-1, 0, 1], mode=spec["mode"]))
            for other in set(range(data.ndim)) - {ax}:
                want = per_trace(want, other, lambda t: ndimage.correlate1d(t, [1, 2, 1], mode=spec["mode"]))
        elif name == "wiener":
            noise = float(spec["a"]) if spec["opt"] else 0.5
            want = per_trace(data, ax, lambda t: signal.wiener(t, mysize=spec["k"], noise=noise))
        else:
            want = per_trace(data, ax, ref)
    if f4 and name == "pass_filter":
        scale = float(np.abs(data).max()) * 5
        stable = spec["corners"] < 3
        tol = tol if stable else 0.2
    else:
        scale = max(float(np.nanmax(np.abs(np.where(np.isfinite(want), want, 0)))), float(np.abs(data).max()))
    got = np.asarray(out.data)
    require(got.shape == want.shape, f"{what}: shape {got.shape}")
    if name in ("hampel",):
        ok = ~np.isnan(want)
        check_values(np.where(ok, got, 0), np.where(ok, want, 0), f"{what}: data", atol=tol * scale)
    elif name.startswith("kurtosis") or name == "stalta":
        ok = np.isfinite(want)
        if name == "stalta":
            require(np.isnan(got)[np.isnan(want)].all(), f"{what}: values before the first full window")
            ok &= np.abs(want) < 1e4
        check_values(np.where(ok, got, 0), np.where(ok, want, 0), f"{what}: data", rtol=tol * 100, atol=tol * 10)
    else:
        check_values(got.astype(want.dtype), want, f"{what}: data", atol=tol * scale)
    unchanged(before, Snap(out), what, attrs)
    check_same_snap(before, Snap(patch), f"{what}: the original")
    if name.startswith("kurtosis"):
        require(out.attrs.data_type == "kurtosis", f"{what}: data_type")
    if spec["perm"] and patch.ndim > 1:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            turned = call(patch.transpose(*patch.dims[::-1])).transpose(*patch.dims)
        a, b = np.asarray(turned.data), got
        if name not in ("wiener", "hampel"):
            check_values(a, b, f"{what}: with reversed dimension order", atol=max(tol, 1e-9) * scale)
    if spec["lin"] and linear and before.dtype.kind in "fc" and not f4:
        other = patch.new(data=np.roll(before.data, 1) * 0.5 + 1)
        both = call(patch.new(data=2.0 * before.data - 3.0 * other.data))
        want = 2.0 * got - 3.0 * np.asarray(call(other).data)
        check_values(np.asarray(both.data), want, f"{what}: linearity", atol=10 * tol * scale)
    ctx.label(name, f"ndim {patch.ndim}", "reversed" if float_step(patch.get_coord(dim)) < 0 else "forward")
    ctx.nontrivial(patch.ndim > 1)


# ---------------------------------------------------------------- several dims
MULTI = ("median", "gaussian", "savgol", "savgol", "wiener", "hampel", "hampel_ap", "notch")


@st.composite
def multi_case(draw):
    name = draw(S(*MULTI))
    ps = gen.draw_patch(draw, max_n=9, min_n=7, min_dims=2, max_dims=3 if name != "notch" else 2, kinds=("even",), data=("float", "uniq", "int", "f4"))
    if name == "notch":
        for d in ps["dims"]:
            d[1]["n"] = draw(I(12, 16))
    names = [d[0] for d in ps["dims"]]
    return {"p": ps, "f": name, "dims": list(draw(PERM(*names)))[: draw(I(1, len(names)))], "k": [draw(I(1, 5)) for _ in names], "form": draw(S("samples", "number")), "mode": draw(S(*MODES)), "thr": draw(I(1, 8)) + 0.5, "order": draw(I(0, 2))}


@facet("multi", multi_case(), quick=1500, weight=2)
def check_multi(spec, ctx):
    """Filters over several dimensions apply to all of them."""
    import warnings

    from scipy import ndimage, signal

    patch, _ = gen.build_patch(spec["p"])
    before = Snap(patch)
    name, dims, mode = spec["f"], spec["dims"], spec["mode"]
    ks = dict(zip(dims, spec["k"]))
    if name == "savgol":
        ks = {d: max(k, spec["order"] + 1) for d, k in ks.items()}
    if name.startswith("hampel"):
        ks = {d: 3 if k < 4 else 5 for d, k in ks.items()}
    kwargs, samples = {}, spec["form"] == "samples"
    if not samples and any(abs(float_step(patch.get_coord(d))) < 1e-6 for d in dims):
        samples = True
    for d in dims:
        kwargs[d] = window_arg(patch.get_coord(d), ks[d], "samples" if samples else "number")[0]
    size = tuple(ks.get(d, 1) for d in patch.dims)
    data = before.data
    what = f"{name} with windows {ks} of {patch.dims}"
    f4 = before.dtype == np.float32
    tol = 1e-4 if f4 else 1e-8
    skip = None
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if name == "median":
            out = patch.median_filter(samples=samples, mode=mode, **kwargs)
            want = ndimage.median_filter(data, size=size, mode=mode)
        elif name == "gaussian":
            out = patch.gaussian_filter(samples=samples, mode=mode, **kwargs)
            want = data.astype(float)
            if data.dtype.kind == "i":
                want, tol = ndimage.gaussian_filter(data, sigma=[ks[d] for d in dims], axes=[patch.dims.index(d) for d in dims], mode=mode), 1.5 / max(1, np.abs(data).max())
            else:
                for d in dims:
                    want = ndimage.gaussian_filter1d(want, ks[d], axis=patch.dims.index(d), mode=mode)
        elif name == "savgol":
            m = mode if mode != "reflect" else "interp"
            out = patch.savgol_filter(polyorder=spec["order"], samples=samples, mode=m, **kwargs)
            want = data
            for d in dims:
                want = signal.savgol_filter(want, ks[d], spec["order"], axis=patch.dims.index(d), mode=m)
        elif name == "wiener":
            out = patch.wiener_filter(samples=samples, noise=2.0, **kwargs)
            f = data.astype(float)
            n = np.prod(size)
            mean = signal.correlate(f, np.ones(size), "same") / n
            var = signal.correlate(f**2, np.ones(size), "same") / n - mean**2
            want = np.where(var < 2.0, mean, (f - mean) * (1 - 2.0 / np.where(var == 0, 1, var)) + mean)
            skip = np.abs(var - 2.0) < 1e-3
        elif name.startswith("hampel"):
            approx = name.endswith("ap")
            out = patch.hampel_filter(threshold=spec["thr"], samples=samples, approximate=approx, **kwargs)
            f = data.astype(float)

            def med(x):
                if not approx:
                    return ndimage.median_filter(x, size=size, mode="reflect")
                for axis, k in enumerate(size):
                    if k > 1:
                        x = ndimage.median_filter(x, size=tuple(k if i == axis else 1 for i in range(x.ndim)), mode="reflect")
                return x

            m = med(f)
            dev = np.abs(f - m)
            mad = med(dev)
            mad = np.where(mad == 0, np.finfo(float).eps, mad)
            skip = (np.abs(dev / mad - spec["thr"]) < 1e-3) | (dev < 1e-6)
            want = np.where(dev / mad > spec["thr"], m, f)
            want = np.rint(want) if data.dtype.kind == "i" else want
            if approx:  # edges may differ (documented)
                for axis, k in enumerate(size):
                    h = 2 * (k // 2)
                    ix = np.arange(data.shape[axis])
                    edge = (ix < h) | (ix >= data.shape[axis] - h)
                    shp = [1] * data.ndim
                    shp[axis] = -1
                    skip = skip | edge.reshape(shp)
        else:
            freqs = {d: 0.1 * (ks[d] % 4 + 1) / abs(float_step(patch.get_coord(d))) for d in dims}
            out = patch.notch_filter(q=3, **freqs)
            want = data.astype(float)
            for d in dims:
                fs = 1 / abs(float_step(patch.get_coord(d)))
                b, a = signal.iirnotch(freqs[d], Q=3, fs=fs)
                want = signal.filtfilt(b, a, want, axis=patch.dims.index(d))
    check_coherent(out, what)
    got = np.asarray(out.data)
    require(got.shape == want.shape, f"{what}: shape")
    if skip is not None:
        got, want = np.where(skip, 0, got), np.where(skip, 0, want)
    scale = max(float(np.abs(data).max()), float(np.abs(want).max()))
    check_values(got.astype(want.dtype) if want.dtype.kind == "f" else got, want, f"{what}: data", atol=tol * scale)
    unchanged(before, Snap(out), what)
    ctx.label(name, f"dims {len(dims)}")
    ctx.nontrivial(len(dims) > 1)


# ---------------------------------------------------------------- rolling
@st.composite
def roll_case(draw):
    ps, dim = base_patch(draw, 3, 12)
    n = next(d[1]["n"] for d in ps["dims"] if d[0] == dim)
    k = draw(I(1, n))
    return {"p": ps, "dim": dim, "k": k, "step": draw(S(None, 1, 2, 3, 5)), "ov": draw(S(None, None, None, 0, 1, 2)), "center": draw(S(True, False)), "eng": draw(S(None, "numpy", "pandas")),
            "stat": draw(S("mean", "median", "min", "max", "std", "sum", "apply", "apply_args")), "form": draw(S(*FORMS))}


@facet("rolling", roll_case(), quick=2000, weight=2)
def check_rolling(spec, ctx):
    """Window statistics at each label, with any engine, step, centring and overlap."""
    from dascore.exceptions import ParameterError

    patch, _ = gen.build_patch(spec["p"])
    before = Snap(patch)
    dim, k, stat = spec["dim"], spec["k"], spec["stat"]
    ax = patch.dims.index(dim)
    n = patch.shape[ax]
    coord = patch.get_coord(dim)
    val, samples = window_arg(coord, k, spec["form"])
    kwargs = {dim: val, "center": spec["center"], "samples": samples}
    if spec["eng"]:
        kwargs["engine"] = spec["eng"]
    step = 1
    if spec["ov"] is not None and k > spec["ov"]:
        form = "samples" if samples else spec["form"]
        # an overlap in units is rounded up to whole samples
        kwargs["overlap"] = window_arg(coord, spec["ov"], form)[0] if spec["ov"] else 0
        step = k - spec["ov"]
    elif spec["step"]:
        kwargs["step"] = window_arg(coord, spec["step"], "samples" if samples else spec["form"])[0]
        step = spec["step"]
    what = f"rolling({ {x: y for x, y in kwargs.items()} }).{stat}()"
    np_engine = spec["eng"] == "numpy"
    if stat.startswith("apply") and not np_engine:
        kwargs["engine"] = "numpy"
    try:
        roller = patch.rolling(**kwargs)
        if stat == "apply":
            out = roller.apply(np.ptp)
        elif stat == "apply_args":
            out = roller.apply(np.percentile, 30)
        else:
            out = getattr(roller, stat)()
    except ParameterError:
        require((spec["eng"] == "pandas" and patch.ndim > 2) or step > n, f"{what}: refused")
        return
    func = {"apply": np.ptp, "apply_args": lambda w: np.percentile(w, 30)}.get(stat) or getattr(np, stat)
    lag = k - 1 if not spec["center"] else (k - 1) - (k - 1) // 2

    def ref(t):
        t = t.astype(float)
        out = np.full(n, np.nan)
        for i in range(n):
            lo = i - lag
            if lo >= 0 and lo + k <= n:
                out[i] = func(t[lo: lo + k])
        return out[::step]

    want = per_trace(before.data, ax, ref)
    check_coherent(out, what)
    f4 = before.dtype == np.float32
    scale = float(np.abs(before.data).max()) * k
    check_values(np.asarray(out.data, dtype=float), want, f"{what}: data", atol=(1e-5 if f4 else 1e-9) * scale + (1e-6 * scale if stat == "std" else 0))
    after = Snap(out)
    check_values(after.coords[dim][1], before.coords[dim][1][::step], f"{what}: labels", atol=1e-9 * float(np.abs(before.coords[dim][1]).max()) if before.coords[dim][1].dtype.kind == "f" else 0)
    check_units(after.coords[dim][2], before.coords[dim][2], f"{what}: units")
    if step == 1:
        unchanged(before, after, what)
    else:
        for c, v in before.coords.items():
            if dim in v[0]:
                continue
            check_values(after.coords[c][1], v[1], f"{what}: coord {c}")
            check_units(after.coords[c][2], v[2], f"{what}: coord {c}")
    ctx.label(stat, f"engine {spec['eng']}", "step" if step > 1 else "all")
    ctx.nontrivial(k > 1)


# ---------------------------------------------------------------- spectral
@st.composite
def spec_case(draw):
    f = draw(S("whiten", "whiten", "slope", "slope", "pws", "fbe"))
    ps = gen.draw_patch(draw, max_n=10, min_n=6, min_dims=2 if f in ("slope", "pws") else 1, max_dims=3 if f != "slope" else 2, kinds=("even",), data=("float", "float", "uniq"), dims=("time", "distance") if f == "slope" else None)
    names = [d[0] for d in ps["dims"]]
    dim = names[draw(I(0, len(names) - 1))]
    for d in ps["dims"]:
        if d[0] == dim and f in ("fbe",):
            d[1]["n"] = draw(I(34, 40))
        elif d[0] == dim:
            d[1]["n"] = draw(I(8, 18))
    return {"p": ps, "f": f, "dim": dim, "dim2": draw(S(*names)), "k": draw(I(1, 4)), "a": draw(I(1, 5)), "b": draw(I(0, 4)), "dir": draw(S(True, False)), "inv": draw(S(True, False)), "sm": draw(S(None, 2, 3)), "wl": draw(S(None, 0.05, 0.2)),
            "rng": draw(S(None, 2, 4)), "pow": draw(S(1.0, 2.0, 0.5)), "red": draw(S("empty", "squeeze", "mean")), "half": draw(S(True, False)), "db": draw(S(True, False)), "in": draw(S("time", "time", "freq"))}


def dense_dft(x, ax, big, step, real):
    n = x.shape[ax]
    k = np.arange(0, big // 2 + 1) if real else np.arange(-(big // 2), (big - 1) // 2 + 1)
    m = np.exp(-2j * np.pi * np.outer(k, np.arange(n)) / big)
    return np.moveaxis(np.tensordot(m, x, axes=([1], [ax])), 0, ax), k / (big * step)


@facet("spectral", spec_case(), quick=1200, weight=2)
def check_spectral(spec, ctx):
    """Whitening, slope filters, phase weighted stacks, frequency band energy."""
    from scipy.fft import next_fast_len
    from scipy.ndimage import uniform_filter1d

    patch, _ = gen.build_patch(spec["p"])
    before = Snap(patch)
    f, dim = spec["f"], spec["dim"]
    ax = patch.dims.index(dim)
    coord = patch.get_coord(dim)
    step = float_step(coord)
    n = patch.shape[ax]
    data = before.data.astype(float)
    what = f"{f} along {dim} of {patch.dims}"
    if f == "whiten":
        big = next_fast_len(n)
        if step < 0:
            return
        X, freqs = dense_dft(data, ax, big, step, True)
        df = 1 / (big * step)
        kwargs = {}
        if spec["sm"]:
            kwargs["smooth_size"] = (spec["sm"] - 0.4) * df
            if kwargs["smooth_size"] >= freqs.max():
                return
            kwargs["water_level"] = spec["wl"]
        if spec["rng"]:
            pts = [0, 3, 5, big // 2][: spec["rng"]] if spec["rng"] == 4 else [1, 4]
            pts = [p * df * (1 + 1e-9) for p in pts]
            if spec["rng"] == 4 and (big // 2) < 7 or pts[-1] > freqs.max():
                return
            kwargs[dim] = tuple(pts)
        elif dim != "time":
            kwargs[dim] = None
        src = patch.dft(dim, real=True) if spec["in"] == "freq" else patch
        if spec["in"] == "freq" and not kwargs.get(dim):
            kwargs.pop(dim, None)
            if dim != "time":
                kwargs[dim] = None
        out = src.whiten(**kwargs)
        if spec["in"] == "freq":
            require(out.dims == src.dims, f"{what}: a transformed patch must stay transformed")
            out = out.idft()
        amp = np.ones(X.shape)
        if spec["sm"]:
            # the amplitude relative to its moving average, along the frequency axis
            raw = np.abs(X) * step
            uni = uniform_filter1d(raw, spec["sm"], axis=ax, mode="wrap")
            if spec["wl"]:
                uni = np.maximum(uni, spec["wl"] * uni.max())
            if (uni < 1e-9).any():
                return
            amp = raw / uni
        if (np.abs(X) < 1e-9 * max(np.abs(data).max(), 1e-300)).any():
            ctx.label("zero spectrum")
            if not spec["sm"]:
                return
        Y = amp * np.exp(1j * np.angle(X))
        if spec["rng"]:
            tp = patch.dft(dim, real=True)
            env = np.ones_like(np.abs(X))
            res = tp.new(data=env).taper_range(**{f"ft_{dim}": kwargs[dim]})
            Y = Y * np.asarray(res.data)
        k = np.arange(big // 2 + 1)
        w = np.where((k == 0) | ((big % 2 == 0) & (k == big // 2)), 1.0, 2.0)
        m = np.exp(2j * np.pi * np.outer(np.arange(n), k) / big) * w / big
        want = np.moveaxis(np.tensordot(m, Y, axes=([1], [ax])), 0, ax).real / step
        check_values(out.data.astype(float), want, f"{what} ({kwargs}): data", atol=1e-7 * float(np.abs(want).max() or 1))
        if spec["in"] == "time":
            unchanged(Snap(patch.dft(dim).idft()), Snap(out), what)
    elif f == "slope":
        s1, s2 = float_step(patch.get_coord("distance")), float_step(patch.get_coord("time"))
        a1, a2 = patch.dims.index("distance"), patch.dims.index("time")
        b1, b2 = next_fast_len(patch.shape[a1]), next_fast_len(patch.shape[a2])
        X, k = dense_dft(data, a1, b1, s1, False)
        X, w = dense_dft(X, a2, b2, s2, False)
        shp1, shp2 = [1, 1], [1, 1]
        shp1[a1], shp2[a2] = -1, -1
        base = abs(s1 / s2) * spec["a"] / 3.0
        filt = np.array([0.5, 1.1, 2.3, 3.7]) * base
        if spec["dir"] and spec["half"]:
            filt = -filt[::-1]
        with np.errstate(all="ignore"):
            slope = w.reshape(shp2) / (k.reshape(shp1) + np.finfo(float).eps)
            if not spec["dir"]:
                slope = np.abs(slope)
            mask = np.interp(slope, filt, [0, 1, 1, 0], left=0, right=0)
            up = (slope > filt[0]) & (slope < filt[1])
            dn = (slope > filt[2]) & (slope < filt[3])
            # the tapers are sines, not lines
            mask = np.where(up, np.sin(0.5 * np.pi * (slope - filt[0]) / (filt[1] - filt[0])), mask)
            mask = np.where(dn, 1 - np.sin(0.5 * np.pi * (slope - filt[2]) / (filt[3] - filt[2])), mask)
        if spec["inv"]:
            mask = 1 - mask
        near = np.min(np.abs(slope[..., None] - filt) / base)
        if near < 1e-9:
            return
        Y = X * mask
        for (axis, big, freqs, st_) in ((a1, b1, k, s1), (a2, b2, w, s2)):
            nn = data.shape[axis]
            m = np.exp(2j * np.pi * np.outer(np.arange(nn) * st_, freqs)) / big
            Y = np.moveaxis(np.tensordot(m, Y, axes=([1], [axis])), 0, axis)
        out = patch.slope_filter(filt, directional=spec["dir"], invert=spec["inv"])
        got, want = out.data.astype(float), Y.real
        dft = patch.dft(["distance", "time"])
        if not all((np.asarray(dft.get_array(f"ft_{d}")) == 0).any() for d in ("distance", "time")):
            # the zero of the frequency axis is only zero within rounding: no slope
            # is defined for the mean.
            got, want = got - got.mean(), want - want.mean()
        check_values(got, want, f"{what} ({filt}, directional={spec['dir']}, invert={spec['inv']}): data", atol=1e-8 * float(np.abs(data).max()))
        require(out.dims == patch.dims, what)
        unchanged(Snap(patch.dft(["distance", "time"]).idft().real()), Snap(out), what)
    elif f == "pws":
        from scipy.signal import hilbert

        stack = dim
        others = [d for d in patch.dims if d != stack]
        tdim = spec["dim2"] if spec["dim2"] != stack else others[0]
        sax, tax = patch.dims.index(stack), patch.dims.index(tdim)
        z = per_trace(data, tax, lambda t: hilbert(t))
        ph = z / np.maximum(np.abs(z), np.finfo(float).eps)
        want = data.mean(axis=sax, keepdims=True) * np.abs(ph.mean(axis=sax, keepdims=True)) ** spec["pow"]
        kwargs = {} if patch.ndim == 2 and spec["half"] else {"transform_dim": tdim}
        out = patch.phase_weighted_stack(stack, power=spec["pow"], dim_reduce=spec["red"], **kwargs)
        if spec["red"] == "squeeze":
            want = np.squeeze(want, sax)
        require(out.dims == (patch.dims if spec["red"] != "squeeze" else tuple(d for d in patch.dims if d != stack)), f"{what}: dims {out.dims}")
        if (np.abs(z) < 1e-9).any():
            return
        check_values(out.data.astype(float), want, f"{what}: data", atol=1e-8 * float(np.abs(data).max()))
        check_coherent(out, what)
        after = Snap(out)
        for c, v in before.coords.items():
            if stack in v[0]:
                continue
            check_values(after.coords[c][1], v[1], f"{what}: coord {c}")
    else:
        from scipy import signal

        fs = 1 / abs(step)
        lims = (fs * 0.05 * spec["a"], fs * (0.05 * spec["a"] + 0.15))
        k = spec["k"] + 2
        win, samples = window_arg(coord, k, "number")
        if samples:
            return
        out = patch.fbe(window=win, db=spec["db"], **{dim: lims})
        sos = signal.iirfilter(4, [2 * x / fs for x in lims], btype="band", ftype="butter", output="sos")

        def ref(t):
            y = signal.sosfiltfilt(sos, t) ** 2
            o = np.full(len(t), np.nan)
            for i in range(k - 1, len(t)):
                o[i] = math.sqrt(y[i - k + 1: i + 1].mean())
            return o

        want = per_trace(data, ax, ref)
        got = out.data.astype(float)
        require(got.shape == want.shape, f"{what}: shape {got.shape}, expected {want.shape}")
        if not spec["db"]:
            check_values(got, want, f"{what}: data", atol=1e-6 * float(np.abs(data).max()))
        else:
            ok = want > 1e-3
            check_values(np.where(ok, got, 0), np.where(ok, 20 * np.log10(np.where(ok, want, 1)), 0), f"{what}: data in dB", atol=1e-2)
        unchanged(before, Snap(out), what, ("data_type", "data_units"))
    check_same_snap(before, Snap(patch), f"{what}: the original")
    ctx.label(f)
    ctx.nontrivial(True)


FACETS = [check_one, check_multi, check_rolling, check_spectral]
_ = fail
