"""A catalogue of patch operations with random, applicable arguments.

Each entry is ``name -> f(rng, patch) -> (method, args, kwargs) or None``.
Used by the properties that quantify over *all* operations (C01, C02, C27).
"""
from __future__ import annotations

import numpy as np


def _pick(rng, seq):
    seq = list(seq)
    return seq[int(rng.integers(len(seq)))] if seq else None


def _dim(rng, p):
    return _pick(rng, p.dims)


def _even(rng, p, n=2):
    return _pick(rng, [d for d in p.dims if p.get_coord(d).evenly_sampled and len(p.get_coord(d)) >= n and p.get_coord(d).sorted])


def _numeric(p):
    return p.data.dtype.kind in "fiu"


def _vals(p, d):
    return np.asarray(p.get_array(d))


def _sorted_dim(rng, p, n=2):
    return _pick(rng, [d for d in p.dims if p.get_coord(d).sorted and len(p.get_coord(d)) >= n and not _partial(p, d)])


def _partial(p, d):
    return type(p.get_coord(d)).__name__ == "CoordPartial"


def _real_dim(rng, p, n=1):
    return _pick(rng, [d for d in p.dims if len(p.get_coord(d)) >= n and not _partial(p, d)])


def op_select(rng, p):
    d = _real_dim(rng, p)
    if d is None:
        return None
    v = _vals(p, d)
    how = rng.integers(0, 5)
    if how == 0:
        a, b = np.sort(v[rng.integers(0, len(v), 2)])
        return "select", (), {d: (a, b)}
    if how == 1:
        return "select", (), {d: (v[int(rng.integers(len(v)))], ...)}
    if how == 2:
        return "select", (), {d: v[np.sort(rng.choice(len(v), size=max(1, len(v) // 2), replace=False))]}
    if how == 3:
        return "select", (), {d: rng.random(len(v)) < 0.7, "copy": bool(rng.integers(2))}
    return "select", (), {d: (int(rng.integers(0, len(v))), None), "samples": True}


def op_order(rng, p):
    d = _real_dim(rng, p)
    if d is None:
        return None
    n = len(_vals(p, d))
    idx = rng.integers(0, n, size=n)
    if rng.random() < 0.5:
        return "order", (), {d: idx, "samples": True}
    return "order", (), {d: _vals(p, d)[idx]}


def op_sort(rng, p):
    d = _real_dim(rng, p)
    return d and ("sort_coords", (d,), {"reverse": bool(rng.integers(2))})


def op_snap(rng, p):
    d = _real_dim(rng, p, 2)
    if d is None or len(np.unique(_vals(p, d))) < 2:
        return None
    return "snap_coords", (d,), {}


def op_flip(rng, p):
    k = int(rng.integers(1, len(p.dims) + 1))
    return "flip", tuple(np.array(p.dims)[rng.permutation(len(p.dims))[:k]].tolist()), {"flip_coords": bool(rng.integers(2))}


def op_transpose(rng, p):
    return "transpose", tuple(np.array(p.dims)[rng.permutation(len(p.dims))].tolist()), {}


def op_rename(rng, p):
    nm = _pick(rng, p.coords.coord_map)
    return "rename_coords", (), {nm: f"r{int(rng.integers(100))}"}


def op_append(rng, p):
    if p.ndim > 3:
        return None
    nm = f"a{int(rng.integers(100))}"
    return _pick(rng, [("append_dims", (nm,), {}), ("append_dims", (), {nm: 2}), ("append_dims", (), {nm: [1.5, 2.5]})])


def op_squeeze(rng, p):
    ones = [d for d, s in zip(p.dims, p.shape) if s == 1]
    if not ones or len(ones) == p.ndim:
        return None
    return "squeeze", (_pick(rng, ones),), {}


def op_roll(rng, p):
    d = _even(rng, p)
    return d and ("roll", (), {d: int(rng.integers(1, 5)), "samples": True, "update_coord": bool(rng.integers(2))})


def op_update_coords(rng, p):
    d = _dim(rng, p)
    n = len(p.get_coord(d))
    how = rng.integers(0, 5)
    if how == 0:
        return "update_coords", (), {d: np.arange(n) * 1.5 + 3}
    if how == 1:
        return "update_coords", (), {f"x{int(rng.integers(9))}": (d, rng.permutation(n) * 1.0)}
    if how == 2:
        return "update_coords", (), {f"w{int(rng.integers(9))}": (None, np.arange(3))}
    if how == 3 and p.ndim > 1:
        return "update_coords", (), {"two": (tuple(p.dims[:2]), rng.random(p.shape[:2]))}
    if p.get_coord(d).evenly_sampled and "_" not in d:
        v = _vals(p, d)
        return "update_coords", (), {f"{d}_min": v.min() + (v.max() - v.min()) * 2 if v.dtype.kind != "M" else v.min() + np.timedelta64(5, "s")}
    return None


def op_drop_coords(rng, p):
    ex = [k for k in p.coords.coord_map if k not in p.dims]
    return ("drop_coords", (_pick(rng, ex),), {}) if ex else None


def op_set_dims(rng, p):
    ex = [k for k, v in p.coords.dim_map.items() if k not in p.dims and len(v) == 1]
    k = _pick(rng, ex)
    return k and ("set_dims", (), {p.coords.dim_map[k][0]: k})


def op_update_attrs(rng, p):
    return "update_attrs", (), {_pick(rng, ["tag", "custom_thing", "station"]): f"v{int(rng.integers(99))}"}


def op_set_units(rng, p):
    d = _real_dim(rng, p)
    if d is None or _vals(p, d).dtype.kind in "mM":
        return "set_units", ("m/s",), {}
    return "set_units", ("m",), {d: _pick(rng, ["m", "km", "degC"])}


def op_convert_units(rng, p):
    for d in p.dims:
        u = p.get_coord(d).units
        if u is not None and str(u.units) in ("meter", "m") and not _partial(p, d):
            return "convert_units", (), {d: _pick(rng, ["ft", "km", "cm"])}
    return None


def op_simplify_units(rng, p):
    return "simplify_units", (), {}


def op_agg(rng, p):
    if p.data.dtype.kind not in "fi":
        return None
    m = _pick(rng, ["min", "max", "mean", "median", "std", "sum", "first", "last", "any", "all"])
    how = rng.integers(0, 4)
    d = _dim(rng, p)
    if how == 0:
        return m, (d,), {}
    if how == 1 and p.ndim > 1:
        return m, (d,), {"dim_reduce": "squeeze"}
    if how == 2 and not _partial(p, d):
        return m, (d,), {"dim_reduce": _pick(rng, ["min", "max", "mean", "first"])}
    return m, (), {}


def op_arith(rng, p):
    if p.data.dtype.kind not in "fic":
        return None
    m = _pick(rng, ["add", "subtract", "multiply", "divide", "maximum"])
    if p.data.dtype.kind == "c":
        m = "add"
    if rng.random() < 0.4:
        return m, (float(rng.integers(1, 5)),), {}
    if rng.random() < 0.5:
        return m, (rng.random(p.shape) + 1,), {}
    return m, (p,), {}


def op_unary(rng, p):
    m = _pick(rng, ["abs", "isnan", "is_finite", "conj", "real", "imag", "angle"])
    if p.data.dtype.kind not in "fic":
        return None
    return m, (), {}


def op_roll_mean(rng, p):
    d = _even(rng, p, 3)
    if d is None or p.data.dtype.kind not in "fi":
        return None
    m = _pick(rng, ["mean", "max", "median", "sum"])
    kw = {d: int(rng.integers(1, 4)), "samples": True, "step": int(rng.integers(1, 3)), "center": bool(rng.integers(2))}
    eng = _pick(rng, ["numpy", "pandas"] if p.ndim <= 2 else ["numpy"])

    def call(patch):
        return getattr(patch.rolling(engine=eng, **kw), m)()

    call.__name__ = f"rolling.{m}"
    return call, (), {}


def op_pad(rng, p):
    d = _even(rng, p)
    return d and ("pad", (), {d: (int(rng.integers(0, 3)), int(rng.integers(0, 3))), "samples": True, "expand_coords": bool(rng.integers(2))})


def op_fillna(rng, p):
    return "fillna", (0,), {}


def op_dropna(rng, p):
    return "dropna", (_dim(rng, p),), {"how": _pick(rng, ["any", "all"])}


def op_where(rng, p):
    if p.data.dtype.kind not in "fi":
        return None
    return "where", (rng.random(p.shape) < 0.6,), {"other": 0.0}


def op_normalize(rng, p):
    if p.data.dtype.kind not in "f":
        return None
    d = _dim(rng, p)
    return _pick(rng, [("normalize", (d,), {"norm": _pick(rng, ["l1", "l2", "max", "bit"])}), ("standardize", (d,), {}),
                       ("demean", (d,), {}), ("demedian", (d,), {})])


def op_taper(rng, p):
    d = _even(rng, p, 5)
    if d is None or p.data.dtype.kind != "f":
        return None
    return "taper", (), {d: 0.2}


def op_taper_range(rng, p):
    d = _sorted_dim(rng, p, 5)
    if d is None or p.data.dtype.kind != "f":
        return None
    v = _vals(p, d)
    return "taper_range", (), {d: (v[1], v[-2])}


def op_mute(rng, p):
    d = _sorted_dim(rng, p, 3)
    if d is None or p.data.dtype.kind != "f":
        return None
    return "line_mute", (), {d: (0, 1), "samples": True} if False else {d: (_vals(p, d)[0], _vals(p, d)[1]), "relative": False}


def op_detrend(rng, p):
    d = _dim(rng, p)
    if not _numeric(p) or len(p.get_coord(d)) < 2 or np.isnan(p.data).any():
        return None
    return "detrend", (d,), {"type": _pick(rng, ["linear", "constant"])}


def op_filter(rng, p):
    d = _even(rng, p, 12)
    if d is None or p.data.dtype.kind != "f":
        return None
    step = p.get_coord(d).step
    step = step / np.timedelta64(1, "s") if isinstance(step, np.timedelta64) else float(step)
    nyq = 0.5 / step
    m = _pick(rng, ["pass_filter", "median_filter", "gaussian_filter", "savgol_filter", "sobel_filter", "hampel_filter", "wiener_filter", "notch_filter"])
    if m == "pass_filter":
        return m, (), {d: (0.2 * nyq, 0.6 * nyq), "zerophase": bool(rng.integers(2))}
    if m == "notch_filter":
        return m, (), {d: 0.5 * nyq, "q": 30}
    if m == "sobel_filter":
        return m, (d,), {}
    if m == "savgol_filter":
        return m, (), {d: 5, "polyorder": 2, "samples": True}
    if m == "hampel_filter":
        return m, (), {d: 3, "threshold": 3.0, "samples": True}
    return m, (), {d: 3, "samples": True}


def op_resample(rng, p):
    d = _even(rng, p, 4)
    if d is None or p.data.dtype.kind != "f":
        return None
    how = rng.integers(0, 3)
    if how == 0:
        return "decimate", (), {d: 2, "filter_type": None}
    if how == 1:
        return "resample", (), {d: int(rng.integers(2, 2 * len(p.get_coord(d)))), "samples": True}
    v = _vals(p, d)
    step = p.get_coord(d).step
    return "interpolate", (), {d: v[:-1] + step / 2}


def op_fourier(rng, p):
    d = _even(rng, p, 4)
    if d is None or p.data.dtype.kind not in "fc" or d.startswith("ft_") or f"ft_{d}" in p.coords.coord_map:
        return None
    how = rng.integers(0, 4)
    real = d if (rng.random() < 0.5 and p.data.dtype.kind == "f") else None
    if how == 0:
        return "dft", (d,), {"real": real}
    if how == 1:
        def call(patch):
            return patch.dft(d, real=real).idft()
        call.__name__ = "dft.idft"
        return call, (), {}
    if how == 2 and p.data.dtype.kind == "f":
        return "hilbert", (d,), {}
    if p.data.dtype.kind == "f":
        return _pick(rng, [("envelope", (d,), {}), ("stft", (), {d: 4, "samples": True, "overlap": 2})])
    return None


def op_calculus(rng, p):
    d = _sorted_dim(rng, p, 4)
    if d is None or p.data.dtype.kind != "f":
        return None
    return _pick(rng, [("integrate", (d,), {"definite": True}), ("integrate", (d,), {"definite": False}), ("differentiate", (d,), {})])


def op_trigger(rng, p):
    d = _even(rng, p, 8)
    if d is None or p.data.dtype.kind != "f":
        return None
    return "stalta", (), {d: (2, 4), "samples": True}


def op_correlate(rng, p):
    if p.ndim != 2 or p.data.dtype.kind != "f":
        return None
    d = _even(rng, p, 3)
    if d is None or d.startswith(("ft_", "lag_")):
        return None
    other = next(x for x in p.dims if x != d)
    if _partial(p, other):
        return None
    return "correlate", (), {other: 0, "samples": True} if False else {other: int(rng.integers(len(p.get_coord(other)))), "samples": True}


def op_align(rng, p):
    d = _even(rng, p, 2)
    if d is None or p.ndim < 2 or p.data.dtype.kind != "f":
        return None
    o = next(x for x in p.dims if x != d)
    n = len(p.get_coord(o))

    def call(patch, mode, shifts):
        return patch.update_coords(shft=(o, shifts)).align_to_coord(mode=mode, samples=True, **{d: "shft"})

    call.__name__ = "align_to_coord"
    return call, (_pick(rng, ["same", "full"]), rng.integers(-1, 2, n)), {}


def op_add_distance(rng, p):
    import pandas as pd

    d = _real_dim(rng, p)
    if d is None or _vals(p, d).dtype.kind not in "fi":
        return None
    return "add_distance_to", (pd.Series({d: 1.0}),), {}


def op_new(rng, p):
    return "update", (), {"data": np.asarray(p.data) * 2 if p.data.dtype.kind in "fic" else p.data}


def op_reduce2(rng, p):
    if p.data.dtype.kind not in "fi":
        return None
    d = _dim(rng, p)
    return _pick(rng, [("aggregate", (d,), {"method": _pick(rng, ["mean", "sum", "min"])}), ("aggregate", (), {"method": np.nansum}), ("apply_ufunc", (), {})][:2])


def op_math(rng, p):
    if p.data.dtype.kind != "f":
        return None
    return _pick(rng, [("exp", (), {}), ("log", (), {}), ("log10", (), {}), ("log2", (), {}), ("isinf", (), {}), ("minimum", (2.0,), {})])


def op_window_stat(rng, p):
    d = _even(rng, p, 6)
    if d is None or p.data.dtype.kind != "f":
        return None
    return "kurtosis", (), {d: 3, "samples": True, "recursive": bool(rng.integers(2))}


def op_fbe(rng, p):
    d = _even(rng, p, 12)
    if d is None or p.data.dtype.kind != "f" or d.startswith("ft_"):
        return None
    step = p.get_coord(d).step
    step = step / np.timedelta64(1, "s") if isinstance(step, np.timedelta64) else float(step)
    nyq = 0.5 / step
    return "fbe", (), {d: (0.2 * nyq, 0.6 * nyq), "window": 3 * step, "db": bool(rng.integers(2))}


def op_stack(rng, p):
    if p.ndim != 2 or p.data.dtype.kind != "f":
        return None
    return "phase_weighted_stack", (_dim(rng, p),), {}


def op_whiten(rng, p):
    d = _even(rng, p, 12)
    if d is None or p.data.dtype.kind != "f" or d.startswith("ft_"):
        return None
    step = p.get_coord(d).step
    step = step / np.timedelta64(1, "s") if isinstance(step, np.timedelta64) else float(step)
    nyq = 0.5 / step
    return "whiten", (), {d: (0.2 * nyq, 0.6 * nyq), "smooth_size": nyq / 2}


def _time_dist(p):
    if set(p.dims) != {"time", "distance"} or p.data.dtype.kind != "f":
        return False
    return all(p.get_coord(d).evenly_sampled and p.get_coord(d).sorted and len(p.get_coord(d)) > 3 for d in p.dims) and np.isfinite(p.data).all()


def op_slope(rng, p):
    if not _time_dist(p):
        return None
    return _pick(rng, [("slope_filter", (np.array([0.5, 1, 3, 5.0]),), {}), ("slope_mute", ((0.5, 2.0),), {}), ("tau_p", (np.array([1.0, 2.0]),), {}),
                       ("dispersion_phase_shift", (np.array([1.0, 2.0]),), {})])


def op_strain(rng, p):
    d = p.get_coord("distance") if "distance" in p.dims else None
    if d is None or not d.evenly_sampled or p.data.dtype.kind != "f":
        return None
    return _pick(rng, [("velocity_to_strain_rate", (), {"step_multiple": 2}), ("velocity_to_strain_rate_edgeless", (), {"step_multiple": int(rng.integers(1, 3))}),
                       ("radians_to_strain", (), {"gauge_length": 2.0})])


def op_broadcastable(rng, p):
    if p.ndim > 2:
        return None
    return "make_broadcastable_to", ((*p.shape, 2),), {"drop_coords": True} if rng.random() < 0.5 else {}


def op_misc(rng, p):
    return _pick(rng, [("drop_private_coords", (), {}), ("tran", (), {}) if False else ("transpose", (), {}), ("convert_units", (), {}), ("pipe", (lambda q: q,), {}),
                       ("new", (), {"attrs": {"tag": "n"}}), ("dropna", (_dim(rng, p),), {}), ("update_attrs", (), {"history": ["h"]})])


def op_df_coords(rng, p):
    import pandas as pd

    d = _real_dim(rng, p, 2)
    if d is None or _vals(p, d).dtype.kind not in "fi" or len(np.unique(_vals(p, d))) < 2:
        return None
    v = np.sort(np.unique(_vals(p, d)))
    return "coords_from_df", (pd.DataFrame({d: [v[0], v[-1]], "xx": [0.0, 5.0]}),), {"extrapolate": bool(rng.integers(2)), "units": {"xx": "m"}}


OPS = {k[3:]: v for k, v in list(globals().items()) if k.startswith("op_")}
NAMES = sorted(OPS)


def plan(name, seed, patch):
    """(label, callable(patch) -> patch, args, kwargs) or None."""
    rng = np.random.default_rng(seed)
    if patch.data.size == 0:
        return None
    res = OPS[name](rng, patch)
    if not res:
        return None
    method, args, kwargs = res
    if callable(method):
        return method.__name__, method, args, kwargs
    return method, getattr(type(patch), method), args, kwargs


def invoke(func, label, patch, args, kwargs):
    attr = getattr(patch, label, None)
    if "." not in label and label != "align_to_coord" and attr is not None:
        return attr(*args, **kwargs)
    return func(patch, *args, **kwargs)
