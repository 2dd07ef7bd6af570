"""Comparisons between dascore objects and plain models. All raise Violation."""
from __future__ import annotations

from functools import lru_cache

import numpy as np

from .core import Violation


def fail(msg):
    raise Violation(msg)


def require(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


def _short(a, n=20):
    try:
        return np.array2string(np.asarray(a).ravel()[:n], precision=12)
    except Exception:  # noqa: BLE001
        return repr(a)[:300]


def values_equal(a, b, rtol=0.0, atol=0.0):
    """Exact (or toleranced for floats) equality with NaN == NaN."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    ka, kb = a.dtype.kind, b.dtype.kind
    if ka in "mM" or kb in "mM":
        if ka != kb:
            return False
        na, nb = np.isnat(a), np.isnat(b)
        if (na != nb).any():
            return False
        unit = "M8[ns]" if ka == "M" else "m8[ns]"
        ia, ib = a.astype(unit).astype(np.int64), b.astype(unit).astype(np.int64)
        return bool(np.all((ia == ib) | na))
    if ka in "OUST" or kb in "OUST":
        return bool(np.all(a.astype(str) == b.astype(str)))
    if rtol == 0 and atol == 0:
        eq = a == b
        with np.errstate(all="ignore"):
            both_nan = (a != a) & (b != b)
        return bool(np.all(eq | both_nan))
    return bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))


def check_values(a, b, what, rtol=0.0, atol=0.0):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        fail(f"{what}: shape {a.shape} but expected {b.shape}; got {_short(a)} expected {_short(b)}")
    if not values_equal(a, b, rtol, atol):
        fail(f"{what}: got {_short(a)} ({a.dtype}) expected {_short(b)} ({b.dtype})")


def coord_tol(vals):
    """Absolute tolerance for float coordinate values (evenly sampled ones are recomputed)."""
    vals = np.asarray(vals)
    if vals.dtype.kind != "f" or vals.size == 0:
        return 0.0
    m = np.nanmax(np.abs(vals)) if np.isfinite(vals).any() else 0.0
    return 1e-9 * (m + 1e-300) + 1e-12


def check_coord_values(a, b, what):
    check_values(a, b, what, rtol=0.0, atol=coord_tol(b))


def units_str(u):
    if u is None or u == "":
        return None
    return _quant(str(u))


@lru_cache(4096)
def _quant(text):
    from dascore.units import get_quantity

    return get_quantity(text)


def check_units(a, b, what):
    require(units_str(a) == units_str(b), lambda: f"{what}: units {a!r} expected {b!r}")


class Snap:
    """Deep copy of everything observable about a patch."""

    def __init__(self, patch):
        try:
            self.dims = tuple(patch.dims)
            self.data = np.array(patch.data, copy=True)
            self.dtype = patch.data.dtype
            self.coords = {}
            cm = patch.coords
            for name, coord in cm.coord_map.items():
                self.coords[name] = (tuple(cm.dim_map[name]), np.array(coord.values, copy=True), coord.units, type(coord).__name__)
            self.attrs = patch.attrs.model_dump()
        except Violation:
            raise
        except Exception as exc:  # noqa: BLE001
            fail(f"result cannot be examined as a patch: {type(exc).__name__}: {exc}")


def check_same_snap(a: Snap, b: Snap, what, stored=False):
    """Equal in everything; with stored=True, apart from the order and class of coordinates (and their round-off)."""
    require(a.dims == b.dims, lambda: f"{what}: dims {b.dims} were {a.dims}")
    require(a.dtype == b.dtype, lambda: f"{what}: dtype {b.dtype} was {a.dtype}")
    check_values(b.data, a.data, f"{what}: data")
    listed = sorted if stored else list
    require(listed(a.coords) == listed(b.coords), lambda: f"{what}: coords {list(b.coords)} were {list(a.coords)}")
    for k in a.coords:
        require(a.coords[k][0] == b.coords[k][0], lambda: f"{what}: coord {k} dims {b.coords[k][0]} was {a.coords[k][0]}")
        check_values(b.coords[k][1], a.coords[k][1], f"{what}: coord {k}", atol=coord_tol(a.coords[k][1]) if stored else 0.0)
        check_units(b.coords[k][2], a.coords[k][2], f"{what}: coord {k}")
        require(stored or a.coords[k][3] == b.coords[k][3], lambda: f"{what}: coord {k} type {b.coords[k][3]} was {a.coords[k][3]}")
    one, two = a.attrs, b.attrs
    if stored:
        one, two = _loose_coords(a), _loose_coords(b)
    require(attrs_equal(one, two), lambda: f"{what}: attrs {two} were {one}")


def _loose_coords(snap):
    """Attributes with the limits of float coordinates rounded, and no step for a single sample."""
    out = dict(snap.attrs)
    coords = {}
    for name, summary in out.get("coords", {}).items():
        summary = dict(summary)
        values = snap.coords[name][1] if name in snap.coords else np.array([])
        if values.size <= 1:
            summary.pop("step", None)
        if values.size == 0:
            summary.pop("dtype", None)
        for k in ("min", "max", "step"):
            if isinstance(summary.get(k), (float, np.floating)) and np.isfinite(summary[k]):
                summary[k] = _Close(float(summary[k]), coord_tol(values))
        coords[name] = summary
    out["coords"] = coords
    return out


class _Close:
    """A float which equals others close to it."""

    def __init__(self, val, tol):
        self.val, self.tol = val, tol

    def __eq__(self, other):
        other = other.val if isinstance(other, _Close) else other
        return other is not None and abs(self.val - other) <= self.tol

    def __repr__(self):
        return repr(self.val)


def attrs_equal(a, b):
    if isinstance(a, dict) or isinstance(b, dict):
        if not (hasattr(a, "keys") and hasattr(b, "keys")) or set(a) != set(b):
            return False
        return all(attrs_equal(a[k], b[k]) for k in a)
    if hasattr(a, "keys") and hasattr(b, "keys"):
        return set(a) == set(b) and all(attrs_equal(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(attrs_equal(x, y) for x, y in zip(a, b))
    try:
        if a is b:
            return True
        if a != a and b != b:
            return True
        return bool(np.all(a == b))
    except Exception:  # noqa: BLE001
        return repr(a) == repr(b)


def check_patch_model(patch, model, what, check_units_=True, rtol=0.0, atol=0.0, coords=None, extra_ok=False, data=True):
    """A patch must equal the model: dims, data, every coord (dims, values, units)."""
    check_coherent(patch, what)
    require(tuple(patch.dims) == model.dims, lambda: f"{what}: dims {patch.dims} expected {model.dims}")
    if data:
        check_values(patch.data, model.data, f"{what}: data", rtol, atol)
    names = set(patch.coords.coord_map)
    want = set(model.coords) if coords is None else set(coords)
    if extra_ok:
        require(want <= names, lambda: f"{what}: coords {sorted(names)} lack {sorted(want - names)}")
    else:
        require(names == want, lambda: f"{what}: coords {sorted(names)} expected {sorted(want)}")
    for nm in want:
        cd, vals, u = model.coords[nm]
        require(tuple(patch.coords.dim_map[nm]) == tuple(cd), lambda: f"{what}: coord {nm} attached to {patch.coords.dim_map[nm]} expected {cd}")
        coord = patch.coords.coord_map[nm]
        check_coord_values(coord.values, vals, f"{what}: coord {nm}")
        if check_units_:
            check_units(coord.units, u, f"{what}: coord {nm}")


def _same_scalar(a, b, atol=0.0):
    """Null-tolerant scalar comparison."""
    import pandas as pd

    na, nb = pd.isnull(a), pd.isnull(b)
    if na or nb:
        return bool(na and nb)
    return values_equal(np.asarray(a), np.asarray(b), atol=atol)


def check_coherent(patch, what="patch"):
    """The internal-coherence oracle of C01, also used everywhere else."""
    try:
        data = patch.data
        dims = tuple(patch.dims)
        cm = patch.coords
        attrs = patch.attrs
        shape = tuple(data.shape)
    except Exception as exc:  # noqa: BLE001
        fail(f"{what}: not a usable patch: {type(exc).__name__}: {exc}")
    require(len(set(dims)) == len(dims), lambda: f"{what}: duplicate dims {dims}")
    require(len(dims) == len(shape), lambda: f"{what}: dims {dims} but data shape {shape}")
    require(tuple(patch.shape) == shape, lambda: f"{what}: patch.shape {patch.shape} but data shape {shape}")
    require(tuple(cm.shape) == shape, lambda: f"{what}: coords.shape {cm.shape} but data shape {shape}")
    require(tuple(attrs.dim_tuple) == dims, lambda: f"{what}: attrs dims {attrs.dim_tuple} vs {dims}")
    require(patch.ndim == len(dims), lambda: f"{what}: ndim {patch.ndim}")
    size = dict(zip(dims, shape))
    for d in dims:
        require(d in cm.coord_map, lambda: f"{what}: dimension {d} has no coordinate")
        require(tuple(cm.dim_map[d]) == (d,), lambda: f"{what}: dim coord {d} attached to {cm.dim_map[d]}")
    require(set(cm.coord_map) == set(cm.dim_map), lambda: f"{what}: coord_map/dim_map keys differ: {set(cm.coord_map)} {set(cm.dim_map)}")
    require(set(attrs.coords) == set(cm.coord_map), lambda: f"{what}: attrs describe coords {sorted(attrs.coords)} but coords are {sorted(cm.coord_map)}")
    for name, coord in cm.coord_map.items():
        cd = tuple(cm.dim_map[name])
        require(set(cd) <= set(dims), lambda: f"{what}: coord {name} attached to {cd} not all in {dims}")
        if cd:
            want = tuple(size[d] for d in cd)
            require(tuple(coord.shape) == want, lambda: f"{what}: coord {name} shape {coord.shape} expected {want} ({cd})")
        check_coord_summary(coord, attrs.coords[name], f"{what}: coord {name}", _dim_attrs(attrs, name))


def _dim_attrs(attrs, name):
    if "_" in name or name == "d":
        return {}
    out = {}
    for suf in ("min", "max", "step", "units", "dtype"):
        try:
            out[suf] = getattr(attrs, f"{name}_{suf}")
        except AttributeError as exc:
            fail(f"attrs.{name}_{suf} unavailable: {exc}")
    return out


def check_coord_summary(coord, summary, what, flat=None):
    """A coordinate agrees with its own values and with the recorded summary."""
    vals = np.asarray(coord.values)
    require(tuple(vals.shape) == tuple(coord.shape), lambda: f"{what}: values shape {vals.shape} vs shape {coord.shape}")
    partial = type(coord).__name__ == "CoordPartial"
    n = vals.shape[0] if vals.ndim else 1
    require(len(coord) == n, lambda: f"{what}: len {len(coord)} but {n} values")
    atol = coord_tol(vals)
    if vals.size and not partial and vals.dtype.kind in "mMiuf":
        lo, hi = np.nanmin(vals), np.nanmax(vals)
        if not (vals.dtype.kind in "mM" and np.isnat(vals).any()):
            for nm, a, b in (("min", coord.min(), lo), ("max", coord.max(), hi), ("summary min", summary.min, lo), ("summary max", summary.max, hi)):
                require(_same_scalar(a, b, atol), lambda: f"{what}: {nm} is {a!r} but values give {b!r}")
            if flat:
                require(_same_scalar(flat["min"], lo, atol) and _same_scalar(flat["max"], hi, atol),
                        lambda: f"{what}: attrs min/max {flat['min']!r}/{flat['max']!r} but values give {lo!r}/{hi!r}")
    if not partial:
        require(_same_scalar(summary.step, coord.step, atol) if coord.step is not None else _null(summary.step),
                lambda: f"{what}: summary step {summary.step!r} coord step {coord.step!r}")
        if coord.step is not None and vals.ndim == 1 and vals.size > 1 and vals.dtype.kind in "mMiuf":
            diffs = np.diff(vals)
            st = np.asarray(coord.step)
            if vals.dtype.kind in "mM":
                ok = np.all(diffs.astype("m8[ns]") == st.astype("m8[ns]"))
            else:
                ok = np.allclose(diffs, st, rtol=1e-6, atol=4 * atol)
            require(ok, lambda: f"{what}: step {coord.step!r} but differences are {_short(diffs)}")
            if coord.evenly_sampled is False:
                fail(f"{what}: has step {coord.step!r} but says not evenly sampled")
        if coord.evenly_sampled and vals.ndim == 1:
            require(not _null(coord.step), lambda: f"{what}: evenly sampled without step")
        if vals.ndim == 1 and vals.size > 1 and vals.dtype.kind in "mMiuf":
            d = np.diff(vals)
            zero = np.timedelta64(0, "ns") if vals.dtype.kind in "mM" else 0
            if coord.sorted and not coord.reverse_sorted:
                require(np.all(d >= zero), lambda: f"{what}: claims sorted but values {_short(vals)}")
            if coord.reverse_sorted and not coord.sorted:
                require(np.all(d <= zero), lambda: f"{what}: claims reverse sorted but values {_short(vals)}")
    check_units(summary.units, coord.units, f"{what}: summary")
    require(str(summary.dtype).split("[")[0] == str(np.dtype(coord.dtype)).split("[")[0],
            lambda: f"{what}: summary dtype {summary.dtype} coord dtype {coord.dtype}")
    require(partial or np.dtype(coord.dtype) == vals.dtype, lambda: f"{what}: coord dtype {coord.dtype} values dtype {vals.dtype}")
    if flat:
        require(_same_scalar(flat["step"], coord.step, atol) if coord.step is not None else _null(flat["step"]), lambda: f"{what}: attrs step {flat['step']!r} vs {coord.step!r}")
        check_units(flat["units"], coord.units, f"{what}: attrs")


def _null(x):
    import pandas as pd

    return x is None or bool(np.all(pd.isnull(x)))


def meta_unchanged(before, after, what, attrs=(), coords=()):
    """Dims, coordinates, units and attributes of two Snaps agree (except the named ones)."""
    require(before.dims == after.dims, f"{what}: dims {after.dims}")
    require(set(before.coords) == set(after.coords), f"{what}: coords {list(after.coords)} but were {list(before.coords)}")
    for n, c in before.coords.items():
        if n in coords:
            continue
        require(after.coords[n][0] == c[0], f"{what}: coord {n}")
        check_values(after.coords[n][1], c[1], f"{what}: coord {n}")
        check_units(after.coords[n][2], c[2], f"{what}: coord {n}")
    for k in set(before.attrs) | set(after.attrs):
        if k in ("history", "coords", *attrs):
            continue
        require(attrs_equal(before.attrs.get(k), after.attrs.get(k)), lambda: f"{what}: attribute {k} is {after.attrs.get(k)!r} but was {before.attrs.get(k)!r}")
