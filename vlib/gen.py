"""Strategies that produce JSON specs of coordinates/patches, and builders for them."""
from __future__ import annotations

from functools import lru_cache

import numpy as np
from hypothesis import strategies as st

EPOCH_CHOICES = [0, 1_500_000_000, 1_700_000_000, 946_684_800, -86_400 * 365]
UNITS_FOR = {"f": ["m", "ft", "km", None], "i": ["m", None], "dt": ["s"], "td": ["s"], "s": [None], "b": [None]}


@lru_cache(None, typed=True)
def I(a, b):  # noqa: E743
    """Cached integers strategy."""
    return st.integers(a, b)


@lru_cache(None, typed=True)
def S(*opts):
    """Cached sampled_from strategy."""
    return st.sampled_from(list(opts))


@lru_cache(None, typed=True)
def L(a, b, n):
    """Cached list-of-n-integers strategy."""
    return st.lists(I(a, b), min_size=n, max_size=n)


@lru_cache(None, typed=True)
def PERM(*items):
    return st.permutations(list(items))


# ------------------------------------------------------------------ coords
def coord_spec(**kw):
    """Strategy form of draw_coord."""

    @st.composite
    def build(draw):
        return draw_coord(draw, **kw)

    return build()


def draw_coord(draw, types=("dt", "f", "i", "td"), kinds=("even", "mono", "arr"), min_n=1, max_n=8, units=True,
               allow_rev=True, n=None, forms=("array", "range")):
    """One coordinate, as a JSON dict.

    t: value type; k: even/mono/arr (unsorted)/dup (unsorted with duplicates)/const;
    start: integer start; deltas: integer gaps; scale: value per integer.
    """

    t = draw(S(*types))
    k = draw(S(*kinds))
    nn = n if n is not None else draw(I(min_n, max_n))
    m = max(nn - 1, 0)
    out = {"t": t, "k": k, "n": nn}
    out["start"] = draw(I(-20, 60))
    out["scale"] = draw(S(*SCALES[t]))
    if t == "dt":
        out["epoch"] = draw(S(*EPOCH_CHOICES))
    if k == "even":
        out["step"] = draw(I(1, 4))
        out["form"] = draw(S(*forms))
    elif k == "mono":
        out["deltas"] = draw(L(1, 5, m))
    elif k == "dupmono":
        out["deltas"] = draw(L(0, 3, m))
    elif k == "arr":
        out["deltas"] = draw(L(1, 5, m))
        out["perm"] = draw(PERM(*range(nn)))
    elif k == "dup":
        out["idx"] = draw(L(0, max(1, nn // 2), nn))
    out["rev"] = bool(allow_rev and k in ("even", "mono", "dupmono") and draw(S(False, False, True)))
    out["u"] = draw(S(*UNITS_FOR[t])) if units else ("s" if t in ("dt", "td") else None)
    return out


SCALES = {
    "dt": [1_000_000_000, 1_000_000, 4_000_000, 1, 333, 3_600_000_000_000],
    "td": [1_000_000_000, 1_000_000, 7],
    "f": [1.0, 0.5, 0.1, 0.25, 1e3, 1 / 3],
    "i": [1, 2, 10],
    "s": [1],
}


def coord_ints(spec):
    """The integer positions of a coordinate spec."""
    n, k = spec["n"], spec["k"]
    start = spec["start"]
    if k == "even":
        ints = start + spec["step"] * np.arange(n)
    elif k in ("mono", "dupmono"):
        ints = start + np.concatenate([[0], np.cumsum(spec["deltas"])])[:n].astype(int)
    elif k == "arr":
        ints = (start + np.concatenate([[0], np.cumsum(spec["deltas"])])[:n].astype(int))[np.asarray(spec["perm"], int)]
    elif k == "dup":
        ints = start + 2 * np.asarray(spec["idx"], int)
    elif k == "const":
        ints = np.full(n, start)
    else:
        raise ValueError(k)
    ints = np.asarray(ints, dtype=np.int64)
    if spec.get("rev"):
        ints = ints[::-1]
    return ints


def ints_to_values(spec, ints):
    """Map integer positions (may be fractional arrays) to coordinate values."""
    t, scale = spec["t"], spec["scale"]
    ints = np.asarray(ints)
    if t == "dt":
        base = np.datetime64(spec["epoch"], "s").astype("M8[ns]")
        return base + np.round(ints * scale).astype(np.int64).astype("m8[ns]")
    if t == "td":
        return np.round(ints * scale).astype(np.int64).astype("m8[ns]")
    if t == "f":
        return ints * float(scale)
    if t == "i":
        return (ints * int(scale)).astype(np.int64)
    if t == "s":
        return np.array([f"s{i:+04d}" for i in ints.tolist()])
    raise ValueError(t)


def coord_values(spec):
    return ints_to_values(spec, coord_ints(spec))


def build_coord(spec):
    """A dascore coordinate for the spec (through either of the two entry forms)."""
    from dascore.core import get_coord

    vals = coord_values(spec)
    u = spec.get("u")
    if spec["k"] == "even" and spec.get("form") == "range" and spec["n"] > 0 and spec["t"] != "s":
        sign = -1 if spec.get("rev") else 1
        step = sign * spec["step"] * spec["scale"]
        if spec["t"] in ("dt", "td"):
            step = np.timedelta64(int(step), "ns")
        elif spec["t"] == "f":
            step = float(step)
        start = vals[0]
        return get_coord(start=start, step=step, shape=len(vals), units=u)
    return get_coord(data=vals, units=u)


def value_json(v):
    """numpy scalar -> JSON."""
    v = np.asarray(v)
    if v.dtype.kind == "M":
        return {"dt": int(v.astype("M8[ns]").astype(np.int64))}
    if v.dtype.kind == "m":
        return {"td": int(v.astype("m8[ns]").astype(np.int64))}
    if v.dtype.kind in "iu":
        return int(v)
    if v.dtype.kind == "f":
        return float(v)
    if v.dtype.kind == "b":
        return bool(v)
    return str(v)


def value_from_json(v):
    if isinstance(v, dict):
        if "dt" in v:
            return np.datetime64(v["dt"], "ns")
        if "td" in v:
            return np.timedelta64(v["td"], "ns")
    return v


# ------------------------------------------------------------------ data
DATA_KINDS = ("uniq", "float", "int", "nan", "cplx", "f4", "bool", "i2")


def data_spec(kinds=("uniq", "float", "int", "nan")):
    return st.fixed_dictionaries({"k": st.sampled_from(list(kinds)), "seed": st.integers(0, 999)})


def build_data(spec, shape):
    rng = np.random.default_rng(spec["seed"])
    n = int(np.prod(shape)) if len(shape) else 1
    k = spec["k"]
    if k == "uniq":
        out = rng.permutation(n).astype(float) + 1
    elif k == "float":
        out = np.round(rng.normal(0, 3, n), 3)
    elif k == "f4":
        out = np.round(rng.normal(0, 3, n), 2).astype(np.float32)
    elif k == "int":
        out = rng.integers(-50, 50, n)
    elif k == "i2":
        out = rng.integers(-50, 50, n).astype(np.int16)
    elif k == "nan":
        out = np.round(rng.normal(0, 3, n), 3)
        out[rng.random(n) < 0.25] = np.nan
    elif k == "cplx":
        out = np.round(rng.normal(0, 3, n), 3) + 1j * np.round(rng.normal(0, 3, n), 3)
    elif k == "bool":
        out = rng.random(n) < 0.5
    elif k == "pos":
        out = np.round(rng.random(n) * 5 + 0.5, 3)
    else:
        raise ValueError(k)
    return out.reshape(shape)


# ------------------------------------------------------------------ patches
DIM_NAMES = ["time", "distance", "depth", "chan"]
NAME_TYPES = {"time": ("dt", "td", "f"), "distance": ("f", "i"), "depth": ("f", "i", "td"), "chan": ("i", "f")}


def attrs_spec():
    return st.fixed_dictionaries(
        {},
        optional={
            "tag": st.sampled_from(["", "a", "some tag", "x__y"]),
            "station": st.sampled_from(["", "ST1", "st-2"]),
            "network": st.sampled_from(["", "UU"]),
            "data_units": st.sampled_from(["m/s", "strain", "1/s", "m", None]),
            "data_type": st.sampled_from(["", "velocity", "strain_rate"]),
            "data_category": st.sampled_from(["", "DAS"]),
            "instrument_id": st.sampled_from(["", "inst 1"]),
            "gauge_length": st.sampled_from([1.0, 10.5, 3]),
            "custom": st.sampled_from(["bob", "", "a,b"]),
            "history": st.sampled_from([[], ["first", "second(x=1)"]]),
        },
    )


ATTRS = attrs_spec()


def patch_spec(**kw):
    @st.composite
    def build(draw):
        return draw_patch(draw, **kw)

    return build()


def draw_patch(draw, dims=None, min_dims=1, max_dims=3, min_n=1, max_n=6, kinds=("even", "mono", "arr"), types=None,
               extra=True, extra_2d=True, data=("uniq", "float", "int"), attrs=True, units=True, allow_rev=True,
               even_dims=(), forms=("array", "range"), extra_free=True, dim_kw=None):
    if dims is None:
        names = list(draw(PERM(*DIM_NAMES)))[: draw(I(min_dims, max_dims))]
    else:
        names = list(draw(PERM(*dims)))
    out = {"dims": [], "extra": [], "data": {"k": draw(S(*data)), "seed": draw(I(0, 999))}, "attrs": {}}
    for nm in names:
        tt = types if isinstance(types, tuple) else (types or {}).get(nm, NAME_TYPES[nm])
        kk = ("even",) if nm in even_dims else kinds
        kw = dict(types=tt, kinds=kk, min_n=min_n, max_n=max_n, units=units, allow_rev=allow_rev, forms=forms)
        kw.update((dim_kw or {}).get(nm, {}))
        out["dims"].append([nm, draw_coord(draw, **kw)])
    if extra:
        k = draw(S(0, 0, 1, 1, 2, 3))
        pool = ["lat", "qual", "label"]
        for j in range(k):
            choices = [1, 1, 1]
            if extra_2d and len(names) > 1:
                choices.append(2)
            if extra_free:
                choices.append(0)
            ne = draw(S(*choices))
            ee = list(draw(PERM(*names)))[:ne]
            t = draw(S("f", "i", "td", "dt")) if ne < 2 else draw(S("f", "i"))
            u = draw(S(*UNITS_FOR[t])) if units else ("s" if t in ("dt", "td") else None)
            out["extra"].append({"name": pool[j], "dims": ee, "t": t, "u": u, "scale": draw(S(*SCALES[t])),
                                 "epoch": draw(S(*EPOCH_CHOICES)) if t == "dt" else 0, "seed": draw(I(0, 99)),
                                 "mode": draw(S("uniq", "sorted", "dup")), "n": 0 if ne else draw(I(1, 4))})
    if attrs:
        out["attrs"] = draw(ATTRS)
    return out


def extra_values(e, shape):
    rng = np.random.default_rng(e["seed"])
    n = int(np.prod(shape))
    if e["mode"] == "uniq":
        ints = rng.permutation(n) + 1
    elif e["mode"] == "sorted":
        ints = np.arange(n) * 2 + 3
    else:
        ints = rng.integers(0, max(2, n // 2 + 1), n)
    spec = {"t": e["t"], "scale": e["scale"], "epoch": e.get("epoch", 0)}
    return ints_to_values(spec, ints.astype(np.int64)).reshape(shape)


def build_patch(spec):
    """(patch, model) for a patch spec. The model holds plain arrays."""
    import dascore as dc
    from dascore.core import get_coord

    dims = tuple(n for n, _ in spec["dims"])
    coords, model_coords = {}, {}
    for nm, cs in spec["dims"]:
        coords[nm] = build_coord(cs)
        model_coords[nm] = ((nm,), coord_values(cs), cs.get("u"))
    shape = tuple(cs["n"] for _, cs in spec["dims"])
    size = dict(zip(dims, shape))
    for e in spec.get("extra", ()):
        shp = tuple(size[d] for d in e["dims"]) if e["dims"] else (e["n"],)
        vals = extra_values(e, shp)
        c = get_coord(data=vals, units=e.get("u"))
        coords[e["name"]] = (tuple(e["dims"]), c)
        model_coords[e["name"]] = (tuple(e["dims"]), vals, e.get("u"))
    data = build_data(spec["data"], shape)
    attrs = dict(spec.get("attrs") or {})
    patch = dc.Patch(data=data.copy(), coords=coords, dims=dims, attrs=attrs)
    return patch, Model(dims, data, model_coords, attrs)


class Model:
    """A labelled array made of plain numpy things; the oracle's view of a patch."""

    def __init__(self, dims, data, coords, attrs=None):
        self.dims = tuple(dims)
        self.data = np.asarray(data)
        self.coords = dict(coords)  # name -> (dims, values, units)
        self.attrs = dict(attrs or {})

    def copy(self):
        return Model(self.dims, self.data.copy(), dict(self.coords), dict(self.attrs))

    def axis(self, dim):
        return self.dims.index(dim)

    def take(self, dim, index):
        """Apply an integer index array along one dimension, to data and all coords."""
        index = np.asarray(index, dtype=int)
        data = np.take(self.data, index, axis=self.axis(dim))
        coords = {}
        for nm, (cd, vals, u) in self.coords.items():
            if dim in cd:
                vals = np.take(vals, index, axis=cd.index(dim))
            coords[nm] = (cd, vals, u)
        return Model(self.dims, data, coords, self.attrs)

    def transpose(self, dims):
        ax = [self.dims.index(d) for d in dims]
        return Model(dims, np.transpose(self.data, ax), self.coords, self.attrs)
