"""C29: plots draw the data at their labels, on the requested colour scale."""
from __future__ import annotations

import warnings

import numpy as np
from hypothesis import strategies as st

from vlib import gen
from vlib.cmp import Snap, check_same_snap, check_values, require
from vlib.core import facet
from vlib.gen import I, S

RULE = ("A case is a patch of one or two dimensions (any types, evenly or unevenly spaced, forward or reversed, some with missing or negative values, units, data types) and plotting options: scale (none, number, pair, "
        "percent; relative or absolute), logarithm, gap colour and factor, shading, colours by coordinate or array. The oracle reads the artists which the plot made (images, meshes, lines, points, colour limits, labels) and computes "
        "where each sample has to be. Non-trivial = more than one sample along both axes and data which are not constant.")
ASSUMPTIONS = [
    "Images of evenly sampled axes span the labels from first to last, so a sample is drawn within half a step of its label.",
    "If one axis is not monotonic the image only spans the labels of both (as documented), and what is checked is its orientation.",
    "Time stamps are drawn to the microsecond (matplotlib's dates), so samples of plots with nanosecond steps are only compared by position in the image.",
    "Nothing is rendered; the artists are what is checked.",
]


def quiet(func):
    def check(spec, ctx):
        import matplotlib

        matplotlib.use("Agg")
        import matplotlib.pyplot as plt

        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                return func(spec, ctx, plt)
            finally:
                plt.close("all")

    check.__doc__ = func.__doc__
    return check


def drawn(vals):
    """The numbers at which matplotlib draws the labels."""
    import matplotlib.dates as mdates

    vals = np.asarray(vals)
    if vals.dtype.kind == "M":
        return mdates.date2num(vals.astype("M8[ns]"))
    if vals.dtype.kind == "m":
        return vals.astype("m8[ns]").astype(np.int64) / 1e9
    return vals.astype(float)


def tolerance(vals):
    """How far the drawn number may be off through its own resolution."""
    vals = np.asarray(vals)
    if vals.dtype.kind == "M":
        return 3e-11  # a microsecond and round-off, in days
    return 1e-9 * (np.max(np.abs(drawn(vals)), initial=0) + 1e-6)


def unit_text(units):
    from dascore.units import get_quantity_str

    return get_quantity_str(units)


def check_axis_label(ax, axis, name, patch, what):
    import string

    coord = patch.get_coord(name)
    text = getattr(ax, f"get_{axis}label")()
    require(text.startswith(string.capwords(name)), f"{what}: the {axis} axis is labelled {text!r}, it is {name}")
    if coord.units is not None and coord.dtype.kind not in "Mm":
        from dascore.units import get_quantity

        if get_quantity(coord.units) != get_quantity("1/s"):
            require(f"[{unit_text(coord.units)}]" in text, f"{what}: the {axis} axis is labelled {text!r}, its units are {coord.units}")


SCALES = [None, None, 0.5, 1.0, 0.1, (0.1, 0.9), (0.0, 1.0), (0.25, 0.5), "20%", "pct_pair"]
ABS = [2.5, -3.0, (-1.0, 4.0), (0.5, 2.0), 1, (0, 3)]


def scale_arg(spec):
    from dascore.units import get_quantity

    if spec["stype"] == "absolute":
        return ABS[spec["sc"] % len(ABS)], None
    out = SCALES[spec["sc"] % len(SCALES)]
    if out == "20%":
        return 20 * get_quantity("percent"), 0.2
    if out == "pct_pair":
        return (10 * get_quantity("percent"), 90 * get_quantity("percent")), (0.1, 0.9)
    return out, None


def limits(spec, data):
    """The colour limits as documented."""
    scale, plain = scale_arg(spec)
    scale = scale if plain is None else plain
    lo, hi = np.nanmin(data), np.nanmax(data)
    if spec["stype"] == "absolute":
        return (-abs(scale), abs(scale)) if np.ndim(scale) == 0 else tuple(scale)
    if scale is None:
        q1, q3 = np.nanpercentile(data, [25, 75])
        return max(q1 - 1.5 * (q3 - q1), lo), min(q3 + 1.5 * (q3 - q1), hi)
    if np.ndim(scale) == 0:
        mid, half = np.nanmean(data), 0.5 * (hi - lo)
        half = half if half else 1e-10
        return mid - scale * half, mid + scale * half
    return lo + scale[0] * (hi - lo), lo + scale[1] * (hi - lo)


@st.composite
def fall_case(draw):
    names = draw(S(("time", "distance"), ("time", "distance"), ("depth", "time"), ("depth", "chan")))
    kinds = draw(S(("even",), ("mono",), ("even", "mono"), ("even", "mono", "arr")))
    ps = gen.draw_patch(draw, dims=names, min_n=2, max_n=8, kinds=kinds, data=("uniq", "float", "int", "nan", "f4"))
    return {"p": ps, "third": draw(S(False, False, False, True)), "stype": draw(S("relative", "relative", "absolute")), "sc": draw(I(0, 99)), "log": draw(S(False, False, False, True)), "cbar": draw(S(True, False)),
            "gap": draw(S(None, None, "red", "grey")), "factor": draw(S(1.5, 1.5, 2.5, 1.1)), "dtype": draw(S("", "velocity", "strain_rate")), "du": draw(S(None, "m/s", "1/s"))}


@facet("waterfall", fall_case(), quick=400)
@quiet
def check_waterfall(spec, ctx, plt):
    """images and meshes of the data."""
    import dascore as dc

    patch, model = gen.build_patch(spec["p"])
    patch = patch.update_attrs(data_type=spec["dtype"], data_units=spec["du"])
    if not np.isfinite(patch.data).any():
        return
    plotted = patch
    if spec["third"]:
        plotted = dc.Patch(data=patch.data[:, None, :], dims=(patch.dims[0], "event", patch.dims[1]), attrs=patch.attrs,
                           coords={**{k: (patch.coords.dim_map[k], c) for k, c in patch.coords.coord_map.items()}, "event": [1.5]})
    scale, _ = scale_arg(spec)
    kw = {"scale": scale, "scale_type": spec["stype"], "log": spec["log"], "cbar": spec["cbar"]}
    if spec["gap"]:
        kw.update(gap_color=spec["gap"], gap_factor=spec["factor"])
    what = f"waterfall({kw}) of {patch.dims} {[c['k'] + ('r' if c.get('rev') else '') for _, c in spec['p']['dims']]}"
    before = Snap(plotted)
    _, own = plt.subplots()
    ax = plotted.viz.waterfall(ax=own, **kw)
    require(ax is own, f"{what}: drawn on other axes than the given ones")
    check_same_snap(before, Snap(plotted), f"the input of {what}")
    data = np.asarray(patch.data, dtype=float)
    if spec["log"]:
        data = np.log10(np.abs(data) + np.finfo(float).eps)
    ydim, xdim = patch.dims
    labels = [patch.get_array(d) for d in patch.dims]
    even = [patch.get_coord(d).evenly_sampled for d in patch.dims]
    mono = [len(v) < 2 or np.all(v[1:] > v[:-1]) or np.all(v[1:] < v[:-1]) for v in labels]
    art = [*ax.images, *ax.collections]
    require(len(art) == 1, f"{what}: {len(art)} images")
    art = art[0]
    got = np.ma.asarray(art.get_array())
    if ax.images:
        require(all(even) or not all(mono), f"{what}: drawn as evenly sampled image")
        require(art.origin == "lower", f"{what}: origin {art.origin}")
        filled = np.ma.filled(got.astype(float), np.nan)
        require(filled.shape == data.shape, f"{what}: an image of {filled.shape}")
        ext = art.get_extent()
        rows = []
        for lim, vals, ok, exact, name in ((ext[2:], labels[0], mono[0], even[0], ydim), (ext[:2], labels[1], mono[1], even[1], xdim)):
            at = drawn(vals)
            n = len(at)
            row = np.arange(n)
            if ok:
                row = row if (vals[-1] >= vals[0]) == (lim[1] >= lim[0]) else row[::-1]
                centre = (lim[0] + (np.arange(n) + 0.5) * (lim[1] - lim[0]) / n)[row]
                step = np.max(np.abs(np.diff(at)))
                require(not exact or np.max(np.abs(centre - at)) <= 0.51 * step + tolerance(vals), lambda: f"{what}: samples labelled {name}={at} are drawn at {centre}")
            rows.append(row)
        check_values(filled[np.ix_(*rows)], data, f"{what}: the image at the labels", rtol=1e-6 if spec["p"]["data"]["k"] == "f4" else 0)
    else:
        require(all(mono), f"{what}: a mesh of labels which are not monotonic")
        mesh = art.get_coordinates()
        if got.ndim == 1:
            got = got.reshape(mesh.shape[0] - 1, mesh.shape[1] - 1)
        filled = np.ma.filled(got.astype(float), np.nan)
        ye, xe = mesh[:, 0, 1], mesh[0, :, 0]
        for edge, vals, name in ((ye, labels[0], ydim), (xe, labels[1], xdim)):
            at = drawn(vals)
            tol = tolerance(vals)
            require(len(edge) >= len(at) + 1, f"{what}: {len(edge)} edges for {len(at)} samples of {name}")
            if np.min(np.abs(np.diff(at))) < 10 * tol:
                return
        # the cell which holds each label has its value
        cells = [np.array([np.flatnonzero((np.minimum(e[:-1], e[1:]) < v) & (v < np.maximum(e[:-1], e[1:]))) for v in drawn(vals)]) for e, vals in ((ye, labels[0]), (xe, labels[1]))]
        for c, name in zip(cells, patch.dims):
            require(c.shape[1:] == (1,) and len(np.unique(c)) == len(c), lambda: f"{what}: labels of {name} in cells {c.tolist()}")
        ri, ci = cells[0][:, 0], cells[1][:, 0]
        check_values(filled[np.ix_(ri, ci)], data, f"{what}: the mesh at the labels", rtol=1e-6 if spec["p"]["data"]["k"] == "f4" else 0)
        for edge, vals, idx, name in ((ye, labels[0], ri, ydim), (xe, labels[1], ci, xdim)):
            at = drawn(vals)
            gaps = np.abs(np.diff(at))
            want_gap = (gaps > np.median(gaps) * spec["factor"] * (1 + 1e-9)) if spec["gap"] else np.zeros(len(gaps), bool)
            maybe = np.abs(gaps - np.median(gaps) * spec["factor"]) < 1e-6 * np.median(gaps)
            between = np.diff(idx) * np.sign(idx[-1] - idx[0]) > 1
            require(np.all((between == want_gap) | maybe), lambda: f"{what}: gaps of {name} {at} drawn {between}, expected {want_gap}")
            # cells meet halfway between the labels
            for i in range(len(at) - 1):
                if not between[i]:
                    mid = (at[i] + at[i + 1]) / 2
                    require(np.min(np.abs(edge - mid)) <= tolerance(vals) + 1e-9 * abs(gaps[i]), lambda: f"{what}: cells of {name} {at} have edges {edge}, none at {mid}")
        other = np.ones(filled.shape, bool)
        other[np.ix_(ri, ci)] = False
        require(np.all(np.isnan(filled[other])), f"{what}: gaps hold values")
        if spec["gap"]:
            from matplotlib.colors import to_rgba

            require(np.allclose(art.get_cmap().get_bad(), to_rgba(spec["gap"])), f"{what}: gaps drawn in {art.get_cmap().get_bad()}")
    lo, hi = limits(spec, data)
    clim = art.get_clim()
    require(np.allclose(clim, (lo, hi), rtol=1e-5 if spec["p"]["data"]["k"] == "f4" else 1e-9, atol=1e-9 * max(abs(lo), abs(hi), 1e-30)), lambda: f"{what}: colour limits {clim}, expected {(lo, hi)}")
    check_axis_label(ax, "y", ydim, patch, what)
    check_axis_label(ax, "x", xdim, patch, what)
    y0, y1 = ax.get_ylim()
    timelike = labels[0].dtype.kind in "Mm"
    if ax.images and mono[0]:
        require((y1 > y0) != timelike, f"{what}: the y axis runs from {y0} to {y1}")
    bars = [a for a in ax.get_figure().axes if a is not ax]
    require(len(bars) == (1 if spec["cbar"] else 0), f"{what}: {len(bars)} colour bars")
    if bars:
        text = bars[0].get_ylabel()
        require(spec["dtype"] in text and (spec["du"] is None or unit_text(patch.attrs.data_units) in text) and ("log" in text) == spec["log"], f"{what}: colour bar labelled {text!r}")
    ctx.nontrivial(min(patch.shape) > 1 and np.nanmax(data) > np.nanmin(data))
    ctx.label(f"{'image' if ax.images else 'mesh'}/{spec['stype']}")


@st.composite
def wiggle_case(draw):
    names = draw(S(("time",), ("time", "distance"), ("time", "distance"), ("depth", "chan")))
    ps = gen.draw_patch(draw, dims=names, min_n=2, max_n=7, kinds=("even", "mono"), data=("uniq", "float", "int"))
    return {"p": ps, "dim": draw(S(*names)), "scale": draw(S(1, 0.5, 2.0)), "shade": draw(S(False, True)), "color": draw(S("black", "red"))}


@facet("wiggle", wiggle_case(), quick=160)
@quiet
def check_wiggle(spec, ctx, plt):
    """traces at their offsets."""
    patch, model = gen.build_patch(spec["p"])
    dim = spec["dim"]
    what = f"wiggle({dim}, {spec['scale']}) of {patch.dims}"
    before = Snap(patch)
    ax = patch.viz.wiggle(dim=dim, scale=spec["scale"], shade=spec["shade"], color=spec["color"])
    check_same_snap(before, Snap(patch), f"the input of {what}")
    x = drawn(patch.get_array(dim))
    lines = ax.lines
    if patch.ndim == 1:
        require(len(lines) == 1, f"{what}: {len(lines)} lines")
        want = [np.asarray(patch.data, float)]
    else:
        data = np.asarray(patch.transpose(dim, ...).data, float)
        gap = np.median(data.max(axis=0) - data.min(axis=0)) * spec["scale"]
        want = [data[:, i] + gap * i for i in range(data.shape[1])]
        require(len(lines) == len(want), f"{what}: {len(lines)} lines")
        other = next(d for d in patch.dims if d != dim)
        check_axis_label(ax, "x", dim, patch, what)
        check_axis_label(ax, "y", other, patch, what)
        y0, y1 = ax.get_ylim()
        require(y0 > y1, f"{what}: the y axis runs from {y0} to {y1}")
        require(len(ax.collections) == (len(want) if spec["shade"] else 0), f"{what}: {len(ax.collections)} shaded areas")
    for i, (line, w) in enumerate(zip(lines, want)):
        got = np.asarray(line.get_xdata(orig=True))
        check_values(drawn(got) if got.dtype.kind in "Mmfiu" else got, x, f"{what}: labels of trace {i}", rtol=1e-12, atol=tolerance(patch.get_array(dim)))
        check_values(np.asarray(line.get_ydata(), float), w, f"{what}: trace {i}", rtol=1e-9, atol=1e-9 * np.abs(w).max())
        require(line.get_color() == spec["color"], f"{what}: drawn in {line.get_color()}")
    ctx.nontrivial(patch.ndim == 2 and patch.size > len(x))


@st.composite
def fiber_case(draw):
    return {"n": draw(I(2, 8)), "seed": draw(I(0, 999)), "x": draw(S("lat", "lon", "distance", "array")), "y": draw(S("lat", "lon", "distance", "array")), "c": draw(S("lat", "distance", "array", "array")),
            "scale": draw(S(None, 0.5, 1.0, 1, (-1.0, 4.0), (0.5, 2.0))), "stype": draw(S("relative", "absolute")), "units": draw(S(None, "m"))}


@facet("map_fiber", fiber_case(), quick=120)
@quiet
def check_map(spec, ctx, plt):
    """points at the coordinates, coloured by the parameter."""
    import dascore as dc

    rng = np.random.default_rng(spec["seed"])
    n = spec["n"]
    coords = {"time": np.arange(3.0), "distance": np.arange(n) * 2.0 + 5, "lat": ("distance", rng.normal(size=n)), "lon": ("distance", rng.permutation(n) * 1.5)}
    patch = dc.Patch(data=rng.normal(size=(3, n)), dims=("time", "distance"), coords=coords)
    if spec["units"]:
        patch = patch.set_units(lat="m", distance="m")
    extra = rng.normal(size=(3, n)) * 3
    val = {"lat": patch.get_array("lat"), "lon": patch.get_array("lon"), "distance": patch.get_array("distance")}
    arg = {k: (spec[k] if spec[k] != "array" else extra[i]) for i, k in enumerate("xyc")}
    want = {k: (val[spec[k]] if spec[k] != "array" else extra[i]) for i, k in enumerate("xyc")}
    what = f"map_fiber({spec})"
    ax = patch.viz.map_fiber(arg["x"], arg["y"], arg["c"], scale=spec["scale"], scale_type=spec["stype"])
    require(len(ax.collections) == 1, f"{what}: {len(ax.collections)} sets of points")
    pts = ax.collections[0]
    check_values(np.asarray(pts.get_offsets())[:, 0], want["x"], f"{what}: x")
    check_values(np.asarray(pts.get_offsets())[:, 1], want["y"], f"{what}: y")
    check_values(np.asarray(pts.get_array()), want["c"], f"{what}: colours")
    if spec["scale"] is not None:
        c = want["c"]
        if isinstance(spec["scale"], (int, float)):
            half = 0.5 * (c.max() - c.min()) if spec["stype"] == "relative" else 1
            lim = (c.mean() - spec["scale"] * half, c.mean() + spec["scale"] * half)
        else:
            lim = spec["scale"]
        require(np.allclose(pts.get_clim(), lim), f"{what}: colour limits {pts.get_clim()}, expected {lim}")
    if spec["x"] != "array":
        check_axis_label(ax, "x", spec["x"], patch, what)
    if spec["y"] != "array":
        check_axis_label(ax, "y", spec["y"], patch, what)
    ctx.nontrivial(spec["x"] != spec["y"])


@st.composite
def spec_case(draw):
    names = draw(S(("time", "distance"), ("depth", "time")))
    dim = draw(S("time", names[0] if names[0] != "time" else names[1]))
    ps = gen.draw_patch(draw, dims=names, min_n=2, max_n=5, kinds=("even",), data=("float",), allow_rev=False, dim_kw={dim: {"kinds": ("even",), "min_n": 8, "max_n": 20}})
    return {"p": ps, "dim": dim, "plot": draw(S("specplot", "specplot", "spectrogram")), "aggr": draw(S("time", "frequency")), "log": draw(S(False, True)), "scale": draw(S((0, 1), (0.1, 0.5)))}


@facet("spectra", spec_case(), quick=120)
@quiet
def check_spectra(spec, ctx, plt):
    """plots of spectra and spectrograms."""
    patch, model = gen.build_patch(spec["p"])
    dim = spec["dim"]
    other = next(d for d in patch.dims if d != dim)
    what = f"{spec['plot']}({dim}, {spec['aggr']}, log={spec['log']}) of {patch.dims}"
    if spec["plot"] == "specplot":
        ft = patch.dft(dim, real=True).abs()
        log = spec["log"] and dim in ("time",)
        ax = ft.viz.specplot(log=log, scale=tuple(spec["scale"]))
        want = np.asarray(ft.data)
        dims, pat = ft.dims, ft
        lim = want.min() + np.array(spec["scale"]) * (want.max() - want.min())
        require(np.allclose(ax.images[0].get_clim(), lim), f"{what}: colour limits {ax.images[0].get_clim()}, expected {lim}")
        axis = "yx"[ft.dims.index(f"ft_{dim}")]
        if log:
            require(getattr(ax, f"get_{axis}scale")() == "log", f"{what}: the axis of frequencies is {getattr(ax, f'get_{axis}scale')()}")
        name = {"time": "Frequency", "distance": "Wavenumber"}.get(dim)
        if name:
            require(getattr(ax, f"get_{axis}label")().startswith(name), f"{what}: labelled {getattr(ax, f'get_{axis}label')()}")
    else:
        ax = patch.viz.spectrogram(dim=dim, aggr_domain=spec["aggr"], nperseg=4)
        if spec["aggr"] == "time":
            pat = patch.aggregate(other, method="mean", dim_reduce="squeeze").spectrogram(dim, nperseg=4)
        else:
            pat = patch.spectrogram(dim, nperseg=4).aggregate(other, method="mean").squeeze(other)
        want, dims = np.asarray(pat.data), pat.dims
    require(len(ax.images) == 1, f"{what}: {len(ax.images)} images")
    check_values(np.asarray(ax.images[0].get_array(), float), want, f"{what}: the image", rtol=1e-9, atol=1e-12 * np.abs(want).max())
    ext = ax.images[0].get_extent()
    for lims, d in ((ext[2:], dims[0]), (ext[:2], dims[1])):
        at = drawn(pat.get_array(d))
        require(np.allclose(lims, (at[0], at[-1]), rtol=1e-9, atol=tolerance(pat.get_array(d))), f"{what}: {d} spans {lims}, labels {at}")
    ctx.nontrivial(True)


FACETS = [check_waterfall, check_wiggle, check_map, check_spectra]
