"""Generators and builders of collections of patches (streams of contiguous/gapped segments)."""
from __future__ import annotations

import numpy as np

from . import gen
from .gen import I, L, PERM, S

TSCALE = {"dt": [1_000_000_000, 10_000_000, 4_000_000], "td": [1_000_000_000, 1_000_000], "f": [1.0, 0.25, 0.5]}
EPOCH = 1_500_000_000


def draw_streams(draw, max_streams=3, max_segs=4, max_n=5, tts=("dt", "dt", "f", "td"), gaps=(0, 0, 0, 3, 7), overlaps=(), same_shape=True, min_n=1, min_segs=1, dim_orders=True, extra=True,
                 seg_dim="time"):
    """A JSON spec of several streams; each is a series of segments along seg_dim."""
    tt = draw(S(*tts))
    out = {"tt": tt, "scale": draw(S(*TSCALE[tt])), "seg_dim": seg_dim, "streams": [], "shuffle": draw(I(0, 999))}
    ns = draw(I(1, max_streams))
    for s in range(ns):
        segs = []
        pos = draw(I(0, 6))
        for k in range(draw(I(min_segs, max_segs))):
            n = draw(I(min_n, max_n))
            if k:
                if overlaps and draw(I(0, 3)) == 0:
                    pos -= min(draw(S(*overlaps)), pos)
                else:
                    pos += draw(S(*gaps))
            segs.append([pos, n])
            pos += n
        out["streams"].append({"station": ["", "A", "B"][s], "tag": draw(S("", "x", "raw y")), "network": draw(S("", "N1")), "type": draw(S("", "velocity")),
                               "dims": (["time", "distance"] if not dim_orders or draw(S(True, True, False)) else ["distance", "time"]), "nd": draw(I(1, 3)),
                               "d0": draw(I(0, 3)), "step": 1, "segs": segs, "lat": bool(extra and draw(S(False, False, True))), "units": draw(S(None, "m/s"))})
    return out


def code(stream, seg, t, d):
    return ((stream * 50 + seg) * 4096 + (t + 1000)) * 16 + d


def decode(v):
    v = np.asarray(v).astype(np.int64)
    d = v % 16
    v = v // 16
    t = v % 4096 - 1000
    v = v // 4096
    return v // 50, v % 50, t, d


def label(spec, ints):
    """Segment-dimension values for integer positions."""
    return gen.ints_to_values({"t": spec["tt"], "scale": spec["scale"], "epoch": EPOCH}, np.asarray(ints))


def build_patches(spec):
    """List of (stream index, segment index, patch)."""
    import dascore as dc

    out = []
    for s, st in enumerate(spec["streams"]):
        for k, (start, n) in enumerate(st["segs"]):
            t = start + np.arange(n) * st["step"]
            d = np.arange(st["nd"]) + st["d0"]
            data = code(s, k, t[:, None], np.arange(st["nd"])[None, :]).astype(float)
            seg_dim = spec.get("seg_dim", "time")
            if seg_dim == "time":
                coords = {"time": label(spec, t), "distance": d * spec.get("ds", 2.0)}
            else:  # segments along distance; time is the fixed dimension
                coords = {"distance": t * spec.get("ds", 2.0), "time": label(spec, d)}
            other = "distance" if seg_dim == "time" else "time"
            names = [seg_dim, other]
            if st["dims"][0] != "time":
                data = data.T
                names = names[::-1]
            if seg_dim != "time":
                names = names  # same orientation rule, other dimension names
            if st["lat"]:
                coords["lat"] = (other, np.arange(st["nd"]) * 0.5 + 40)
            attrs = {"station": st["station"], "tag": st["tag"], "network": st["network"], "data_type": st["type"]}
            if st["units"]:
                attrs["data_units"] = st["units"]
            out.append((s, k, dc.Patch(data=data, coords=coords, dims=tuple(names), attrs=attrs)))
    rng = np.random.default_rng(spec["shuffle"])
    order = rng.permutation(len(out)) if spec["shuffle"] % 3 else np.arange(len(out))
    return [out[i] for i in order]


def make_spool(patches, kind, tmp):
    """A spool over the patches: memory, directory or single-file."""
    import dascore as dc

    if kind == "memory":
        return dc.spool(list(patches))
    if kind == "file":
        path = tmp / "all.h5"
        dc.write(dc.spool(list(patches)), path, "dasdae")
        return dc.spool(path)
    d = tmp / "data"
    d.mkdir()
    for i, p in enumerate(patches):
        sub = d if i % 3 else d / f"sub{i % 2}"
        sub.mkdir(exist_ok=True)
        dc.write(p, sub / f"p{i:03d}.h5", "dasdae")
    return dc.spool(d).update(progress=None)


def key(patch):
    """Identity of a generated patch (first and last sample code, shape and dims)."""
    a = np.asarray(patch.data).ravel()
    return (tuple(patch.dims), tuple(patch.shape), float(a[0]) if a.size else None, float(a[-1]) if a.size else None)


def ties(patches, dim="time"):
    """Whether some patches start at the same label (so their order isn't determined)."""
    starts = [p.get_coord(dim).min() for p in patches]
    return len(set(starts)) < len(starts)
