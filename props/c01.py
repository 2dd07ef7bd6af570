"""C01: every patch an operation returns is internally coherent."""
from __future__ import annotations

import numpy as np
from hypothesis import strategies as st

from vlib import gen, ops
from vlib.cmp import Snap, check_coherent, check_same_snap, require
from vlib.core import facet
from vlib.gen import I, S

RULE = ("A case is a patch (1-3 dims of mixed kinds/types, extra coordinates, attributes) and a chain of 1-6 operations drawn from a catalogue of "
        "about 40 operation families with random applicable arguments; after each one the returned patch is examined. Non-trivial = at least two "
        "operations of the chain returned a patch that differs in shape, coordinates or data from its input.")
ASSUMPTIONS = ["An operation may refuse its arguments (raise); refusals are judged by the property of that operation, not here."]


@st.composite
def chain_case(draw):
    ps = gen.draw_patch(draw, kinds=("even", "even", "mono", "arr"), max_n=draw(S(4, 6, 14)), data=("uniq", "float", "float", "int", "nan", "cplx", "f4"))
    return {"p": ps, "ops": [list(x) for x in draw(st.lists(st.tuples(S(*ops.NAMES), I(0, 100_000)), min_size=1, max_size=6))]}


def differs(a, b):
    return a.dims != b.dims or a.shape != b.shape or a.coords != b.coords or a.data is not b.data


@facet("chain", chain_case(), quick=7000, weight=5)
def check_chain(spec, ctx):
    """coherence of every patch along a chain of random operations."""
    patch, _ = gen.build_patch(spec["p"])
    check_coherent(patch, "constructed patch")
    done, changed = [], 0
    for name, seed in spec["ops"]:
        pl = ops.plan(name, seed, patch)
        if pl is None:
            continue
        label, func, args, kwargs = pl
        try:
            out = ops.invoke(func, label, patch, args, kwargs)
        except Exception as exc:  # noqa: BLE001
            ctx.label(f"refused:{label}:{type(exc).__name__}")
            continue
        done.append(f"{label}{args if len(str(args)) < 200 else '(..)'}{kwargs if len(str(kwargs)) < 200 else '{..}'}")
        check_coherent(out, " -> ".join(done))
        str(out)
        if label not in ("dft",) and not any(x.startswith("ft_") for x in out.coords.coord_map):
            pass
        changed += differs(patch, out)
        ctx.label(label)
        if out.data.nbytes > 200_000:
            break
        patch = out
    ctx.nontrivial(changed >= 2)


# ---------------------------------------------------------------- construction
@st.composite
def build_case(draw):
    ps = gen.draw_patch(draw, kinds=("even", "mono", "arr", "dup", "const", "dupmono"), max_n=6, min_n=1)
    return {"p": ps, "how": draw(S("manager", "dict", "attrs", "pieces", "from_parts", "wrong_shape", "wrong_dims", "units_in_attrs", "empty")), "r": draw(I(0, 999))}


@facet("construct", build_case(), quick=1500)
def check_construct(spec, ctx):
    """every way of constructing a patch reconciles data, coords and attrs (or refuses)."""
    import dascore as dc
    from dascore.core.coordmanager import get_coord_manager

    patch, model = gen.build_patch(spec["p"])
    how = spec["how"]
    check_coherent(patch, "constructed")
    rng = np.random.default_rng(spec["r"])
    ctx.label(how)
    if how == "manager":
        cm = get_coord_manager({k: (v[0] or None, v[1]) for k, v in model.coords.items()}, dims=model.dims)
        out = dc.Patch(data=model.data, coords=cm, attrs=spec["p"]["attrs"])
    elif how == "dict":
        out = dc.Patch(data=model.data, coords={k: (v[1] if k in model.dims else (v[0] or None, v[1])) for k, v in model.coords.items()}, dims=model.dims)
    elif how == "attrs":
        out = dc.Patch(data=patch.data, coords=patch.coords, attrs=patch.attrs)
        check_same_snap(Snap(patch), Snap(out), "rebuilt from its own parts")
    elif how == "pieces":
        other = patch.transpose()
        out = dc.Patch(data=other.data, coords=patch.coords.transpose(), dims=other.dims, attrs=dict(other.attrs))
    elif how == "from_parts":
        out = dc.Patch.from_parts(patch.data, patch.coords, patch.attrs)
        check_same_snap(Snap(patch), Snap(out), "from_parts of its own parts")
    elif how == "units_in_attrs":
        d = model.dims[0]
        if model.coords[d][1].dtype.kind not in "fi" or "_" in d:
            return
        coords = {k: (v[1] if k in model.dims else (v[0] or None, v[1])) for k, v in model.coords.items()}
        out = dc.Patch(data=model.data, coords=coords, dims=model.dims, attrs={f"{d}_units": "m", "tag": "q"})
        require(str(out.get_coord(d).units.units) in ("meter", "m"), f"units given in attrs not applied: {out.get_coord(d).units}")
    elif how == "empty":
        d = model.dims[0]
        out = patch.select(samples=True, **{d: (0, 0)})
        require(out.shape[0] == 0, f"empty selection has shape {out.shape}")
    else:
        shape = list(model.data.shape)
        ax = int(rng.integers(len(shape)))
        shape[ax] += 1
        try:
            if how == "wrong_shape":
                out = dc.Patch(data=np.zeros(shape), coords=patch.coords, dims=model.dims) if rng.random() < 0.5 else dc.Patch.from_parts(np.zeros(shape), patch.coords, patch.attrs)
            else:
                out = dc.Patch(data=model.data, coords=dict(patch.coords.coord_map), dims=(*model.dims[:-1], "nothere"))
        except Exception:  # noqa: BLE001
            ctx.nontrivial()
            return
        require(False, f"inconsistent patch ({how}) accepted: data {out.data.shape} coords {out.coords.shape} dims {out.dims}")
    check_coherent(out, how)
    ctx.nontrivial()


FACETS = [check_chain, check_construct]
