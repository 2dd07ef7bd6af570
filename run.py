"""Entry point: run.py check C01 [--tier quick|thorough] [--only facet ...] | replay FILE."""
import os
import sys
import pathlib

HERE = pathlib.Path(__file__).resolve().parent
REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo")).resolve()
sys.dont_write_bytecode = True
sys.path[:0] = [str(REPO), str(HERE), str(HERE / "vendor")]
import importlib._bootstrap_external as _be  # noqa: E402

_cfs = _be.cache_from_source


def _cache_from_source(path, *a, **k):
    """Never use byte code caches for the code under test or the harness: always the working tree."""
    if str(path).startswith((str(REPO) + os.sep, str(HERE / "vlib"), str(HERE / "props"))):
        raise NotImplementedError
    return _cfs(path, *a, **k)


_be.cache_from_source = _cache_from_source


def main():
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("cmd", choices=["check", "replay"])
    ap.add_argument("target", nargs="+")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--only", nargs="*")
    ap.add_argument("--scale", type=float, default=1.0)
    args = ap.parse_args()
    import warnings

    warnings.simplefilter("ignore")
    import dascore

    assert str(pathlib.Path(dascore.__file__).resolve()).startswith(str(REPO)), dascore.__file__
    from vlib import core

    if args.cmd == "replay":
        code = 0
        for t in args.target:
            data, out = core.run_replay(t)
            if out is None:
                print("held:", t)
            else:
                print(out[0], ":", out[1])
                if out[0] == "violation":
                    print(f"VIOLATION property={data['property']} replay={t}")
                    code = 1
                else:
                    code = code or 2
        return code
    code = 0
    for pid in args.target:
        c = core.check_property(pid.upper(), args.tier, args.seed, only=args.only, scale=args.scale)
        code = max(code, c) if c != 1 else 1
    return code


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
