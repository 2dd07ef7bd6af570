"""Property-based checking framework: facets, runner, shrinking, replay, evidence.

A property is decided by one or more *facets*.  A facet is a Hypothesis strategy
that produces a plain JSON value (the "spec" of one case) and a check function that
builds real dascore objects from the spec, runs them and compares with an oracle.
The spec is all there is to a case, so a shrunk failing spec written to a file *is*
the replay.
"""
from __future__ import annotations

import collections
import hashlib
import importlib
import json
import os
import pathlib
import pickle
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

HERE = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo")).resolve()
CODE_DIR = str(REPO / "dascore") + os.sep


class Violation(Exception):
    """The oracle disagrees with what the code did."""


class CaseTimeout(BaseException):
    """One case took too long; inconclusive."""


class Ctx:
    """Per case scratch pad handed to the check function."""

    def __init__(self):
        self.labels = set()
        self.is_nontrivial = False
        self._tmp = None

    def label(self, *names):
        for name in names:
            self.labels.add(str(name))

    def nontrivial(self, flag=True):
        if flag:
            self.is_nontrivial = True

    def tmpdir(self):
        """A scratch directory of this case alone (removed after the case)."""
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix="case_")
        return pathlib.Path(self._tmp)

    def close(self):
        if self._tmp is not None:
            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = None


class Facet:
    def __init__(self, name, strategy, check, quick=200, thorough=None, weight=1.0, doc="", case_timeout=60):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 20
        self.weight = weight
        self.doc = doc or (check.__doc__ or "").strip().split("\n")[0]
        self.case_timeout = case_timeout


def facet(name, strategy, quick=200, **kw):
    """Decorator turning a check function into a Facet."""

    def deco(func):
        return Facet(name, strategy, func, quick=quick, **kw)

    return deco


def spec_hash(spec):
    return hashlib.sha1(json.dumps(spec, sort_keys=True, default=str).encode()).hexdigest()[:16]


def _frames_in_code(exc):
    seen = set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        tb = exc.__traceback__
        while tb is not None:
            if tb.tb_frame.f_code.co_filename.startswith(CODE_DIR):
                return True
            tb = tb.tb_next
        exc = exc.__cause__ or exc.__context__
    return False


def _innermost_is_harness(exc):
    """True when the exception was raised by harness code, not called from dascore."""
    return not _frames_in_code(exc)


def _on_alarm(signum, frame):
    raise CaseTimeout()


def run_case(fac, spec, ctx):
    """Run one case. Returns None, or (kind, message). kind in violation/error/timeout."""
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.alarm(int(fac.case_timeout))
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            fac.check(spec, ctx)
        return None
    except Violation as exc:
        return "violation", str(exc)
    except CaseTimeout:
        return "timeout", "case exceeded its time limit"
    except (KeyboardInterrupt, SystemExit):
        raise
    except MemoryError:
        return "timeout", "memory"
    except Exception as exc:  # noqa: BLE001
        text = "".join(traceback.format_exception(exc))[-4000:]
        if _innermost_is_harness(exc):
            return "error", text
        return "violation", "unexpected exception from the code under test:\n" + text
    finally:
        signal.alarm(0)
        ctx.close()


class _Fail(Exception):
    pass


def run_shard(fac, seed, n, deadline):
    """Generate n cases for a facet in this process."""
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis import seed as hseed
    from hypothesis.errors import HypothesisException

    stats = dict(evals=0, hashes=set(), labels=collections.Counter(), samples=[], skipped=0, timeouts=0)
    fail = {}

    def body(spec):
        now = time.monotonic()
        if fail and now > fail["until"]:
            return  # shrink budget spent
        if not fail and now > deadline:
            stats["skipped"] += 1
            return
        ctx = Ctx()
        out = run_case(fac, spec, ctx)
        stats["evals"] += 1
        if ctx.is_nontrivial and not fail:
            h = spec_hash(spec)
            if h not in stats["hashes"]:
                stats["hashes"].add(h)
                if len(stats["samples"]) < 3 and len(json.dumps(spec, default=str)) < 3000:
                    stats["samples"].append(spec)
        if not fail:
            stats["labels"].update(ctx.labels)
        if out is None:
            return
        kind, msg = out
        if kind == "timeout":
            stats["timeouts"] += 1
            return
        if fail and kind == "error" and fail["kind"] == "violation":
            return
        if not fail:
            fail["until"] = now + float(os.environ.get("VERIF_SHRINK_S", "40"))
        fail.update(kind=kind, msg=msg, spec=json.loads(json.dumps(spec)))
        raise _Fail(kind)

    test = given(fac.strategy)(body)
    test = settings(
        max_examples=n, database=None, deadline=None, derandomize=False, print_blob=False,
        report_multiple_bugs=False, suppress_health_check=list(HealthCheck),
        phases=[Phase.generate, Phase.shrink],
    )(test)
    test = hseed(seed)(test)
    err = None
    try:
        test()
    except _Fail:
        pass
    except BaseExceptionGroup as exc:  # pragma: no cover
        if not fail:
            err = "".join(traceback.format_exception(exc))
    except HypothesisException as exc:
        if not fail:
            err = "".join(traceback.format_exception(exc))
    except Exception as exc:  # strategy errors and the like
        if not fail:
            err = "".join(traceback.format_exception(exc))
    fail.pop("until", None)
    return dict(stats=stats, fail=fail or None, err=err)


def _facet_seed(base, prop, fac, shard):
    h = hashlib.sha256(f"{base}/{prop}/{fac.name}/{shard}".encode()).digest()
    return int.from_bytes(h[:6], "big")


def load_property(pid):
    return importlib.import_module(f"props.{pid.lower()}")


def run_replay(path):
    data = json.loads(pathlib.Path(path).read_text())
    mod = load_property(data["property"])
    fac = {f.name: f for f in mod.FACETS}[data["facet"]]
    return data, run_case(fac, data["spec"], Ctx())


def known_entries(pid):
    """Entries 'known: property=<id> replay=<file> <what>' of the committed list."""
    out = []
    path = HERE / "known_findings.txt"
    if not path.exists():
        return out
    for line in path.read_text().splitlines():
        if line.startswith("known:") and f"property={pid} " in line:
            parts = line.split(maxsplit=3)
            out.append((HERE / parts[2].split("=", 1)[1], parts[3]))
    return out


def check_property(pid, tier, seed, only=None, scale=1.0, budget=None):
    t0 = time.monotonic()
    mod = load_property(pid)
    facets = [f for f in mod.FACETS if not only or f.name in only]
    ncpu = min(8, os.cpu_count() or 1)
    budget = budget or (float(os.environ.get("VERIF_BUDGET_S", "0")) or (420 if tier == "quick" else 6 * 3600))
    deadline = t0 + budget
    scratch = pathlib.Path(tempfile.mkdtemp(prefix="verif_run_"))
    problems = []  # (kind, facet, spec, msg)
    n_reg = 0
    # regression tier: previously found failures, replayed without the library
    known = {str(p): what for p, what in known_entries(pid)}
    reg_dir = HERE / "regressions"
    for path in sorted(reg_dir.glob(f"{pid}_*.json")) if reg_dir.exists() else []:
        data = json.loads(path.read_text())
        fac = {f.name: f for f in mod.FACETS}.get(data["facet"])
        if fac is None or (only and fac.name not in only):
            continue
        out = run_case(fac, data["spec"], Ctx())
        n_reg += 1
        if str(path) in known:
            if out is not None and out[0] == "violation":
                print(f"KNOWN-FINDING: property={pid} {known[str(path)]}")
            continue
        if out is not None and out[0] != "timeout":
            problems.append((out[0], fac.name, data["spec"], out[1]))
    # generation tier
    tasks = []
    for fac in facets:
        n = max(1, int((fac.quick if tier == "quick" else fac.thorough) * scale))
        shards = 1 if n < 16 else min(4 if tier == "quick" and fac.weight < 3 else 8, max(1, n // 8))
        for s in range(shards):
            k = n // shards + (1 if s < n % shards else 0)
            tasks.append((fac, s, k))
    tasks.sort(key=lambda t: -t[0].weight)
    running = {}
    results = []
    queue = list(enumerate(tasks))
    import multiprocessing as mp

    ctx = mp.get_context("fork")

    def work(i, fac, shard, k):
        import gc
        gc.freeze()
        wd = scratch / f"w{i}"
        wd.mkdir()
        os.environ["TMPDIR"] = str(wd)
        tempfile.tempdir = str(wd)
        os.chdir(wd)
        init = getattr(mod, "init_worker", None)
        if init:
            init()
        res = run_shard(fac, _facet_seed(seed, pid, fac, shard), k, deadline)
        tmp = scratch / f"r{i}.tmp"
        tmp.write_bytes(pickle.dumps(res))
        tmp.rename(scratch / f"r{i}.pkl")
        shutil.rmtree(wd, ignore_errors=True)
        os._exit(0)

    def guarded(i, fac, shard, k):
        try:
            work(i, fac, shard, k)
        except BaseException:  # noqa: BLE001
            traceback.print_exc()
            os._exit(3)

    sys.stdout.flush()
    while queue or running:
        while queue and len(running) < ncpu:
            i, (fac, s, k) = queue.pop(0)
            p = ctx.Process(target=guarded, args=(i, fac, s, k), daemon=True)
            p.start()
            running[i] = (p, fac, time.monotonic())
        done = []
        for i, (p, fac, started) in running.items():
            p.join(0.01)
            if p.exitcode is not None:
                done.append(i)
            elif time.monotonic() > deadline + 180:
                p.kill()
                p.join()
                done.append(i)
        for i in done:
            p, fac, started = running.pop(i)
            path = scratch / f"r{i}.pkl"
            if path.exists():
                results.append((fac, pickle.loads(path.read_bytes()), time.monotonic() - started))
            elif time.monotonic() > deadline + 170:
                results.append((fac, None, time.monotonic() - started))
            else:
                problems.append(("error", fac.name, None, f"worker died, exit code {p.exitcode}"))
    shutil.rmtree(scratch, ignore_errors=True)

    per, samples, hashes = {}, [], set()
    evals = n_reg
    for fac, res, secs in results:
        d = per.setdefault(fac.name, dict(doc=fac.doc, evaluations=0, nontrivial=set(), labels=collections.Counter(), skipped=0, timeouts=0, cpu_s=0.0))
        d["cpu_s"] += secs
        if res is None:
            d["timeouts"] += 1
            continue
        st = res["stats"]
        d["evaluations"] += st["evals"]
        d["nontrivial"] |= st["hashes"]
        d["labels"].update(st["labels"])
        d["skipped"] += st["skipped"]
        d["timeouts"] += st["timeouts"]
        evals += st["evals"]
        hashes |= {fac.name + h for h in st["hashes"]}
        have = [s for s in samples if s["facet"] == fac.name]
        for s in st["samples"][: max(0, 2 - len(have))]:
            samples.append(dict(facet=fac.name, case=s))
        if res["err"]:
            problems.append(("error", fac.name, None, res["err"]))
        if res["fail"]:
            f = res["fail"]
            problems.append((f["kind"], fac.name, f["spec"], f["msg"]))
    facet_cov = {
        k: dict(what=v["doc"], evaluations=v["evaluations"], distinct_nontrivial=len(v["nontrivial"]),
                classes=dict(v["labels"].most_common(60)), skipped_for_time=v["skipped"],
                case_timeouts=v["timeouts"], cpu_s=round(v["cpu_s"], 1))
        for k, v in sorted(per.items())
    }
    # at most one violation per facet: the smallest
    viols = {}
    errors = []
    for kind, name, spec, msg in problems:
        if kind == "violation":
            cur = viols.get(name)
            if cur is None or len(json.dumps(spec)) < len(json.dumps(cur[0])):
                viols[name] = (spec, msg)
        else:
            errors.append((name, spec, msg))
    evidence = dict(
        property=pid, tier=tier, seed=int(seed), level="exploration",
        coverage=dict(evaluations=evals, distinct_nontrivial=len(hashes),
                      rule=mod.RULE, samples=samples[:24], facets=facet_cov, regression_cases=n_reg),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
        wall_s=round(time.monotonic() - t0, 2), violations=len(viols),
    )
    if only is None or os.environ.get("VERIF_WRITE_EVIDENCE"):
        ev = HERE / "evidence"
        ev.mkdir(exist_ok=True)
        (ev / f"{pid}.json").write_text(json.dumps(evidence, indent=1, default=str))
    for name, (spec, msg) in viols.items():
        rdir = HERE / "replays"
        rdir.mkdir(exist_ok=True)
        path = rdir / f"{pid}_{name}_{spec_hash(spec)}.json"
        path.write_text(json.dumps(dict(property=pid, facet=name, spec=spec, message=msg), indent=1))
        print(f"--- {pid}/{name}:\n{msg}\nspec: {json.dumps(spec)[:2500]}")
        print(f"VIOLATION property={pid} replay={path}")
    for name, spec, msg in errors:
        print(f"HARNESS-ERROR {pid}/{name}: {msg}\nspec: {json.dumps(spec)[:2500]}", file=sys.stderr)
    print(f"{pid} tier={tier} seed={seed} evaluations={evals} nontrivial={len(hashes)} "
          f"violations={len(viols)} errors={len(errors)} wall={time.monotonic()-t0:.1f}s")
    sys.stdout.flush()
    if viols:
        return 1
    return 2 if errors else 0
