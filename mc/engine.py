"""Exploration engine shared by all checks.

A check module (``mc/checks/cXX.py``) defines ``spaces(tier)``, which returns a list of
:class:`Space`.  A space is a finite, deterministic enumeration of cases together with a
function that executes one case against the real code and raises :class:`Violation` when
the property does not hold.  The engine runs *every* case of every space (no sampling), on all
cores, counts what was covered and writes the evidence file.
"""

import argparse
import concurrent.futures as cf
import hashlib
import importlib
import itertools
import json
import multiprocessing as mp
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
EVIDENCE = os.path.join(VERIF, "evidence")
FINDINGS = os.path.join(VERIF, "known_findings.json")
CASE_TIMEOUT = 150
MAX_VIOLATIONS = 5
GRACE = 45  # seconds of further exploration after the first violation


class Violation(Exception):
    """The property does not hold for the case being executed."""


class Stuck(BaseException):
    """A case ran out of time."""


class Space:
    """A finite set of cases, all of which are executed.

    name    identifies the space in replay files and findings
    cases   callable returning an iterable of JSON-able cases (deterministic order)
    run     run(case, ctx): execute the case on the real code, raise Violation if it fails
    chunk   cases per task given to a worker
    """

    def __init__(self, name, cases, run, chunk=8, timeout=CASE_TIMEOUT, bounds=""):
        self.name, self.cases, self.run = name, cases, run
        self.chunk, self.timeout, self.bounds = chunk, timeout, bounds


class Ctx:
    """What a running case can use: a scratch directory and the coverage counters."""

    def __init__(self, scratch):
        self.scratch = scratch
        self.counts = {}
        self.states = set()
        self._n = 0

    def path(self, name=None):
        """A fresh path in the scratch directory"""
        self._n += 1
        return os.path.join(self.scratch, name or f"f{self._n}")

    def count(self, key, n=1):
        self.counts[key] = self.counts.get(key, 0) + n

    def state(self, fp):
        """Record a distinct canonical state (bytes or anything with a stable repr)"""
        if not isinstance(fp, bytes):
            fp = repr(fp).encode()
        self.states.add(hashlib.blake2b(fp, digest_size=8).digest())

    def step(self, n=1):
        """A call of the code under test (a transition)"""
        self.count("transitions", n)

    def validated(self, n=1):
        """A prediction of the model compared with what the code really did"""
        self.count("validated", n)


def fail(msg):
    raise Violation(msg)


def expect(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


def product(**dims):
    """Full product of the given dimensions, as dicts"""
    keys = list(dims)
    for vals in itertools.product(*(dims[k] for k in keys)):
        yield dict(zip(keys, vals))


def deviations(dims, k, fixed=None):
    """All configurations differing from the defaults (first values) in at most k dimensions"""
    keys = list(dims)
    base = {key: dims[key][0] for key in keys}
    base.update(fixed or {})
    for m in range(k + 1):
        for sel in itertools.combinations(keys, m):
            for vals in itertools.product(*(dims[key][1:] for key in sel)):
                cfg = dict(base)
                cfg.update(zip(sel, vals))
                yield cfg


def fp(obj):
    return hashlib.blake2b(
        json.dumps(obj, sort_keys=True, default=str).encode(), digest_size=8
    ).hexdigest()


# --------------------------------------------------------------------------------------
def _alarm(signum, frame):
    raise Stuck()


def quiet_pymech():
    """Import the code under test from the working tree, without its log output"""
    import logging
    import warnings

    src = os.path.join(REPO, "src")
    if src not in sys.path:
        sys.path.insert(0, src)
    warnings.simplefilter("ignore")
    if not os.path.exists(os.path.join(src, "pymech", "_version.py")):
        import types

        stub = types.ModuleType("pymech._version")
        stub.version = stub.__version__ = "0"
        stub.version_tuple = stub.__version_tuple__ = (0,)
        sys.modules.setdefault("pymech._version", stub)
    import numpy as np
    import pymech

    np.seterr(all="ignore")
    real = os.path.realpath(pymech.__file__)
    if not real.startswith(os.path.realpath(src) + os.sep):
        raise SystemExit(f"pymech comes from {real}, not from {src}")
    logger = logging.getLogger("pymech")
    logger.setLevel(logging.CRITICAL + 10)
    logger.disabled = True
    return pymech


def run_case(space, case, scratch_root):
    """Execute one case, returns (ctx, violation message or None)"""
    scratch = tempfile.mkdtemp(prefix="case", dir=scratch_root)
    ctx = Ctx(scratch)
    ctx.count("evaluations")
    msg = None
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(space.timeout)
    try:
        space.run(case, ctx)
    except Violation as err:
        msg = str(err) or "violation"
    except Stuck:
        msg = f"no result after {space.timeout} s"
    except Exception as err:
        tail = "".join(traceback.format_exception(err)[-6:])
        msg = f"unexpected {type(err).__name__}: {err}\n{tail}"
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        shutil.rmtree(scratch, ignore_errors=True)
    return ctx, msg


_SPACES = None
_ROOT = None


def _worker_init():
    sys.stdout = open(os.devnull, "w")
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def _worker(task):
    ispace, cases = task
    space = _SPACES[ispace]
    counts, states, viol = {}, set(), []
    for case in cases:
        ctx, msg = run_case(space, case, _ROOT)
        for k, v in ctx.counts.items():
            counts[k] = counts.get(k, 0) + v
        states |= ctx.states
        if msg is not None:
            viol.append((case, msg))
    return ispace, counts, states, viol


def _chunks(spaces):
    # round-robin between spaces so that a cheap space is not delayed by an expensive one
    iters = [(i, iter(s.cases()), s.chunk) for i, s in enumerate(spaces)]
    while iters:
        nxt = []
        for i, it, n in iters:
            chunk = [json.loads(json.dumps(c)) for c in itertools.islice(it, n)]
            if chunk:
                yield (i, chunk)
                nxt.append((i, it, n))
        iters = nxt


def load_findings(prop):
    try:
        with open(FINDINGS) as fh:
            data = json.load(fh)
    except FileNotFoundError:
        return []
    return [f for f in data.get("findings", []) if f["property"] == prop]


def spaces_of(prop, tier):
    mod = importlib.import_module(f"mc.checks.{prop.lower()}")
    return mod, mod.spaces(tier)


def run_property(prop, tier, seed):
    global _SPACES, _ROOT
    t0 = time.time()
    quiet_pymech()
    mod, spaces = spaces_of(prop, tier)
    _SPACES = spaces
    _ROOT = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    known = load_findings(prop)
    counts, states, violations, known_hit = {}, set(), [], {}
    per_space = {s.name: {"bounds": s.bounds, "cases": 0} for s in spaces}
    samples = {}
    nworkers = int(os.environ.get("VERIF_JOBS", "0")) or os.cpu_count() or 1
    errors = []
    try:
        ctxmp = mp.get_context("fork")
        with cf.ProcessPoolExecutor(
            nworkers, mp_context=ctxmp, initializer=_worker_init
        ) as pool:
            pending = set()
            gen = _chunks(spaces)
            stop = False
            first = None

            def wait(pending):
                """Wait for a task; False when the exploration is over because of violations"""
                nonlocal first
                left = None if first is None else max(0.0, first + GRACE - time.time())
                done, rest = cf.wait(pending, timeout=left, return_when=cf.FIRST_COMPLETED)
                collect(done)
                if violations and first is None:
                    first = time.time()
                over = len(violations) >= MAX_VIOLATIONS or (first is not None and time.time() >= first + GRACE)
                return rest, not over

            def collect(done):
                for fut in done:
                    ispace, cnt, sts, viol = fut.result()
                    name = spaces[ispace].name
                    for k, v in cnt.items():
                        counts[k] = counts.get(k, 0) + v
                    per_space[name]["cases"] += cnt.get("evaluations", 0)
                    states.update(sts)
                    for case, msg in viol:
                        hit = next(
                            (
                                f
                                for f in known
                                if f["space"] == name and f["case"] == case
                            ),
                            None,
                        )
                        if hit is not None:
                            known_hit[fp(hit)] = (hit, msg)
                        else:
                            violations.append((name, case, msg))

            for task in gen:
                name = spaces[task[0]].name
                if len(samples.setdefault(name, [])) < 2:
                    samples[name].append(task[1][0])
                pending.add(pool.submit(_worker, task))
                if len(pending) >= 4 * nworkers:
                    pending, go = wait(pending)
                    if not go:
                        stop = True
                        break
            while pending and not stop:
                pending, go = wait(pending)
                stop = not go
            if stop:
                for p in list(getattr(pool, "_processes", {}).values()):
                    p.kill()
                pool.shutdown(wait=False, cancel_futures=True)
    except cf.process.BrokenProcessPool:
        if not violations:
            errors.append("a worker process died")
    finally:
        shutil.rmtree(_ROOT, ignore_errors=True)

    level = mod.LEVEL
    n_eval = counts.pop("evaluations", 0)
    n_trans = counts.pop("transitions", 0)
    n_valid = counts.pop("validated", 0)
    cov = {"exhaustive": True, "spaces": per_space}
    if violations or errors:
        cov["exhaustive"] = False
    sample_list = [
        {"space": name, "case": case} for name, cs in samples.items() for case in cs
    ]
    if level == "model_checking":
        cov.update(
            states=len(states),
            transitions=n_trans,
            traces_validated_against_impl=n_valid,
            executions=n_eval,
            samples=sample_list,
            rule=mod.RULE,
        )
    else:
        cov.update(
            evaluations=n_eval,
            distinct_nontrivial=len(states),
            calls=n_trans,
            compared=n_valid,
            samples=sample_list,
            rule=mod.RULE,
        )
    cov.update(counts)
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": level,
        "coverage": cov,
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 3),
        "violations": len(violations),
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, f"{prop}.json"), "w") as fh:
        json.dump(evidence, fh, indent=1, default=str)

    for hit, msg in known_hit.values():
        print(f"KNOWN-FINDING: property={prop} {hit['what']}")
    if violations:
        os.makedirs(os.path.join(EVIDENCE, "replay"), exist_ok=True)
        for i, (name, case, msg) in enumerate(violations[:MAX_VIOLATIONS]):
            rp = os.path.join(EVIDENCE, "replay", f"{prop}-{i}.json")
            with open(rp, "w") as fh:
                json.dump(
                    {
                        "property": prop,
                        "tier": tier,
                        "space": name,
                        "case": case,
                        "message": msg,
                    },
                    fh,
                    indent=1,
                    default=str,
                )
            print(f"VIOLATION property={prop} replay={rp}")
            print(f"  space {name}: {json.dumps(case, default=str)[:600]}")
            print("  " + msg.replace("\n", "\n  ")[:1500])
        return 1
    if errors or n_eval == 0:
        print(f"ERROR property={prop}: {errors or 'nothing was explored'}")
        return 2
    print(
        f"OK property={prop} tier={tier} cases={n_eval} states={len(states)} "
        f"transitions={n_trans} validated={n_valid} in {time.time() - t0:.1f} s"
    )
    return 0


def replay(path):
    with open(path) as fh:
        rec = json.load(fh)
    quiet_pymech()
    mod, spaces = spaces_of(rec["property"], rec["tier"])
    space = next(s for s in spaces if s.name == rec["space"])
    root = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        _, msg = run_case(space, rec["case"], root)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    if msg is None:
        print(f"replay of {path}: the property holds for this case")
        return 0
    print(f"VIOLATION property={rec['property']} replay={path}")
    print(msg)
    return 1


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    args = ap.parse_args(argv)
    if args.replay:
        return replay(args.replay)
    tier = args.tier if args.tier in ("quick", "thorough") else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    return run_property(args.property.upper(), tier, seed)
