"""C36: results do not depend on the configuration of the process."""

import json
import os
import subprocess
import sys

from .. import engine
from ..engine import Space, deviations, expect

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of process configurations (settings differing from the defaults in up to two or three places), all operations executed in a process of its own for each"
RULE = (
    "a state is the result of one operation in one configuration of the process (logging, optimisation, hash seed, encoding, print options, "
    "floating-point handling, import order, missing optional packages, collector, thread, working folder, masks); it must be the result in the "
    "default configuration"
)
ASSUMPTIONS = ["tvtk is replaced by a stand-in", "printed descriptions are exempt (they follow the print options of numpy)"]

DIMS = {
    "debug": [None, "1"],
    "log": ["default", "captured", "disabled", "root", "none"],
    "optimize": [None, "-O", "-OO"],
    "hash": ["0", "1", "77"],
    "encoding": [None, "C", "POSIX", "utf8"],
    "print": [None, "short", "long", "legacy"],
    "err": ["warn", "ignore", "strict"],
    "warnings": [None, "error", "always"],
    "imports": ["all", "meshtools", "vtksuite", "dataset", "core", "xarray", "reload"],
    "missing": [None, "xarray", "rich", "xarray,dask,rich"],
    "random": [None, 5],
    "gc": [None, "off", "eager"],
    "thread": [None, "plain", "small"],
    "cwd": [None, "/"],
    "umask": [None, 1],
    "term": [None, "dumb", "narrow"],
    "xarray": [None, "keep", "drop"],
    "stdin": [None, "closed"],
    "home": [None, "missing"],
}
# values which are not finite, or too large for the precision of a file: numpy reports these as it is told to
IRREGULAR = ("nonfinite/", "narrow/")
NEEDS_XARRAY = ("dataset/", "mfdataset/")


def launch(cfg, folder):
    os.makedirs(folder)
    env = {k: v for k, v in os.environ.items() if not k.startswith(("PYMECH", "PYTHON", "LC_", "LANG"))}
    env["PYTHONPATH"] = os.path.join(engine.REPO, "src")
    env["PYTHONHASHSEED"] = cfg["hash"]
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["LC_ALL"] = "C.UTF-8"
    for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        env[v] = "1"
    if cfg["debug"]:
        env["PYMECH_DEBUG"] = cfg["debug"]
    if cfg["encoding"] in ("C", "POSIX"):
        env.update(LC_ALL=cfg["encoding"], PYTHONUTF8="0", PYTHONCOERCECLOCALE="0", PYTHONIOENCODING="ascii")
    elif cfg["encoding"]:
        env["PYTHONUTF8"] = "1"
    if cfg["term"] == "dumb":
        env.update(TERM="dumb", NO_COLOR="1")
    elif cfg["term"]:
        env.update(TERM="xterm", COLUMNS="8", FORCE_COLOR="1")
    if cfg["home"]:
        env.pop("HOME", None)
        env["TMPDIR"] = "/nonexistent"
    cmd = [sys.executable, "-B"] + ([cfg["optimize"]] if cfg["optimize"] else [])
    cmd += [os.path.join(engine.VERIF, "mc", "battery.py"), json.dumps(cfg), folder]
    p = subprocess.run(
        cmd,
        env=env,
        stdin=subprocess.DEVNULL,
        stdout=subprocess.PIPE,
        stderr=subprocess.PIPE,
        timeout=engine.CASE_TIMEOUT,
        preexec_fn=(lambda: os.close(0)) if cfg["stdin"] else None,
    )
    try:
        with open(os.path.join(folder, "result.json")) as fh:
            return json.load(fh)
    except FileNotFoundError:
        engine.fail(f"the operations do not run in this configuration (exit {p.returncode}): {p.stderr.decode(errors='replace')[-800:]}")


BASE = {}


def run(c, ctx):
    if not BASE:
        BASE.update(launch({k: v[0] for k, v in DIMS.items()}, ctx.path("base")))
    got = launch(c, ctx.path("run"))
    absent = NEEDS_XARRAY if "xarray" in (c["missing"] or "") else ()
    if c["err"] == "strict" or c["warnings"] == "error":
        absent += IRREGULAR
    names = [n for n in BASE if not n.startswith(absent)] if absent else list(BASE)
    for n in names:
        expect(got.get(n) == BASE[n], lambda: f"{n} gives {got.get(n)} instead of {BASE[n]}")
        ctx.state((n, got[n], sorted((k, v) for k, v in c.items() if v != DIMS[k][0])))
    ctx.step(len(names))
    ctx.validated(len(names))


def valid(c):
    gone = c["missing"] or ""
    return not ("xarray" in gone and (c["imports"] in ("dataset", "xarray") or c["xarray"]))


def cases(deep):
    # pairs of deviations among the settings that take part in computing, single ones for the others
    core = ("debug", "log", "optimize", "hash", "print", "imports", "missing", "thread", "encoding")

    def gen():
        for c in deviations(DIMS, 3 if deep else 2):
            changed = [k for k in c if c[k] != DIMS[k][0]]
            if len(changed) == 3 and not set(changed) <= set(core):
                continue
            if not deep and len(changed) == 2 and not (set(changed) <= {"debug", "optimize", "hash", "thread", "missing", "print"} and all(c[k] == DIMS[k][1] for k in changed)):
                continue
            if valid(c):
                yield c

    return gen


def spaces(tier):
    deep = tier == "thorough"
    return [
        Space("configurations", cases(deep), run, 1, timeout=400,
              bounds=f"{len(DIMS)} settings, " + ("up to two" if deep else "every single one and pairs of the main ones") + " differing from the defaults" + (", three of nine" if deep else "") + "; all operations on two sets of objects"),
    ]
