"""Run every operation once in a process of its own with a given configuration; prints a digest for each (see C36).

usage: python battery.py CONFIG.json FOLDER   (PYTHONPATH holds the source tree)
"""

import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

IMPORTS = {
    "all": ["pymech"],
    "meshtools": ["pymech.meshtools", "pymech"],
    "vtksuite": ["faketvtk", "pymech.vtksuite", "pymech"],
    "dataset": ["pymech.dataset", "pymech"],
    "core": ["pymech.core", "pymech.simsonsuite", "pymech.neksuite.mesh", "pymech"],
    "xarray": ["xarray", "pymech"],
    "reload": ["pymech", "reload"],
}


class Missing:
    """Importing some modules fails"""

    def __init__(self, names):
        self.names = names

    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] in self.names:
            raise ModuleNotFoundError(f"No module named {name!r}", name=name)


def prepare(cfg):
    import importlib
    import logging

    sys.path.insert(0, HERE)
    missing = cfg.get("missing")
    if missing:
        sys.meta_path.insert(0, Missing(missing.split(",")))
    src = os.environ["PYTHONPATH"].split(os.pathsep)[0]
    if not os.path.exists(os.path.join(src, "pymech", "_version.py")):
        import types

        stub = types.ModuleType("pymech._version")
        stub.version = stub.__version__ = "0"
        stub.version_tuple = stub.__version_tuple__ = (0,)
        sys.modules.setdefault("pymech._version", stub)
    for name in IMPORTS[cfg.get("imports", "all")]:
        if name == "faketvtk":
            from mc import faketvtk

            faketvtk.install()
        elif name == "reload":
            for m in [m for m in sys.modules if m.split(".")[0] == "pymech" and m != "pymech._version"]:
                del sys.modules[m]
            importlib.import_module("pymech")
        else:
            importlib.import_module(name)
    import pymech

    real = os.path.realpath(pymech.__file__)
    if not real.startswith(os.path.realpath(src) + os.sep):
        raise SystemExit(f"pymech comes from {real}, not from {src}")
    log = cfg.get("log", "default")
    logger = logging.getLogger("pymech")
    if log == "disabled":
        logger.disabled = True
    elif log == "root":
        logging.basicConfig(level=logging.DEBUG)
    elif log == "none":
        logger.handlers.clear()
        logger.setLevel(logging.NOTSET)
    elif log == "captured":

        class Keep(logging.Handler):
            def emit(self, record):
                record.getMessage()

        logger.handlers[:] = [Keep()]
        logger.setLevel(1)
    import numpy as np

    if cfg.get("err") == "strict":
        # underflow is common and harmless
        np.seterr(divide="raise", invalid="raise", over="raise")
    else:
        np.seterr(all=cfg.get("err", "warn"))
    if cfg.get("warnings"):
        import warnings

        warnings.resetwarnings()
        warnings.simplefilter(cfg["warnings"])
    if cfg.get("print") == "short":
        np.set_printoptions(precision=2, suppress=True, threshold=2, edgeitems=1, linewidth=20)
    elif cfg.get("print") == "long":
        np.set_printoptions(precision=17, floatmode="fixed", sign="+")
    elif cfg.get("print") == "legacy":
        np.set_printoptions(legacy="1.13")
    if cfg.get("random"):
        import random

        random.seed(cfg["random"])
        np.random.seed(cfg["random"])
    if cfg.get("gc") == "off":
        import gc

        gc.disable()
    elif cfg.get("gc") == "eager":
        import gc

        gc.set_threshold(1)
    if cfg.get("umask"):
        os.umask(0o077)
    if cfg.get("xarray"):
        import xarray as xr

        xr.set_options(keep_attrs=cfg["xarray"] == "keep", display_style="text")


def run(folder, only=None):
    from mc import ops

    files = ops.make_files(os.path.join(folder, "in"))
    out = {}
    for name, op in {**ops.OPS, **ops.EXTRA}.items():
        if only and name not in only:
            continue
        if name == "repr":  # printing follows the print options on purpose
            continue
        for v, spec in enumerate((dict(nbc=1), dict(nbc=2, ext="pp", dtype="float32"))):
            d = os.path.join(folder, f"{name}{v}")
            os.makedirs(d)
            w = ops.World(spec, d)
            res = ops.outcome(lambda: op(w, files))
            out[f"{name}/{v}"] = ops.digest(res) if not (isinstance(res, tuple) and len(res) == 2 and isinstance(res[0], str)) else f"raised {res[1]}"
    return out


def main():
    cfg = json.loads(sys.argv[1])
    folder = sys.argv[2]
    os.chdir(cfg["cwd"] if cfg.get("cwd") else folder)
    prepare(cfg)
    if cfg.get("thread"):
        import threading

        got = {}
        if cfg["thread"] == "small":
            threading.stack_size(1 << 19)
        t = threading.Thread(target=lambda: got.update(run(folder)))
        t.start()
        t.join()
    else:
        got = run(folder)
    with open(os.path.join(folder, "result.json"), "w") as fh:
        json.dump(got, fh)


if __name__ == "__main__":
    main()
