"""C10: arguments are not modified, results are independent."""

import itertools
import os
import pickle
import signal
import sys
import traceback

import numpy as np

from .. import meshes, ops, snap
from ..engine import Space, Stuck, expect, fail

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of operation sequences on shared objects, with destructive changes of every result between the steps"
RULE = (
    "a state is the content of all shared objects and results after a step of a sequence of operations; every sequence of the bounded "
    "length is run in a process of its own, each result is compared with the result of the same operation run alone, all shared objects "
    "and earlier results with their initial content, and every result is changed in place before the next step"
)
ASSUMPTIONS = [
    "the class constructors keep the lists they are given and are not covered",
    "tvtk is replaced by a stand-in",
]

WORLDS = {
    "plain": dict(nbc=1),
    "rich": dict(nbc=3, curves="some", dtype="float32"),
    "bare": dict(nbc=0, curves="none"),
    "walls": dict(nbc=2, ext="walls"),
}
# operations that need conditions
NEEDS_BC = {"gen_box_args", "gen_circle_args"}


def child(fn):
    """Run fn in a process of its own, return its value"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                res = (True, fn())
            except (Exception, Stuck) as err:
                res = (False, "".join(traceback.format_exception(err)[-4:]))
            with os.fdopen(w, "wb") as fh:
                pickle.dump(res, fh)
        except BaseException:
            code = 1
        finally:
            os._exit(code)
    os.close(w)
    try:
        with os.fdopen(r, "rb") as fh:
            raw = fh.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        raise
    finally:
        os.waitpid(pid, 0)
    if not raw:
        fail("the process running the operations died")
    ok, val = pickle.loads(raw)
    if not ok:
        fail(val)
    return val


_alone = {}


def alone(world, name, folder):
    """Result of an operation run alone in a fresh process"""
    if (world, name) not in _alone:
        files = ops.make_files(os.path.join(folder, "in"))

        def fn():
            w = ops.World(WORLDS[world], folder)
            return ops.digest(ops.outcome(lambda: ops.OPS[name](w, files)))

        _alone[(world, name)] = child(fn)
    return _alone[(world, name)]


def run(c, ctx):
    os.makedirs(ctx.scratch, exist_ok=True)
    names = c["ops"]
    want = {n: alone(c["world"], n, ctx.path("base" + n)) if os.makedirs(os.path.join(ctx.scratch, "base" + n), exist_ok=True) is None else None for n in set(names)}
    folder = ctx.path("seq")
    os.makedirs(folder)
    files = ops.make_files(os.path.join(folder, "in"))
    inputs = {n: ops.content(os.path.join(files, n)) for n in os.listdir(files)}

    def fn():
        w = ops.World(WORLDS[c["world"]], folder)
        before = {k: ops.digest(v) for k, v in w.objects().items()}
        wn = ops.nodes(w.objects(), "args")
        kept = []
        states = []
        for i, name in enumerate(names):
            res = ops.outcome(lambda: ops.OPS[name](w, files))
            got = ops.digest(res)
            if got != want[name]:
                return states, f"step {i} ({name}) gives another result than the same operation run alone"
            rn = ops.nodes(res, name)
            s = ops.shared(wn, rn)
            if s:
                return states, f"the result of {name} shares {s[1]} with {s[0]}"
            s = ops.inner_shared(rn)
            if s:
                return states, f"the result of {name} holds the same memory twice: {s[0]} and {s[1]}"
            for j, (other, on, _, _) in enumerate(kept):
                s = ops.shared(on, rn)
                if s:
                    return states, f"the results of {other} and {name} share {s[1]}"
            second = ops.outcome(lambda: ops.OPS[name](w, files))
            if ops.digest(second) != want[name]:
                return states, f"the second call of {name} gives another result"
            s = ops.shared(rn, ops.nodes(second, name))
            if s:
                return states, f"two results of {name} share {s[0]}"
            ops.scramble(res)
            after = {k: ops.digest(v) for k, v in w.objects().items()}
            for k in before:
                if before[k] != after[k]:
                    return states, f"step {i} ({name}), or changing its result, modifies the argument {k}"
            kept.append((name, ops.nodes(second, name), second, want[name]))
            for other, _, r, d in kept:
                if ops.digest(r) != d:
                    return states, f"changing the result of {name} changes a result of {other}"
            for n, raw in inputs.items():
                if ops.content(os.path.join(files, n)) != raw:
                    return states, f"{name} changes the input file {n}"
            states.append(repr((sorted(after.items()), tuple(names[: i + 1]))).encode())
        return states, None

    states, msg = child(fn)
    for s in states:
        ctx.state(s)
        ctx.step(2)
        ctx.validated(2)
    if msg:
        fail(msg)


def names_for(world):
    out = []
    for n in ops.OPS:
        if WORLDS[world]["nbc"] == 0 and n in NEEDS_BC:
            continue
        out.append(n)
    return out


def sequences(deep):
    def gen():
        for world in WORLDS:
            for n in names_for(world):
                yield dict(world=world, ops=[n])
        for world in WORLDS if deep else ("plain", "rich"):
            for pair in itertools.product(names_for(world), repeat=2):
                yield dict(world=world, ops=list(pair))

    return gen


CORE = ["gen_box", "gen_circle_args", "extrude", "extrude_open", "refine_split", "map", "merge", "keep", "writerea", "readnek", "generate", "edge_mid"]


def triples():
    for world in ("plain", "walls"):
        for t in itertools.product(CORE, repeat=3):
            yield dict(world=world, ops=list(t))


def spaces(tier):
    deep = tier == "thorough"
    out = [Space("sequences", sequences(deep), run, 24, bounds=f"all sequences of up to two of {len(ops.OPS)} operations, four sets of shared objects")]
    if deep:
        out.append(Space("triples", triples, run, 24, bounds=f"all sequences of three of {len(CORE)} operations"))
    return out
