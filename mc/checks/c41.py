"""C41: interrupted calls leave nothing behind."""

import gc
import os
import sys

from .. import ops
from ..engine import Space, expect, fail
from . import c28
from .c31 import process, unusual
from .c35 import files_of

LEVEL = "model_checking"
TECHNIQUE = (
    "crash-point enumeration on the real code: an exception is raised at every statement of every operation (line events of every pymech frame), "
    "and the state of the inputs, of the process and of later operations is compared with that without the interruption"
)
RULE = (
    "a state is what an operation leaves when it is interrupted at one of its statements by one kind of exception: inputs, input files and process as before, "
    "and the same operation on the same and on other objects, and a related operation, give the results they give alone"
)
ASSUMPTIONS = [
    "the operations are those that return or write something; operations whose purpose is to change a mesh work on a copy of it",
    "interruptions happen at statements of pymech",
    "a file whose writing is interrupted may be incomplete until it is written again",
    "tvtk is replaced by a stand-in",
]

KINDS = {"interrupt": KeyboardInterrupt, "memory": MemoryError, "oserror": OSError, "value": ValueError}


def interrupted(fn, at, kind):
    """Run fn, raise at line event `at`; (kind of outcome, result)"""
    n = [-1]
    done = []

    def local(frame, event, arg):
        if event == "line" and not done:
            n[0] += 1
            if n[0] == at:
                done.append((os.path.basename(frame.f_code.co_filename), frame.f_lineno))
                sys.settrace(None)
                raise KINDS[kind]("injected")
        return local

    def top(frame, event, arg):
        name = frame.f_code.co_filename
        if name not in c28._ours:
            c28._ours[name] = os.path.realpath(name).startswith(c28.SRC)
        return local if c28._ours[name] and not done else None

    sys.settrace(top)
    try:
        res = ("returned", fn())
    except BaseException as err:
        res = ("raised", type(err).__name__)
        del err
    finally:
        sys.settrace(None)
    return res, done


def targets(env, name, often):
    """Line events: the first `often` executions of every statement, then at growing distances, and the last one"""
    env.points(0, name)
    events = env.lines[(0, name)][2]
    count, last, out = {}, {}, set()
    for i, key in enumerate(events):
        k = count[key] = count.get(key, 0) + 1
        last[key] = i
        if k <= often:
            out.add(i)
    return sorted(out | set(last.values()))


def probe(env, k, name, where):
    want = env.expected(k, name)
    w, fn = env.task(k, name)
    got = env.content(k, name, w, ops.outcome(fn))
    if got != want:
        fail(f"{where}: {name} on {'the same' if k == 0 else 'other'} objects gives another result afterwards")


def run(c, ctx):
    cwd = os.getcwd()
    try:
        with unusual():
            explore(c, ctx)
    finally:
        os.chdir(cwd)


def explore(c, ctx):
    env = c28.env_of(ctx)
    os.chdir(env.root)
    name = c["op"]
    env.expected(0, name)
    related = [b for b in ops.OPS if c28.related(name, b) and b not in c28.SLOW and b != name]
    for b in [name, *related]:
        env.expected(0, b), env.expected(1, b)
    points = targets(env, name, c["often"])[c["part"] :: c["parts"]]
    n_files = files_of(env)
    base = None
    for r, at in enumerate(points):
        for kind in c["kinds"]:
            w, fn = env.task(0, name)
            before = ops.digest(vars(w))
            if base is None:
                gc.collect()
            state = process()
            (how, res), met = interrupted(fn, at, kind)
            ctx.step()
            if not met:
                ctx.count("not_reached")
                continue
            where = f"{name} interrupted at {met[0][0]}:{met[0][1]} (event {at}) by {kind}"
            if res == ("raised", KINDS[kind].__name__):
                how = "raised"  # the operation looks for errors itself
            if how == "returned":
                ctx.count("swallowed")
                if ops.is_dataset(res):
                    res.close()
                got = env.content(0, name, w, res)
                expect(got == env.expected(0, name), lambda: f"{where}: returns another result")
            del res
            after = process()
            if after != state:
                gc.collect()
                after = process()
            for k in state:
                expect(after[k] == state[k], lambda: f"{where}: {k} left changed: {after[k]} instead of {state[k]}")
            n, w.n = w.n, 0
            expect(ops.digest(vars(w)) == before, lambda: f"{where}: an input is modified")
            # the same objects again, other objects, another operation
            got = env.content(0, name, w, ops.outcome(fn))
            expect(got == env.expected(0, name), lambda: f"{where}: another result when called again")
            ctx.step()
            ctx.validated(2)
            ctx.count("interruptions")
            ctx.state((name, at, kind))
            if kind != "interrupt":
                continue  # what is left in other objects does not depend on the kind
            (how, res), met = interrupted(env.task(0, name)[1], at, kind)
            del res
            probe(env, 1, name, where)
            if related:
                (how, res), met = interrupted(env.task(0, name)[1], at, kind)
                del res
                probe(env, (r + 1) % 2, related[r % len(related)], where)
            ctx.step(2)
            ctx.validated(2)
            ctx.count("interruptions", 1 + bool(related))
    expect(files_of(env) == n_files, f"{name}: input files changed")
    for b in [name, *related]:
        probe(env, 0, b, f"{name} interrupted everywhere")


def cases(deep):
    def gen():
        for name in ops.OPS:
            parts = (8 if deep else 3) if name in c28.SLOW or name in c28.HEAVY else (2 if deep else 1)
            for part in range(parts):
                for kinds in (["interrupt"], ["memory"], ["oserror"], ["value"]) if deep else (["interrupt"], ["value"]):
                    yield dict(op=name, often=(2 if name in c28.SLOW else 6) if deep else 1, part=part, parts=parts, kinds=kinds)

    return gen


def spaces(tier):
    deep = tier == "thorough"
    return [
        Space("interruptions", cases(deep), run, 1, timeout=3000 if deep else 400,
              bounds=f"{len(ops.OPS)} operations, every statement at its first {'six (the slowest: two) executions' if deep else 'execution'} and at its last one, {'four kinds' if deep else 'two kinds'} of exception, followed by the same operation on the same and on other objects and by a related operation"),
    ]
