"""C35: operations that only read share their input."""

import json
import os

from .. import ops
from ..engine import Space, expect, fail
from . import c28

LEVEL = "model_checking"
TECHNIQUE = (
    "state invariant evaluated after every statement of the real code (line events of every pymech frame), and stateless exploration of the "
    "schedules of two operations on the same objects and files under a controlled scheduler"
)
RULE = (
    "a state is the content of the meshes, lists, arrays and input files of an operation after one of its statements: it must be the initial "
    "one in every state; a schedule preempts an operation at one of its statements and runs another one on the same objects and files"
)
ASSUMPTIONS = [
    "the operations are those that return or write something; operations whose purpose is to change a mesh work on a copy of it",
    "preemptions happen at statements of pymech",
    "tvtk is replaced by a stand-in",
]


def objects(env, name):
    """The shared objects and files of an operation"""
    env.expected(0, name)
    return env.used[(0, name)]


def files_of(env):
    out = {}
    for f in sorted(os.listdir(env.files[0])):
        st = os.stat(os.path.join(env.files[0], f))
        out[f] = (st.st_size, st.st_mtime_ns, st.st_ino)
    return out


def every(c, ctx):
    """Nothing that was passed is modified after any statement"""
    env = c28.env_of(ctx)
    name = c["op"]
    want = env.expected(0, name)
    w, fn = env.task(0, name)
    shared = {a: getattr(w, a) for a in objects(env, name)}
    before = ops.digest(shared)
    n_files = files_of(env)
    seen = [0]
    first = {}

    def visit(n, key):
        # heavy operations: the first visits of a statement and then at growing distances
        k = first[key] = first.get(key, 0) + 1
        if k > c["often"] and k & (k - 1):
            return True
        seen[0] += 1
        if ops.digest(shared) != before:
            bad = [a for a in shared if ops.digest(shared[a]) != ops.digest(getattr(env.base[0], a))]
            fail(f"{name}: {', '.join(bad)} modified before {os.path.basename(key[0])}:{key[1]} (event {n})")
        return True

    msg = []

    def guarded(n, key):
        try:
            return visit(n, key)
        except Exception as err:  # a trace function must not raise into the code under test
            msg.append(err)
            return False

    result = c28.trace(guarded, fn)
    if msg:
        raise msg[0]
    expect(seen[0] > 0 or name in c["silent"], f"{name}: no statement seen")
    expect(env.content(0, name, w, result) == want, f"{name}: another result when observed")
    expect(files_of(env) == n_files, f"{name}: input files changed")
    ctx.step()
    ctx.validated(seen[0])
    ctx.count("statements", seen[0])
    for key in first:
        ctx.state((name, key))


def together(env, a, b, i, j):
    """Two operations on the same objects"""
    w, _ = env.task(0, a)
    v = ops.World.__new__(ops.World)
    v.folder, v.n = env.out(1), 0
    both = sorted(set(objects(env, a)) | set(objects(env, b)))
    for x in both:
        if not hasattr(w, x):
            import copy

            setattr(w, x, copy.deepcopy(getattr(env.base[0], x)))
        setattr(v, x, getattr(w, x))
    files = env.files[0]
    other = c28.Other(lambda: ops.OPS[b](v, files), j)
    met = []

    def visit(n, key):
        if n < i:
            return True
        met.append(key)
        other.start()
        other.paused.wait(c28.BLOCKED)
        return False

    ra = c28.trace(visit, lambda: ops.OPS[a](w, files))
    if not met:
        other.start()
    other.go.set()
    other.join(60)
    if other.is_alive():
        fail(f"{a} and {b} block each other")
    return env.content(0, a, w, ra), env.content(0, b, v, other.result), met


def pair(c, ctx):
    env = c28.env_of(ctx)
    a, b = c["a"], c["b"]
    if not (set(objects(env, a)) & set(objects(env, b))) and not (reads(a) and reads(b)):
        ctx.count("nothing_shared")
        return
    want = env.expected(0, a), env.expected(0, b)
    points = c28.thin(env.points(0, a), c["na"])
    for i in points:
        ga, gb, met = together(env, a, b, i, None)
        ctx.step()
        ctx.validated(2)
        if (ga, gb) != want:
            where = f"{os.path.basename(met[0][0])}:{met[0][1]}" if met else "?"
            who = " and ".join(n for n, x, y in ((a, ga, want[0]), (f"{b} (second)", gb, want[1])) if x != y)
            fail(f"{a} interrupted at {where} (event {i}) by {b} on the same objects: different result of {who}")
        ctx.state((a, b, i))
    ctx.count("schedules", len(points))


def reads(name):
    return name.startswith("read") or "dataset" in name


SILENT = ["mfdataset"]


def spaces(tier):
    deep = tier == "thorough"
    n = len(ops.OPS)

    def pairs():
        for a in ops.OPS:
            for b in ops.OPS:
                slow = a in c28.SLOW or b in c28.SLOW
                yield dict(a=a, b=b, na=(40 if slow else None) if deep else (3 if slow else 40))

    return [
        Space("every", lambda: [dict(op=a, often=10**9 if deep else 40, silent=SILENT) for a in ops.OPS], every, 1, timeout=3000 if deep else 300,
              bounds=f"{n} operations, the invariant at every statement" + ("" if deep else " (executed up to 40 times, then at every power of two)")),
        Space("pairs", pairs, pair, 4, timeout=3000 if deep else 300,
              bounds=f"all pairs of {n} operations which share an object or a folder of input files, one preemption at up to {'all' if deep else 40} statements (40/3 for the slowest)"),
    ]
