"""C28: operations running in different threads."""

import copy
import os
import sys
import threading

import numpy as np

from .. import engine, ops
from ..engine import Space, expect, fail

LEVEL = "model_checking"
TECHNIQUE = (
    "stateless exploration of the real code under a controlled scheduler (line events of every pymech frame): every schedule with up to two "
    "preemptions at the enumerated statements, for every pair of operations"
)
RULE = (
    "a schedule runs operation A up to one of its statements, then operation B in another thread (completely, or up to one of its own "
    "statements), then A to its end, then B; both results are compared with the results of the operations run alone"
)
ASSUMPTIONS = [
    "a statement is preempted the first time it is executed (thorough: also the last time), not at every iteration of a loop",
    "preemptions happen at statements of pymech; the libraries it uses are atomic",
    "tvtk is replaced by a stand-in",
    "the first operation names its files by absolute paths, the second one by relative paths",
]

SPECS = [dict(nbc=2), dict(nbc=1, ext="walls", dtype="float32", other=True)]
BLOCKED = 3.0


def make_world(k, folder):
    w = ops.World(SPECS[k], folder)
    if SPECS[k].get("other"):
        for name in ("a", "b", "h", "bad", "f", "g", "box"):
            m = getattr(w, name)
            for el in m.elem:
                el.pos *= 1.25
                el.curv *= 1.25
        w.z = [0.0, 0.25, 0.75, 1.75, 3.75]
        w.za = np.array(w.z)
        w.skip = ["v"]
        w.keep = [1, 2]
        w.par = [0.125]
        w.fun = [lambda x, y, p: 0.9 - x - 0 * p]  # another direction
        w.mid = np.array([0.6, -0.125, 0.0])
    return w


class Env:
    """Two sets of input files and of fresh objects"""

    def __init__(self, root):
        ops.silent = lambda fn: fn()
        self.root = root
        os.chdir(root)
        # the first operation has absolute paths, the second one relative paths
        self.files = [ops.make_files(os.path.join((root, "")[k], f"in{k}"), k) for k in (0, 1)]
        self.base = [make_world(k, self.out(k)) for k in (0, 1)]
        self.used = {}
        self.alone = {}
        self.lines = {}

    def out(self, k):
        d = os.path.join((self.root, "")[k], f"out{k}")
        os.makedirs(d, exist_ok=True)
        return d

    def world(self, k, name):
        """Fresh copies of the objects which the operation uses"""
        base = self.base[k]
        if (k, name) not in self.used:
            used = set()

            class Spy:
                def __getattr__(self, a):
                    used.add(a)
                    return copy.deepcopy(getattr(base, a))

            ops.outcome(lambda: ops.OPS[name](Spy(), self.files[k]))
            self.used[(k, name)] = sorted(u for u in used if not callable(getattr(base, u)))
        w = ops.World.__new__(ops.World)
        w.folder, w.n = self.out(k), 0
        for a in self.used[(k, name)]:
            setattr(w, a, copy.deepcopy(getattr(base, a)))
        return w

    def task(self, k, name):
        w = self.world(k, name)
        files = self.files[k]
        return w, lambda: ops.OPS[name](w, files)

    def content(self, k, name, w, result):
        return ops.digest([result, {a: getattr(w, a) for a in self.used[(k, name)]}])

    def expected(self, k, name):
        if (k, name) not in self.alone:
            got = []
            for _ in range(3):  # the first one imports what the operation needs
                w, fn = self.task(k, name)
                got.append(self.content(k, name, w, ops.outcome(fn)))
            if got[1] != got[2]:
                fail(f"{name} alone gives different results")
            self.alone[(k, name)] = got[2]
        return self.alone[(k, name)]

    def points(self, k, name, last=False):
        """Numbers of the line events to preempt at: the first (and last) execution of every statement"""
        self.expected(k, name)
        if (k, name) not in self.lines:
            w, fn = self.task(k, name)
            events = []
            trace(lambda i, key: events.append(key) or True, fn)
            first, final = {}, {}
            for i, key in enumerate(events):
                first.setdefault(key, i)
                final[key] = i
            self.lines[(k, name)] = (sorted(first.values()), sorted(set(first.values()) | set(final.values())), events)
        return self.lines[(k, name)][1 if last else 0]


SRC = os.path.join(os.path.realpath(os.path.join(engine.REPO, "src", "pymech")), "")


_ours = {}


def trace(visit, fn):
    """Run fn, calling visit(number, (file, line)) at every line event in pymech until it returns False"""
    n = [-1]

    def local(frame, event, arg):
        if event == "line":
            n[0] += 1
            if not visit(n[0], (frame.f_code.co_filename, frame.f_lineno)):
                sys.settrace(None)
                return None
        return local

    def top(frame, event, arg):
        name = frame.f_code.co_filename
        if name not in _ours:
            _ours[name] = os.path.realpath(name).startswith(SRC)
        return local if _ours[name] else None

    sys.settrace(top)
    try:
        return ops.outcome(fn)
    finally:
        sys.settrace(None)


class Other(threading.Thread):
    """The second operation: runs to its end, or to statement j, where it waits until it is let go"""

    def __init__(self, fn, stop=None):
        super().__init__(daemon=True)
        self.fn, self.stop_at = fn, stop
        self.paused, self.go = threading.Event(), threading.Event()
        self.result = None

    def run(self):
        try:
            if self.stop_at is None:
                self.result = ops.outcome(self.fn)
            else:

                def visit(n, key):
                    if n < self.stop_at:
                        return True
                    self.paused.set()
                    self.go.wait()
                    return False

                self.result = trace(visit, self.fn)
        except BaseException as err:  # noqa
            self.result = ("died", repr(err))
        finally:
            self.paused.set()


def schedule(env, a, b, i, j):
    """Returns the contents of both results"""
    os.chdir(env.root)
    wa, fa = env.task(0, a)
    wb, fb = env.task(1, b)
    other = Other(fb, j)
    met = []

    def visit(n, key):
        if n < i:
            return True
        met.append(key)
        other.start()
        # if it is blocked by something which A holds, A goes on
        other.paused.wait(BLOCKED)
        return False

    ra = trace(visit, fa)
    if not met:
        other.start()
    other.go.set()
    other.join(60)
    if other.is_alive():
        fail(f"{a} and {b} block each other")
    return env.content(0, a, wa, ra), env.content(1, b, wb, other.result), met


_env = {}


def env_of(ctx):
    root = os.path.dirname(ctx.scratch)
    key = (os.getpid(), root)
    if key not in _env:
        d = os.path.join(root, f"c28-{os.getpid()}")
        os.makedirs(d, exist_ok=True)
        _env.clear()
        _env[key] = Env(d)
    return _env[key]


def thin(points, n):
    """At most n points, spread evenly, always with the ends"""
    if n is None or len(points) <= n:
        return points
    return sorted({points[round(k * (len(points) - 1) / (n - 1))] for k in range(n)})


def run(c, ctx):
    env = env_of(ctx)
    before = os.getcwd()
    try:
        explore(c, ctx, env)
    finally:
        os.chdir(before)


def explore(c, ctx, env):
    os.chdir(env.root)
    a, b = c["a"], c["b"]
    want = env.expected(0, a), env.expected(1, b)
    pa = thin(env.points(0, a, c.get("last")), c.get("na"))
    pb = thin(env.points(1, b, c.get("last")), c.get("nb")) if c["preemptions"] == 2 else [None]
    for i in pa:
        for j in pb:
            ga, gb, met = schedule(env, a, b, i, j)
            ctx.step()
            ctx.validated(2)
            if (ga, gb) != want:
                where = f"{os.path.basename(met[0][0])}:{met[0][1]}" if met else "?"
                who = " and ".join(n for n, x, y in ((a, ga, want[0]), (f"{b} (second)", gb, want[1])) if x != y)
                at = "completely" if j is None else f"up to its statement {j}"
                again = schedule(env, a, b, i, j)[:2] == (ga, gb)
                fail(f"{a} interrupted at {where} (event {i}) by {b}, which runs {at}: different result of {who}"
                     + ("" if again else " (other results when the schedule is executed again)"))
    ctx.count("schedules", len(pa) * len(pb))
    ctx.state((a, b, c["preemptions"]))
    for i in pa:
        ctx.state((a, b, i))


FAMILIES = [
    ["gen_box", "gen_box_args", "gen_box_open"],
    ["gen_circle", "gen_circle_args"],
    ["extrude", "extrude_args", "extrude_open", "refine"],
    ["refine_split", "refine_default"],
    ["map", "map_vertices", "edge_mid", "edge_mid_3d", "edge_circle"],
    ["merge", "merge_ignore", "merge_empty", "merge_3d", "keep", "generate", "delete", "rotate"],
    ["connectivity", "connectivity_bad", "present", "present_field"],
    ["lims", "lims_mesh", "points", "points_mesh", "repr", "faces", "centroid"],
    ["vtk", "vtk_3d"],
    ["writenek", "writenek_3d", "readnek", "readnek_skip"],
    ["dataset", "mfdataset", "readnek"],
    ["writere2", "writere2_3d", "readre2", "readre2_big"],
    ["writerea", "writerea_3d", "readrea"],
    ["readma2", "readdns", "readplane"],
]
HEAVY = {"refine_split": 30, "refine_default": 60, "gen_circle_args": 80, "gen_circle": 120, "dataset": 60, "mfdataset": 40}
SLOW = ("dataset", "mfdataset", "refine_split")


def related(a, b):
    return any(a in f and b in f for f in FAMILIES)


def one(deep):
    def gen():
        for a in ops.OPS:
            for b in ops.OPS:
                if deep:
                    yield dict(a=a, b=b, preemptions=1, last=related(a, b), na=None if related(a, b) else 150)
                elif related(a, b):
                    yield dict(a=a, b=b, preemptions=1, na=HEAVY.get(a) if b not in SLOW else 40)
                else:
                    yield dict(a=a, b=b, preemptions=1, na=3 if b in SLOW or a in SLOW else 6)

    return gen


def two(deep):
    def gen():
        for a in ops.OPS:
            for b in ops.OPS:
                if related(a, b):
                    n = (25 if deep else 5) if a in SLOW or b in SLOW else (60 if deep else 10)
                    yield dict(a=a, b=b, preemptions=2, na=n, nb=n)
                elif deep:
                    n = 5 if a in SLOW or b in SLOW else 10
                    yield dict(a=a, b=b, preemptions=2, na=n, nb=n)

    return gen


def spaces(tier):
    deep = tier == "thorough"
    n = len(ops.OPS)
    return [
        Space("one", one(deep), run, 1, timeout=3000 if deep else 300, bounds=f"all pairs of {n} operations; one preemption at every statement of A for pairs of the same kind (30 to 120 for the longest operations in the quick run), at 6 (thorough: 150) statements for the other pairs"),
        Space("two", two(deep), run, 1, timeout=3000 if deep else 300, bounds=f"two preemptions, at up to {60 if deep else 10} statements of each operation, for pairs of the same kind" + (", 10 for the other pairs" if deep else "")),
    ]
