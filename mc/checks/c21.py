"""C21: the refinement parameter."""

import itertools
import math
from fractions import Fraction

from ..engine import Space, expect

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of a grid of element counts, first spacings and units, each result substituted in the spacing equation"
RULE = (
    "a state is one (n, l0/ltot, unit) of the grid; the returned ratio is substituted in the spacing equation in exact rational "
    "arithmetic, compared with 1 and with the result for the same ratio in other units"
)
ASSUMPTIONS = ["l0/ltot between 1e-100 and 1 - 1e-12"]


def ratios(n):
    """l0 as a fraction of the total length, around every special value"""
    out = []
    for d in (0.0, 1e-12, -1e-12, 1e-8, -1e-8, 1e-4, -1e-4, 0.05, -0.05, 0.3, -0.3):
        out.append((1 + d) / n)
    for k in (2, 3, 5, 10, 50):
        out += [1 / (k * n), k / (n * (k + 1)), (k + (n - 1)) / (n * (k + 1))]
    out += [0.5, 0.9, 0.99, 0.999, 0.99999, 1 - 1e-9, 1 - 1e-12, 1e-3, 1e-6, 1e-9, 1e-15, 1e-30, 1e-100]
    return [r for r in out if 0 < r < 1]


def run(c, ctx):
    from pymech.meshtools import exponential_refinement_parameter as erp

    n, u = c["n"], c["unit"]
    ltot = u
    l0 = c["ratio"] * u
    a = erp(l0, ltot, n)
    ctx.step()
    expect(math.isfinite(a) and a > 0, f"alpha is {a}")
    # substitute: l0 (1 + ... + alpha^(n-1)) = ltot
    if n <= 60:
        fa = Fraction(a)
        # keep the rationals short: 300 bits are plenty
        acc = Fraction(0)
        for _ in range(n):
            acc = acc * fa + 1
            if acc.denominator.bit_length() > 300 and acc > 0:
                acc = Fraction(round(acc * 2**250), 2**250)
        rel = abs(float(acc * Fraction(l0) / Fraction(ltot) - 1))
    else:
        tot = math.fsum(math.exp(k * math.log(a)) if k else 1.0 for k in range(n))
        rel = abs(tot * l0 / ltot - 1)
    tol = 1e-13 * n + 1e-14 * abs(math.log(a)) * n
    expect(rel <= tol, lambda: f"alpha = {a}: the lengths add up to {1 + rel} (or {1 - rel}) times the total")
    d = l0 * n / ltot - 1
    if abs(d) < 1e-15:
        expect(abs(a - 1) < 1e-12, f"alpha = {a} for uniform spacing")
    elif abs(d) > 1e-11:
        expect((a < 1) == (d > 0), f"alpha = {a} for a first spacing of {1 + d} times the uniform one")
    ref = erp(c["ratio"], 1.0, n)
    ctx.step()
    expect(abs(a - ref) <= 1e-12 * ref + 4e-15, f"alpha is {a} here but {ref} for the same ratio in other units")
    if u == 1.0:
        expect(a == ref, "not reproducible")
    ctx.state((n, c["ratio"], u))
    ctx.validated()


def cases(deep):
    ns = list(range(2, 41)) + [50, 64, 100, 128, 500, 1000, 2000]
    if deep:
        ns = list(range(2, 201)) + [256, 300, 500, 777, 1000, 2000, 5000]

    def gen():
        for n in ns:
            for r in ratios(n):
                for u in (1.0, 7.3, 1e-6, 4096.0, 1e9):
                    yield dict(n=n, ratio=r, unit=u)

    return gen


def run_order(c, ctx):
    """More elements or a larger first element: smaller growth"""
    from pymech.meshtools import exponential_refinement_parameter as erp

    n = c["n"]
    rs = [i / c["m"] for i in range(1, c["m"])]
    vals = [erp(r, 1.0, n) for r in rs]
    nxt = [erp(r, 1.0, n + 1) for r in rs]
    ctx.step(2 * len(rs))
    for (r, a), b in zip(zip(rs, vals), vals[1:]):
        expect(b < a, f"alpha grows from {a} to {b} with the first spacing at {r}, n = {n}")
    for r, a, b in zip(rs, vals, nxt):
        expect(b < a * (1 + 1e-12), f"alpha grows from {a} to {b} with n = {n} at {r}")
    ctx.state(c)
    ctx.validated(len(rs))


def order(deep):
    return lambda: (dict(n=n, m=m) for n in range(2, 60 if deep else 20) for m in (10, 64, 200))


def spaces(tier):
    deep = tier == "thorough"
    return [
        Space("grid", cases(deep), run, 32, bounds="n from 2 to 40 and up to 2000" if not deep else "n from 2 to 200 and up to 5000"),
        Space("order", order(deep), run_order, 4, bounds="up to 200 equally spaced ratios for each n"),
    ]
