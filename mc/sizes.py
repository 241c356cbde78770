"""Sizes at which block-wise, buffered or width-limited code would go wrong: every small one, and both
sides of every power of two and of ten up to a bound."""

BLOCKS = (100, 256, 500, 512, 1000, 1024, 2048, 4096, 5000, 8192, 10000)


def counts(top, dense=40):
    """Every count up to ``dense``, then one below, at and above each limit up to ``top``"""
    out = set(range(1, min(dense, top) + 1))
    k = 64
    edges = []
    while k <= top:
        edges.append(k)
        k *= 2
    k = 100
    while k <= top:
        edges.append(k)
        k *= 10
    edges += [b for b in BLOCKS if b <= top]
    for b in edges:
        out |= {b - 1, b, b + 1}
    return sorted(n for n in out if n <= top + 1)


def shuffled(n):
    """A permutation of 1..n without structure at block boundaries"""
    import math

    step = max(1, int(n * 0.618))
    while math.gcd(step, n) != 1:
        step += 1
    return [(3 + i * step) % n + 1 for i in range(n)]
