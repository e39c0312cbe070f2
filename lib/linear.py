"""Conjunctions of linear integer inequalities, decided by Fourier-Motzkin elimination (incomplete for integers, never wrong)."""
from math import gcd

class L:
    """linear form: coefficients by symbol and a constant"""
    __slots__ = ("c", "k")
    def __init__(self, c=None, k=0): self.c, self.k = c or {}, k
    def __add__(a, b):
        if isinstance(b, int): return L(a.c, a.k + b)
        c = dict(a.c)
        for s, v in b.c.items():
            n = c.get(s, 0) + v
            if n: c[s] = n
            else: c.pop(s, None)
        return L(c, a.k + b.k)
    def scale(a, n): return L({s: v * n for s, v in a.c.items()} if n else {}, a.k * n)
    def __neg__(a): return a.scale(-1)
    def __sub__(a, b): return a + (-b)
    def const(a): return None if a.c else a.k
    def __repr__(a): return " + ".join(["%s*%s" % (v, s) if v != 1 else str(s) for s, v in a.c.items()] + ([str(a.k)] if a.k or not a.c else []))

def sym(s): return L({s: 1})
def con(k): return L({}, k)

def infeasible(cs, limit=4000):
    """cs: linear forms, each <= 0. True only when no integer point satisfies all."""
    rows = set()
    for l in cs:
        if not l.c:
            if l.k > 0: return True
            continue
        rows.add(_norm(l.c, l.k))
    while True:
        best = {}
        for c, k in rows:
            for s, v in c:
                p = best.setdefault(s, [0, 0]); p[v > 0] += 1
        if not best: return False
        s = min(best, key=lambda x: (best[x][0] * best[x][1] - best[x][0] - best[x][1], x))
        pos, neg, rest = [], [], set()
        for r in rows:
            v = dict(r[0]).get(s, 0)
            if v: (pos if v > 0 else neg).append((v, r))
            else: rest.add(r)
        if len(pos) * len(neg) + len(rest) > limit: return False
        for a, (ca, ka) in pos:
            for b, (cb, kb) in neg:
                c = {}
                for t, v in ca: c[t] = c.get(t, 0) + v * -b
                for t, v in cb: c[t] = c.get(t, 0) + v * a
                c = {t: v for t, v in c.items() if v}
                k = ka * -b + kb * a
                if not c:
                    if k > 0: return True
                    continue
                rest.add(_norm(c, k))
        rows = rest
        if not rows: return False

def _norm(c, k):
    g = 0
    for v in c.values(): g = gcd(g, v)
    # sum c x <= -k  =>  sum (c/g) x <= floor(-k/g)
    return tuple(sorted(((s, v // g) for s, v in c.items()), key=lambda x: str(x[0]))), -((-k) // g)

def proves(facts, goal):
    """facts (each <= 0) imply goal <= 0"""
    return infeasible(list(facts) + [(-goal) + 1])
