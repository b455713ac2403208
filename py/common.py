"""Helpers shared by the checks."""
import math
from fractions import Fraction
import numpy as np
import ir
import ve
import numev
from terms import *
from ir import AnalysisError


def evaluate(P, f, cfg=None, bind=None):
    v = ve.VE(P, cfg or ve.Config())
    v.run(f)
    return v


def insts(P, q, pred=None):
    fs = P.find(q, pred=pred)
    if not fs:
        raise AnalysisError("anchor not found: " + q)
    return fs


def where(P, f):
    return P.loc(f["l"])


def argterm(v, i):
    """Initial value of parameter i as a term."""
    t = T("init", v.args[i], 0)
    v.tag(t, v.ltype.get(v.args[i]))
    return t


def same_or_report(rep, a, b, what, where, key, dom=None, tol=1e-9, need=8, samples=48, interp=None):
    if a is None or b is None:
        return rep.bad(what + ": no value", where, key)
    r, d = numev.same(a, b, dom, seed=1, samples=samples, tol=tol, need=need, interp=interp)
    rep.count("compared_" + r)
    if r in ("identical", "agree"):
        return rep.good(what + " [" + r + "]", where)
    return rep.bad(what, where, key, "extracted: %s   specified: %s   (%s)" % (show(a, 7)[:400], show(b, 7)[:400], r))


def vec(t, n):
    return [el(t, i, 0) for i in range(n)]


def colv(*xs):
    return cm(len(xs), 1, list(xs))
comps = vec


def spd(g, n, scale=1.0):
    m = np.array([[g.uniform(-1, 1) for _ in range(n)] for _ in range(n)])
    return scale * (m @ m.T + 0.5 * np.eye(n))


def covdom(names=("P", "pv", "R", "Q", "P_", "Dinv", "P0", "cov", "covariance")):
    """Sampling domain: covariance fields and parameters are symmetric positive definite."""
    def dom(t, rnd, ev):
        r, c = dims(t)
        if r and r == c and lastname(t) in names:
            return spd(rnd("spd" + ev.key(t)), r)
        if lastname(t) in ("kappa", "kappa_", "w", "tscale", "pS", "q", "r", "w_", "kappa0"):
            # weights may all be tiny
            tiny = 1e-5 if lastname(t) == "w" and rnd("tiny").uniform(0, 1) < 0.3 else 1
            return rnd("pos" + ev.key(t)).uniform(0.2, 1.5) * tiny
        return None
    return dom


def lastname(t):
    if t.op == "init":
        root, steps = t.args[0].args
        if steps:
            for s in reversed(steps):
                if s[0] == "f":
                    return s[1]
            return None
        return root[1] if root[0] == "O" else None
    if t.op == "get":
        for s in reversed(t.args[1:]):
            if isinstance(s, tuple) and s and s[0] == "f":
                return s[1]
    return None


def at(v, path, base=None):
    """Location receiver.path with its static type (strings are fields, terms element indices)."""
    loc = base if base is not None else v.this
    for p in path:
        if isinstance(p, str):
            t = v.ltype.get(loc)
            nl = ve.ext(loc, ("f", p))
            r = v.p.rec_of(t) if t is not None else None
            if r is not None:
                for f in v.p.rec_fields(r):
                    if f["n"] == p:
                        v.ltype.setdefault(nl, v.p.unref(f["t"]))
        else:
            nl = ve.ext(loc, ("e", p))
            v.set_elem_type(loc, nl)
        loc = nl
    return loc


def F(v, *path, base=None):
    """Final value at receiver.path."""
    return v.read(at(v, path, base), note=False)


def I0(v, *path, base=None):
    """Initial value at receiver.path."""
    st, v.st = v.st, v.st0
    try:
        return v.read(at(v, path, base), note=False)
    finally:
        v.st = st


def _bound(f):
    k = T("idx", "spec", len(_SPEC))
    _SPEC.append(k)
    b = f(k)
    n = 0
    for x in walk(b):
        if x.op == "bv":
            n = max(n, x.args[0] + 1)
    _SPEC.pop()
    return subst(b, {k: T("bv", n)})


_SPEC = []


def sum_over(n, f):
    """Sum over an index below n of f(index)."""
    return T("sum", n, _bound(f))


def fold_over(op, n, f):
    """Least or greatest f(index) over the indices below n."""
    return T("fold", op, n, _bound(f))


def summ_over(n, f):
    b = _bound(f)
    t = T("summ", n, b)
    return setdims(t, *dims(b))


def nodes(ns):
    """Every node of an effect tree, in order."""
    for n in ns or ():
        yield n
        for k in ("body", "a", "b", "els", "then"):
            x = n.get(k)
            if isinstance(x, list):
                yield from nodes(x)
        if n.kids:
            yield from nodes(n.kids)


def gated(rep, live, got, want, what, W, key, dom, **kw):
    """Comparison on the inputs where live holds."""
    if got is None:
        return rep.bad(what + ": no value", W, key)
    same_or_report(rep, ite(live, got, scaled0(want)), ite(live, want, scaled0(want)), what, W, key, dom, **kw)


def scaled0(t):
    r, c = dims(t)
    return zeros(r, c) if r and c else ZERO
