"""Identity testing of extracted closed forms.

Two terms with different normal forms may still denote the same function (trigonometric
identities, differently associated divisions, ...).  Before such a pair is reported as
different, the two formulas are evaluated at fixed pseudo-random points: formulas that
agree on every one of them within rounding are taken to be the same (polynomial identity
testing).  What is evaluated are the formulas the analysis extracted from the source; no
code of the repository runs.
"""
import hashlib
import math
import random
import numpy as np
from terms import *
import terms as tm


class Undefined(Exception):
    pass


class Ev:
    """One sample point: atoms get values by a hash of their identity and the sample number."""

    tie = 0.0

    def __init__(self, seed, n, dom=None, trip=3, interp=None):
        self.seed = seed
        self.n = n
        self.dom = dom
        self.memo = {}
        self.trip = trip
        self.interp = interp

    def rnd(self, key):
        h = hashlib.sha256(("%s|%s|%s" % (self.seed, self.n, key)).encode()).digest()
        return random.Random(int.from_bytes(h[:8], "big"))

    def atom(self, t):
        if self.dom is not None:
            v = self.dom(t, self.rnd, self)
            if v is not None:
                return v
        r, c = dims(t)
        k = self.fkey(t) if t.op == "fn" and "::" in str(t.args[0]) else self.key(t)
        g = self.rnd(k)
        if r and c:
            return np.array([[g.uniform(-2, 2) for _ in range(c)] for _ in range(r)])
        if r or c:
            r, c = r or self.trip, c or self.trip
            return np.array([[g.uniform(-2, 2) for _ in range(c)] for _ in range(r)])
        return g.uniform(-2, 2)

    def key(self, t):
        return "%s#%d" % (show(t, 12)[:400], t.id)

    def fkey(self, t):
        """An uninterpreted function: equal argument values give equal results."""
        return "|".join([str(t.args[0])] + [y for x in t.args[1:] for y in self.akey(x)])

    def akey(self, x):
        if x.op == "struct":
            return [z for _, y in x.args[1] for z in self.akey(y)]
        if x.op == "addr":
            return [self.key(x)]
        if x.op in ("poly", "num", "mat", "cm", "sum", "summ", "fold", "el", "ite", "blk", "cw", "tabm") or dims(x) != (None, None) \
                or (x.op == "fn" and "::" not in str(x.args[0])):
            try:
                v = np.asarray(self.ev(x), dtype=float).reshape(-1)
                return [",".join("%.7e" % (0.0 if abs(y) < 1e-12 else y) for y in v)]
            except (Undefined, ValueError, TypeError, np.linalg.LinAlgError):
                pass
        return [self.key(x)]

    def ev(self, t):
        if t in self.memo:
            v = self.memo[t]
        else:
            v = self._ev(t)
            self.memo[t] = v
        return v

    def b(self, t):
        o = t.op
        a = t.args
        if o == "true":
            return True
        if o == "false":
            return False
        if o == "not":
            return not self.b(a[0])
        if o == "and":
            return all([self.b(x) for x in a])
        if o == "or":
            return any([self.b(x) for x in a])
        if o == "lt0":
            return self.s(a[0]) < -self.tie
        if o == "eq0":
            return abs(self.s(a[0])) < max(1e-12, self.tie)
        if o in ("any", "all"):
            n = self.n_of(a[0])
            bv = self.topbv(a[1])
            f = any if o == "any" else all
            return f([self.b(subst(a[1], {bv: num(i)})) for i in range(n)])
        if o == "truth":
            return bool(self.rnd("truth" + self.key(t)).random() < 0.5)
        if o == "eq":
            return a[0] is a[1] or self.rnd("eq" + self.key(t)).random() < 0.5
        if o == "ite":
            return self.b(a[1]) if self.b(a[0]) else self.b(a[2])
        return bool(self.rnd("bool" + self.key(t)).random() < 0.5)

    def s(self, t):
        v = self.ev(t)
        if isinstance(v, np.ndarray):
            if v.size == 1:
                return float(v.reshape(-1)[0])
            raise Undefined()
        return v

    def n_of(self, t):
        if t.op == "num":
            return max(0, min(64, int(t.args[0])))
        if self.dom is not None:
            v = self.dom(t, self.rnd, self)
            if v is not None:
                return int(v)
        if t.op == "poly":
            return max(0, min(64, int(round(self.s(t)))))
        return self.trip

    def topbv(self, t):
        m = -1
        for x in walk(t):
            if x.op == "bv":
                m = max(m, x.args[0])
        return T("bv", m)

    def _ev(self, t):
        o, a = t.op, t.args
        if o == "fnm" and a[0] in ("eigenvalues", "eigenvectors") and len(a) > 1 and a[1].op == "ctor" and "SelfAdjointEigenSolver" in str(a[1].args[0]):
            l, e = np.linalg.eigh(np.atleast_2d(self.ev(a[1].args[1])))
            return l.reshape(-1, 1) if a[0] == "eigenvalues" else e
        if o == "num":
            return float(a[0])
        if t is PI:
            return math.pi
        if t is T("sym", "inf"):
            return float("inf")
        if o == "poly":
            tot = 0.0
            for m, c in a[0]:
                v = float(c)
                for x, w in m:
                    b = self.s(x)
                    if w.denominator != 1 and b < 0:
                        raise Undefined()
                    if b == 0 and w < 0:
                        raise Undefined()
                    v *= b ** (int(w) if w.denominator == 1 else float(w))
                tot += v
            return tot
        if isbool(t):
            return 1.0 if self.b(t) else 0.0
        if o == "ite":
            return self.ev(a[1]) if self.b(a[0]) else self.ev(a[2])
        if o == "fn":
            return self.fn(t)
        if o == "cm":
            return np.array([self.s(x) for x in a[2]]).reshape(a[0], a[1])
        if o == "mat":
            tot = None
            for k, v in a[2]:
                p = None
                for x, tr in k:
                    m = np.atleast_2d(self.ev(x))
                    m = m.T if tr else m
                    p = m if p is None else p @ m
                p = self.s(v) * p
                tot = p if tot is None else tot + p
            if tot is None:
                return np.zeros((a[0] or 1, a[1] or 1))
            return tot
        if o == "el":
            m = np.atleast_2d(self.ev(a[0]))
            i, j = self.idx(a[1]), self.idx(a[2])
            return float(m[i, j])
        if o == "blk":
            m = np.atleast_2d(self.ev(a[0]))
            i, j, r, c = [self.idx(x) for x in a[1:]]
            return m[i:i + r, j:j + c]
        if o == "updm":
            m = np.array(np.atleast_2d(self.ev(a[0])))
            i, j, r, c = [self.idx(x) for x in a[2]]
            m[i:i + r, j:j + c] = self.ev(a[1])
            return m
        if o == "fnm":
            if a[0] == "inverse":
                m = self.ev(a[1])
                return np.linalg.inv(m)
            if a[0].startswith(("row.", "col.")):
                g = {"sum": np.sum, "minCoeff": np.min, "maxCoeff": np.max, "mean": np.mean}.get(a[0][4:])
                if g:
                    return g(np.atleast_2d(self.ev(a[1])), axis=1 if a[0][0] == "r" else 0, keepdims=True)
                if a[0][4:] == "squaredNorm":
                    return np.sum(np.atleast_2d(self.ev(a[1])) ** 2, axis=1 if a[0][0] == "r" else 0, keepdims=True)
            return self.atom(t)
        if o == "cw":
            x, y = self.ev(a[1]), self.ev(a[2])
            return {"*": lambda: x * y, "/": lambda: x / y, "min": lambda: np.minimum(x, y), "max": lambda: np.maximum(x, y),
                    "+": lambda: x + y, "-": lambda: x - y, "<": lambda: (x < y) * 1.0}[a[0]]()
        if o == "const":
            r, c = dims(t)
            return np.full((r or self.idx(a[1]), c or self.idx(a[2])), self.s(a[0]))
        if o == "sum" or o == "summ":
            n = self.n_of(a[0])
            bv = self.topbv(a[1])
            tot = 0.0
            for i in range(n):
                tot = tot + self.ev(subst(a[1], {bv: num(i)}))
            if o == "summ" and n == 0:
                r, c = dims(t)
                return np.zeros((r or 1, c or 1))
            return tot
        if o == "fold" and a[0] in ("min", "max"):
            n = self.n_of(a[1])
            if not n:
                raise Undefined()
            bv = self.topbv(a[2])
            return (min if a[0] == "min" else max)(self.s(subst(a[2], {bv: num(i)})) for i in range(n))
        if o == "rep":
            x, y = np.atleast_2d(self.ev(a[1])), np.atleast_2d(self.ev(a[2]))
            return np.tile(x, (y.shape[0], 1)) if a[0] == "row" else np.tile(x, (1, y.shape[1]))
        if o == "tabm":
            m = np.array(np.atleast_2d(self.ev(a[0])))
            axis, i0, ext, bv = a[3]
            for i in range(min(self.n_of(a[1]), m.shape[1 if axis == "c" else 0])):
                x = np.asarray(self.ev(subst(a[2], {bv: num(i)})), dtype=float)
                if axis == "c":
                    m[i0:i0 + ext, i] = x.reshape(-1)
                else:
                    m[i, i0:i0 + ext] = x.reshape(-1)
            return m
        if o == "size":
            return float(self.n_of(t))
        if o in ("rows", "cols"):
            x = np.atleast_2d(self.ev(a[0]))
            return float(x.shape[0 if o == "rows" else 1])
        if o in ("init", "get"):
            return self.atom(t)
        return self.atom(t)

    def idx(self, x):
        if isinstance(x, Term):
            return int(round(self.s(x)))
        return int(x)

    def fn(self, t):
        a = t.args
        n = a[0]
        if self.interp and n in self.interp:
            return self.interp[n](self, *[np.atleast_2d(self.ev(x)) for x in a[1:]])
        vs = [self.ev(x) for x in a[1:]] if n in ("det", "msum", "trace", "norm", "squaredNorm", "dot", "row.sum", "col.sum") else None
        if n == "det":
            return float(np.linalg.det(vs[0]))
        if n == "msum":
            return float(np.sum(vs[0]))
        if n == "trace":
            return float(np.trace(vs[0]))
        if n == "squaredNorm":
            return float(np.sum(vs[0] ** 2))
        if n == "row.sum":
            return np.sum(vs[0], axis=1, keepdims=True)
        if n == "col.sum":
            return np.sum(vs[0], axis=0, keepdims=True)
        if n == "norm":
            return float(np.linalg.norm(vs[0]))
        if n in ("min", "max"):
            return (min if n == "min" else max)(self.s(x) for x in a[1:])
        if n in ("abs", "exp", "log", "sin", "cos", "tan", "asin", "acos", "atan", "atan2", "floor", "ceil", "pow",
                 "trunc", "hypot", "sinh", "cosh", "tanh", "round"):
            x = [self.s(y) for y in a[1:]]
            try:
                if n == "abs":
                    return abs(x[0])
                if n == "trunc":
                    return float(int(x[0]))
                if n == "round":
                    return float(round(x[0]))
                if n == "pow":
                    if x[0] < 0 and x[1] != int(x[1]):
                        raise Undefined()
                return float(getattr(math, n)(*x))
            except (ValueError, OverflowError, ZeroDivisionError):
                raise Undefined()
        return self.atom(t)


def same(a, b, dom=None, seed=1, samples=48, tol=1e-7, need=8, interp=None):
    """('identical'|'agree'|'differ'|'unknown', detail)"""
    if a is b:
        return "identical", None
    if not isinstance(a, Term) or not isinstance(b, Term):
        return "differ", None
    good = 0
    for i in range(samples):
        e = Ev(seed, i, dom, trip=1 + i % 4, interp=interp)
        try:
            if isbool(a) and isbool(b):
                x, y = e.b(a), e.b(b)
                if x != y:
                    return "differ", i
                good += 1
                continue
            x, y = np.asarray(e.ev(a), dtype=float), np.asarray(e.ev(b), dtype=float)
        except (Undefined, np.linalg.LinAlgError, ZeroDivisionError, OverflowError, IndexError, ValueError):
            continue
        if x.size == 1 and y.size == 1:
            x, y = x.reshape(-1), y.reshape(-1)
        if x.shape != y.shape:
            return "differ", "shape"
        if not (np.all(np.isfinite(x)) and np.all(np.isfinite(y))):
            continue
        sc = np.maximum(1.0, np.maximum(np.abs(x).max(), np.abs(y).max())) if x.size else 1.0
        if x.size and np.abs(x - y).max() > tol * sc:
            return "differ", i
        good += 1
    if good < need:
        return "unknown", good
    for p, x, y in ties(a, b):
        if x is not y and tie_differs(x, y, dom, seed, min(samples, 12), tol, interp):
            return "differ", "where %s is 0" % show(p, 5)[:150]
    return "agree", good


# ------------------------------------------------------------------ boundaries of conditions
LEAF = ("init", "get", "size", "phi", "after", "res", "fresh", "el")
MAXTIES = 16


def ties(a, b):
    """Both terms restricted to where a condition's quantity is exactly zero (random points never are)."""
    both = T("t", a, b)
    ps = []
    for x in walk(both):
        if x.op in ("lt0", "eq0"):
            q = x.args[0]
            if q not in ps and neg(q) not in ps and len(ps) < MAXTIES:
                ps.append(q)
    whole = None
    for q in ps:
        bvs = {x for x in walk(q) if x.op == "bv"}
        for m, c in tm._poly(q).items():
            if len(m) != 1 or m[0][1] != 1:
                continue
            x = m[0][0]
            if x.op not in LEAF or {y for y in walk(x) if y.op == "bv"} != bvs:
                continue
            if any(n is not m and any(tm.mentions(y, x) for y, _ in n) for n in tm._poly(q)):
                continue
            if x.op == "el":
                if whole is None:
                    whole = wholes(both)
                if x.args[0] in whole:
                    continue
            w = sub(x, div(q, num(c)))
            yield q, subst(a, {x: w}), subst(b, {x: w})
            break


def wholes(t):
    """Matrices used other than by element."""
    out = set()
    for x in walk(t):
        if x.op == "el":
            for y in x.args[1:]:
                if isinstance(y, Term):
                    out.add(y)
        else:
            stack = list(x.args)
            while stack:
                y = stack.pop()
                if isinstance(y, Term):
                    out.add(y)
                elif isinstance(y, tuple):
                    stack += list(y)
    return out


def tie_differs(a, b, dom, seed, samples, tol, interp):
    bad = 0
    for i in range(samples):
        e = Ev(seed, 1000 + i, dom, trip=1 + i % 4, interp=interp)
        e.tie = 1e-9
        try:
            if isbool(a) and isbool(b):
                bad += e.b(a) != e.b(b)
                continue
            x, y = np.asarray(e.ev(a), dtype=float), np.asarray(e.ev(b), dtype=float)
        except (Undefined, np.linalg.LinAlgError, ZeroDivisionError, OverflowError, IndexError, ValueError, RecursionError):
            continue
        if x.size == 1 and y.size == 1:
            x, y = x.reshape(-1), y.reshape(-1)
        if x.shape != y.shape or not (np.all(np.isfinite(x)) and np.all(np.isfinite(y))):
            continue
        if x.size and np.abs(x - y).max() > 1e-6 * max(1.0, np.abs(x).max(), np.abs(y).max()):
            bad += 1
    return bad >= 2
