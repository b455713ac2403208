"""Events of an effect tree with the path condition, loops, critical sections and parallel regions around them."""
import itertools
from terms import *


class Ev:
    __slots__ = ("n", "g", "loops", "crits", "pars", "fns", "no", "lno")

    def __init__(s, n, g, loops, crits, pars, fns, no):
        s.n, s.g, s.loops, s.crits, s.pars, s.fns, s.no = n, g, loops, crits, pars, fns, no

    @property
    def kind(s):
        return s.n.kind

    def infn(s, *qs):
        return any(f["q"] in qs for f in s.fns)


def events(ns):
    """All leaf nodes in program order; 'loop', 'fn', 'crit', 'par' and 'if' nodes precede their contents."""
    out = []
    cnt = itertools.count()
    jumps = []

    def walk(ns, g, loops, crits, pars, fns):
        for n in ns or ():
            out.append(Ev(n, g, loops, crits, pars, fns, next(cnt)))
            k = n.kind
            if k == "if":
                ga = walk(n.a, and_(g, n.cond), loops, crits, pars, fns)
                gb = walk(n.b, and_(g, not_(n.cond)), loops, crits, pars, fns)
                if ga is not and_(g, n.cond) or gb is not and_(g, not_(n.cond)):
                    g = or_(ga, gb)
            elif k in ("return", "break", "continue", "throw", "goto"):
                if k in ("break", "continue"):
                    tgt = next((j for j in reversed(jumps) if j[0] in (k, "loop")), None)
                    if tgt is not None:
                        tgt[1].append(g)
                g = FALSE
            elif k == "loop":
                jumps.append(("loop", []))
                walk(n.body, g, loops + (n,), crits, pars, fns)
                jumps.pop()
            elif k == "scope":
                jumps.append((n.of, []))
                g = walk(n.body, g, loops, crits, pars, fns)
                g = or_(g, *jumps.pop()[1])
            elif k == "fn":
                walk(n.body, g, loops, crits, pars, fns + (n.f,))
            elif k == "crit":
                g = walk(n.body, g, loops, crits + (n.name,), pars, fns)
            elif k == "par":
                g = walk(n.body, g, loops, crits, pars + (n,), fns)
            elif k == "switch":
                walk(n.body, and_(g, T("sw", next(cnt))), loops, crits, pars, fns)
            else:
                for key in ("then", "body", "a", "b", "els"):
                    x = n.get(key)
                    if isinstance(x, list):
                        walk(x, g, loops, crits, pars, fns)
            if n.kids:
                walk(n.kids, g, loops, crits, pars, fns)
        return g

    walk(ns, TRUE, (), (), (), ())
    return out


def atoms(t, acc=None, seen=None):
    acc = {} if acc is None else acc
    seen = set() if seen is None else seen
    if t in seen:
        return acc
    seen.add(t)
    if t.op in ("and", "or", "not"):
        for x in t.args:
            atoms(x, acc, seen)
    elif t not in (TRUE, FALSE):
        acc[t] = None
    return acc


def ev(t, m):
    if t.op == "and":
        return all(ev(x, m) for x in t.args)
    if t.op == "or":
        return any(ev(x, m) for x in t.args)
    if t.op == "not":
        return not ev(t.args[0], m)
    if t is TRUE or t is FALSE:
        return t is TRUE
    return m[t]


def taut(t):
    """Propositionally valid (atoms free): the ordered decision diagram of the condition is the constant true."""
    order = {x: i for i, x in enumerate(atoms(t))}
    uniq, memo, done = {}, {}, {}
    Z, O = (-1, 0), (-1, 1)

    def mk(i, lo, hi):
        if lo is hi:
            return lo
        k = (i, id(lo), id(hi))
        if k not in uniq:
            if len(uniq) > 300000:
                raise OverflowError
            uniq[k] = (i, lo, hi)
        return uniq[k]

    def app(op, x, y):
        if op == "and":
            if x is Z or y is Z:
                return Z
            if x is O:
                return y
            if y is O or x is y:
                return x
        else:
            if x is O or y is O:
                return O
            if x is Z:
                return y
            if y is Z or x is y:
                return x
        k = (op, id(x), id(y))
        if k not in memo:
            i = min(x[0] if x[0] >= 0 else 1 << 30, y[0] if y[0] >= 0 else 1 << 30)
            x0, x1 = (x[1], x[2]) if x[0] == i else (x, x)
            y0, y1 = (y[1], y[2]) if y[0] == i else (y, y)
            memo[k] = mk(i, app(op, x0, y0), app(op, x1, y1))
        return memo[k]

    def inv(x, m):
        if x is Z or x is O:
            return O if x is Z else Z
        if id(x) not in m:
            m[id(x)] = mk(x[0], inv(x[1], m), inv(x[2], m))
        return m[id(x)]

    def build(u):
        if u in done:
            return done[u]
        if u is TRUE or u is FALSE:
            r = O if u is TRUE else Z
        elif u.op == "not":
            r = inv(build(u.args[0]), {})
        elif u.op in ("and", "or"):
            r = O if u.op == "and" else Z
            for y in u.args:
                r = app(u.op, r, build(y))
        else:
            r = mk(order[u], Z, O)
        done[u] = r
        return r

    try:
        return build(t) is O
    except OverflowError:
        return None


def equiv(a, b):
    return a is b or bool(taut(or_(and_(a, b), and_(not_(a), not_(b)))))


def implies(a, b):
    return a is b or bool(taut(or_(not_(a), b)))


def expand(t):
    """A condition with conditional values in its comparisons turned into cases."""
    memo = {}

    def one(x):
        if x not in memo:
            memo[x] = one_(x)
        return memo[x]

    def one_(x):
        if x.op in ("and", "or"):
            return (and_ if x.op == "and" else or_)(*[one(y) for y in x.args])
        if x.op == "not":
            return not_(one(x.args[0]))
        if x.op == "ite":
            c = one(x.args[0])
            return or_(and_(c, one(x.args[1])), and_(not_(c), one(x.args[2])))
        if x.op in ("eq0", "lt0", "eq", "truth"):
            i = next((y for y in walk(x) if y.op == "ite" and not any(z.op in ("bv", "sum", "summ") for z in walk(y))), None)
            if i is None:
                return x
            c = one(i.args[0])
            a, b = subst(x, {i: i.args[1]}), subst(x, {i: i.args[2]})
            return or_(and_(c, one(a)), and_(not_(c), one(b)))
        return x
    return one(t)


def align(a, b, dom=None, samples=24):
    """a with each comparison replaced by the comparison of b that has the same sign everywhere it is sampled."""
    import numev
    other = [y for y in atoms(b) if y.op in ("lt0", "eq0")]
    m = {}
    for x in atoms(a):
        if x.op in ("lt0", "eq0") and x not in other:
            for y in other:
                if y.op != x.op:
                    continue
                if x.op == "lt0" and add(x.args[0], y.args[0], ONE) is ZERO:
                    m[x] = not_(y)          # integers: p < 0  <=>  not (-1 - p < 0)
                    break
                good, ok = 0, True
                for i in range(samples):
                    e = numev.Ev(7, i, dom)
                    try:
                        p, q = float(e.ev(x.args[0])), float(e.ev(y.args[0]))
                    except Exception:
                        continue
                    s = (p > 1e-9) - (p < -1e-9), (q > 1e-9) - (q < -1e-9)
                    if s[0] != s[1] and not (x.op == "eq0" and s[0] == -s[1]):
                        ok = False
                        break
                    good += 1
                if ok and good >= 8:
                    m[x] = y
                    break
    return subst(a, m) if m else a


def same(a, b, dom=None):
    """Whether two conditions are equivalent, up to the form of their comparisons."""
    a, b = expand(a), expand(b)
    return equiv(a, b) or equiv(align(a, b, dom), b)


def numev_same(a, b, dom=None, samples=1500):
    """Whether two conditions have the same value everywhere they are sampled."""
    import numev
    r, _ = numev.same(a, b, dom, seed=3, samples=samples, need=samples // 3)
    return r in ("identical", "agree")
