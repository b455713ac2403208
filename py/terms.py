"""Hash-consed terms with an algebraic normal form.

Scalars are kept as multivariate polynomials with rational powers over atoms, matrices
as linear combinations of non-commutative products of matrix atoms, conditions as
comparisons of one normal form against zero.  Two terms that are equal under the ring
laws therefore are the same object.
"""
from fractions import Fraction as Fr


def Q(v):
    """Exact rational, as an int where possible."""
    if type(v) is int:
        return v
    v = Fr(v)
    return v.numerator if v.denominator == 1 else v


class Term:
    __slots__ = ("op", "args", "id", "_str", "_sup", "__weakref__")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


_TABLE = {}


def T(op, *args):
    key = (op, args)
    t = _TABLE.get(key)
    if t is None:
        t = Term()
        t.op = op
        t.args = args
        t.id = len(_TABLE)
        t._str = None
        t._sup = None
        _TABLE[key] = t
    return t


_fresh = [0]
CTX = [()]          # indices of the loops being evaluated: an unknown value differs between iterations


def fresh(tag, *info):
    _fresh[0] += 1
    if CTX[0]:
        info += (("in",) + CTX[0],)
    return T("fresh", tag, _fresh[0], *info)


# --------------------------------------------------------------------- scalars
def num(v):
    return T("num", Q(v))


ZERO = num(0)
ONE = num(1)
TRUE = T("true")
FALSE = T("false")
PI = T("sym", "pi")
_PIF = Fr("3.141592653589793238462643383279502884")


def lit(v, s=None):
    """A floating literal; rational multiples of pi are recognised."""
    f = Fr(s) if s else Fr(repr(v))
    if f != 0:
        q = f / _PIF
        r = q.limit_denominator(360)
        if r != 0 and abs(q / r - 1) < Fr(1, 10 ** 15):
            return mul(num(r), PI)
    return num(f)


def is_num(t):
    return t.op == "num"


def numval(t):
    return t.args[0] if t.op == "num" else None


def _poly(t):
    """dict monomial -> coefficient."""
    if t.op == "num":
        return {(): t.args[0]} if t.args[0] != 0 else {}
    if t.op == "poly":
        return dict(t.args[0])
    return {((t, 1),): 1}


def _mk(p):
    p = {m: (c if type(c) is int or c.denominator != 1 else c.numerator) for m, c in p.items() if c}
    if not p:
        return ZERO
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return T("poly", tuple(sorted(p.items(), key=lambda mc: tuple((a.id, w) for a, w in mc[0]))))


def add(*ts):
    r = {}
    for t in ts:
        for m, c in _poly(t).items():
            r[m] = r.get(m, 0) + c
    return _mk(r)


def neg(t):
    return _mk({m: -c for m, c in _poly(t).items()})


def sub(a, b):
    return add(a, neg(b))


def _mulmono(m1, m2):
    d = {}
    if not m1 and not any(a.op == "poly" for a, w in m2):
        return m2, None
    if not m2 and not any(a.op == "poly" for a, w in m1):
        return m1, None
    for a, w in m1 + m2:
        d[a] = d.get(a, 0) + w
    expand = []
    out = []
    for a, w in d.items():
        if w == 0:
            continue
        if a.op == "poly" and w.denominator == 1 and w > 0:
            expand.append((a, w))
        else:
            out.append((a, w if type(w) is int or w.denominator != 1 else w.numerator))
    return tuple(sorted(out, key=lambda aw: (aw[0].id, aw[1]))), expand


def mul(*ts):
    r = {(): 1}
    for t in ts:
        p = _poly(t)
        n = {}
        for m1, c1 in r.items():
            for m2, c2 in p.items():
                m, ex = _mulmono(m1, m2)
                if ex:
                    q = _mk({m: c1 * c2})
                    for a, w in ex:
                        for _ in range(int(w)):
                            q = mul(q, a)
                    for mm, cc in _poly(q).items():
                        n[mm] = n.get(mm, 0) + cc
                else:
                    n[m] = n.get(m, 0) + c1 * c2
        r = n
    return _mk(r)


def _content(p):
    """leading coefficient of a polynomial (by the canonical order)."""
    ms = sorted(p.items(), key=lambda mc: tuple((a.id, w) for a, w in mc[0]))
    # prefer a non-constant leading monomial
    for m, c in reversed(ms):
        if m != ():
            return c
    return ms[-1][1]


def pw(t, e):
    e = Q(e)
    if e == 0:
        return ONE
    if e == 1:
        return t
    p = _poly(t)
    if not p:
        return ZERO if e > 0 else T("div0")
    if len(p) == 1:
        (m, c), = p.items()
        if e.denominator == 1:
            return _mk({tuple((a, Q(w * e)) for a, w in m): Q(Fr(c) ** int(e))})
        if c > 0:
            rc = _root(c, e)
            if rc is not None and all(_evenok(w, e) for _, w in m):
                return _mk({tuple((a, Q(w * e)) for a, w in m): rc})
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return _mk({((m[0][0], e),): 1})
        return _mk({((T("poly", tuple(p.items())), e),): 1})
    if e.denominator == 1 and e > 0 and e <= 6:
        r = ONE
        for _ in range(int(e)):
            r = mul(r, t)
        return r
    c = _content(p)
    if e.denominator == 1:
        q = _mk({m: Q(Fr(k) / c) for m, k in p.items()})
        return _mk({((q, e),): Q(Fr(c) ** int(e))})
    if c > 0 and _root(c, e) is not None:
        q = _mk({m: Q(Fr(k) / c) for m, k in p.items()})
        return _mk({((q, e),): _root(c, e)})
    return _mk({((t, e),): 1})


def _evenok(w, e):
    # sqrt(x^2) is |x|: only split powers when the result is not such a case.
    return not (w.denominator == 1 and w % 2 == 0)


def _root(c, e):
    if c == 1:
        return 1
    if e.denominator == 2:
        import math
        n, d = c.numerator, c.denominator
        rn, rd = math.isqrt(n), math.isqrt(d)
        if rn * rn == n and rd * rd == d:
            return Q(Fr(rn, rd) ** e.numerator)
    return None


def div(a, b):
    if is_num(b):
        if b.args[0] == 0:
            return T("fn", "div0", a)
        return mul(a, num(Fr(1) / b.args[0]))
    if a is b:
        return ONE
    pa, pb = _poly(a), _poly(b)
    if len(pb) > 1 and len(pa) == len(pb) and set(pa) == set(pb):
        rs = {Q(Fr(pa[m]) / pb[m]) for m in pb}
        if len(rs) == 1:
            return num(rs.pop())
    return mul(a, pw(b, -1))


def fn(name, *args):
    if name == "sqrt":
        return pw(args[0], Fr(1, 2))
    if name in ("fabs",):
        name = "abs"
    if all(a.op == "num" for a in args) and args:
        v = [a.args[0] for a in args]
        if name == "abs":
            return num(abs(v[0]))
        if name == "exp" and v[0] == 0:
            return ONE
        if name == "log" and v[0] == 1:
            return ZERO
        if name in ("sin", "tan", "asin", "atan") and v[0] == 0:
            return ZERO
        if name in ("cos",) and v[0] == 0:
            return ONE
        if name == "floor":
            return num(v[0].numerator // v[0].denominator)
        if name == "trunc":
            return num(int(v[0]))
    if name == "pow":
        if is_num(args[1]) and args[1].args[0].denominator in (1, 2):
            return pw(args[0], args[1].args[0])
        return T("fn", "pow", *args)
    if name in ("sin", "cos"):
        p = _poly(args[0])
        key = ((PI, 1),)
        q = p.get(key, 0) * 2
        if q.denominator == 1 and q != 0 and len(p) > 1:
            rest = _mk({m: c for m, c in p.items() if m != key})
            k = int(q) % 4
            tab = {"sin": [("sin", 1), ("cos", 1), ("sin", -1), ("cos", -1)],
                   "cos": [("cos", 1), ("sin", -1), ("cos", -1), ("sin", 1)]}
            nm, sg = tab[name][k]
            return mul(num(sg), fn(nm, rest))
        c = _content(p) if p else 1
        if c < 0:
            r = fn(name, neg(args[0]))
            return neg(r) if name == "sin" else r
    if name == "abs":
        p = _poly(args[0])
        if p and _content(p) < 0:
            return T("fn", "abs", neg(args[0]))
    if name in ("min", "max"):
        xs = []
        for a in args:
            if a.op == "fn" and a.args[0] == name:
                xs += a.args[1:]
            else:
                xs.append(a)
        xs = sorted(set(xs), key=lambda t: t.id)
        if len(xs) == 1:
            return xs[0]
        ns = [x for x in xs if is_num(x)]
        if len(ns) > 1:
            v = (min if name == "min" else max)(x.args[0] for x in ns)
            xs = [x for x in xs if not is_num(x)] + [num(v)]
            xs = sorted(set(xs), key=lambda t: t.id)
        dual = "max" if name == "min" else "min"
        keep = [x for x in xs if not (x.op == "fn" and x.args[0] == dual and any(y in x.args[1:] for y in xs if y is not x))]
        xs = keep or xs          # max(a, min(a, b)) = a
        return T("fn", name, *xs) if len(xs) > 1 else xs[0]
    return T("fn", name, *args)


# ------------------------------------------------------------------ conditions
def not_(t):
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == "not":
        return t.args[0]
    r = _NOT.get(t)
    if r is None:
        if t.op == "and":
            r = or_(*[not_(x) for x in t.args])
        elif t.op == "or":
            r = and_(*[not_(x) for x in t.args])
        else:
            r = T("not", t)
        _NOT[t] = r
    return r


_NOT = {}


def _junct(op, unit, zero, ts):
    out = []
    for t in ts:
        if t is unit:
            continue
        if t is zero:
            return zero
        if t.op == op:
            for x in t.args:
                if x not in out:
                    out.append(x)
        elif t not in out:
            out.append(t)
    for t in out:
        if not_(t) in out:
            return zero
    if not out:
        return unit
    if len(out) == 1:
        return out[0]
    return T(op, *sorted(out, key=lambda t: t.id))


def and_(*ts):
    return _junct("and", TRUE, FALSE, ts)


def or_(*ts):
    return _junct("or", FALSE, TRUE, ts)


def lt(a, b, integer=False, unsigned=False):
    """a < b"""
    if a is b:
        return FALSE
    p = sub(a, b)
    if is_num(p):
        return TRUE if p.args[0] < 0 else FALSE
    d = _poly(p)
    c = _content(d)
    if integer:
        if c < 0:
            q = sub(neg(p), ONE)          # p<0  <=>  not(-p-1 < 0)
            return not_(_lt0(q, unsigned))
        return _lt0(p, unsigned)
    return T("lt0", mul(p, num(Fr(1) / abs(c))))


def _lt0(p, unsigned):
    d = _poly(p)
    if unsigned:
        rest = {m: c for m, c in d.items() if m != ()}
        k = d.get((), 0)
        if len(rest) == 1 and list(rest.values())[0] == 1:
            if k == -1:
                return eq(_mk(rest), ZERO)
            if k >= 0:
                return FALSE
    return T("lt0", p)


def le(a, b, integer=False, unsigned=False):
    return not_(lt(b, a, integer, unsigned))


def eq(a, b):
    if a is b:
        return TRUE
    if _isscal(a) and _isscal(b):
        p = sub(a, b)
        if is_num(p):
            return TRUE if p.args[0] == 0 else FALSE
        d = _poly(p)
        ms = sorted(d.items(), key=lambda mc: tuple((x.id, w) for x, w in mc[0]))
        lead = [c for m, c in ms if m != ()][-1]
        return T("eq0", mul(p, num(Fr(1) / lead)))
    if b.id < a.id:
        a, b = b, a
    return T("eq", a, b)


def _isscal(t):
    return t.op not in ("null", "addr", "str", "cm", "mat", "struct", "true", "false", "not", "and", "or", "lt0", "eq0", "eq",
                        "iter", "new")


def isbool(t):
    return t.op in ("true", "false", "not", "and", "or", "lt0", "eq0", "eq", "any", "all", "truth", "cond")


def truth(t):
    """A value used as a condition."""
    if isbool(t):
        return t
    if t.op == "num":
        return TRUE if t.args[0] != 0 else FALSE
    if t.op in ("addr", "new", "fnptr"):
        return TRUE
    if t.op == "null":
        return FALSE
    if t.op == "ite":
        return ite(t.args[0], truth(t.args[1]), truth(t.args[2]))
    return T("not", eq(t, ZERO)) if t.op in ("poly",) else T("truth", t)


def boolnum(t):
    """A condition used as a number."""
    if t is TRUE:
        return ONE
    if t is FALSE:
        return ZERO
    return ite(t, ONE, ZERO)


def assume(t, facts, memo=None):
    """Simplify a condition under facts (dict cond -> bool)."""
    if t in facts:
        return TRUE if facts[t] else FALSE
    if t.op not in ("not", "and", "or"):
        return t
    memo = {} if memo is None else memo
    r = memo.get(t)
    if r is None:
        if t.op == "not":
            r = not_(assume(t.args[0], facts, memo))
        else:
            r = (and_ if t.op == "and" else or_)(*[assume(x, facts, memo) for x in t.args])
        memo[t] = r
    return r


def add_fact(facts, c, pol):
    """New facts with c == pol."""
    facts = dict(facts)

    def put(c, pol):
        if c.op == "not":
            return put(c.args[0], not pol)
        if (c.op == "and" and pol) or (c.op == "or" and not pol):
            for x in c.args:
                put(x, pol)
        facts[c] = pol
        if c.op == "eq0" and pol:
            pass
    put(c, pol)
    return facts


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if isbool(a) and isbool(b):
        if a is TRUE:
            return or_(c, b)
        if a is FALSE:
            return and_(not_(c), b)
        if b is TRUE:
            return or_(not_(c), a)
        if b is FALSE:
            return and_(c, a)
        return or_(and_(c, a), and_(not_(c), b))
    if isbool(a) != isbool(b):
        if isbool(a) and b.op in ("num",):
            a = boolnum(a)
        elif isbool(b) and a.op in ("num",):
            b = boolnum(b)
    # nested
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if b.op == "ite" and b.args[2] is a:
        # c ? a : (d ? x : a)  ->  (!c && d) ? x : a
        return ite(and_(not_(c), b.args[0]), b.args[1], a)
    if b.op == "ite" and b.args[1] is a:
        return ite(or_(c, b.args[0]), a, b.args[2])
    if a.op == "ite" and a.args[2] is b:
        return ite(and_(c, a.args[0]), a.args[1], b)
    if a.op == "ite" and a.args[1] is b:
        return ite(and_(c, not_(a.args[0])), a.args[2], b)
    if c.op == "lt0":
        d = sub(a, b) if _scalarish(a) and _scalarish(b) else None
        if d is not None:
            m = _ratio(d, c.args[0])
            if m is not None and m > 0:
                return fn("min", a, b)      # (a-b<0) ? a : b
            if m is not None and m < 0:
                return fn("max", a, b)
    if a.op == "struct" and b.op == "struct" and a.args[0] == b.args[0]:
        da, db = dict(a.args[1]), dict(b.args[1])
        if set(da) == set(db):
            return T("struct", a.args[0], tuple((k, ite(c, da[k], db[k])) for k, _ in a.args[1]))
    if _scalarish(a) and _scalarish(b) and (a.op == "poly" or b.op == "poly"):
        pa, pb = _poly(a), _poly(b)
        com = {m: k for m, k in pa.items() if pb.get(m) == k and m != ()}
        if com:
            return add(_mk(com), ite(c, sub(a, _mk(com)), sub(b, _mk(com))))
    return T("ite", c, a, b)


def _scalarish(t):
    return t.op in ("num", "poly", "fn", "sym", "init", "get", "el", "phi", "fresh", "ite", "sum", "idx", "size", "undef", "ext")


def _ratio(p, q):
    """p == r*q with a rational r."""
    a, b = _poly(p), _poly(q)
    if set(a) != set(b) or not a:
        return None
    rs = {a[m] / b[m] for m in b}
    return rs.pop() if len(rs) == 1 else None


# -------------------------------------------------------------------- matrices
DIMS = {}       # atom -> (rows, cols), None where unknown


def setdims(t, r, c):
    if t.op not in ("num", "poly", "cm", "mat"):
        DIMS[t] = (r if r and r > 0 else None, c if c and c > 0 else None)
    return t


def dims(t):
    if t.op == "cm":
        return t.args[0], t.args[1]
    if t.op == "mat":
        return t.args[0], t.args[1]
    if t.op == "ite":
        return dims(t.args[1])
    return DIMS.get(t, (None, None))


def cm(r, c, entries):
    """Concrete matrix, row-major entries."""
    # a matrix whose entries are those of an atom is that atom
    e = tuple(entries)
    first = e[0] if e else None
    if first is not None and first.op == "el":
        base = first.args[0]
        if dims(base) == (r, c) and all(e[i * c + j] is el(base, i, j) for i in range(r) for j in range(c)):
            return base
    return T("cm", r, c, e)


def cm_el(m, i, j):
    return m.args[2][i * m.args[1] + j]


def ident(n):
    return cm(n, n, [ONE if i == j else ZERO for i in range(n) for j in range(n)])


def is_ident(t):
    return t.op == "cm" and t.args[0] == t.args[1] and t is ident(t.args[0])


def is_zero(t):
    if t is ZERO:
        return True
    if t.op == "cm":
        return all(x is ZERO for x in t.args[2])
    return t.op == "mat" and not t.args[2]


def _lin(t):
    """dict product -> scalar; product = tuple of (atom, transposed)."""
    if t.op == "mat":
        return dict(t.args[2])
    return {((t, False),): ONE}


def _mkmat(r, c, d):
    d = {k: v for k, v in d.items() if v is not ZERO}
    # merge concrete single factors
    conc = [(k, v) for k, v in d.items() if len(k) == 1 and k[0][0].op == "cm"]
    if len(conc) > 1 or (conc and (conc[0][1] is not ONE or conc[0][0][0][1])):
        acc = None
        for k, v in conc:
            m = k[0][0]
            if k[0][1]:
                m = transpose(m)
            m = cm(m.args[0], m.args[1], [mul(v, e) for e in m.args[2]])
            acc = m if acc is None else cm(m.args[0], m.args[1], [add(x, y) for x, y in zip(acc.args[2], m.args[2])])
            del d[k]
        if acc.op == "cm" and not all(x is ZERO for x in acc.args[2]) or not d:
            if not d:
                return acc
            k = ((acc, False),)
            d[k] = add(d.get(k, ZERO), ONE)
    if len(d) == 1:
        (k, v), = d.items()
        if v is ONE and len(k) == 1 and not k[0][1]:
            return k[0][0]
    return T("mat", r, c, tuple(sorted(d.items(), key=lambda kv: tuple((a.id, t) for a, t in kv[0]))))


def zeros(r, c):
    if r and c and r > 0 and c > 0 and r * c <= 64:
        return cm(r, c, [ZERO] * (r * c))
    return T("mat", r, c, ())


def _d2(a, b):
    (r1, c1), (r2, c2) = dims(a), dims(b)
    return (r1 or r2), (c1 or c2)


def madd(a, b):
    if is_zero(a):
        return b
    if is_zero(b):
        return a
    if a.op == "ite" and b.op != "ite":
        return ite(a.args[0], madd(a.args[1], b), madd(a.args[2], b))
    r, c = _d2(a, b)
    d = _lin(a)
    for k, v in _lin(b).items():
        d[k] = add(d.get(k, ZERO), v)
    return _mkmat(r, c, d)


def mscale(s, a):
    if s is ONE:
        return a
    if a.op == "cm":
        return cm(a.args[0], a.args[1], [mul(s, e) for e in a.args[2]])
    r, c = dims(a)
    return _mkmat(r, c, {k: mul(s, v) for k, v in _lin(a).items()})


def mneg(a):
    return mscale(num(-1), a)


def _cmmul(a, b):
    r, n = a.args[0], a.args[1]
    n2, c = b.args[0], b.args[1]
    if n != n2:
        return None
    return cm(r, c, [add(*[mul(cm_el(a, i, k), cm_el(b, k, j)) for k in range(n)]) for i in range(r) for j in range(c)])


def _fact(f):
    a, tr = f
    return transpose(a) if tr and a.op == "cm" else None


def mmul(a, b):
    """Matrix product."""
    if is_ident(a):
        return b
    if is_ident(b):
        return a
    r, c = dims(a)[0], dims(b)[1]
    out = {}
    for k1, v1 in _lin(a).items():
        for k2, v2 in _lin(b).items():
            s = mul(v1, v2)
            fs = list(k1) + list(k2)
            # fold adjacent concrete factors, drop identities
            i = 0
            while i < len(fs):
                x, tx = fs[i]
                if x.op == "cm" and tx:
                    fs[i] = (transpose(x), False)
                    continue
                if is_ident(x) and len(fs) > 1:
                    del fs[i]
                    i = max(0, i - 1)
                    continue
                if i + 1 < len(fs) and x.op == "cm" and fs[i + 1][0].op == "cm":
                    y = fs[i + 1][0] if not fs[i + 1][1] else transpose(fs[i + 1][0])
                    m = _cmmul(x, y)
                    if m is not None:
                        fs[i:i + 2] = [(m, False)]
                        continue
                # X * inv(X)
                if i + 1 < len(fs):
                    y, ty = fs[i + 1]
                    if not tx and not ty and ((y.op == "fnm" and y.args[0] == "inverse" and y.args[1] is x)
                                              or (x.op == "fnm" and x.args[0] == "inverse" and x.args[1] is y)):
                        n = dims(x)[0]
                        if len(fs) > 2:
                            del fs[i:i + 2]
                            i = max(0, i - 1)
                            continue
                        if n:
                            fs[i:i + 2] = [(ident(n), False)]
                            continue
                i += 1
            k = tuple(fs)
            if len(k) == 1 and is_zero(k[0][0]):
                continue
            out[k] = add(out.get(k, ZERO), s)
    return _mkmat(r, c, out)


def transpose(a):
    if a.op == "cm":
        r, c = a.args[0], a.args[1]
        return cm(c, r, [cm_el(a, i, j) for j in range(c) for i in range(r)])
    if a.op == "ite":
        return ite(a.args[0], transpose(a.args[1]), transpose(a.args[2]))
    r, c = dims(a)
    out = {}
    for k, v in _lin(a).items():
        kk = []
        for x, t in reversed(k):
            if x.op == "cm":
                kk.append((transpose(x) if not t else x, False))
            elif x.op == "fnm" and x.args[0] == "inverse" and symmetric(x.args[1]):
                kk.append((x, False))
            elif x in SYMMETRIC:
                kk.append((x, False))
            else:
                kk.append((x, not t))
        kk = tuple(kk)
        out[kk] = add(out.get(kk, ZERO), v)
    return _mkmat(c, r, out)


SYMMETRIC = set()


def symmetric(a):
    return a in SYMMETRIC


def inverse(a):
    t = T("fnm", "inverse", a)
    r, c = dims(a)
    setdims(t, r, c)
    return t


def el(m, i, j):
    """Entry (i, j); i and j are ints or terms."""
    ii = int(i.args[0]) if isinstance(i, Term) and i.op == "num" else i
    jj = int(j.args[0]) if isinstance(j, Term) and j.op == "num" else j
    if m.op == "ite":
        return ite(m.args[0], el(m.args[1], i, j), el(m.args[2], i, j))
    if m.op == "cm" and isinstance(ii, int) and isinstance(jj, int):
        if 0 <= ii < m.args[0] and 0 <= jj < m.args[1]:
            return cm_el(m, ii, jj)
        return T("oob", m, ii, jj)
    if m.op == "mat":
        out = []
        for k, v in m.args[2]:
            out.append(mul(v, _elprod(k, ii, jj)))
        return add(*out) if out else ZERO
    if m.op == "blk":
        b, i0, j0 = m.args[0], m.args[1], m.args[2]
        return el(b, _iadd(i0, ii), _iadd(j0, jj))
    if m.op == "updm":
        base, v, (bi, bj, br, bc) = m.args[0], m.args[1], m.args[2]
        if all(isinstance(x, int) for x in (ii, jj, bi, bj, br, bc)):
            if bi <= ii < bi + br and bj <= jj < bj + bc:
                return el(v, ii - bi, jj - bj) if (br, bc) != (1, 1) or v.op in ("cm", "mat", "blk", "cw", "cwf") else v
            return el(base, ii, jj)
        if (ii, jj) == (bi, bj) and (br, bc) == (1, 1):
            return v
    if m.op == "cw" and m.args[0] in ("*", "/", "min", "max", "+", "-"):
        a, b = el(m.args[1], i, j), el(m.args[2], i, j)
        o = m.args[0]
        return {"*": mul, "/": div, "+": add, "-": sub}[o](a, b) if o in "*/+-" else fn(o, a, b)
    if m.op == "cwf":
        return fn(m.args[0], el(m.args[1], i, j), *m.args[2:])
    if m.op == "const":
        return m.args[0]
    if m.op == "rep":
        return el(m.args[1], 0, jj) if m.args[0] == "row" else el(m.args[1], ii, 0)
    if m.op == "tabm":
        r = tab_at(m, ii, jj)
        if r is not None:
            return r
    return T("el", m, ii, jj)


def tabm(base, trip, body, axis, i0, ext, bv):
    """base with, for every index below trip, one column (axis 'c', rows i0..i0+ext) or row (axis 'r')
    replaced by body(index)."""
    t = T("tabm", base, trip, body, (axis, i0, ext, bv))
    return setdims(t, *dims(base))


def tab_at(m, ii, jj):
    base, trip, body, (axis, i0, ext, bv) = m.args
    k, o = (jj, ii) if axis == "c" else (ii, jj)
    if not isinstance(o, int):
        return None
    if not i0 <= o < i0 + ext:
        return el(base, ii, jj)
    kt = k if isinstance(k, Term) else num(k)
    x = subst(body, {bv: kt})
    if isbool(x) or (x.op not in ("cm", "mat", "blk") and dims(x) in ((None, None), (1, 1))):
        v = x
    else:
        v = el(x, o - i0, 0) if axis == "c" else el(x, 0, o - i0)
    n = dims(base)[1 if axis == "c" else 0]
    if n is not None and is_num(trip) and n == int(trip.args[0]):
        return v
    return ite(lt(kt, trip), v, el(base, ii, jj))


def _iadd(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    r = add(a if isinstance(a, Term) else num(a), b if isinstance(b, Term) else num(b))
    return int(r.args[0]) if r.op == "num" else r


def _elprod(k, i, j):
    if len(k) == 1:
        a, t = k[0]
        return el(a, j, i) if t else el(a, i, j)
    # expand when the inner dimension is known and one factor is concrete
    a, ta = k[0]
    n = dims(a)[0 if ta else 1]
    first = transpose(a) if ta else a
    rest = k[1:]
    if n and n <= 8 and (first.op == "cm" or all(x.op == "cm" for x, _ in rest)):
        return add(*[mul(el(first, i, p), _elprod(rest, p, j)) for p in range(n)])
    last, tl = k[-1]
    m = dims(last)[1 if tl else 0]
    if last.op == "cm" and m and m <= 8:
        l = transpose(last) if tl else last
        return add(*[mul(_elprod(k[:-1], i, p), el(l, p, j)) for p in range(m)])
    t = T("mat", dims(first)[0], dims(transpose(last) if tl else last)[1], ((k, ONE),))
    return T("el", t, i, j)


def block(m, i, j, r, c):
    i, j, r, c = [int(x.args[0]) if isinstance(x, Term) and x.op == "num" else x for x in (i, j, r, c)]
    R, C = dims(m)
    if i == 0 and j == 0 and R is not None and (R, C) == (r, c):
        return m
    if m.op == "ite":
        return ite(m.args[0], block(m.args[1], i, j, r, c), block(m.args[2], i, j, r, c))
    ints = all(isinstance(x, int) for x in (i, j, r, c))
    if m.op == "cm" and ints:
        if i + r <= m.args[0] and j + c <= m.args[1]:
            return cm(r, c, [cm_el(m, a, b) for a in range(i, i + r) for b in range(j, j + c)])
        return T("oob", m, i, j)
    if m.op == "mat":
        acc = None
        for k, v in m.args[2]:
            if len(k) == 1:
                a, t = k[0]
                x = transpose(block(a, j, i, c, r)) if t else block(a, i, j, r, c)
            else:
                p = T("mat", R, C, ((k, ONE),))
                x = setdims(T("blk", p, i, j, r, c), r if isinstance(r, int) else None, c if isinstance(c, int) else None)
            x = mscale(v, x)
            acc = x if acc is None else madd(acc, x)
        return acc if acc is not None else zeros(r if isinstance(r, int) else None, c if isinstance(c, int) else None)
    if m.op == "blk":
        return block(m.args[0], _iadd(m.args[1], i), _iadd(m.args[2], j), r, c)
    if m.op == "updm":
        base, v, (bi, bj, br, bc) = m.args
        if (bi, bj, br, bc) == (i, j, r, c):
            return v
        if ints and all(isinstance(x, int) for x in (bi, bj, br, bc)):
            if i + r <= bi or bi + br <= i or j + c <= bj or bj + bc <= j:
                return block(base, i, j, r, c)
            if bi <= i and i + r <= bi + br and bj <= j and j + c <= bj + bc:
                return block(v, i - bi, j - bj, r, c)
    if m.op == "const":
        return m
    if m.op == "tabm":
        base, trip, body, (axis, i0, ext, bv) = m.args
        if axis == "c" and c == 1 and isinstance(i, int) and isinstance(r, int):
            return cm(r, 1, [el(m, i + a, j) for a in range(r)])
        if axis == "r" and r == 1 and isinstance(j, int) and isinstance(c, int):
            return cm(1, c, [el(m, i, j + a) for a in range(c)])
    t = T("blk", m, i, j, r, c)
    return setdims(t, r if isinstance(r, int) else None, c if isinstance(c, int) else None)


def updm(m, i, j, r, c, v):
    """m with block (i,j,r,c) replaced by v (v a scalar term for a single entry)."""
    i, j, r, c = [int(x.args[0]) if isinstance(x, Term) and x.op == "num" else x for x in (i, j, r, c)]
    R, C = dims(m)
    ints = all(isinstance(x, int) for x in (i, j, r, c))
    if i == 0 and j == 0 and R is not None and (R, C) == (r, c) and (r, c) != (1, 1):
        return v
    if ints and R and C and R * C <= 36 and (m.op == "cm" or v.op == "cm" or (r, c) == (1, 1)):
        ents = []
        single = (r, c) == (1, 1) and v.op not in ("cm", "mat", "blk")
        for a in range(R):
            for b in range(C):
                if i <= a < i + r and j <= b < j + c:
                    ents.append(v if single else el(v, a - i, b - j))
                else:
                    ents.append(el(m, a, b))
        return cm(R, C, ents)
    # overwrite the same block, or keep disjoint ones ordered
    if m.op == "updm":
        if m.args[2] == (i, j, r, c):
            return updm(m.args[0], i, j, r, c, v)
    t = T("updm", m, v, (i, j, r, c))
    DIMS[t] = (R, C)
    return t


# --------------------------------------------------------------- substitution
def walk(t, seen=None):
    """All sub-terms."""
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, Term):
            if x in seen:
                continue
            seen.add(x)
            st.extend(x.args)
        elif isinstance(x, tuple):
            st.extend(x)
    return seen


_mentions = {}


def mentions(t, x):
    """Whether term (or nested tuple) t contains x."""
    if isinstance(t, Term):
        if t is x:
            return True
        k = (t, x)
        r = _mentions.get(k)
        if r is None:
            r = any(mentions(a, x) for a in t.args)
            _mentions[k] = r
        return r
    if isinstance(t, tuple):
        return any(mentions(a, x) for a in t)
    return False


LEAF = ("idx", "bv", "phi")
_EMPTY = frozenset()


def support(t):
    """The index and loop-state symbols in a term (or nested tuple)."""
    if isinstance(t, Term):
        r = t._sup
        if r is None:
            r = _EMPTY
            for a in t.args:
                if isinstance(a, (Term, tuple)):
                    x = support(a)
                    if x and not x <= r:
                        r = r | x if r else x
            if t.op in LEAF:
                r = r | {t}
            t._sup = r
        return r
    r = _EMPTY
    for a in t:
        if isinstance(a, (Term, tuple)):
            x = support(a)
            if x and not x <= r:
                r = r | x if r else x
    return r


def subst(t, m, memo=None):
    """Replace sub-terms by the mapping m, renormalising."""
    if memo is None:
        memo = {}
        ks = frozenset(m) if all(x.op in LEAF for x in m) else None
        memo[None] = ks
    ks = memo[None]
    if ks is not None and isinstance(t, (Term, tuple)) and ks.isdisjoint(support(t)):
        return t
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return tuple(subst(x, m, memo) for x in t)
        return t
    if t in m:
        return m[t]
    r = memo.get(t)
    if r is not None:
        return r
    o = t.op
    a = t.args
    if o in ("num", "sym", "true", "false", "str", "null"):
        r = t
    elif o == "poly":
        acc = {}
        for mono, c in a[0]:
            x = None
            for b, w in mono:
                if x is None and subst(b, m, memo) is b:
                    continue
                x = num(c)
                break
            if x is None:
                acc[mono] = acc.get(mono, 0) + c
                continue
            for b, w in mono:
                x = mul(x, pw(subst(b, m, memo), w))
            for mm, cc in _poly(x).items():
                acc[mm] = acc.get(mm, 0) + cc
        r = _mk(acc)
    else:
        n = tuple(subst(x, m, memo) for x in a)
        if n == a:
            r = t
        else:
            r = rebuild(o, n, t)
    memo[t] = r
    return r


def rebuild(o, n, old=None):
    if o == "fn":
        return fn(*n)
    if o == "not":
        return not_(n[0])
    if o == "and":
        return and_(*n)
    if o == "or":
        return or_(*n)
    if o == "lt0":
        if is_num(n[0]):
            return TRUE if n[0].args[0] < 0 else FALSE
        return T("lt0", n[0])
    if o == "eq0":
        return eq(n[0], ZERO)
    if o == "eq":
        return eq(n[0], n[1])
    if o == "ite":
        return ite(*n)
    if o == "truth":
        return truth(n[0])
    if o == "cm":
        return cm(*n)
    if o == "mat":
        acc = None
        for k, v in n[2]:
            p = None
            for x, tr in k:
                f = transpose(x) if tr else x
                p = f if p is None else mmul(p, f)
            p = mscale(v, p)
            acc = p if acc is None else madd(acc, p)
        return acc if acc is not None else zeros(n[0], n[1])
    if o == "fnm" and n[0] == "inverse":
        return inverse(n[1])
    if o == "el":
        return el(*n)
    if o == "blk":
        return block(*n)
    if o == "updm":
        return updm(n[0], *n[2], n[1])
    if o == "get":
        return get(n[0], n[1])
    if o == "tabm":
        return tabm(n[0], n[1], n[2], *n[3])
    if o == "sum":
        return T("sum", *n)
    t = T(o, *n)
    if old is not None and old in DIMS:
        DIMS[t] = DIMS[old]
    return t


# ------------------------------------------------------------------ structures
def get_agg(v, step):
    """Component of a container with overwritten elements."""
    from ve import unify
    base, ups = v.args
    keep = []
    for u in ups:
        suf = u[0]
        if not suf:
            return None
        if len(u) == 2:
            if suf[0] == step:
                keep.append((suf[1:], u[1]))
            elif step[0] == "e" and suf[0][0] == "e" and not (is_num(step[1]) and is_num(suf[0][1])):
                return None          # may alias
            continue
        vars_, full, gid = u[2], u[3], u[4]
        b = {}
        if unify(suf[0], step, vars_, b):
            rest = tuple(x for x in vars_ if x not in b)
            val = subst(u[1], b) if full and u[1] is not None else T("after", gid, subst(suf, b))
            if rest:
                keep.append((subst(suf[1:], b), val, rest, True, gid))
            else:
                keep.append((subst(suf[1:], b), val))
        elif step[0] == "e" and suf[0][0] == "e" and not (is_num(step[1]) and is_num(suf[0][1])):
            return None
    out = get(base, step)
    for i, u in enumerate(keep):
        if not u[0] and len(u) == 2:
            out = u[1]
            keep = keep[i + 1:]
            return get_wrap(out, keep)
    return get_wrap(out, keep)


def get_wrap(base, keep):
    if not keep:
        return base
    if len(keep) == 1 and not keep[0][0]:
        return keep[0][1]
    return T("agg", base, tuple(keep))


def get(v, step):
    """Component of a structured value."""
    if v.op == "struct" and step[0] == "f":
        for k, x in v.args[1]:
            if k == step[1]:
                return x
    if step[0] == "m":
        return el(v, step[1], step[2])
    if step[0] == "v":
        return block(v, *step[1:])
    if v.op == "ite":
        return ite(v.args[0], get(v.args[1], step), get(v.args[2], step))
    if v.op == "init":
        return T("init", T("loc", v.args[0].args[0], v.args[0].args[1] + (step,)), v.args[1])
    if v.op == "tuple" and step[0] == "f":
        i = {"first": 0, "second": 1}.get(step[1])
        if i is None and step[1].isdigit():
            i = int(step[1])
        if i is not None and i < len(v.args):
            return v.args[i]
    if v.op == "list" and step[0] == "e" and step[1].op == "num":
        i = int(step[1].args[0])
        if 0 <= i < len(v.args):
            return v.args[i]
    if v.op == "agg":
        r = get_agg(v, step)
        if r is not None:
            return r
    if v.op == "fill" and step[0] == "e":
        return v.args[1]
    if v.op == "mapped" and step[0] == "e" and size(v.args[0]) is ZERO:
        return subst(v.args[2], {v.args[3]: step[1]})
    if v.op == "filt" and step[0] == "e" and step[1].op == "rank" and step[1].args[0] is v:
        return subst(v.args[2], {v.args[4]: step[1].args[1]})
    if v.op == "push" and step[0] == "e":
        if step[1] is size(v.args[0]):
            return v.args[1]
    return T("get", v, step)


def mapped(base, n, e, b):
    """base followed by the n elements e over b = 0 .. n-1."""
    if size(base) is ZERO and e.op in ("get", "init"):
        src = e.args[0] if e.op == "get" and e.args[1] == ("e", b) else None
        if e.op == "init" and e.args[0].args[1] and e.args[0].args[1][-1] == ("e", b):
            src = T("init", T("loc", e.args[0].args[0], e.args[0].args[1][:-1]), e.args[1])
        if src is not None and not mentions(src, b) and size(src) is n:
            return src
    return T("mapped", base, n, e, b)


def filt(base, n, e, c, b):
    """base followed by those of the n elements e over b for which c."""
    if c is TRUE:
        return mapped(base, n, e, b)
    if c is FALSE:
        return base
    return T("filt", base, n, e, c, b)


def size(v):
    """Number of elements of a container value."""
    if v.op == "list":
        return num(len(v.args))
    if v.op == "fill":
        return v.args[0]
    if v.op == "push":
        return add(size(v.args[0]), ONE)
    if v.op == "ite":
        return ite(v.args[0], size(v.args[1]), size(v.args[2]))
    if v.op == "perm":
        return size(v.args[0])
    if v.op == "resized":
        return v.args[1]
    if v.op == "agg":
        if v.args[0].op == "list" and not v.args[0].args:
            return T("size", v)         # elements of an associative container
        return size(v.args[0])
    if v.op == "mapped":
        return add(size(v.args[0]), v.args[1])
    return T("size", v)


# -------------------------------------------------------------------- printing
def show(t, depth=6):
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return "(" + ",".join(show(x, depth) for x in t) + ")"
        return str(t)
    if depth == 0:
        return "…"
    o, a = t.op, t.args
    d = depth - 1
    if o == "num":
        v = a[0]
        return str(v) if v.denominator < 1000 else "%g" % float(v)
    if o == "poly":
        parts = []
        for m, c in a[0]:
            s = "·".join(show(x, d) + ("" if w == 1 else "^%s" % w) for x, w in m)
            if not s:
                s = str(c) if c.denominator < 1000 else "%g" % float(c)
            elif c != 1:
                s = ("%s" % c if c.denominator < 1000 else "%g" % float(c)) + "·" + s
            parts.append(s)
        return "(" + " + ".join(parts) + ")"
    if o == "mat":
        parts = []
        for k, v in a[2]:
            s = "*".join(show(x, d) + ("'" if tr else "") for x, tr in k)
            if v is not ONE:
                s = show(v, d) + "*" + s
            parts.append(s)
        return "[" + " + ".join(parts) + "]"
    if o == "cm":
        return "M%dx%d{%s}" % (a[0], a[1], ", ".join(show(x, d) for x in a[2]))
    if o == "sym":
        return str(a[0])
    if o == "fn" or o == "fnm":
        return "%s(%s)" % (a[0], ", ".join(show(x, d) for x in a[1:]))
    if o == "loc":
        s = showroot(a[0], d)
        for st in a[1]:
            s += showstep(st, d)
        return s
    if o == "init":
        return show(a[0], d) + ("" if a[1] == 0 else "@%s" % a[1])
    if o == "get":
        return show(a[0], d) + showstep(a[1], d)
    if o == "idx":
        return "k%s" % a[0]
    if o == "addr":
        return "&" + show(a[0], d)
    if o == "ite":
        return "(%s ? %s : %s)" % tuple(show(x, d) for x in a)
    if o == "not":
        return "!" + show(a[0], d)
    if o in ("and", "or"):
        return "(" + (" && " if o == "and" else " || ").join(show(x, d) for x in a) + ")"
    if o == "lt0":
        return show(a[0], d) + "<0"
    if o == "eq0":
        return show(a[0], d) + "==0"
    if o == "eq":
        return show(a[0], d) + "==" + show(a[1], d)
    if o == "struct":
        return "%s{%s}" % (a[0], ", ".join(k + "=" + show(x, d) for k, x in a[1]))
    if o == "el":
        return "%s(%s,%s)" % (show(a[0], d), show(a[1], d), show(a[2], d))
    if o in ("true", "false", "null"):
        return o
    if o == "str":
        return repr(a[0])
    return "%s(%s)" % (o, ", ".join(show(x, d) for x in a))


def showroot(r, d):
    if r[0] == "D":
        return "(*" + show(r[1], d) + ")"
    if r[0] in ("L",):
        return str(r[3]) if len(r) > 3 else "local%d" % r[1]
    if r[0] in ("O", "G"):
        return str(r[1])
    return "%s%s" % (r[0], r[1])


def showstep(st, d):
    if st[0] == "f":
        return "." + str(st[1])
    if st[0] == "e":
        return "[" + show(st[1], d) + "]"
    if st[0] == "m":
        return "(%s,%s)" % (show(st[1], d), show(st[2], d))
    if st[0] == "v":
        return "{%s}" % ",".join(show(x, d) for x in st[1:])
    return str(st)
