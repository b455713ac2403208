"""Reference formulas of the coordinate frames, written from the WGS-84 definition and
Olson's published series, and sampling domains for identity testing."""
from fractions import Fraction as Fr
import math
import numpy as np
from common import *

A = num(Fr(6378137))
E2 = num(Fr("6.6943799901377997e-3"))
DEG = mul(PI, num(Fr(1, 180)))


def sind(x):
    return fn("sin", mul(x, DEG))


def cosd(x):
    return fn("cos", mul(x, DEG))


def rot3(lat, lon):
    sl, so, cl, co = sind(lat), sind(lon), cosd(lat), cosd(lon)
    return cm(3, 3, [neg(mul(sl, co)), neg(mul(sl, so)), cl,
                     neg(so), co, ZERO,
                     neg(mul(cl, co)), neg(mul(cl, so)), neg(sl)])


def rot2(lat, lon):
    r = rot3(lat, lon)
    return cm(2, 3, r.args[2][:6])


def toecef(lat, lon, alt):
    sl, so, cl, co = sind(lat), sind(lon), cosd(lat), cosd(lon)
    n = div(A, fn("sqrt", sub(ONE, mul(E2, sl, sl))))
    na = add(n, alt)
    return colv(mul(na, cl, co), mul(na, cl, so), mul(add(mul(n, sub(ONE, E2)), alt), sl))


def fromecef(x, y, z):
    """Olson (1996)."""
    a, e2 = A, E2
    a1 = mul(a, e2)
    a2 = mul(a1, a1)
    a3 = mul(a1, e2, num(Fr(1, 2)))
    a4 = mul(num(Fr(5, 2)), a2)
    a5 = add(a1, a3)
    a6 = sub(ONE, e2)
    zp = fn("abs", z)
    w2 = add(mul(x, x), mul(y, y))
    w = fn("sqrt", w2)
    z2 = mul(z, z)
    r2 = add(w2, z2)
    r = fn("sqrt", r2)
    lon = fn("atan2", y, x)
    s2 = div(z2, r2)
    c2 = div(w2, r2)
    u = div(a2, r)
    v = sub(a3, div(a4, r))
    cond = lt(num(Fr("0.3")), c2)
    s_ = mul(div(zp, r), add(ONE, div(mul(c2, add(a1, u, mul(s2, v))), r)))
    lat1 = fn("asin", s_)
    c1 = fn("sqrt", sub(ONE, mul(s_, s_)))
    c_ = mul(div(w, r), sub(ONE, div(mul(s2, sub(sub(a5, u), mul(c2, v))), r)))
    lat2 = fn("acos", c_)
    ss2 = sub(ONE, mul(c_, c_))
    s2_ = fn("sqrt", ss2)
    lat = ite(cond, lat1, lat2)
    s = ite(cond, s_, s2_)
    c = ite(cond, c1, c_)
    ss = ite(cond, mul(s_, s_), ss2)
    g = sub(ONE, mul(e2, ss))
    rg = div(a, fn("sqrt", g))
    rf = mul(a6, rg)
    u = sub(w, mul(rg, c))
    v = sub(zp, mul(rf, s))
    f = add(mul(c, u), mul(s, v))
    m = sub(mul(c, v), mul(s, u))
    p = div(m, add(div(rf, g), f))
    lat = add(lat, p)
    alt = add(f, mul(m, p, num(Fr(1, 2))))
    lat = ite(lt(z, ZERO), neg(lat), lat)
    k = div(num(180), PI)
    return colv(mul(lat, k), mul(lon, k), alt)


# ------------------------------------------------------------- sampling domains
def ell(lat, lon, alt):
    a, e2 = 6378137.0, 6.6943799901377997e-3
    sl, cl = math.sin(math.radians(lat)), math.cos(math.radians(lat))
    n = a / math.sqrt(1 - e2 * sl * sl)
    return np.array([[(n + alt) * cl * math.cos(math.radians(lon))], [(n + alt) * cl * math.sin(math.radians(lon))],
                     [(n * (1 - e2) + alt) * sl]])


def domain(roles):
    """roles: atom -> 'll' | 'lla' | 'll4' | 'ecef' | 'ne' | 'ned'"""
    def dom(t, rnd, ev):
        role = roles.get(t)
        if role is None:
            return None
        g = rnd("role%d" % (list(roles).index(t)))
        lat = g.uniform(-89, 89)
        lon = g.uniform(-179, 179)
        alt = g.uniform(-100, 9000)
        if role == "ll":
            return np.array([[lat], [lon]])
        if role == "ll4":
            return np.array([[lat], [lon], [g.uniform(-3, 3)], [g.uniform(-3, 3)]])
        if role == "lla":
            return np.array([[lat], [lon], [alt]])
        if role == "ecef":
            return ell(lat, lon, alt)
        if role == "ne":
            return np.array([[g.uniform(-5000, 5000)], [g.uniform(-5000, 5000)]])
        if role == "ne4":
            return np.array([[g.uniform(-5000, 5000)], [g.uniform(-5000, 5000)], [g.uniform(-3, 3)], [g.uniform(-3, 3)]])
        if role == "ned":
            return np.array([[g.uniform(-5000, 5000)], [g.uniform(-5000, 5000)], [g.uniform(-500, 500)]])
        return None
    return dom


BASE = ("cf::lla2ecef", "cf::ll2ecef", "cf::ecef2lla", "cf::ecef2ll", "cf::nedrot", "cf::nerot")


class Fn:
    """An evaluated conversion: result components as functions of its argument terms.
    Composite conversions keep the base conversions as function symbols; these are
    interpreted by their own extracted closed forms when two formulas are compared."""

    def __init__(self, P, f):
        self.f = f
        base = f["q"] in BASE
        self.v = evaluate(P, f, ve.Config(pure=() if base else BASE))
        self.where = P.loc(f["l"])
        self.args = [argterm(self.v, i) for i in range(len(f["params"]))]
        self.ret = self.v.ret
        self.unknown = self.v.unknown

    def call(self, *args):
        """Result with the arguments replaced by concrete column vectors."""
        m = {}
        for a, b in zip(self.args, args):
            n = dims(a)[0] or dims(b)[0]
            for i in range(n):
                m[T("el", a, i, 0)] = el(b, i, 0)
            m[a] = b
        return subst(self.ret, m)


_FN = {}


def fns(P, name):
    """All instantiations of cf::name."""
    if name not in _FN:
        _FN[name] = [Fn(P, f) for f in insts(P, "cf::" + name)]
    return _FN[name]


def fn1(P, name):
    """The instantiation over plain vectors."""
    fs = fns(P, name)

    def plain(x):
        return all(P.rec_of(p["t"]) and P.rec_of(p["t"])["qual"] == "Eigen::Matrix" for p in x.f["params"])
    for x in fs:
        if plain(x) and not any(P.rec_of(p["t"])["targs"][1] == 4 for p in x.f["params"]):
            return x
    return fs[0]


def interp(P):
    out = {}
    for q in BASE:
        x = fn1(P, q[4:])

        def go(ev, *vs, x=x):
            def dom(t, rnd, e2):
                for a, v in zip(x.args, vs):
                    if t is a:
                        return v
                return None
            e = numev.Ev(ev.seed, ev.n, dom, ev.trip)
            return e.ev(x.ret)
        out[q] = go
    return out


def fcall(name, *args):
    """Application of a base conversion as a function symbol."""
    r = T("fn", "cf::" + name, *args)
    setdims(r, *{"lla2ecef": (3, 1), "ll2ecef": (3, 1), "ecef2lla": (3, 1), "ecef2ll": (2, 1), "nedrot": (3, 3), "nerot": (2, 3)}[name])
    return r


def compare(rep, got, want, n, what, where, key, dom, tol=1e-10, ip=None):
    for i in range(n):
        a, b = el(got, i, 0), el(want, i, 0)
        same_or_report(rep, a, b, "%s, component %d" % (what, i), where, "%s[%d]" % (key, i), dom, tol, interp=ip)
