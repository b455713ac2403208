from common import *
import tracker
import flow

TITLE = "Bounding boxes contain what they bound and overlap exactly when they meet"
EXPLANATION = ("Every box constructor, conversion and predicate is evaluated with helpers inlined into a closed form over the box's corners and compared with the geometric definition; boolean predicates are compared as conditions, "
               "the box of a mixture as the least and greatest bound over all components.")
AB, BB = "lmb::AABBox", "lmb::BBox"


def dom(t, rnd, ev):
    n = lastname(t)
    r, c = dims(t)
    if n == "corners" and r == 2:
        return rect(rnd("q" + ev.key(t)))
    if r and r == c and (n in ("P", "cov", "covariance") or (t.op == "fn" and str(t.args[0]).endswith("::cov"))):
        return spd(rnd("spd" + ev.key(t)), r)
    if n in ("nstd", "w"):
        return rnd("pos" + ev.key(t)).uniform(0.3, 3)
    if n in ("min", "max") and t.op in ("init", "get") and not r:
        return rnd("b" + ev.key(t)).uniform(-1, 1) + (1 if n == "max" else -1)
    return None


def rect(g):
    """A convex box: a rotated rectangle with its corners moved a little."""
    a = g.uniform(0, 6.3)
    u, w = np.array([np.cos(a), np.sin(a)]), np.array([-np.sin(a), np.cos(a)])
    l, h = g.uniform(0.2, 2), g.uniform(0.2, 2)
    x = np.array([g.uniform(-1, 1), g.uniform(-1, 1)])
    d = 0.4 * min(l, h)
    return np.array([x + a * l * u + b * h * w + d * np.array([g.uniform(-1, 1), g.uniform(-1, 1)]) for a, b in ((1, 1), (-1, 1), (-1, -1), (1, -1))]).T


def cfg():
    return tracker.Cfg(pure=("mean", "cov"))


def run(P, rep):
    rep.rule = ("axis box of a Gaussian: mean +- nstd * sqrt(variance); oriented box: half sides u, v with u.v = 0 and uu' + vv' = nstd^2 P around the mean; overlap of axis boxes: closed intervals meet on both axes; "
                "of oriented boxes: no side normal separates them; mixture box: bounds over every component; conversion: per corner")
    e = lambda t, i: get(t, ("e", num(i)))
    mn, mx = (lambda v, b=None: [I0(v, "min", num(i), base=b) for i in (0, 1)]), (lambda v, b=None: [I0(v, "max", num(i), base=b) for i in (0, 1)])
    # axis-aligned boxes
    for f in insts(P, AB + "::AABBox"):
        v = evaluate(P, f, cfg())
        W = where(P, f)
        lo, hi = fmm(v)
        n = len(f["params"])
        if n == 4:
            a = [argterm(v, i) for i in range(4)]
            for i in (0, 1):
                same_or_report(rep, lo[i], fn("min", a[i], a[i + 2]), "box of two points: lower bound %d" % i, W, "aa.pts.min%d" % i)
                same_or_report(rep, hi[i], fn("max", a[i], a[i + 2]), "box of two points: upper bound %d" % i, W, "aa.pts.max%d" % i)
        elif n == 0:
            for i in (0, 1):
                rep.ob(lo[i] is T("sym", "-inf") or lo[i] is neg(INF(P, lo[i])), "an unset box has no lower bound %d" % i, W, "aa.def.min%d" % i, show(lo[i], 4))
                rep.ob(hi[i] is INF(P, hi[i]), "an unset box has no upper bound %d" % i, W, "aa.def.max%d" % i, show(hi[i], 4))
        elif n == 1:
            b = v.args[0]
            for i in (0, 1):
                rep.ob(lo[i] is mn(v, b)[i] and hi[i] is mx(v, b)[i], "a copied box has the same bounds %d" % i, W, "aa.copy%d" % i)
        else:
            gauss(rep, v, f, W, lo, hi)
    for f in P.find(AB + "::from_gaussian"):
        v = evaluate(P, f, cfg())
        lo, hi = fmm(v)
        gauss(rep, v, f, where(P, f), lo, hi)
    for f in insts(P, AB + "::intersects"):
        v = evaluate(P, f, cfg())
        a, b, c, d = mn(v), mx(v), mn(v, v.args[0]), mx(v, v.args[0])
        want = and_(*[and_(not_(lt(b[i], c[i])), not_(lt(d[i], a[i]))) for i in (0, 1)])
        rep.ob(flow.same(truth(v.ret), want, dom), "axis boxes overlap exactly when both intervals meet", where(P, f), "aa.overlap", show(v.ret, 8)[:300])
    for f in insts(P, AB + "::within"):
        v = evaluate(P, f, cfg())
        x = argterm(v, 0)
        a, b = mn(v), mx(v)
        want = and_(*[and_(not_(lt(el(x, i, 0), a[i])), not_(lt(b[i], el(x, i, 0)))) for i in (0, 1)])
        rep.ob(flow.same(truth(v.ret), want, dom), "a point is in an axis box exactly when both coordinates are", where(P, f), "aa.within", show(v.ret, 8)[:300])
    for f in P.find(AB + "::from_points"):
        v = evaluate(P, f, cfg())
        lo, hi = fmm(v)
        x = argterm(v, 0)
        for i in (0, 1):
            for got, nm in ((lo[i], "minCoeff"), (hi[i], "maxCoeff")):
                same_or_report(rep, got, rowred(x, nm, i), "box of points: %s of row %d" % (nm, i), where(P, f), "aa.points.%s%d" % (nm, i))
    for q, conv in (("llaabbox", "cf::ne2ll"), ("neaabbox", "cf::ll2ne")):
        for f in insts(P, AB + "::" + q):
            v = evaluate(P, f, cfg())
            o = argterm(v, 0)
            a, b = mn(v), mx(v)
            p = conversion(v, conv, colv(*a), o), conversion(v, conv, colv(*b), o)
            r = v.ret
            for i in (0, 1):
                w = [el(y, i, 0) for y in p]
                same_or_report(rep, e(get(r, ("f", "min")), i), fn("min", *w), "%s converts both corners: lower bound %d" % (q, i), where(P, f), "aa.%s.min%d" % (q, i))
                same_or_report(rep, e(get(r, ("f", "max")), i), fn("max", *w), "%s converts both corners: upper bound %d" % (q, i), where(P, f), "aa.%s.max%d" % (q, i))
    # oriented boxes
    for f in insts(P, BB + "::BBox"):
        v = evaluate(P, f, cfg())
        W = where(P, f)
        C = F(v, "corners")
        ts = [P.ty(P.unref(p["t"])).get("s", "") for p in f["params"]]
        if ts and AB in ts[0]:
            a, b = mn(v, v.args[0]), mx(v, v.args[0])
            ring(rep, C, [(a[0], a[1]), (a[0], b[1]), (b[0], b[1]), (b[0], a[1])], W, "bb.axis")
        elif len(ts) >= 2:
            obox(rep, v, C, argterm(v, 0), argterm(v, 1), argterm(v, 2), W)
    for f in P.find(BB + "::from_gaussian"):
        v = evaluate(P, f, cfg())
        obox(rep, v, F(v, "corners"), argterm(v, 0), argterm(v, 1), argterm(v, 2), where(P, f))
    for f in insts(P, BB + "::aabbox"):
        v = evaluate(P, f, cfg())
        C = I0(v, "corners")
        for i in (0, 1):
            cs = [el(C, i, j) for j in range(4)]
            for nm in ("min", "max"):
                same_or_report(rep, e(get(v.ret, ("f", nm)), i), fn(nm, *cs), "axis box of an oriented box: %s %d" % (nm, i), where(P, f), "bb.aabbox.%s%d" % (nm, i), dom)
    for f in insts(P, BB + "::intersects"):
        v = evaluate(P, f, cfg())
        W = where(P, f)
        C = I0(v, "corners")
        if BB in P.ty(P.unref(f["params"][0]["t"])).get("s", ""):
            D = I0(v, "corners", base=v.args[0])
            want = sat(C, D)
            ok = flow.same(truth(v.ret), want, dom)
            if not ok:
                ok = flow.numev_same(truth(v.ret), want, dom)
            rep.ob(ok, "oriented boxes overlap exactly when no side separates them", W, "bb.overlap", show(v.ret, 6)[:300])
        else:
            b = v.args[0]
            lo, hi = mn(v, b), mx(v, b)
            cs = [[el(C, i, j) for j in range(4)] for i in (0, 1)]
            want = and_(*[and_(not_(lt(fn("max", *cs[i]), lo[i])), not_(lt(hi[i], fn("min", *cs[i])))) for i in (0, 1)])
            rep.ob(flow.same(truth(v.ret), want, dom), "an oriented box meets an axis box exactly when its axis box does", W, "bb.overlapaa", show(v.ret, 6)[:300])
    for f in insts(P, BB + "::within"):
        v = evaluate(P, f, ve.Config())
        C = I0(v, "corners")
        x = argterm(v, 0)
        px, py = el(x, 0, 0), el(x, 1, 0)
        want = TRUE
        # inside the axis box, and an odd number of sides crosses the ray to the right
        for i, p in ((0, px), (1, py)):
            cs = [el(C, i, j) for j in range(4)]
            want = and_(want, not_(lt(p, fn("min", *cs))), not_(lt(fn("max", *cs), p)))
        odd = FALSE
        for i in range(4):
            j = (i + 3) % 4
            xi, yi, xj, yj = el(C, 0, i), el(C, 1, i), el(C, 0, j), el(C, 1, j)
            a, b = lt(py, yi), lt(py, yj)
            cross = and_(or_(and_(a, not_(b)), and_(b, not_(a))), lt(px, add(div(mul(sub(xj, xi), sub(py, yi)), sub(yj, yi)), xi)))
            odd = or_(and_(odd, not_(cross)), and_(not_(odd), cross))
        want = and_(want, odd)
        # a point on a side itself is between the sides by either reading
        rim = FALSE
        for i in range(4):
            j = (i + 3) % 4
            a, b, c, d = sub(el(C, 0, i), el(C, 0, j)), sub(el(C, 1, i), el(C, 1, j)), sub(px, el(C, 0, j)), sub(py, el(C, 1, j))
            z = sub(mul(a, d), mul(b, c))
            rim = or_(rim, and_(lt(mul(z, z), num(Fraction(1, 10**8))), not_(lt(mul(add(mul(a, a), mul(b, b)), num(Fraction(1001, 1000))), add(mul(c, c), mul(d, d)))), not_(lt(add(mul(a, c), mul(b, d)), num(Fraction(-1, 10**4))))))
        # and the corners of a box go around it
        for i in range(4):
            j, k = (i + 3) % 4, (i + 1) % 4
            rim = or_(rim, not_(lt(num(Fraction(1, 10**6)), sub(mul(sub(el(C, 0, i), el(C, 0, j)), sub(el(C, 1, k), el(C, 1, i))), mul(sub(el(C, 1, i), el(C, 1, j)), sub(el(C, 0, k), el(C, 0, i)))))))
        got, want = or_(rim, truth(v.ret)), or_(rim, want)
        ok = flow.numev_same(got, want, ptdom(x))
        rep.ob(ok, "a point is in an oriented box exactly when it is between its sides", where(P, f), "bb.within", show(v.ret, 5)[:300])
    for q, conv in (("llbbox", "cf::ne2ll"), ("nebbox", "cf::ll2ne")):
        for f in insts(P, BB + "::" + q):
            v = evaluate(P, f, cfg())
            C = I0(v, "corners")
            R = get(v.ret, ("f", "corners"))
            for j in range(4):
                p = conversion(v, conv, block(C, 0, j, 2, 1), argterm(v, 0))
                for i in (0, 1):
                    same_or_report(rep, el(R, i, j), el(p, i, 0), "%s converts corner %d, coordinate %d" % (q, j, i), where(P, f), "bb.%s.%d%d" % (q, i, j))
    # densities and reports
    for f in insts(P, "lmb::GM::transform_to_global"):
        mixture(P, rep, f)
    for rec, q in (("lmb::GM", "llaabbox"), ("lmb::Target_", "llaabbox")):
        for f in insts(P, rec + "::" + q):
            v = evaluate(P, f, cfg())
            r = v.ret
            if rec == "lmb::Target_" and "GM<" not in P.recs[f["rec"]]["name"]:
                continue
            rep.ob(all(lastpath(get(r, ("f", n)), "aabbox", n) for n in ("min", "max")), "the indexed box is the density's box", where(P, f), "box." + rec, show(r, 5)[:200])
    for f in insts(P, "lmb::GaussianReport_::llaabbox"):
        v = evaluate(P, f, cfg())
        x, Pm = I0(v, "x"), I0(v, "P")
        pos = block(x, 0, 0, 2, 1)
        d = [mul(num(2), pw(el(Pm, i, i), HALF)) for i in (0, 1)]
        p = conversion(v, "cf::ne2ll", colv(neg(d[0]), neg(d[1])), pos), conversion(v, "cf::ne2ll", colv(*d), pos)
        for i in (0, 1):
            w = [el(y, i, 0) for y in p]
            for nm in ("min", "max"):
                same_or_report(rep, e(get(v.ret, ("f", nm)), i), fn(nm, *w), "a report's box is two standard deviations around its position: %s %d" % (nm, i), where(P, f), "report.%s%d" % (nm, i), dom)
    rep.assumption("boxes have four corners in cyclic order (decided for every constructor that computes them)")


from fractions import Fraction
HALF = Fraction(1, 2)


def INF(P, t):
    for x in walk(t):
        if x.op == "sym" and "inf" in str(x.args[0]):
            return x
        if x.op == "init" and "inf" in show(x, 3):
            return x
    return None


def rowred(x, nm, i):
    return el(T("fnm", "row." + nm, x), i, 0)


def fmm(v):
    lo, hi = F(v, "min"), F(v, "max")
    return [get(lo, ("e", num(i))) for i in (0, 1)], [get(hi, ("e", num(i))) for i in (0, 1)]


def lastpath(t, a, b):
    if t.op != "init":
        return False
    return [s[1] for s in t.args[0].args[1][-2:]] == [a, b]


def conversion(v, q, x, o):
    t = fn(q, x, o)
    return setdims(t, 2, 1)


def gauss(rep, v, f, W, lo, hi):
    n = len(f["params"])
    x = argterm(v, 0) if n == 3 else zeros(2, 1)
    Pm = argterm(v, n - 2)
    ns = argterm(v, n - 1)
    for i in (0, 1):
        d = mul(ns, pw(el(Pm, i, i), HALF))
        same_or_report(rep, lo[i], sub(el(x, i, 0), d), "box of a Gaussian: lower bound %d" % i, W, "aa.gauss%d.min%d" % (n, i), dom)
        same_or_report(rep, hi[i], add(el(x, i, 0), d), "box of a Gaussian: upper bound %d" % i, W, "aa.gauss%d.max%d" % (n, i), dom)


def obox(rep, v, C, x, Pm, ns, W, key="bb.gauss", d=None):
    c = [[el(C, i, j) for i in (0, 1)] for j in range(4)]
    d = d or dom
    for i in (0, 1):
        for a in (0, 1):
            same_or_report(rep, add(c[a][i], c[a + 2][i]), mul(num(2), el(x, i, 0)), "oriented box: corners %d and %d are opposite, coordinate %d" % (a, a + 2, i), W, "%s.c%d%d" % (key, a, i), d)
    u = [sub(c[0][i], c[1][i]) for i in (0, 1)]
    w = [sub(c[0][i], c[3][i]) for i in (0, 1)]
    same_or_report(rep, add(*[mul(u[i], w[i]) for i in (0, 1)]), ZERO, "oriented box: sides are perpendicular", W, key + ".perp", d)
    for i in (0, 1):
        for j in range(i + 1):
            same_or_report(rep, add(mul(u[i], u[j]), mul(w[i], w[j])), mul(num(4), ns, ns, el(Pm, i, j)), "oriented box: extent (%d,%d)" % (i, j), W, "%s.e%d%d" % (key, i, j), d)


def ring(rep, C, pts, W, key):
    """The corners are the given points in cyclic order, in either direction."""
    c = [(el(C, 0, j), el(C, 1, j)) for j in range(4)]
    ok = any(c == [pts[(s + d * j) % 4] for j in range(4)] for s in range(4) for d in (1, -1))
    rep.ob(ok, "the corners of an axis box in cyclic order", W, key, show(C, 4)[:200])


def sat(C, D):
    """No side normal of either box has the other box wholly on one side."""
    out = TRUE
    for A in (C, D):
        for i in range(4):
            j = (i + 1) % 4
            n = (sub(el(A, 1, i), el(A, 1, j)), sub(el(A, 0, j), el(A, 0, i)))
            pa = [add(mul(n[0], el(C, 0, k)), mul(n[1], el(C, 1, k))) for k in range(4)]
            pb = [add(mul(n[0], el(D, 0, k)), mul(n[1], el(D, 1, k))) for k in range(4)]
            out = and_(out, not_(lt(fn("max", *pa), fn("min", *pb))), not_(lt(fn("max", *pb), fn("min", *pa))))
    return out


def ptdom(x):
    def d(t, rnd, ev):
        if t is x or (t.op == "init" and t is x):
            g = rnd("pt" + ev.key(t))
            return np.array([[g.uniform(-1.5, 1.5)], [g.uniform(-1.5, 1.5)]])
        return dom(t, rnd, ev)
    return d


def mixture(P, rep, f):
    v = evaluate(P, f, cfg())
    W = where(P, f)
    c0 = I0(v, "c")
    n = size(c0)
    ns = [x for x in walk(F(v, "aabbox", "min")) if x.op in ("init", "get") and lastname(x) == "nstd"]
    if not ns:
        return rep.bad("a mixture's box does not depend on its number of deviations", W, "gm.nstd")
    ns = ns[0]
    live = not_(eq(n, ZERO))
    facts = {eq(n, ZERO): False}
    o = I0(v, "origin")
    lo = [fold_over("min", n, lambda b: sub(el(I0(v, "c", b, "x"), i, 0), mul(ns, pw(el(I0(v, "c", b, "P"), i, i), HALF)))) for i in (0, 1)]
    hi = [fold_over("max", n, lambda b: add(el(I0(v, "c", b, "x"), i, 0), mul(ns, pw(el(I0(v, "c", b, "P"), i, i), HALF)))) for i in (0, 1)]
    # the arguments of the conversion of the box: compared before the conversion, as the conversion is decided elsewhere
    A = F(v, "aabbox")
    conv = []
    for x in walk(A):
        if x.op == "fn" and x.args[0] == "cf::ne2ll" and x not in conv:
            conv.append(x)
    pts = [resolve(x.args[1], facts) for x in conv]
    rep.ob(len(conv) == 2 and all(x.args[2] is o for x in conv), "the box is converted about the local origin", W, "gm.conv", "%d conversions" % len(conv))
    if len(conv) != 2:
        return
    k = 0 if numev.same(el(pts[0], 0, 0), lo[0], dom)[0] in ("identical", "agree") else 1
    for i in (0, 1):
        same_or_report(rep, el(pts[k], i, 0), lo[i], "a mixture's box reaches below every component: %d" % i, W, "gm.min%d" % i, dom)
        same_or_report(rep, el(pts[1 - k], i, 0), hi[i], "a mixture's box reaches above every component: %d" % i, W, "gm.max%d" % i, dom)
        same_or_report(rep, get(get(A, ("f", "min")), ("e", num(i))), fn("min", *[el(x, i, 0) for x in conv]), "the lower bound of the converted corners: %d" % i, W, "gm.lo%d" % i)
        same_or_report(rep, get(get(A, ("f", "max")), ("e", num(i))), fn("max", *[el(x, i, 0) for x in conv]), "the upper bound of the converted corners: %d" % i, W, "gm.hi%d" % i)
    # the oriented box: moments of the mixture before conversion
    B = F(v, "bbox", "corners")
    cols = []
    for j in range(4):
        y = el(B, 0, j)
        ok = y.op == "el" and y.args[0].op == "fn" and y.args[0].args[0] == "cf::ne2ll" and y.args[0].args[2] is o and el(y.args[0], 1, 0) is el(B, 1, j)
        if not ok:
            return rep.bad("a mixture's oriented box is not converted corner by corner", W, "gm.bbox.conv", show(y, 5)[:200])
        cols.append(resolve(y.args[0].args[1], facts))
    rep.good("a mixture's oriented box is converted corner by corner", W)
    C = cm(2, 4, [el(x, i, 0) for i in (0, 1) for x in cols])
    m, Pm = moments(C)
    if m is None:
        return rep.bad("a mixture's oriented box is not that of its moments", W, "gm.bbox.moments", show(C, 6)[:300])
    obox(rep, v, C, m, Pm, ns, W, "gm.bbox", dom)


def resolve(t, facts):
    while t.op == "ite":
        c = assume(t.args[0], facts)
        if c is TRUE:
            t = t.args[1]
        elif c is FALSE:
            t = t.args[2]
        else:
            return t
    return t


def moments(C):
    """The mixture's own mean and covariance queries in a formula."""
    m = [x for x in walk(C) if x.op == "fn" and str(x.args[0]).endswith("GM::mean")]
    c = [x for x in walk(C) if x.op == "fn" and str(x.args[0]).endswith("GM::cov")]
    if not m or not c:
        return None, None
    return block(m[0], 0, 0, 2, 1), block(c[0], 0, 0, 2, 2)
