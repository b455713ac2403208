from fractions import Fraction
from common import *
from checks.c12 import pfdom, PD

TITLE = "Density moments and normalisation follow the mixture definitions"
EXPLANATION = ("Mean, covariance, position and velocity moments, missed-detection evidence and normalisation of the Gaussian mixture and "
               "the particle filter are evaluated into closed forms (bounded sums over all components) and compared with the definitions.")
MIN = num(Fraction("1e-8"))


def run(P, rep):
    rep.rule = "extracted moment == defining bounded sum over every component; normalise divides by the total or empties the density"
    dom = covdom()
    for f in insts(P, "lmb::GM::mean"):
        v = evaluate(P, f)
        same_or_report(rep, v.ret, gmmean(v), "mean is the weighted sum of the component means", where(P, f), "gm.mean", dom)
    for f in insts(P, "lmb::GM::cov"):
        v = evaluate(P, f)
        m = argterm(v, 0) if f["params"] else gmmean(v)
        same_or_report(rep, v.ret, gmcov(v, m), "covariance is the spread of the components plus their covariances", where(P, f), "gm.cov%d" % len(f["params"]), dom)
    for name, g in (("pos", lambda v: block(gmmean(v), 0, 0, 2, 1)), ("vel", lambda v: block(gmmean(v), 2, 0, 2, 1)),
                    ("poscov", lambda v: block(gmcov(v, gmmean(v)), 0, 0, 2, 2)), ("velcov", lambda v: block(gmcov(v, gmmean(v)), 2, 2, 2, 2))):
        for f in P.find("lmb::GM::" + name):
            v = evaluate(P, f)
            same_or_report(rep, v.ret, g(v), "%s is the matching part of the mixture moment" % name, where(P, f), "gm." + name, dom)
    for f in insts(P, "lmb::GM::normalize"):
        v = evaluate(P, f)
        W = where(P, f)
        n = size(I0(v, "c"))
        s = sum_over(n, lambda i: I0(v, "c", i, "w"))
        live = lt(MIN, s)
        same_or_report(rep, F(v, "eta"), ite(live, s, ZERO), "eta is the total weight, 0 when it vanishes", W, "gm.norm.eta", dom)
        same_or_report(rep, size(F(v, "c")), ite(live, n, ZERO), "components are kept unless the total weight vanishes", W, "gm.norm.n", dom)
        for i in (ZERO, num(2)):
            gated(rep, live, F(v, "c", i, "w"), div(I0(v, "c", i, "w"), s), "component %s divided by the total" % show(i), W, "gm.norm.w", dom)
            gated(rep, live, F(v, "c", i, "x"), I0(v, "c", i, "x"), "component %s mean untouched" % show(i), W, "gm.norm.x", dom)
            gated(rep, live, F(v, "c", i, "P"), I0(v, "c", i, "P"), "component %s covariance untouched" % show(i), W, "gm.norm.P", dom)
    for f in insts(P, "lmb::GM::missed"):
        v = evaluate(P, f, ve.Config(pure=(PD,)))
        W = where(P, f)
        n = size(I0(v, "c"))
        s = sum_over(n, lambda i: mul(I0(v, "c", i, "w"), T("fn", PD, argterm(v, 0), I0(v, "c", i), I0(v, "origin"))))
        same_or_report(rep, v.ret, sub(ONE, s), "missed-detection evidence is 1 minus the expected detection probability", W, "gm.missed", dom)
        for i in (ZERO, num(2)):
            same_or_report(rep, F(v, "c", i, "w"), I0(v, "c", i, "w"), "a missed detection leaves component %s unchanged" % show(i), W, "gm.missed.w", dom)
    pd = pfdom(dom)
    for f in insts(P, "lmb::PF::mean"):
        v = evaluate(P, f)
        m = pfmean(P, v)
        for a in range(dims(m)[0]):
            same_or_report(rep, el(v.ret, a, 0), el(m, a, 0), "particle mean is the weighted sum, component %d" % a, where(P, f), "pf.mean[%d]" % a, pd)
    for f in insts(P, "lmb::PF::cov"):
        v = evaluate(P, f)
        m = argterm(v, 0) if f["params"] else pfmean(P, v)
        w, x = I0(v, "w"), I0(v, "x")
        N = npart(P, v)
        S = dims(x)[0]
        for a in range(S):
            for b in range(S):
                s = sum_over(num(N), lambda i: mul(el(w, 0, i), sub(el(x, a, i), el(m, a, 0)), sub(el(x, b, i), el(m, b, 0))))
                same_or_report(rep, el(v.ret, a, b), s, "particle covariance (%d,%d)" % (a, b), where(P, f), "pf.cov%d[%d,%d]" % (len(f["params"]), a, b), pd, samples=10)
    for f in insts(P, "lmb::PF::normalize"):
        v = evaluate(P, f)
        W = where(P, f)
        N = npart(P, v)
        w = I0(v, "w")
        s = sum_over(num(N), lambda i: el(w, 0, i))
        live = lt(MIN, s)
        same_or_report(rep, F(v, "eta"), ite(live, s, ZERO), "eta is the total particle weight, 0 when it vanishes", W, "pf.norm.eta", pd)
        for i in (ZERO, num(N - 1)):
            gated(rep, live, el(F(v, "w"), 0, i), div(el(w, 0, i), s), "particle %s divided by the total" % show(i), W, "pf.norm.w", pd)
        same_or_report(rep, truth(F(v, "valid")), and_(live, truth(I0(v, "valid"))), "a vanishing total invalidates the filter", W, "pf.norm.valid", pd)
    for f in insts(P, "lmb::PF::missed"):
        v = evaluate(P, f, ve.Config(pure=(PD,)))
        W = where(P, f)
        N = npart(P, v)
        w, x = I0(v, "w"), I0(v, "x")

        def miss(i):
            xi = cm(dims(x)[0], 1, [el(x, a, i) for a in range(dims(x)[0])])
            return mul(el(w, 0, i), sub(ONE, T("fn", PD, argterm(v, 0), xi, I0(v, "origin"))))
        s = sum_over(num(N), miss)
        live = lt(MIN, s)
        same_or_report(rep, v.ret, ite(live, s, ZERO), "the expected miss probability is returned", W, "pf.missed", pd)
        for i in (ZERO, num(N - 1)):
            gated(rep, live, el(F(v, "w"), 0, i), div(miss(i), s), "a missed detection weighs particle %s by its miss probability" % show(i), W, "pf.missed.w", pd)
    rep.assumption("formulas are compared over the reals; floating-point rounding is not modelled")


def gmmean(v):
    return summ_over(size(I0(v, "c")), lambda i: mscale(I0(v, "c", i, "w"), I0(v, "c", i, "x")))


def gmcov(v, m):
    def term(i):
        d = madd(I0(v, "c", i, "x"), mneg(m))
        return mscale(I0(v, "c", i, "w"), madd(I0(v, "c", i, "P"), mmul(d, transpose(d))))
    return summ_over(size(I0(v, "c")), term)


def npart(P, v):
    return next(int(t) for t in P.rec_of(v.ltype[v.this])["targs"] if isinstance(t, int) and t > 8)


def pfmean(P, v):
    w, x = I0(v, "w"), I0(v, "x")
    N = npart(P, v)
    return colv(*[sum_over(num(N), lambda i, a=a: mul(el(w, 0, i), el(x, a, i))) for a in range(dims(x)[0])])
