from fractions import Fraction
from common import *

TITLE = "A measurement update is the exact Kalman-Bayes update"
EXPLANATION = ("Gaussian_::correct, GaussianReport_::likelihood, GM::correct and PF::correct are evaluated into closed forms for every "
               "instantiation (loops summarised over a generic element index, sums as bounded sums) and compared with the Kalman gain form, "
               "the Gaussian density and the Bayes weight factor pD * likelihood / kappa followed by renormalisation.")
PD = "lmb::PositionSensor::pD"
LIK = "lmb::GaussianReport_::likelihood"
SENS = "lmb::PositionSensor::measurement"


def H(n):
    return cm(2, n, [ONE if i == j else ZERO for i in range(2) for j in range(n)])


def gauss(dz, Dinv):
    q = el(mmul(mmul(transpose(dz), Dinv), dz), 0, 0)
    return mul(fn("exp", mul(num(Fraction(-1, 2)), q)),
               fn("sqrt", div(fn("det", Dinv), pw(mul(num(2), PI), Fraction(2)))))


def kalman(x, P, z, R):
    h = H(dims(x)[0] or 4)
    S = madd(mmul(mmul(h, P), transpose(h)), R)
    Si = inverse(S)
    K = mmul(mmul(P, transpose(h)), Si)
    dz = madd(z, mscale(num(-1), mmul(h, x)))
    return (madd(x, mmul(K, dz)), madd(P, mscale(num(-1), mmul(mmul(K, h), P))), dz, Si)


def run(P, rep):
    rep.rule = "extracted posterior == Kalman/Bayes posterior, component-wise and for a generic mixture component"
    dom = covdom()
    for f in insts(P, LIK):
        v = evaluate(P, f)
        dz, Di = argterm(v, 0), argterm(v, 1)
        same_or_report(rep, v.ret, gauss(dz, Di), "likelihood is the 2-D Gaussian density with precision Dinv", where(P, f), "likelihood", dom)
    for f in insts(P, "lmb::PositionSensor::measurement"):
        v = evaluate(P, f)
        m = argterm(v, 0)
        n = dims(m)[0] or 4
        same_or_report(rep, v.ret, mmul(H(n), m), "measurement is the position part of the state", where(P, f), "measurement", dom)
    cfg = ve.Config(pure=(PD,))
    for f in insts(P, "lmb::Gaussian_::correct"):
        v = evaluate(P, f, cfg)
        z = v.args[0]
        zx, zP, kap = I0(v, "x", base=z), I0(v, "P", base=z), I0(v, "kappa", base=z)
        x, Pm, w = I0(v, "x"), I0(v, "P"), I0(v, "w")
        nx, nP, dz, Si = kalman(x, Pm, zx, zP)
        pd = T("fn", PD, argterm(v, 1), I0(v), argterm(v, 2))
        nw = mul(w, pd, gauss(dz, Si), pw(kap, -1))
        same_or_report(rep, F(v, "x"), nx, "posterior mean is x + K(z - Hx)", where(P, f), "gauss.x", dom)
        same_or_report(rep, F(v, "P"), nP, "posterior covariance is P - K H P", where(P, f), "gauss.P", dom)
        same_or_report(rep, F(v, "w"), nw, "weight is scaled by pD(prior) * N(z; Hx, S) / kappa", where(P, f), "gauss.w", dom)
        same_or_report(rep, v.ret, F(v, "w"), "the new weight is returned", where(P, f), "gauss.ret", dom)
    for f in insts(P, "lmb::GM::correct"):
        v = evaluate(P, f, cfg)
        z = v.args[0]
        zx, zP, kap = I0(v, "x", base=z), I0(v, "P", base=z), I0(v, "kappa", base=z)
        o = I0(v, "origin")
        c = I0(v, "c")
        n = size(c)

        def post(i):
            x, Pm, w = I0(v, "c", i, "x"), I0(v, "c", i, "P"), I0(v, "c", i, "w")
            nx, nP, dz, Si = kalman(x, Pm, zx, zP)
            pd = T("fn", PD, argterm(v, 1), I0(v, "c", i), o)
            return nx, nP, mul(w, pd, gauss(dz, Si), pw(kap, -1))
        eta = sum_over(n, lambda i: post(i)[2])
        live = lt(num(Fraction("1e-8")), eta)
        W = where(P, f)
        same_or_report(rep, F(v, "eta"), ite(live, eta, ZERO), "eta is the sum of the updated component weights", W, "gm.eta", dom)
        same_or_report(rep, v.ret, ite(live, eta, ZERO), "the evidence sum is returned", W, "gm.ret", dom)
        for i in (ZERO, num(2)):
            nx, nP, nw = post(i)
            under(rep, v, live, ("c", i, "x"), nx, "mixture component %s mean updated" % show(i), W, "gm.x", dom)
            under(rep, v, live, ("c", i, "P"), nP, "mixture component %s covariance updated" % show(i), W, "gm.P", dom)
            under(rep, v, live, ("c", i, "w"), div(nw, eta), "mixture component %s weight updated and renormalised" % show(i), W, "gm.w", dom)
        same_or_report(rep, size(F(v, "c")), ite(live, n, ZERO), "no component is lost unless the evidence vanishes", W, "gm.n", dom)
    for f in insts(P, "lmb::PF::correct"):
        v = evaluate(P, f, cfg)
        z = v.args[0]
        zx, zP, kap = I0(v, "x", base=z), I0(v, "P", base=z), I0(v, "kappa", base=z)
        W = where(P, f)
        pf_loop(P, rep, v, zx, zP, kap, W, pfdom(dom))
    rep.assumption("covariances are symmetric positive definite")
    rep.assumption("formulas are compared over the reals; floating-point rounding is not modelled")


def under(rep, v, live, path, want, what, W, key, dom):
    gated(rep, live, F(v, *path), want, what, W, key, dom)


def pf_loop(P, rep, v, zx, zP, kap, W, dom):
    """Every particle weight is scaled by pD * N(z; Hx, R) / kappa, then all are normalised by their sum."""
    w, x, o = I0(v, "w"), I0(v, "x"), I0(v, "origin")
    N = next((int(t) for t in P.rec_of(v.ltype[v.this])["targs"] if isinstance(t, int) and t > 8), None)
    S = dims(x)[0]
    Di = inverse(zP)

    def nw(i):
        xi = cm(S, 1, [el(x, a, i) for a in range(S)])
        dz = madd(zx, mscale(num(-1), mmul(H(S), xi)))
        return mul(el(w, 0, i), pdterm(v, xi, o), gauss(dz, Di), pw(kap, -1))
    eta = sum_over(num(N), nw)
    live = lt(num(Fraction("1e-8")), eta)
    same_or_report(rep, F(v, "eta"), ite(live, eta, ZERO), "eta is the sum of the updated particle weights", W, "pf.eta", dom)
    same_or_report(rep, v.ret, ite(live, eta, ZERO), "the evidence sum is returned", W, "pf.ret", dom)
    for i in (ZERO, num(N - 1)):
        gated(rep, live, el(F(v, "w"), 0, i), div(nw(i), eta), "particle %s weight updated and renormalised" % show(i), W, "pf.w", dom)


def pdterm(v, xi, o):
    return T("fn", PD, argterm(v, 1), xi, o)


def pfdom(dom):
    def d(t, rnd, ev):
        r, c = dims(t)
        if r and c is None and t.op == "init" and lastname(t) in ("w", "x"):
            g = rnd("pf" + ev.key(t))
            lo = 0.05 if lastname(t) == "w" else -2
            tiny = 1e-7 if lastname(t) == "w" and rnd("tiny").uniform(0, 1) < 0.3 else 1
            return np.array([[tiny * g.uniform(lo, 2) for _ in range(64)] for _ in range(r)])
        return dom(t, rnd, ev)
    return d
