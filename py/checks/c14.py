from fractions import Fraction
from common import *
from checks.c12 import pfdom

TITLE = "Motion models propagate state, covariance and survival exactly"
EXPLANATION = ("The CV and NM motion models are evaluated on a whole target for every instantiation; the state and covariance of a generic "
               "mixture component (or particle) and the existence probability after the call are compared with F x, F P F^T + Q(dT) and r * pS^dT.")


def cvF(dT):
    return cm(4, 4, [ONE, ZERO, dT, ZERO, ZERO, ONE, ZERO, dT, ZERO, ZERO, ONE, ZERO, ZERO, ZERO, ZERO, ONE])


def cvQ(dT, q):
    d3 = mul(dT, dT, dT, num(Fraction(1, 3)), q)
    d2 = mul(dT, dT, num(Fraction(1, 2)), q)
    d1 = mul(dT, q)
    return cm(4, 4, [d3, ZERO, d2, ZERO, ZERO, d3, ZERO, d2, d2, ZERO, d1, ZERO, ZERO, d2, ZERO, d1])


def run(P, rep):
    rep.rule = "post-state of every component == F x, F P F' + Q; existence == r * pS^dT (CV) or r * pS (NM)"
    dom = pfdom(covdom())
    for f in insts(P, "lmb::CV::operator()"):
        v = evaluate(P, f)
        t = tgt(v)
        pS, q = I0(v, "pS"), I0(v, "q")
        ts = I0(v, "tscale", base=deref(v, at(v, ("params",), t)))
        dT = div(sub(argterm(v, 1), argterm(v, 2)), ts)
        check(P, rep, f, v, t, cvF(dT), cvQ(dT, q), fn("pow", pS, dT), "cv", dom)
    for f in insts(P, "lmb::NM::operator()"):
        v = evaluate(P, f)
        t = tgt(v)
        check(P, rep, f, v, t, ident(4), I0(v, "Q"), I0(v, "pS"), "nm", dom)
    for f in insts(P, "lmb::Target_::predict"):
        whole(P, rep, f, dom)
    for f in insts(P, "lmb::Gaussian_::linear_update"):
        v = evaluate(P, f)
        Fm, Q = argterm(v, 0), argterm(v, 1)
        x, Pm = I0(v, "x"), I0(v, "P")
        same_or_report(rep, F(v, "x"), mmul(Fm, x), "linear update moves the mean by F", where(P, f), "lin.x", dom)
        same_or_report(rep, F(v, "P"), madd(mmul(mmul(Fm, Pm), transpose(Fm)), Q), "linear update propagates the covariance", where(P, f), "lin.P", dom)
        same_or_report(rep, F(v, "w"), I0(v, "w"), "linear update keeps the weight", where(P, f), "lin.w", dom)
    rep.assumption("time scale is non-zero; formulas are compared over the reals")


def whole(P, rep, f, dom):
    """A target's prediction: the model, then the density normalised and its total taken into the existence probability."""
    v = evaluate(P, f)
    W = where(P, f)
    model = P.rec_of(P.unref(f["params"][0]["t"]))
    if model is None:
        return
    m = v.args[0]
    pdf = at(v, ("pdf",))
    rec = P.rec_of(v.ltype[pdf])
    if model["qual"] == "lmb::CV":
        ts = I0(v, "tscale", base=deref(v, at(v, ("params",))))
        ps = fn("pow", I0(v, "pS", base=m), div(sub(argterm(v, 1), argterm(v, 2)), ts))
    elif model["qual"] == "lmb::NM":
        ps = I0(v, "pS", base=m)
    else:
        return
    name = "target predicted by %s" % model["name"]
    if any(x["n"] == "c" for x in P.rec_fields(rec)):
        n = size(I0(v, "c", base=pdf))
        s = sum_over(n, lambda i: I0(v, "c", i, "w", base=pdf))
    else:
        N = next(int(t) for t in rec["targs"] if isinstance(t, int) and t > 8)
        s = sum_over(num(N), lambda i: el(I0(v, "w", base=pdf), 0, i))
    live = lt(num(Fraction("1e-8")), s)
    same_or_report(rep, F(v, "r"), mul(I0(v, "r"), ps, ite(live, s, ZERO)), "%s: existence scaled by survival and by the density's total" % name, W, "whole.r", dom)
    if any(x["n"] == "c" for x in P.rec_fields(rec)):
        for i in (ZERO, num(2)):
            gated(rep, live, F(v, "c", i, "w", base=pdf), div(I0(v, "c", i, "w", base=pdf), s), "%s: component %s normalised" % (name, show(i)), W, "whole.w", dom)
    else:
        for i in (ZERO, num(N - 1)):
            gated(rep, live, el(F(v, "w", base=pdf), 0, i), div(el(I0(v, "w", base=pdf), 0, i), s), "%s: particle %s normalised" % (name, show(i)), W, "whole.w", dom)


def deref(v, loc):
    return ve.LOC(("D", v_init(v, loc)))


def v_init(v, loc):
    st, v.st = v.st, v.st0
    try:
        return v.read(loc, note=False)
    finally:
        v.st = st


def tgt(v):
    """Location of the target the first parameter points to."""
    return ve.LOC(("D", argterm(v, 0)))


def check(P, rep, f, v, t, Fm, Q, ps, key, dom):
    W = where(P, f)
    r0 = P.ty(P.unref(f["params"][0]["t"]))
    tt = r0["to"]
    v.ltype[t] = P.unref(tt)
    pdf = at(v, ("pdf",), t)
    rec = P.rec_of(v.ltype[pdf])
    same_or_report(rep, F(v, "r", base=t), mul(I0(v, "r", base=t), ps), "%s: existence scaled by survival (%s)" % (key, rec["name"]), W, key + ".r", dom)
    if any(x["n"] == "c" for x in P.rec_fields(rec)):
        for i in (ZERO, num(3)):
            x, Pm = I0(v, "c", i, "x", base=pdf), I0(v, "c", i, "P", base=pdf)
            same_or_report(rep, F(v, "c", i, "x", base=pdf), mmul(Fm, x), "%s: component %s mean" % (key, show(i)), W, key + ".x", dom)
            same_or_report(rep, F(v, "c", i, "P", base=pdf), madd(mmul(mmul(Fm, Pm), transpose(Fm)), Q), "%s: component %s covariance" % (key, show(i)), W, key + ".P", dom)
            same_or_report(rep, F(v, "c", i, "w", base=pdf), I0(v, "c", i, "w", base=pdf), "%s: component %s weight kept" % (key, show(i)), W, key + ".w", dom)
    else:
        x = I0(v, "x", base=pdf)
        for i in (0, 63):
            xi = cm(4, 1, [el(x, a, i) for a in range(4)])
            w = mmul(Fm, xi)
            for a in range(4):
                same_or_report(rep, el(F(v, "x", base=pdf), a, i), el(w, a, 0), "%s: particle %d component %d" % (key, i, a), W, key + ".pf[%d]" % a, dom)
