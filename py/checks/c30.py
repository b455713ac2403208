from common import *
from compose import *
import tracker
import flow
import assoc

TITLE = "The multi-target scores follow their definitions"
EXPLANATION = ("Every overload of the two scores is evaluated with helpers inlined (assignment solver and conversion of a density to the local frame are symbols); the cost matrix at the call of the solver is composed from the recorded "
               "writes for every number of targets and true positions up to 3, and the score is compared with its defining formula.")
SIZES = [(m, n) for m in range(4) for n in range(4) if m + n]
FRAME = ("transform_to_local",)


def run(P, rep):
    rep.rule = ("cost(i, j) = min(c, |x_i - y_j|)^p for target i and true position j, in the local frame of the origin; OSPA: c^p elsewhere, score (cost of assignment / larger count)^(1/p); "
                "GOSPA: c^p / 2 elsewhere, score cost^(1/p); both 0 without targets and positions")
    for name in ("ospa", "gospa"):
        for f in insts(P, tracker.TRACKER + "::" + name):
            score(P, rep, f, name)
    rep.assumption("the solver returns a cheapest assignment of the matrix it is given (C18)")


class Cfg(tracker.Cfg):
    def is_opaque(self, f):
        return f["n"] in FRAME and bool(f.get("method")) and assoc.isdensity(self.P, f) or super().is_opaque(f)


def score(P, rep, f, name):
    cfg = Cfg()
    cfg.P = P
    v = tracker.evalf(P, f, cfg)
    evs = flow.events(v.nodes)
    W = where(P, f)
    tag = name + str(len(f["params"])) + "."
    pn = [p["n"] for p in f["params"]]
    truth, c, p = v.args[0], argterm(v, len(pn) - 2), argterm(v, len(pn) - 1)
    tv = v.peek(truth, v.st0)
    targets = v.peek(at(v, ["targettree", "targets"]), v.st0)
    M, N = size(targets), size(tv)
    cs = [e for e in evs if e.kind == "call" and e.n.f is not None and e.n.f["q"] == "lap::lap"]
    if len(cs) != 1 or cs[0].loops:
        return rep.bad("%s: one assignment is solved" % name, W, tag + "once", "%d" % len(cs))
    call = cs[0]
    g = call.g
    rep.ob(all(decides(g, m, n, M, N) for m, n in SIZES) and not decides(g, 0, 0, M, N), "%s: the score is of an assignment unless there are neither targets nor true positions" % name, P.loc(call.n.l), tag + "when", show(g, 5)[:200])
    # distances
    arg = call.n.args[0]
    cl = matrix_loc(evs, call, arg)
    if cl is None:
        return rep.bad("%s: the matrix assigned is not found" % name, P.loc(call.n.l), tag + "matrix", show(arg, 4))
    ws = writes_to(evs, cl, call.no)
    dw = [e for e, st in ws if len(e.inner) == 2 and any(isll(x) for x in walk(e.n.val))]
    if len(dw) != 1:
        return rep.bad("%s: distances are written in one place" % name, P.loc(call.n.l), tag + "distances", "%d places" % len(dw))
    d = dw[0]
    cell = assoc.cell(d.n.loc)
    if cell is None:
        return rep.bad("%s: distances are written entry by entry" % name, P.loc(d.n.l), tag + "entry")
    lt_ = [l for l in d.inner if l.info["full"] and l.info["trip"] is M]
    ln = [l for l in d.inner if l.info["full"] and l.info["trip"] is N]
    kt = lt_[0].info["k"] if lt_ else None
    kn = (ln[-1] if ln else None)
    kn = kn.info["k"] if kn is not None else None
    ok = kt is not None and kn is not None and kt is not kn and cell[1] is kt and cell[2] is kn
    rep.ob(ok, "%s: row i, column j holds the distance of target i and true position j, for all of them" % name, P.loc(d.n.l), tag + "cells", show(d.n.loc, 5))
    if not ok:
        return
    org = origins(d.n.val)
    if len(org) != 1:
        return rep.bad("%s: true positions are converted to the frame of one origin" % name, P.loc(d.n.l), tag + "frame", "%d" % len(org))
    o = org[0]
    conv = [e for e in evs if e.kind == "call" and e.n.f is not None and e.n.f["n"] in FRAME and e.no < call.no]
    okf = len(conv) == 1 and conv[0].n.args and (conv[0].n.args[0] is o) and lt_[0] in conv[0].loops
    rep.ob(okf, "%s: every target is converted to the frame the true positions are converted to" % name, P.loc(d.n.l), tag + "local")
    src = [e for e in evs if e.kind == "write" and conv and e.n.loc is conv[0].n.obj and e.no < conv[0].no]
    pdf = v.peek(at(v, ["pdf"], ve.LOC(("D", get(targets, ("e", kt))))), v.st0)
    rep.ob(bool(src) and src[-1].n.val is pdf, "%s: the target's own density is converted" % name, P.loc(d.n.l), tag + "density", show(src[-1].n.val, 5) if src else None)
    if not okf:
        return
    hv = [e.n.val for e in evs if e.kind == "write" and e.n.loc is conv[0].n.obj and e.n.get("op") == "havoc" and e.no > conv[0].no]
    mean = [x for x in walk(d.n.val) if x.op in ("fn", "fnm") and str(x.args[0]).endswith("::mean") and mentions(x, hv[0])] if hv else []
    if not mean:
        return rep.bad("%s: distances are to the mean of the converted density" % name, P.loc(d.n.l), tag + "mean", show(d.n.val, 6)[:200])
    m = mean[0]
    y = get(tv, ("e", kn))
    r = dims(y)[0] or dims(m)[0]
    ll = [x for x in walk(d.n.val) if isll(x)][0]
    ys = [el(ll, s, 0) if s < 2 else el(y, s, 0) for s in range(r or 4)]
    want = pw(add(*[pw(sub(ys[s], el(m, s, 0)), 2) for s in range(r or 4)]), Fraction(1, 2))
    same_or_report(rep, d.n.val, want, "%s: the distance is that of the states in the local frame" % name, P.loc(d.n.l), tag + "distance")
    rep.ob(ll.args[-2] is y or mentions(ll, y), "%s: each true position is converted itself" % name, P.loc(d.n.l), tag + "truth", show(ll, 5))
    # the matrix
    other = pw_(c, p) if name == "ospa" else div(pw_(c, p), num(2))
    bad, cnt = None, 0
    for mm, nn in SIZES:
        S = {M: num(mm), N: num(nn)}
        k = max(mm, nn)
        try:
            sh = [subst(x, S) for x in extent_of(v, ws, arg)]
            if [numval(x) if is_num(x) else None for x in sh] != [k, k]:
                bad = bad or "%s x %s for %d targets, %d positions" % (show(sh[0], 4), show(sh[1], 4), mm, nn)
            for a in range(k):
                for b in range(k):
                    got = entry(final(ws, arg, call), num(a), num(b), S)
                    dist = subst(d.n.val, {**S, kt: num(a), kn: num(b)})
                    w = pw_(fn("min", c, dist), p) if a < mm and b < nn else other
                    cnt += 1
                    if not close(got, w, dist):
                        bad = bad or "%d targets, %d positions: entry (%d,%d) is %s" % (mm, nn, a, b, show(got, 5) if got is not None else "unset")
        except Unread as x:
            bad = bad or "not decided: %s" % x
    rep.count("entries_compared", cnt)
    rep.ob(bad is None, "%s: distances are cut off at c and raised to p, all other entries are %s" % (name, "c^p" if name == "ospa" else "c^p/2"), P.loc(call.n.l), tag + "costs", bad)
    # the score
    res = call.n.ret
    n = fn("max", M, N)
    rows = v.shape(res)[0] if v.shape(res)[0] is not None else T("rows", res)
    tot = sum_over(n, lambda i: el(arg, i, el(res, i, ZERO)))
    inner = fn("pow", div(tot, n), div(ONE, p)) if name == "ospa" else fn("pow", tot, div(ONE, p))
    facts = [(M, N)]
    same_or_report(rep, subst(picked(v.ret, 1, 2, M, N), {rows: n}), inner, "%s: the score is the cost of the assignment%s, to the power 1/p" % (name, " per place" if name == "ospa" else ""), W, tag + "score", dom=dom)
    rep.ob(subst(v.ret, {M: ZERO, N: ZERO}) is ZERO, "%s: nothing scores zero" % name, W, tag + "zero", show(subst(v.ret, {M: ZERO, N: ZERO}), 4))
    # the origin
    if len(pn) == 3:
        for s in (0, 1):
            w = div(add(el(summ_over(N, lambda k: block(get(tv, ("e", k)), 0, 0, 2, 1)), s, 0), el(summ_over(M, lambda k: block(T_mean(v, targets, k, d, m), 0, 0, 2, 1)), s, 0)), add(M, N))
            same_or_report(rep, el(o, s, 0), w, "%s: without an origin, the mean of all positions is taken" % name, W, tag + "origin%d" % s, dom=dom)
    else:
        rep.ob(o is argterm(v, 1), "%s: the frame is that of the origin given" % name, W, tag + "origin", show(o, 4))


def T_mean(v, targets, k, d, m):
    """Mean of target k's density as it stands."""
    pdf = v.peek(at(v, ["pdf"], ve.LOC(("D", get(targets, ("e", k))))), v.st0)
    r = T(m.op, *[pdf if isinstance(x, Term) and x.op in ("fresh", "after", "init") else x for x in m.args])
    return setdims(r, *dims(m))


def picked(t, m, n, M, N):
    """The branch of a conditional taken at these counts."""
    while t.op == "ite":
        g = assume(subst(t.args[0], {M: num(m), N: num(n)}), {})
        if g is TRUE:
            t = t.args[1]
        elif g is FALSE:
            t = t.args[2]
        else:
            break
    return t


def dom(t, rnd, ev):
    if t.op == "init" and lastname(t) in ("c", "p") or t.op in ("init", "param") and t.args and isinstance(t.args[0], Term) and not t.args[0].args[1]:
        if dims(t)[0] in (None, 0, 1):
            return rnd("pos" + ev.key(t)).uniform(0.5, 2)
    return None


def decides(g, m, n, M, N):
    return assume(subst(g, {M: num(m), N: num(n)}), {}) is TRUE


def pw_(a, b):
    return fn("pow", a, b)


def close(a, b, d):
    if a is None:
        return False
    if a is b:
        return True
    x = T("sym", "dist18")
    a, b = subst(a, {d: x}), subst(b, {d: x})
    return numev.same(a, b, lambda t, rnd, ev: rnd("p" + ev.key(t)).uniform(0.5, 3) if t.op in ("sym", "init") else None, seed=1, samples=32, tol=1e-9, need=8)[0] in ("identical", "agree")


def isll(x):
    return x.op in ("fn", "fnm") and str(x.args[0]).endswith("::ll2ne")


def origins(t):
    return list({x.args[-1]: None for x in walk(t) if isll(x)})


def matrix_loc(evs, call, arg):
    """The matrix variable the solver is given."""
    x = (call.n.get("locs") or [None])[0]
    if isinstance(x, Term) and x.op == "loc" and x.args[0][0] != "T":
        return x
    ws = [e for e in evs if e.kind == "write" and e.n.loc is not None and e.n.val is arg and e.no < call.no]
    if ws:
        return assoc.under(ws[-1].n.loc)
    for x in walk(arg):
        if x.op == "after" and isinstance(x.args[1], Term) and x.args[1].op == "loc":
            return assoc.under(x.args[1])
    for x in call.n.get("locs") or ():
        if isinstance(x, Term) and x.op == "loc":
            return x
    return None


def writes_to(evs, loc, upto):
    out = []
    n = len(loc.args[1])
    for e in evs:
        if e.no < upto and e.kind == "write" and e.n.loc is not None and e.n.loc.args[0] == loc.args[0] and e.n.loc.args[1][:n] == loc.args[1]:
            r = Ev2()
            r.n, r.g, r.no, r.loops, r.inner = e.n, e.g, e.no, e.loops, e.loops
            st = e.n.loc.args[1][n:]
            c = assoc.cell(e.n.loc)
            if c is not None and len(st) > 1:
                st = (("m", c[1], c[2]),)
            out.append((r, st))
    return out


def final(ws, arg, call):
    """The writes, with the value handed to the solver when it is not stored first."""
    x = (call.n.get("locs") or [None])[0]
    if isinstance(x, Term) and x is ws[0][0].n.loc or ws[-1][0].n.val is arg and not ws[-1][1]:
        return ws
    r = Ev2()
    n = type("N", (), {})()
    n.val, n.loc, n.l = arg, ws[0][0].n.loc, call.n.l
    r.n, r.g, r.no, r.loops, r.inner = n, TRUE, call.no, (), ()
    return ws + [(r, ())]


def extent_of(v, ws, arg):
    for e, st in ws:
        if not st and not e.inner:
            r, c = v.shape(e.n.val)
            if e.n.val.op != "fresh" or not any(y.op in ("rows", "cols") for x in (r, c) for y in walk(x)):
                return [r, c]
    return list(v.shape(arg))
