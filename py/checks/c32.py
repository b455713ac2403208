from common import *
import tracker
import flow
import assoc
from checks.c22 import draws, tm_

TITLE = "Detection probability is the share of the density inside the field of view"
EXPLANATION = ("The sensor's detection probability is evaluated with helpers inlined: the region is the field of view converted to the local frame corner by corner, the share a mean over samples whose distribution is read off the "
               "value written to each sample.")
WITHIN = ("lmb::BBox::within", "lmb::AABBox::within")


def run(P, rep):
    rep.rule = ("pD = sensor constant x (number of samples inside) / (number of samples), samples = mean + A z with A A' = covariance; inside = within the field of view, each corner converted to the local frame of the given origin; "
                "a particle: sensor constant if inside, else 0; a report made for a sensor carries that sensor's clutter density")
    for f in insts(P, "lmb::PositionSensor::pD"):
        pd(P, rep, f)
    for f in insts(P, "lmb::Gaussian_::overlap"):
        v, evs, W = ev(P, f)
        box = argterm(v, 0)
        share(P, rep, v, evs, v.ret, I0(v), lambda b: b is box, f["n"] + ".", W, v.this)
    for f in insts(P, "lmb::GM::overlap"):
        v, evs, W = ev(P, f, ("lmb::Gaussian_::overlap",))
        c = I0(v, "c")
        t = v.ret
        n = size(c)
        w = [x for x in walk(t) if x.op in ("fn", "fnm", "res") and str(x.args[0]).endswith("Gaussian_::overlap")]
        ok = False
        if len(w) == 1:
            b = [x for x in walk(w[0]) if x.op == "bv"]
            ok = bool(b) and argterm(v, 0) in w[0].args and I0(v, "c", b[0]) in w[0].args and t is sum_over(n, lambda k: mul(I0(v, "c", k, "w"), subst(w[0], {b[0]: k})))
        rep.ob(ok, "a mixture's share is the weighted sum of its components' shares", W, "gm.share", show(t, 6)[:250])
    reports(P, rep)


class Cfg(tracker.Cfg):
    more = ()

    def is_opaque(self, f):
        return f["q"] in self.more or super().is_opaque(f)

    def is_pure(self, f):
        return f["q"] in self.more or super().is_pure(f)


def ev(P, f, more=()):
    cfg = Cfg()
    cfg.P = P
    cfg.more = more
    v = tracker.evalf(P, f, cfg)
    return v, flow.events(v.nodes), where(P, f)


def pd(P, rep, f):
    v, evs, W = ev(P, f)
    pdf, origin = argterm(v, 0), argterm(v, 1)
    const = I0(v, "pD_") if any(x["n"] == "pD_" for x in P.rec_fields(P.rec_of(v.ltype[v.this]))) else None
    fov = I0(v, "fov", "corners")
    ll = [x for x in walk(v.ret) if x.op in ("fn", "fnm") and str(x.args[0]).endswith("::ll2ne")]

    def box(b):
        cs = [x for x in walk(b) if x.op == "cm" or x.op == "mat" or dims(x) == (2, 4)]
        bc = get(b, ("f", "corners"))
        return all(el(bc, r, c) is el(conv(ll, fov, c, origin), r, 0) for r in (0, 1) for c in range(4))
    facs = [x for x in walk(v.ret) if isfield0(x, v.this)]
    consts = list({x: 0 for x in facs if not mentions(fov, x) and not mentions(x, fov)})
    if len(consts) != 1:
        return rep.bad("the detection probability is a sensor constant times a share", W, "pd.const", show(v.ret, 5)[:200])
    k = consts[0]
    ok = lastname(k).rstrip("_").lower().startswith("pd") or const is None
    rest = div(v.ret, k)
    rep.ob(ok and not mentions(rest, k), "the detection probability is the sensor's, times the share inside the field of view", W, "pd.const", show(v.ret, 5)[:200])
    if any(x.op == "sum" for x in walk(v.ret)):
        share(P, rep, v, evs, rest, pdf, box, "pd.", W, v.args[0])
    else:
        ins = within(rest)
        ok = len(ins) == 1 and box(ins[0].args[1]) and ins[0].args[2] is get(pdf, ("f", "p")) and rest is ite(truth(ins[0]), ONE, ZERO)
        rep.ob(ok, "a particle is detectable exactly inside the field of view, in the local frame", W, "pd.particle", show(rest, 6)[:250])


def isfield0(x, this):
    return x.op == "init" and isinstance(x.args[0], Term) and x.args[0].op == "loc" and x.args[0].args[0] == this.args[0] and len(x.args[0].args[1]) == 1


def conv(ll, fov, c, origin):
    for x in ll:
        if x.args[-1] is origin and all(el(x.args[-2], r, 0) is el(fov, r, c) for r in (0, 1)):
            return x
    return T("none", num(c))


def within(t):
    return list({x: 0 for x in walk(t) if x.op in ("fn", "fnm") and x.args[0] in WITHIN})


def share(P, rep, v, evs, t, pdf, box, tag, W, base):
    """t = mean over the samples of being within the box, samples distributed as the density."""
    ins = within(t)
    s = [x for x in walk(t) if x.op == "sum"]
    ok = len(ins) == 1 and len(s) == 1
    if ok:
        n = s[0].args[0]
        ok = is_num(n) and numval(n) >= 1 and t is div(s[0], n)
        bv = [x for x in walk(ins[0]) if x.op == "bv"]
        ok = ok and s[0] is T("sum", n, ite(truth(ins[0]), ONE, ZERO)) or ok and subst(s[0], {}) is sum_over(n, lambda k: subst(ite(truth(ins[0]), ONE, ZERO), {bv[0]: k} if bv else {}))
    rep.ob(ok, "the share is the number of samples inside over the number of samples", W, tag + "mean", show(t, 6)[:250])
    if len(ins) != 1 or len(s) != 1:
        return
    rep.ob(box(ins[0].args[1]), "inside means inside the region%s" % (", each corner converted to the local frame" if tag == "pd." else ""), W, tag + "box", show(ins[0].args[1], 5)[:250])
    ws = [e for e in evs if e.kind == "write" and e.loops and e.n.loc is not None and isinstance(e.n.val, Term) and any(x.op == "fresh" and x.args[0] == "unaryExpr" for x in walk(e.n.val))
          and e.n.loc.args[1] and e.n.loc.args[1][-1][0] == "v"]
    if len(ws) != 1 or len(ws[0].loops) != 1:
        return rep.bad("samples are drawn in one place", W, tag + "draw", "%d" % len(ws))
    w = ws[0]
    L = w.loops[0].info
    r, c, h, wd = ZERO, ZERO, None, None
    for st in w.n.loc.args[1]:
        r, c, h, wd = add(r, tm_(st[1])), add(c, tm_(st[2])), st[3], st[4]
    rep.ob(L["full"] and L["trip"] is n and c is L["k"] and r is ZERO and w.g is TRUE, "every sample counted is drawn", P.loc(w.n.l), tag + "drawn", show(w.n.loc, 5))
    pt = ins[0].args[2]
    arr = sample_of(pt, w, L["k"])
    rep.ob(arr, "the sample tested is the one counted", W, tag + "point", show(pt, 6)[:250])
    S = next(int(x) for x in P.rec_of(v.ltype[base])["targs"] if isinstance(x, int))
    mean, cov = [v.peek(at(v, [x], base), v.st0) for x in ("x", "P")]
    draws(P, rep, v, evs, w, mean, cov, S, h, tag.rstrip("."))


def sample_of(pt, w, k):
    """The point tested is column n of what was drawn, n the counting variable."""
    bv = [x for x in walk(pt) if x.op == "bv"]
    if pt.op == "blk":
        return len({x: 0 for x in bv}) == 1 and pt.args[2] is bv[0] and pt.args[1] is ZERO
    for a in (0, 1):
        x = el(pt, a, ZERO)
        want = subst(el(w.n.val, a, ZERO), {k: bv[0]}) if bv else None
        if x is want:
            continue
        ok = False
        for y in walk(x):
            if y.op == "el" and bv and y.args[2] is bv[0] and numval_(y.args[1]) == a:
                ok = True
        if not ok and not (x.op == "ite"):
            return False
        if not ok:
            # read back from the samples written in a full loop
            vals = [y for y in leaves(x)]
            if not any(y is want for y in vals):
                return False
    return True


def leaves(t):
    if t.op == "ite":
        return leaves(t.args[1]) + leaves(t.args[2])
    return [t]


def numval_(x):
    x = tm_(x)
    return numval(x) if is_num(x) else None


def reports(P, rep):
    for f in [g for g in P.fns if g["n"] == "GaussianReport_" and g.get("ctor") and "body" in g]:
        if not f["params"] or len(f["params"]) < 3:
            continue
        v = tracker.evalf(P, f, tracker.Cfg())
        W = where(P, f)
        t = [P.rec_of(P.unref(p["t"])) for p in f["params"]]
        i = next((k for k, x in enumerate(t) if x is not None and "Sensor" in x["name"]), None)
        a = [argterm(v, k) for k in range(3)]
        x, Pm = (a[1], a[2]) if i == 0 else (a[0], a[1])
        rep.ob(F(v, "x") is x and F(v, "P") is Pm, "a report holds the position and covariance given", W, "report.state%d" % bool(i == 0))
        if i == 0:
            k = F(v, "kappa")
            ks = [y for y in walk(k) if y.op == "init"]
            ok = k.op == "init" and k.args[0].args[0] == v.args[0].args[0] and lastname(k).rstrip("_").startswith("kappa")
            rep.ob(ok, "a report made for a sensor carries its clutter density", W, "report.kappa", show(k, 5))
        else:
            rep.ob(F(v, "kappa") is a[2], "a report carries the clutter density given", W, "report.kappa", show(F(v, "kappa"), 4))
