from common import *
import tracker
import flow

TITLE = "Target queries report exactly the targets they are asked about"
EXPLANATION = ("Every query of the tracker, of its target list and of the sensor is evaluated with helpers inlined down to the index search; the search's rectangle, receiver and result list are read "
               "off the call, and what the query returns is compared with the sum, count, list or grid over those targets.")
SENSOR = "lmb::PositionSensor"
BOX = "lmb::AABBox"


class Cfg(tracker.Cfg):
    def is_pure(self, f):
        return f["q"] == "lmb::BBox::intersects" or super().is_pure(f)


class Hits:
    """The list one index search fills."""

    def __init__(s, v, e, rep, name):
        s.v, n = v, e.n
        s.e, s.n = e, n
        a = n.args
        s.val = None
        s.ok = len(a) >= 4 and a[3].op == "addr"
        rep.count("searches")
        W = v.p.loc(n.l)
        if not rep.ob(s.ok, "%s: the search fills a list of the query's own" % name, W, name + ".list", show(a[-1], 4)):
            return
        loc = a[3].args[0]
        rep.ob(size(v.peek(loc, n.st)) is ZERO, "%s: the list is empty before the search" % name, W, name + ".empty", show(v.peek(loc, n.st), 4)[:200])
        s.val = next((x.n.val for x in flow.events(v.nodes) if x.kind == "write" and x.n.loc is loc and x.n.op == "havoc" and x.no > e.no), None)
        rep.ob(not e.loops and e.g is TRUE and s.val is not None, "%s: one search, under no condition" % name, W, name + ".once", show(e.g, 5)[:200])
        f = a[2]
        rep.ob(receiver(v, f), "%s: the receiver appends every hit and never stops the search" % name, W, name + ".receiver")
        st = tracker.inner(v, n.obj, tracker.TREE) if isinstance(n.obj, Term) else None
        rep.ob(st is not None and len(st) == 1, "%s: the search is in the tracker's index" % name, W, name + ".index", show(n.obj, 4) if isinstance(n.obj, Term) else None)

    def rect(s):
        return [tracker.rect(s.v, s.n.args[i], s.n.st) for i in (0, 1)]

    def n_(s):
        return size(s.val)

    def at(s, i):
        return get(s.val, ("e", i))


RECEIVERS = {}


def receiver(v0, t):
    """The search's callback: one append of the hit to the list it is given, and true."""
    P = v0.p
    if t.op == "closure":
        fs = [i for i in v0.closures[t.args[0]][0]["fns"] if "body" in P.fns[i] and len(P.fns[i]["params"]) == 2]
        fid = fs[0] if fs else None
    else:
        fid = t.args[0] if t.op == "fnptr" else None
    if fid is None or "body" not in P.fns[fid] or len(P.fns[fid]["params"]) != 2:
        return False
    if fid not in RECEIVERS:
        v = tracker.evalf(P, P.fns[fid])
        w = [e for e in flow.events(v.nodes) if e.kind == "write" and e.n.loc.args[0][0] == "D"]
        ok = v.ret is not None and truth(v.ret) is TRUE and len(w) == 1 and w[0].g is TRUE and not w[0].loops
        ok = ok and w[0].n.val.op == "push" and w[0].n.val.args[1] is argterm(v, 0) and w[0].n.loc.args[0][1] is argterm(v, 1) and not w[0].n.loc.args[1]
        ok = ok and w[0].n.val.args[0] is T("init", w[0].n.loc, 0)
        RECEIVERS[fid] = ok
    return RECEIVERS[fid]


def fld(v, ptr, *fs):
    return v.peek(ve.LOC(("D", ptr), tuple(("f", x) for x in fs)), v.st0)


def search(P, v, rep, name):
    cs = [e for e in flow.events(v.nodes) if e.kind == "call" and e.n.q == "RTree::Search"]
    if len(cs) != 1:
        rep.bad("%s: %d index searches instead of one" % (name, len(cs)), where(P, v.f0), name + ".search")
        return None
    h = Hits(v, cs[0], rep, name)
    return h if h.val is not None else None


def boxarg(P, v, f):
    """The box or point a region query is asked about, as two corners; None for a query about all targets."""
    for i, p in enumerate(f["params"]):
        r = P.rec_of(P.unref(p["t"]))
        if r is not None and r["qual"] == BOX:
            t = argterm(v, i)
            return [get(t, ("f", "min")), get(t, ("f", "max"))], v.args[i]
        if r is not None and r["qual"].startswith("Eigen::"):
            t = argterm(v, i)
            return [t, t], v.args[i]
    return None


def samecorners(got, want):
    def c(m, i):
        r, k = dims(m)
        return el(m, i, 0) if r else get(m, ("e", num(i)))
    return all(g is not None and (g is w or all(c(g, i) is c(w, i) for i in (0, 1))) for g, w in zip(got, want))


def point(v, a, t, loc):
    """A point handed to the search by its first coordinate's address."""
    if a.op == "addr":
        return a.args[0] is loc or a.args[0] in [ve.ext(loc, st) for st in (("m", ZERO, ZERO), ("e", ZERO))]
    return a.op in ("fn", "fnm") and a.args[0] == "data" and a.args[-1] in (t, loc)


def run(P, rep):
    RECEIVERS.clear()
    rep.rule = "value of the query == sum / count / list / grid over the list the search filled (or over all targets), in one full pass"
    dom = covdom()
    # the target list's own region queries
    for f in [f for f in insts(P, tracker.TREE + "::query") if "body" in f]:
        v = ev(P, f)
        name = "list " + tracker.sig(P, f)
        h = search(P, v, rep, name)
        if h is None:
            continue
        corner(P, v, f, h, rep, name)
        rep.ob(v.ret is h.val, "%s: it returns the hits" % name, where(P, f), name + ".ret", show(v.ret, 5)[:300])
    # sums, counts and summaries
    for q, kind in (("enof_targets", "sum"), ("nof_targets", "count"), ("get_targets", "list")):
        fs = [f for f in insts(P, tracker.TRACKER + "::" + q) if "body" in f]
        if len(fs) < 2:
            raise AnalysisError("region overload of %s not found" % q)
        for f in fs:
            v = ev(P, f)
            name = "tracker " + tracker.sig(P, f)
            W = where(P, f)
            if boxarg(P, v, f) is not None:
                h = search(P, v, rep, name)
                if h is None:
                    continue
                corner(P, v, f, h, rep, name)
                n, at = h.n_(), h.at
            else:
                rep.ob(not any(e.kind == "call" and e.n.q == "RTree::Search" for e in flow.events(v.nodes)), "%s: about all targets, not a region" % name, W, name + ".all")
                lst = all_targets(P, v)
                n, at = size(lst), lambda i, lst=lst: get(lst, ("e", i))
            if kind == "sum":
                same_or_report(rep, v.ret, sum_over(n, lambda i: fld(v, at(i), "r")), "%s: the sum of the existence probabilities" % name, W, name + ".value", dom)
            elif kind == "count":
                lim = argterm(v, len(f["params"]) - 1)
                same_or_report(rep, v.ret, sum_over(n, lambda i: ite(lt(fld(v, at(i), "r"), lim), ZERO, ONE)), "%s: the number of targets at or above the limit" % name, W, name + ".value", dom)
            else:
                summaries(P, v, rep, f, n, at, name)
    for f in insts(P, tracker.TRACKER + "::pos_phd"):
        grid(P, rep, f, dom)
    for f in insts(P, SENSOR + "::get_targets"):
        affected(P, rep, f)
    rep.assumption("what the index search itself reports is another property")


def ev(P, f, cfg=None):
    v = tracker.evalf(P, f, cfg or Cfg())
    v.f0 = f
    return v


def all_targets(P, v):
    """The tracker's list of targets on entry."""
    root = v.this.args[0]
    for r in P.recs:
        if r["qual"] == tracker.TRACKER:
            for x in r["fields"]:
                t = P.rec_of(x["t"])
                if t is not None and t["qual"] == tracker.TREE:
                    for y in t["fields"]:
                        u = P.rec_of(y["t"])
                        if u is not None and u["qual"] == "std::vector":
                            return v.peek(ve.LOC(root, (("f", x["n"]), ("f", y["n"]))), v.st0)
    raise AnalysisError("target list not found")


def corner(P, v, f, h, rep, name):
    want, loc = boxarg(P, v, f)
    got = h.rect()
    ok = all(g is not None for g in got) and samecorners(got, want)
    if not ok and want[0] is want[1]:
        ok = all(point(v, h.n.args[i], want[0], loc) for i in (0, 1))
    rep.ob(ok, "%s: it searches the region it is asked about" % name, v.p.loc(h.n.l), name + ".rect", None if ok else show(T("t", *h.n.args[:2]), 5)[:300])


def summaries(P, v, rep, f, n, at, name):
    W = where(P, f)
    r = v.ret
    ok = r is not None and r.op == "mapped" and size(r.args[0]) is ZERO and r.args[1] is n
    rep.ob(ok, "%s: one summary per target, in one full pass" % name, W, name + ".each", None if ok else show(r, 5)[:300])
    if not ok:
        return
    e, b = r.args[2], r.args[3]
    t = at(b)
    pdf = fld(v, t, "pdf")
    rec = P.rec_of(next(x for x in v.ltype.values() if isinstance(x, int) and (P.rec_of(x) or {}).get("qual") == "lmb::TargetSummary_"))
    rep.count("summary_fields", len(rec["fields"]))
    for a, want in (("w", fld(v, t, "r")), ("id", fld(v, t, "id")), ("cid", fld(v, t, "cid"))):
        g = get(e, ("f", a))
        rep.ob(g is want, "%s: %s is the target's own" % (name, a), W, name + "." + a, show(g, 6)[:200])
    for a, fnn in (("x", "mean"), ("P", "cov")):
        g = get(e, ("f", a))
        ok = g is not None and g.op in ("fn", "fnm") and g.args[0].split("::")[-1] == fnn and g.args[1] is pdf
        if ok and len(g.args) > 2:
            ok = all(isinstance(m, Term) and m.op in ("fn", "fnm") and m.args[0].split("::")[-1] == "mean" and m.args[1] is pdf for m in g.args[2:])
        rep.ob(ok, "%s: %s is the %s of the target's density" % (name, a, fnn), W, name + "." + a, show(g, 6)[:200])


def affected(P, rep, f):
    """The targets a sensor's correction touches: those in its field of view."""
    v = ev(P, f)
    name, W = "sensor " + f["n"], where(P, f)
    h = search(P, v, rep, name)
    if h is None:
        return
    fov = next((ve.LOC(v.this.args[0] if isinstance(v.this.args[0], tuple) else v.this, (("f", x["n"]),)) for x in P.rec_of(v.ltype[v.this])["fields"]
                if (P.rec_of(x["t"]) or {}).get("qual") == "lmb::BBox"), None)
    q = next((g for g in P.find("lmb::BBox::aabbox") if "body" in g), None)
    if fov is None or q is None:
        raise AnalysisError("field of view not found")
    b = v.query(q, fov, st=v.st0)
    got = h.rect()
    rep.ob(all(g is not None for g in got) and samecorners(got, [get(b, ("f", "min")), get(b, ("f", "max"))]), "%s: it searches the bounds of the field of view" % name, W, name + ".rect",
           show(T("t", *h.n.args[:2]), 5)[:300])
    view = v.peek(fov, v.st0)
    r = v.ret
    ok = r is not None and r.op == "filt" and size(r.args[0]) is ZERO and r.args[1] is h.n_()
    rep.ob(ok, "%s: a selection of the hits, in one full pass" % name, W, name + ".each", None if ok else show(r, 5)[:300])
    if not ok:
        return
    e, c, b = r.args[2:5]
    rep.ob(e is h.at(b), "%s: each selected element is the hit examined" % name, W, name + ".elem", show(e, 5)[:200])
    box = fld(v, h.at(b), "pdf", "bbox")
    x = c.args[0] if c.op == "truth" else c
    ok = x.op == "fn" and x.args[0] == "lmb::BBox::intersects" and set(map(lambda t: t.id, x.args[1:])) == {box.id, view.id}
    rep.ob(ok, "%s: selected exactly when the target's oriented box meets the field of view" % name, W, name + ".cond", None if ok else show(c, 6)[:300])


def grid(P, rep, f, dom):
    """The position density: every sample adds its share of its target to the cell it falls in."""
    name, W = "tracker " + f["n"], where(P, f)
    dens = {g["q"].rsplit("::", 1)[0] for g in P.fns if g.get("method") and g["n"] == "sample_pos"}
    opq = tuple(d + "::" + m for d in dens for m in ("sample_pos", "transform_to_local"))
    v = ev(P, f, Cfg(opaque=opq))
    h = search(P, v, rep, name)
    if h is None:
        return
    corner(P, v, f, h, rep, name)
    evs = flow.events(v.nodes)
    fov = argterm(v, next(i for i, p in enumerate(f["params"]) if (P.rec_of(P.unref(p["t"])) or {}).get("qual") == BOX))
    cells = argterm(v, next(i for i, p in enumerate(f["params"]) if ((P.rec_of(P.unref(p["t"])) or {}).get("qual") or "").startswith("Eigen::")))
    mn = [get(get(fov, ("f", "min")), ("e", num(i))) for i in (0, 1)]
    mx = [get(get(fov, ("f", "max")), ("e", num(i))) for i in (0, 1)]
    origin = colv(*[div(add(a, b), num(2)) for a, b in zip(mn, mx)])
    lo = [T("fn", "cf::ll2ne", colv(*c), origin) for c in (mn, mx)]
    for t in lo:
        setdims(t, 2, 1)
    nmin = [fn("min", el(lo[0], i, 0), el(lo[1], i, 0)) for i in (0, 1)]
    nmax = [fn("max", el(lo[0], i, 0), el(lo[1], i, 0)) for i in (0, 1)]
    grow = [e for e in evs if e.kind == "write" and e.loops and e.n.loc.args[1] and e.n.loc.args[1][-1][0] == "m" and e.n.op != "havoc"]
    if not rep.ob(len(grow) == 1, "%s: one accumulation" % name, W, name + ".acc", "%d cell writes" % len(grow)):
        return
    e = grow[0]
    L = P.loc(e.n.l)
    res = ve.LOC(e.n.loc.args[0], e.n.loc.args[1][:-1])
    _, i, j = e.n.loc.args[1][-1]
    ok = len(e.loops) == 2 and all(l.info["full"] for l in e.loops) and e.loops[0].info["trip"] is h.n_() and is_num(e.loops[1].info["trip"])
    if not rep.ob(ok, "%s: all samples of all hits, in full passes" % name, L, name + ".loops"):
        return
    t = h.at(e.loops[0].info["k"])
    N, s = e.loops[1].info["trip"], e.loops[1].info["k"]
    # the samples
    tr = [c for c in evs if c.kind == "call" and c.n.q.endswith("::transform_to_local")]
    sp = [c for c in evs if c.kind == "call" and c.n.q.endswith("::sample_pos")]
    ok = len(tr) == 1 and len(sp) == 1 and tr[0].no < sp[0].no < e.no and tr[0].g is TRUE and sp[0].g is TRUE and tr[0].loops == sp[0].loops == e.loops[:1] and tr[0].n.obj is sp[0].n.obj
    if not rep.ob(ok, "%s: each hit's density is moved to the local frame and sampled once" % name, L, name + ".sample"):
        return
    rep.ob(v.peek(tr[0].n.obj, tr[0].n.st) is fld(v, t, "pdf"), "%s: what is sampled is a copy of the hit's density" % name, P.loc(sp[0].n.l), name + ".density")
    same_or_report(rep, el(tr[0].n.args[0], 0, 0), el(origin, 0, 0), "%s: local frame at the centre of the region, latitude" % name, W, name + ".origin0", dom)
    same_or_report(rep, el(tr[0].n.args[0], 1, 0), el(origin, 1, 0), "%s: local frame at the centre of the region, longitude" % name, W, name + ".origin1", dom)
    smp = next((x.n.val for x in evs if x.kind == "write" and x.n.op == "havoc" and x.no > sp[0].no and x.loops == sp[0].loops), None)
    ncol = dims(smp)[1] if smp is not None else None
    rep.ob(smp is not None and (ncol is None or ncol == N or num(ncol) is N), "%s: as many samples as are counted" % name, L, name + ".nsamples", str(ncol))
    for a, ix in ((0, i), (1, j)):
        want = T("fn", "floor", div(sub(el(smp, a, s), nmin[a]), div(sub(nmax[a], nmin[a]), el(cells, a, 0))))
        got = ix.args[-1] if ix.op in ("cast", "fn") and (ix.op == "cast" or ix.args[0] in ("cast", "trunc")) else ix
        same_or_report(rep, got, want, "%s: the cell on axis %d is the sample's distance from the corner in cell widths, rounded down" % (name, a), L, name + ".cell%d" % a, dom)
    inside = and_(not_(lt(i, ZERO)), not_(lt(j, ZERO)), lt(i, el(cells, 0, 0)), lt(j, el(cells, 1, 0)))
    rep.ob(flow.same(e.g, inside, dom), "%s: exactly the samples inside the grid count" % name, L, name + ".inside", show(e.g, 6)[:300])
    # weight
    k = after_coef(v.ret, res)
    if not rep.ob(k is not None, "%s: the returned grid is the accumulated one up to scale" % name, W, name + ".ret", show(v.ret, 5)[:300]):
        return
    old = next((x for x in walk(e.n.val) if x.op == "el" and x.args[0].op == "phi"), None)
    inc = sub(e.n.val, old) if old is not None else None
    same_or_report(rep, mul(inc, k) if inc is not None else None, div(fld(v, t, "r"), N), "%s: each sample adds its share of the target's existence probability" % name, L, name + ".share", dom)
    z = v.peek(res, e.loops[0].st) if e.loops[0].get("st") is not None else init_before(evs, res, e.loops[0])
    rep.ob(zero(z, cells), "%s: the grid starts at zero with the size asked for" % name, W, name + ".zero", show(z, 4)[:200] if z is not None else None)


def zero(z, cells):
    r = z is not None and z.op == "const" and len(z.args) == 3
    return r and z.args[0] is ZERO and z.args[1] is el(cells, 0, 0) and z.args[2] is el(cells, 1, 0)


def init_before(evs, loc, loop):
    r = None
    for e in evs:
        if e.kind == "loop" and e.n is loop:
            break
        if e.kind == "write" and e.n.loc is loc and not e.loops:
            r = e.n.val
    return r


def after_coef(r, loc):
    if r is None:
        return None
    if r.op == "after" and r.args[1] is loc:
        return ONE
    if r.op == "mat" and len(r.args[2]) == 1:
        key, c = r.args[2][0]
        if len(key) == 1 and not key[0][1] and key[0][0].op == "after" and key[0][0].args[1] is loc:
            return c
    return None
