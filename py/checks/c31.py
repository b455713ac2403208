from assoc import *

TITLE = "Association costs are the negative log of the three alternatives of each target"
EXPLANATION = ("The cluster update is evaluated with helpers inlined; the matrix handed to the assignment enumeration is found, and every write to it is classified by row, column, loops and value.")


def run(P, rep):
    rep.rule = ("cost matrix == forbidden everywhere, then per target k exactly: (k,j) -log(r * likelihood of report j), (k,N+k) -log(r * missed), (k,N+M+k) -log(1-r) (forbidden if r >= 1); "
                "each likelihood taken on a fresh copy of the target's density, with its own report, in complete unconditional loops")
    for f in insts(P, CLUSTER + "::correct"):
        check(P, rep, f)
    rep.assumption("formulas are compared over the reals; the forbidden cost is a finite constant whose exponential is zero in double precision")


def dom(t, rnd, ev):
    if t.op == "res":
        return rnd("pos" + ev.key(t)).uniform(0.05, 0.9)
    if lastname(t) == "r" or t.op in ("init", "phi", "after", "fresh"):
        return rnd("r" + ev.key(t)).uniform(0.05, 1.3)
    return None


def check(P, rep, f):
    v = evaluate_cluster(P, f)
    evs = flow.events(v.nodes)
    W = where(P, f)
    M, N = size(v.peek(at(v, ["targets"]), v.st0)), size(v.peek(at(v, ["reports"]), v.st0))
    ct = [e for e in evs if e.kind == "call" and e.n.f["q"] == "lap::Murty::Murty"]
    if len(ct) != 1:
        return rep.bad("the alternatives are not handed to one enumeration", W, "murty", "%d enumerations" % len(ct))
    ct = ct[0]
    rep.ob(live(ct, M) is TRUE and not ct.loops, "hypotheses are enumerated whenever there are targets", P.loc(ct.n.l), "murty.cond", show(ct.g, 5)[:200])
    root = matrix(ct.n.args[0])
    if root is None:
        return rep.bad("the cost matrix is not the one filled in", P.loc(ct.n.l), "murty.arg", show(ct.n.args[0], 4)[:200])
    ws = [e for e in evs if e.kind == "write" and e.n.loc is not None and e.n.loc.op == "loc" and under(e.n.loc) is root and e.n.get("op") not in ("init",)]
    fills = [e for e in evs if e.kind == "write" and e.n.loc is root and constfill(e.n.val)]
    ws = [e for e in ws if e not in fills and not undef(e)]
    if not fills:
        return rep.bad("alternatives of other targets are not forbidden", W, "fill")
    fl = fills[-1]
    r, c = fl.n.val.args[1:3]
    want = add(N, mul(num(2), M))
    ok = r is M and c is want and not fl.loops and fl.no < min([e.no for e in ws] or [1 << 30])
    rep.ob(ok, "one row per target, one column per report and two per target", P.loc(fl.n.l), "dims", "%s x %s" % (sh(r), sh(c)))
    big = constant(P, el(fl.n.val, ZERO, ZERO))
    rep.ob(big is not None and big > 750, "alternatives that are not a target's own have weight zero", P.loc(fl.n.l), "forbidden", show(el(fl.n.val, ZERO, ZERO), 3))
    seen = {}
    for e in ws:
        x = cell(e.n.loc)
        if x is None:
            rep.bad("the cost matrix is changed as a whole", P.loc(e.n.l), "other", show(e.n.loc, 4)[:200])
            continue
        _, row, col = x
        lr = axis(e, row, M)
        kind = None
        lc = axis(e, col, N)
        if lc is not None and lc is not lr:
            kind = "report"
        elif sub(col, N) is row:
            kind = "missed"
        elif sub(col, add(N, M)) is row:
            kind = "false"
        rep.count("cells")
        n = 2 if kind == "report" else 1
        ok = kind is not None and lr is not None and len(e.loops) == n and live(e, M, N) is TRUE
        rep.ob(ok, "cost cell addressed per target%s, for all of them" % (" and report" if kind == "report" else ""), P.loc(e.n.l), "cell." + (kind or "other"),
               "row %s column %s when %s" % (show(row, 4), show(col, 4), show(live(e, M, N), 4)[:200]))
        if not ok:
            continue
        if kind in seen:
            rep.bad("the %s alternative is written twice" % kind, P.loc(e.n.l), "twice." + kind)
        seen[kind] = e
        t = v.peek(ve.ext(at(v, ["targets"]), ("e", row)), v.st0)
        tl = ve.LOC(("D", t))
        rr = v.peek(at(v, ["r"], tl), v.st0)
        if kind == "false":
            inf = el(fl.n.val, ZERO, ZERO)
            same_or_report(rep, e.n.val, ite(lt(rr, ONE), neg(fn("log", sub(ONE, rr))), inf), "cost of a target that does not exist", P.loc(e.n.l), "val.false", dom)
            continue
        cs = [c for c in calls(evs, "correct" if kind == "report" else "missed") if any(y is c.n.ret for y in walk(e.n.val))]
        if len(cs) != 1:
            rep.bad("cost of the %s alternative is not taken from the density's own update" % kind, P.loc(e.n.l), "src." + kind, show(e.n.val, 5)[:200])
            continue
        c = cs[0]
        same_or_report(rep, e.n.val, neg(fn("log", mul(rr, c.n.ret))), "cost of the %s alternative" % kind, P.loc(e.n.l), "val." + kind, dom)
        rep.ob(set(c.loops) == set(e.loops) and live(c, M, N) is live(e, M, N), "the %s alternative is evaluated where it is used" % kind, P.loc(c.n.l), "loop." + kind)
        pdf = v.peek(at(v, ["pdf"], tl), c.n.st)
        obj = v.peek(c.n.obj, c.n.st) if isinstance(c.n.obj, Term) and c.n.obj.op == "loc" else c.n.obj
        rep.ob(obj is pdf, "the %s alternative starts from the target's predicted density" % kind, P.loc(c.n.l), "prior." + kind, "starts from %s" % show(obj, 5)[:200])
        rep.ob(sensor(v, f, c), "the %s alternative is evaluated with the given sensor" % kind, P.loc(c.n.l), "sensor." + kind)
        if kind == "report":
            z = v.peek(ve.ext(at(v, ["reports"]), ("e", col)), v.st0)
            a = c.n.locs[0] if c.n.get("locs") else None
            ok = a is not None and (a is ve.LOC(("D", z)) or v.peek(a, c.n.st) is v.peek(ve.LOC(("D", z)), c.n.st))
            rep.ob(ok, "column j is evaluated with report j", P.loc(c.n.l), "report", show(a, 4) if a is not None else "")
    for k in ("report", "missed", "false"):
        if k not in seen:
            rep.bad("the %s alternative has no cost" % k, W, "none." + k)


def sh(x):
    return show(x, 4)[:120] if isinstance(x, Term) else str(x)


def undef(e):
    return isinstance(e.n.val, Term) and e.n.val.op == "fresh" and str(e.n.val.args[0]).startswith("undef")


def constfill(t):
    return isinstance(t, Term) and t.op == "const"


def matrix(t):
    while isinstance(t, Term) and t.op in ("after", "init", "phi"):
        l = [a for a in t.args if isinstance(a, Term) and a.op == "loc"]
        if not l:
            return None
        return l[0]
    return None


def sensor(v, f, c):
    """Whether one of the call's arguments is the operation's sensor parameter."""
    s = v.args[1]
    return any(isinstance(x, Term) and x is s for x in c.n.get("locs") or ())
