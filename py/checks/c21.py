from common import *
import tracker
import flow
from assoc import axis
from checks.c20 import isvec, elemloc

TITLE = "Clusters partition the scan and the targets near it"
EXPLANATION = ("The correction is evaluated with helpers inlined; the component search is a symbol there and is evaluated on its own. Every index query, connection, cluster construction and cluster number is read off the effect tree "
               "with the loops that produce it, and the component search is checked step by step as a worklist traversal.")
CLUSTER = "lmb::Cluster_"


def graphrec(P):
    """Classes that hold a map from pointers to sets of pointers, with the field."""
    out = []
    for r in P.recs:
        for f in r.get("fields", ()):
            m = P.rec_of(f["t"])
            if m is not None and m["qual"] in ("std::map", "std::unordered_map") and "set<" in P.ty(f["t"]).get("s", "") and "*" in P.ty(f["t"]).get("s", "") and r.get("qual", "").startswith("lmb"):
                out.append((r, f["n"]))
    return out


def run(P, rep):
    rep.rule = ("every report is a node; reports are connected when an index query with their own box returned a common target; a component is the closure of its connections, taken out of the graph; "
                "cluster = component + deduplicated union of its reports' targets; remaining targets become single clusters; number = position, stamped on every member")
    rs = graphrec(P)
    if not rs:
        raise AnalysisError("no connection graph class found")
    walks = []
    for r, fld in rs:
        for f in P.fns:
            if f.get("method") and "body" in f and P.recs[f["rec"]] is r and len(f["params"]) == 1 and isvec(P, f["params"][0]["t"]) and P.ty(f["ret"]).get("s") in ("bool", "_Bool"):
                walks.append(f)
                component(P, rep, f, fld)
    if not walks:
        raise AnalysisError("no component search found")
    for f in insts(P, tracker.TRACKER + "::correct"):
        clusters(P, rep, f, walks, {fld for _, fld in rs})
        counts(P, rep, f)
    for f in insts(P, CLUSTER + "::correct"):
        untouched(P, rep, f)
    rep.assumption("the index query returns each target whose stored box overlaps the given one (C16)")


# ------------------------------------------------------------------------ counts
class Whole(tracker.Cfg):
    def is_opaque(self, f):
        return f["q"] in (CLUSTER + "::correct", tracker.TRACKER + "::birth")


def untouched(P, rep, f):
    from assoc import evaluate_cluster
    v = evaluate_cluster(P, f)
    for x in ("id", "reports", "targets"):
        rep.ob(F(v, x) is I0(v, x), "the update of a cluster keeps its %s" % x, where(P, f), "update." + x, show(F(v, x), 4)[:150])


def counts(P, rep, f):
    """The tracker's counts after a correction, by the names they have for the user."""
    from checks.c24 import classes, attrs
    t = classes(P).get("Tracker")
    mem = {n: m["f"] for n, m, _ in attrs(t) if m is not None and "f" in m} if t else {}
    cfg = Whole()
    cfg.P = P
    v = tracker.evalf(P, f, cfg)
    evs = flow.events(v.nodes)
    W = where(P, f)
    cs = [e for e in evs if e.kind == "call" and e.n.f["q"] == CLUSTER + "::correct"]
    if len(cs) != 1 or len(cs[0].loops) != 1 or cs[0].n.obj is None or cs[0].n.obj.op != "loc":
        return rep.bad("clusters are updated in one loop", W, "count.loop", "%d calls" % len(cs))
    c = cs[0]
    k = c.loops[0].info["k"]
    obj = c.n.obj
    coll = ve.LOC(obj.args[0], obj.args[1][:-1])
    ok = obj.args[1][-1:] == (("e", k),) and c.loops[0].info["full"] and c.g is TRUE
    now = v.peek(coll, c.n.st)
    n = size(now)
    rep.ob(ok and axis(c, k, n) is not None, "every cluster is updated once", P.loc(c.n.l), "count.every", show(c.loops[0].info["trip"], 5))
    i0 = v.peek(at(v, ["id"], obj), c.n.st)
    for name, fld in (("cluster_ntargets", "targets"), ("cluster_nreports", "reports"), ("cluster_nhyps", "n")):
        loc = at(v, [mem.get(name, name)])
        ws = [e for e in evs if e.kind == "write" and e.n.loc is not None and e.n.loc.args[0] == loc.args[0] and e.n.loc.args[1][:len(loc.args[1])] == loc.args[1]]
        pre = [e for e in ws if not e.loops and e.no < c.no]
        ins = [e for e in ws if e.loops == c.loops]
        sized = bool(pre) and flow.implies(not_(pre[-1].g), eq(size(v.peek(loc, v.st0)), n))
        ok = sized and len(ws) == len(pre) + len(ins) and len(ins) == 1
        d = "%d writes" % len(ws)
        if ok:
            e = ins[0]
            st = e.n.loc.args[1][-1]
            val = lambda x: {v.peek(at(v, [x], obj), c.n.st)} | ({y for y in walk(e.n.val) | walk(st[1]) if lastname(y) == x and y.op == "get" and y.args[0].op == "fresh" and y.args[0].args[2] == "correct"} if e.no > c.no else set())
            want = val(fld) if fld == "n" else {size(y) for y in val(fld)}
            ok = e.g is TRUE and st[0] == "e" and (st[1] is k or st[1] in val("id")) and e.n.val in want and (fld != "n" or e.no > c.no) and size(pre[-1].n.val) is n
            d = "[%s] = %s, length %s" % (show(st[1], 3)[:80], show(e.n.val, 4)[:120], show(pre[-1].n.val, 4)[:100])
        rep.ob(ok, "the %s of every cluster is recorded under its number" % name, P.loc(ws[-1].n.l) if ws else W, "count." + name, d)
    x = v.peek(at(v, [mem.get("nof_clusters", "nof_clusters")]), c.n.st)
    S = {}
    for y in walk(x):
        if y.op == "after":
            for e in evs:
                if e.kind == "loop" and e.n.info["id"] == y.args[0]:
                    i = e.n.info["ind"]
                    i = i.get(y.args[1].args[0]) or next((b for a, b in i.items() if a is y.args[1] or a == y.args[1].args[0]), None)
                    if i is not None and i[0] is ZERO and i[1] in (1, ONE):
                        S[y] = size(T("after", y.args[0], coll))
    rep.ob(subst(x, S) is n, "the number of clusters is recorded", W, "count.clusters", show(x, 4)[:150])
    for e in evs:
        if e.kind == "call" and e.n.f["q"] == tracker.TRACKER + "::birth":
            b = tracker.evalf(P, e.n.f, tracker.Cfg())
            for name in ("nof_clusters", "cluster_ntargets", "cluster_nreports", "cluster_nhyps"):
                m = mem.get(name, name)
                rep.ob(F(b, m) is I0(b, m), "births keep the recorded %s" % name, where(P, e.n.f), "count.birth." + name, show(F(b, m), 3)[:120])


# ------------------------------------------------------------------ one component
def component(P, rep, f, fld):
    W = where(P, f)
    v = tracker.evalf(P, f, tracker.Cfg())
    evs = flow.events(v.nodes)
    conn = at(v, [fld])
    res = v.args[-1]
    conn0 = v.peek(conn, v.st0)
    none = eq(size(conn0), ZERO)
    ret = v.ret
    rep.ob(flow.equiv(truth(ret), not_(none)), "a component is returned exactly while the graph is not empty", W, "comp.ret", show(ret, 5))
    outer = [e for e in evs if e.kind == "loop" and not e.loops]
    outer = [e for e in outer if any(x.kind == "write" and x.n.loc is res and x.n.op == "push" and e.n in x.loops for x in evs)]
    if len(outer) != 1:
        return rep.bad("the component search is not one traversal", W, "comp.loop", "%d loops" % len(outer))
    L = outer[0].n
    body = [e for e in evs if L in e.loops]
    pops = [e for e in body if e.kind == "write" and isinstance(e.n.val, Term) and e.n.val.op == "popped" and e.loops == (L,)]
    if len(pops) != 1:
        return rep.bad("a traversal step does not take one node off the worklist", W, "comp.pop", "%d removals" % len(pops))
    pop = pops[0]
    wl = pop.n.loc
    nodes = pop.n.val.args[0]
    live = {none: False, size_zero(nodes): False}
    N = P.loc(pop.n.l)
    back = len(pop.n.val.args) < 2 or "back" in str(pop.n.val.args[1])
    k = get(nodes, ("e", sub(size(nodes), ONE) if back else ZERO))
    always = lambda e: assume(e.g, live) is TRUE
    rep.ob(always(pop) and nodes.op == "phi", "each step takes a node off the worklist", N, "comp.take")
    rep.ob(not L.info["early"] and assume(L.info["cond"], {size_zero(nodes): True}) is FALSE and assume(L.info["cond"], {size_zero(nodes): False}) is TRUE,
           "the traversal goes on until the worklist is empty", P.loc(L.info["l"]), "comp.end", show(L.info["cond"], 5))
    # start
    pre = [e for e in evs if e.no < outer[0].no and e.kind == "write" and isinstance(e.n.val, Term)]
    starts = [e for e in pre if e.n.loc is wl and e.n.val.op == "list" and len(e.n.val.args) == 1]
    s0 = starts[-1].n.val.args[0] if starts else None
    rep.ob(s0 is not None and assume(starts[-1].g, {none: False}) is TRUE and s0 is get(get(conn0, ("e", ZERO)), ("f", "first")), "the search starts at a node of the graph", W, "comp.start", show(s0, 5) if s0 is not None else None)
    rep.ob(any(e.n.loc is res and e.n.val.op == "list" and not e.n.val.args and e.g is TRUE for e in pre), "the result starts empty", W, "comp.clear")
    # result
    ps = [e for e in body if e.kind == "write" and e.n.loc is res]
    rep.ob(len(ps) == 1 and always(ps[0]) and ps[0].loops == (L,) and ps[0].n.val.op == "push" and ps[0].n.val.args[0].op == "phi" and ps[0].n.val.args[1] is k,
           "each visited node joins the component once", P.loc(ps[0].n.l) if ps else W, "comp.res", show(ps[0].n.val, 5) if ps else None)
    # neighbours
    mine = ve.ext(conn, ("e", k))
    # or a copy of them, taken before the node leaves the graph
    taken = next((e for e in body if e.kind == "write" and e.loops == (L,) and always(e) and e.n.loc is not mine and e.n.loc is not None and isinstance(e.n.val, Term)
                  and e.n.loc.args[0] != conn.args[0] and owned(e.n.val, conn, k)), None)
    if taken is not None:
        mine = taken.n.loc
    adds = [e for e in body if e.kind == "write" and e.n.loc is wl and e is not pop and isinstance(e.n.val, Term)]
    s = adds[0].n.val if len(adds) == 1 else None
    sp = adds
    if s is not None and s.op == "splice" and adds[0].loops == (L,):
        src = s.args[2]
        okp = s.args[0] is pop.n.val and s.args[3] is ZERO and s.args[4] is size(src) and always(adds[0])
    elif s is not None and s.op == "push" and len(adds[0].loops) == 2 and s.args[0].op == "phi" and s.args[1].op == "get" and axis(adds[0], s.args[1].args[1][1], size(s.args[1].args[0])) is adds[0].loops[1]:
        src = s.args[1].args[0]
        okp = s.args[0].args[0] == adds[0].loops[1].info["id"] and assume(adds[0].g, {**live, eq(size(src), ZERO): False}) is TRUE
    else:
        return rep.bad("the neighbours of a node are not all put on the worklist", W, "comp.push", "; ".join(show(e.n.val, 4) for e in adds)[:300])
    rep.ob(okp, "all remaining neighbours of a node are put on the worklist", P.loc(sp[0].n.l), "comp.all", show(s, 5)[:300])
    er = [e for e in body if e.kind == "write" and e.n.loc is mine and isinstance(e.n.val, Term) and e.no < sp[0].no and e is not taken]
    chain = chainof(src)
    rep.ob(chain and v_last(er, src), "the neighbours are the node's own connections", P.loc(sp[0].n.l), "comp.own", show(src, 5)[:300])
    done, pend, self_ = False, False, False
    for e in er:
        if e.n.val.op != "erased":
            rep.bad("the connections of a node are changed other than by removing visited nodes", P.loc(e.n.l), "comp.only", show(e.n.val, 4)[:200])
            continue
        x = e.n.val.args[1]
        if e.loops == (L,) and always(e) and x is k:
            self_ = True
        l = e.loops[-1].info if len(e.loops) == 2 else None
        if l is not None and x.op == "get" and axis(e, x.args[1][1], size(x.args[0])) is e.loops[-1] and assume(e.g, dict(live)) is TRUE:
            c = x.args[0]
            rphi = ps[0].n.val.args[0] if ps else None
            if c is rphi:
                done = True
            elif ps and c is ps[0].n.val:
                done = self_ = True
            elif c is pop.n.val:
                pend = True
            elif c is nodes:
                pend = self_ = True
    rep.ob(done and self_, "nodes already in the component are not visited again", N, "comp.done")
    rep.ob(pend, "nodes already waiting are not added again", N, "comp.pend")
    rm = [e for e in body if e.kind == "write" and e.n.loc is conn and isinstance(e.n.val, Term) and e.n.val.op == "erased"]
    rep.ob(len(rm) == 1 and rm[0].loops == (L,) and always(rm[0]) and rm[0].n.val.args[1] is k and rm[0].no > (sp[0] if taken is None else taken).no, "a visited node leaves the graph", P.loc(rm[0].n.l) if rm else W, "comp.remove")
    other = [e for e in evs if e.kind == "write" and e.n.loc is not None and e.n.loc.args[0] == conn.args[0] and e.n.loc is not mine and e not in rm]
    rep.ob(not other, "nothing else of the graph changes", P.loc(other[0].n.l) if other else W, "comp.else")


def owned(t, conn, k):
    """The connections the graph holds for node k."""
    return t.op == "get" and t.args[1] == ("e", k) and t.args[0].op == "phi" and t.args[0].args[1] is conn


def size_zero(l):
    return eq(size(l), ZERO)


def chainof(t):
    return t.op in ("after", "erased", "get", "init", "phi")


def v_last(er, src):
    """The value handed on is the one the last removal left."""
    if not er:
        return False
    e = er[-1]
    loc = e.n.loc
    if src is e.n.val:
        return True
    return src.op == "after" and src.args[0] == e.loops[-1].info["id"] and src.args[1] is loc


# ------------------------------------------------------------------ the partition
def clusters(P, rep, f, walks, flds):
    W = where(P, f)
    v = tracker.evalf(P, f, tracker.Cfg(opaque=tuple(g["q"] for g in walks) + (CLUSTER + "::correct",)))
    evs = flow.events(v.nodes)
    wid = {id(g) for g in walks}
    scan = v.args[[i for i, p in enumerate(f["params"]) if isvec(P, p["t"])][0]]
    sv = v.peek(scan, v.st0)
    n = size(sv)
    rtype = P.rec_of(v.ltype[elemloc(v, scan, ZERO)])
    ptr = lambda k: T("addr", elemloc(v, scan, k))
    full = lambda e, ix, c: axis(e, ix, c)
    # index queries
    qs = [e for e in evs if e.kind == "call" and e.n.f is not None and e.n.f["q"] == "RTree::Search" and e.loops]
    if len(qs) != 1:
        return rep.bad("the scan is not matched by one index query per report", W, "query", "%d queries" % len(qs))
    q = qs[0]
    N = P.loc(q.n.l)
    k = q.loops[0].info["k"]
    rep.ob(len(q.loops) == 1 and axis(q, k, n) is not None and assume(q.g, {eq(n, ZERO): False}) is TRUE, "every report of the scan is matched against the index", N, "query.every")
    boxes = [g for g in P.fns if g.get("method") and "body" in g and g["n"] == "llaabbox" and not g["params"] and derives(P, rtype, P.recs[g["rec"]])]
    if not boxes:
        raise AnalysisError("reports have no bounding box query")
    b = v.query(boxes[0], elemloc(v, scan, k), st=q.n.st)
    rep.ob(tracker.samerect(v, q.n, b), "a report is matched with its own box", N, "query.box")
    # the found list and where it is kept
    hits = [e for e in evs if e.kind == "write" and isinstance(e.n.val, Term) and e.loops == q.loops and e.no > q.no and e.n.val.op == "fresh" and e.n.loc.args[1] and e.n.loc.args[1][-1][0] == "e" and e.n.loc.args[1][-1][1] is ptr(k)]
    if not hits:
        return rep.bad("the targets found for a report are not kept", N, "query.keep")
    M = hits[0].n.val
    mt = ve.LOC(hits[0].n.loc.args[0], hits[0].n.loc.args[1][:-1])
    # reports by target
    inv = [e for e in evs if e.kind == "write" and isinstance(e.n.val, Term) and e.n.val.op == "push" and e.n.val.args[1] is ptr(e.loops[0].info["k"] if e.loops else k) and len(e.loops) == 2]
    Mk = lambda kk: subst(M, {k: kk})
    inv = [e for e in inv if e.n.loc.args[1] and e.n.loc.args[1][-1][0] == "e" and sametarget(e, Mk, e.n.loc.args[1][-1][1])]
    if len(inv) != 1:
        return rep.bad("reports are not listed by the targets they match", N, "inverse", "%d places" % len(inv))
    i = inv[0]
    rep.ob(axis(i, i.loops[0].info["k"], n) is i.loops[0] and complete(i, Mk) and liveq(i, n, Mk), "every matched target lists the report", P.loc(i.n.l), "inverse.every", show(i.g, 5))
    mr = ve.LOC(i.n.loc.args[0], i.n.loc.args[1][:-1])
    # graph
    graph = [e for e in evs if e.kind == "write" and isinstance(e.n.val, Term) and e.n.loc is not None and len(e.n.loc.args[1]) > 1 and e.n.loc.args[1][-1][0] == "e" and e.n.loc.args[1][-2][0] == "f" and e.n.loc.args[1][-2][1] in flds]
    calls = [e for e in evs if e.kind == "call" and e.n.f is not None and id(e.n.f) in wid]
    if len(calls) != 1:
        return rep.bad("clusters are not drawn in one place", W, "draw", "%d places" % len(calls))
    c = calls[0]
    key = lambda e: e.n.loc.args[1][-1][1]
    nodes = [e for e in graph if len(e.loops) == 1 and key(e) is ptr(e.loops[0].info["k"]) and e.n.val.op == "list" and not e.n.val.args]
    rep.ob(any(axis(e, e.loops[0].info["k"], n) is not None and assume(e.g, {eq(n, ZERO): False}) is TRUE for e in nodes), "every report is a node of the graph", W, "graph.node")
    ins = [e for e in graph if e.n.val.op == "ins"]
    ok = len(ins) == 1
    d = None
    if ok:
        e = ins[0]
        a = e.n.val.args
        kk = e.loops[0].info["k"] if e.loops else None
        src = a[1].args[0] if a[1].op == "iter" else None
        d = show(e.n.val, 6)[:300]
        ok = (ok and len(e.loops) == 2 and key(e) is ptr(kk) and axis(e, kk, n) is e.loops[0] and complete(e, Mk) and liveq(e, n, Mk)
              and src is not None and src.args[0] == mr.args[0] and src.args[1][:-1] == mr.args[1] and sametarget(e, Mk, src.args[1][-1][1])
              and a[1].args[1] is ZERO and a[2].op == "iter" and a[2].args[0] is src and a[2].args[1].op == "size" and e.loops[0] is not i.loops[0] and e.no > i.no)
    rep.ob(ok, "reports are connected when they match a common target", P.loc(ins[0].n.l) if ins else W, "graph.connect", d)
    rest = [e for e in graph if e not in ins and e not in nodes]
    rep.ob(not rest, "nothing else changes the graph", P.loc(rest[0].n.l) if rest else W, "graph.else")
    # clusters
    L = c.loops[-1] if c.loops else None
    rep.ob(L is not None and len(c.loops) == 1 and not L.info["early"] and L.info["cond"] is truth(c.n.ret), "components are drawn until the graph is empty", P.loc(c.n.l), "draw.all")
    news = [e for e in evs if e.kind == "write" and isinstance(e.n.val, Term) and e.n.val.op == "push" and isobj(P, v, e.n.val.args[1])]
    A = [e for e in news if e.loops == (L,)]
    B = [e for e in news if e not in A]
    if len(A) != 1 or len(B) != 1:
        return rep.bad("clusters are not built for components and for single targets", W, "build", "%d and %d places" % (len(A), len(B)))
    a, b = A[0], B[0]
    coll = a.n.loc
    comp = component_value(v, evs, c)
    rep.ob(a.n.val.args[0].op == "phi" and empty_before(v, evs, coll, L), "the cluster list starts empty", P.loc(a.n.l), "build.empty")
    rep.ob(assume(a.g, {truth(c.n.ret): True}) is TRUE, "every component becomes a cluster", P.loc(a.n.l), "build.every", show(a.g, 5))
    fa, fb = fields(a.n.val.args[1]), fields(b.n.val.args[1])
    rep.ob(comp is not None and fa["reports"] is comp, "a cluster holds the reports of its component", P.loc(a.n.l), "build.reports", show(fa["reports"], 5)[:200])
    okt, dt = union(v, evs, fa["targets"], comp, mt, Mk, L, ptr, n)
    rep.ob(okt, "a cluster holds each target its reports match, once", P.loc(a.n.l), "build.targets", dt)
    rep.ob(fa["id"] is L.info["k"] or (fa["id"].op == "size" and fa["id"].args[0] is a.n.val.args[0]), "clusters are numbered by position", P.loc(a.n.l), "build.id", show(fa["id"], 5))
    stamp(P, rep, v, evs, a, fa["reports"], fa["id"], (L,), "reports", {truth(c.n.ret): True})
    stamp(P, rep, v, evs, a, fa["targets"], fa["id"], (L,), "targets", {truth(c.n.ret): True})
    # the rest
    B1 = b.loops[0].info if len(b.loops) == 1 else None
    left = None
    ts = fb["targets"]
    if B1 is not None and ts.op == "list" and len(ts.args) == 1 and ts.args[0].op == "get":
        left = ts.args[0].args[0]
        one = axis(b, ts.args[0].args[1][1], size(left)) is not None
    else:
        one = False
    nl = size(left) if left is not None else None
    rep.ob(one and assume(b.g, {eq(nl, ZERO): False}) is TRUE, "every other target gets a cluster of its own", P.loc(b.n.l), "rest.every", show(ts, 5)[:200])
    rep.ob(fb["reports"].op == "list" and not fb["reports"].args, "a single target's cluster has no reports", P.loc(b.n.l), "rest.reports")
    if left is None:
        return
    okl, dl = remaining(v, evs, left, fa["targets"], L)
    rep.ob(okl, "the other targets are those no cluster holds", P.loc(b.n.l), "rest.left", dl)
    base = counted(v, evs, fb["id"], B1, L, coll, b)
    rep.ob(base, "single targets' clusters are numbered on from there", P.loc(b.n.l), "rest.id", show(fb["id"], 5))
    stamp(P, rep, v, evs, b, None, fb["id"], (b.loops[0],), "target", {eq(nl, ZERO): False}, only=ts.args[0])
    rep.ob(b.n.loc is coll and b.no > a.no, "all clusters are in one list", P.loc(b.n.l), "rest.list")


def derives(P, r, base):
    from checks.c20 import derives as d
    return d(P, r, base)


def sametarget(e, Mk, t):
    """t is the target found for the loop's report at the inner loop's position."""
    if len(e.loops) != 2 or t.op != "get":
        return False
    m = Mk(e.loops[0].info["k"])
    return t.args[0] is m and axis(e, t.args[1][1], size(m)) is e.loops[1]


def complete(e, Mk):
    m = Mk(e.loops[0].info["k"])
    i = e.loops[1].info
    return i["full"] and i["trip"] is size(m)


def liveq(e, n, Mk):
    m = Mk(e.loops[0].info["k"])
    return assume(e.g, {eq(n, ZERO): False, eq(size(m), ZERO): False}) is TRUE


def isobj(P, v, t):
    return t.op == "struct" and str(t.args[0]).startswith(CLUSTER)


def fields(t):
    return {n: get(t, ("f", n)) for n in ("reports", "targets", "id")}


def component_value(v, evs, c):
    """The list the component search filled in."""
    for e in evs:
        if e.no > c.no and e.kind == "write" and e.n.op == "havoc" and e.loops == c.loops and isinstance(e.n.val, Term) and e.n.loc is not c.n.obj:
            r = v.ltype.get(e.n.loc)
            rec = v.p.rec_of(r) if r is not None else None
            if rec is not None and rec["qual"] == "std::vector":
                return e.n.val
    return None


def empty_before(v, evs, coll, L):
    last = None
    for e in evs:
        if e.kind == "loop" and e.n is L:
            break
        if e.kind == "write" and e.n.loc is coll:
            last = e
    return last is not None and last.g is TRUE and last.n.val.op == "list" and not last.n.val.args


def union(v, evs, t, comp, mt, Mk, L, ptr, n):
    """t = each target that Mk lists for a report of the component, once."""
    d = show(t, 6)[:300]
    if t.op == "dedup":
        t = t.args[0]
        if t.op != "perm" or t.args[1] != "sort":
            return False, "duplicates are removed from an unsorted list"
        t = t.args[0]
        kind = "splice"
    else:
        kind = "ins"
    if t.op != "after" or comp is None:
        return False, d
    acc = [e for e in evs if e.kind == "write" and e.n.loc is t.args[1] and any(l.info["id"] == t.args[0] for l in e.loops) and isinstance(e.n.val, Term)]
    if len(acc) != 1:
        return False, "%d additions" % len(acc)
    e = acc[0]
    if e.loops[:1] != (L,) or not e.n.val.args[0].op == "phi" or len(e.loops) < 2 or e.loops[1].info["id"] != t.args[0]:
        return False, d
    inner = e.loops[1:]
    l0 = inner[0].info
    if not (l0["full"] and l0["trip"] is size(comp)):
        return False, "not every report of the component"
    r = get(comp, ("e", l0["k"]))
    rr = [r, get(comp, ("e", sub(sub(size(comp), ONE), l0["k"])))]
    if e.n.val.op == kind == "splice" and len(inner) == 1:
        src, lo, m = e.n.val.args[2], e.n.val.args[3], e.n.val.args[4]
        ok = lo is ZERO and m is size(src) and any(kept(v, evs, src, x, mt) for x in rr)
    elif e.n.val.op == "ins" and len(inner) == 1 and len(e.n.val.args) > 2:
        i1, i2 = e.n.val.args[1], e.n.val.args[2]
        ok = i1.op == "iter" and i2.op == "iter" and i1.args[0] is i2.args[0] and i1.args[1] is ZERO and i2.args[1].op == "size" and any(i1.args[0] is ve.ext(mt, ("e", x)) for x in rr)
    elif e.n.val.op in ("push", "ins") and len(inner) == 2:
        x = e.n.val.args[1]
        ok = x.op == "get" and axis(e, x.args[1][1], size(x.args[0])) is inner[1] and any(kept(v, evs, x.args[0], y, mt) for y in rr)
    else:
        return False, d
    g = e.g
    bad = [x for x in flow.atoms(g) if not guard_known(x)]
    return ok and not bad, d


def guard_known(x):
    """Atoms that only say a collection is not empty or the component was drawn."""
    return (x.op in ("eq", "lt", "not") and any(y.op == "size" for y in walk(x))) or x.op in ("truth", "res")


def kept(v, evs, src, r, mt):
    """src is the list kept for report r."""
    if src.op != "get" or src.args[1] != ("e", r):
        return False
    a = src.args[0]
    if a.op == "agg":
        ents = a.args[1]
        return len(ents) == 1 and ents[0][1].op == "fresh"
    return a.op == "after"


def stamp(P, rep, v, evs, e0, coll, cid, loops, what, facts, only=None):
    """Every member carries the cluster's number."""
    ok = False
    d = []
    for e in evs:
        if e.kind != "write" or e.n.loc is None or not isinstance(e.n.val, Term):
            continue
        root, steps = e.n.loc.args
        if root[0] != "D" or len(steps) != 1 or steps[0] != ("f", "cid"):
            continue
        p = root[1]
        if only is not None:
            if p is only and e.loops == loops and assume(e.g, facts) is TRUE and e.n.val is cid:
                ok = True
            continue
        if e.loops[:1] != loops or len(e.loops) != 2 or p.op != "get":
            continue
        same = p.args[0] is coll or (coll.op == "dedup" and sorted_of(p.args[0]) is sorted_of(coll))
        if same and axis(e, p.args[1][1], size(p.args[0])) is e.loops[1]:
            g = assume(assume(e.g, facts), {eq(size(p.args[0]), ZERO): False})
            val = e.n.val is cid or (cid.op == "size" and e.n.val.op == "size")
            d.append(show(e.n.val, 4))
            if g is TRUE and val:
                ok = True
    rep.ob(ok, "the %s of a cluster carry its number" % what, P.loc(e0.n.l), "stamp." + what, "; ".join(d)[:200])


def sorted_of(t):
    while t.op in ("dedup", "perm"):
        t = t.args[0]
    return t


def remaining(v, evs, left, held, L):
    """left is what is left of a list after taking out each cluster's targets in turn."""
    while left.op == "perm":
        left = left.args[0]
    if left.op != "after" or left.args[0] != L.info["id"]:
        return False, show(left, 5)[:200]
    loc = left.args[1]
    ws = [e for e in evs if e.kind == "write" and e.n.loc is loc and L in e.loops and isinstance(e.n.val, Term)]
    if not ws:
        return False, "the list does not change"
    x = ws[-1]
    val = x.n.val
    if val.op != "alg" or val.args[0] != "set_difference":
        return False, show(val, 5)[:300]
    out, ops = val.args[1], val.args[2]
    ok = len(ops) >= 3 and (ops[0].op == "perm" and ops[0].args[1] == "sort" and ops[0].args[0].op == "phi" and ops[0].args[0].args[0] == L.info["id"] and ops[0].args[0].args[1] is loc) and ops[2] is held and ordered(held)
    # the output starts empty: it is cleared after each use
    emp = out.op == "list" and not out.args
    if out.op == "phi":
        ow = [e for e in evs if e.kind == "write" and e.n.loc is out.args[1] and isinstance(e.n.val, Term)]
        ins = [e for e in ow if L in e.loops]
        pre = [e for e in ow if L not in e.loops and e.no < ins[0].no] if ins else []
        z = lambda e: e.n.val.op == "list" and not e.n.val.args
        emp = bool(ins) and bool(pre) and z(ins[-1]) and z(pre[-1])
    bad = [a for a in flow.atoms(x.g) if not guard_known(a)]
    return ok and emp and not bad, show(val, 6)[:300]


def ordered(t):
    return t.op == "dedup" and t.args[0].op == "perm" and t.args[0].args[1] == "sort"


def counted(v, evs, cid, B1, L, coll, b):
    """cid = number of component clusters + position."""
    k = B1["k"] if B1 else None
    if k is None:
        return False
    if cid.op == "size" and cid.args[0] is b.n.val.args[0]:
        return True
    x = sub(cid, k)
    if x.op == "size" and x.args[0].op == "after" and x.args[0].args[0] == L.info["id"] and x.args[0].args[1] is coll:
        return True
    if x.op == "after" and x.args[0] == L.info["id"]:
        i = L.info["ind"].get(x.args[1].args[0] if x.args[1].op == "loc" else None) or next((i for l, i in L.info["ind"].items() if l == x.args[1] or (x.args[1].op == "loc" and l == x.args[1].args[0])), None)
        return i is not None and i[0] is ZERO and i[1] in (1, ONE)
    return False
