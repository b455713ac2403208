from assoc import *

TITLE = "Existence and birth weights are the normalised sums over the enumerated hypotheses"
EXPLANATION = ("The cluster update is evaluated with helpers inlined; the enumeration loop, the sums it keeps and their later use are read off the effect tree with guards, loops and values.")


def run(P, rep):
    rep.rule = ("each drawn hypothesis of positive weight exp(-cost) adds its weight once to every target's cell for its alternative and to the total; enumeration stops exactly at the weight or count limit; "
                "sums are divided by the total; r == row sum (0 below the floor), density == mixture by the row, birth weight == 1 - column sum, and 1 for every report when no hypothesis counts")
    for f in insts(P, CLUSTER + "::correct"):
        check(P, rep, f)
    rep.assumption("formulas are compared over the reals; which hypotheses the enumeration yields, and in what order, is outside this check")


def dom(t, rnd, ev):
    if t.op == "param" or (t.op == "init" and lastname(t) in ("w_lim",)):
        return rnd("p" + ev.key(t)).uniform(0.1, 1)
    if t.op in ("phi", "after", "fresh", "init", "res", "get"):
        r, c = dims(t)
        if not r and not c:
            return rnd("x" + ev.key(t)).uniform(0.1, 2)
    return None


def check(P, rep, f):
    v = evaluate_cluster(P, f)
    evs = flow.events(v.nodes)
    W = where(P, f)
    tl, rl = at(v, ["targets"]), at(v, ["reports"])
    M, N = size(v.peek(tl, v.st0)), size(v.peek(rl, v.st0))
    ds = [e for e in evs if e.kind == "call" and e.n.f["q"] == "lap::Murty::draw"]
    if len(ds) != 1 or len(ds[0].loops) != 1:
        return rep.bad("hypotheses are not drawn by one loop", W, "draw", "%d places" % len(ds))
    d = ds[0]
    H = d.loops[0]
    # flags that keep the loop going: set on entry, cleared to stop
    flags = {}
    for x in flow.atoms(and_(H.info["cond"] if H.info["cond"] is not None else TRUE, d.g)):
        for y in walk(x):
            if y.op == "phi" and y.args[0] == H.info["id"] and x in (y, truth(y)):
                if start(evs, H, y.args[1]) is TRUE:
                    flags[x] = y.args[1]
    on = {x: True for x in flags}
    rep.ob(assume(live(d, M), on) is TRUE, "hypotheses are drawn whenever there are targets", P.loc(d.n.l), "draw.cond", show(d.g, 4)[:200])
    # what draw hands back
    out = []
    for e in evs[evs.index(d) + 1:]:
        if e.kind == "write" and e.n.get("op") == "havoc" and e.loops == d.loops:
            out.append(e)
        elif e.kind in ("call", "loop"):
            break
    drawn = truth(d.n.ret)
    solution = next((e.n.val for e in out if v.ltype.get(e.n.loc) is not None and ismat(v, e.n.loc)), None)
    cost = next((e.n.val for e in out if isfloat(v, e.n.loc)), None)
    if solution is None or cost is None:
        return rep.bad("the enumeration does not hand back a solution and its cost", P.loc(d.n.l), "draw.out")
    w = fn("exp", neg(cost))
    pos = lt(ZERO, w)
    pre = H.info["cond"] if H.info["cond"] is not None and drawn in flow.atoms(H.info["cond"]) else TRUE

    def G(e):
        g = live(e, M, N)
        return flow.expand(assume(and_(pre, g), {drawn: True, **on}))
    # --- sums
    sums = [e for e in evs if e.kind == "write" and H in e.loops and e.n.loc.op == "loc" and len(e.loops) == 2 and cell(e.n.loc) is not None]
    roots = {under(e.n.loc) for e in sums}
    if len(roots) != 1:
        return rep.bad("hypothesis weights are not summed in one table", P.loc(H.l) if H.get("l") else W, "table", "%d tables" % len(roots))
    R = roots.pop()
    zero = [e for e in evs if e.kind == "write" and e.n.loc is R and e.no < evs[evs.index(d)].no and e.n.val.op == "const"]
    ok = bool(zero) and el(zero[-1].n.val, ZERO, ZERO) is ZERO and zero[-1].n.val.args[1] is M and zero[-1].n.val.args[2] is add(N, ONE)
    rep.ob(ok, "the sums start at zero, per target and alternative", P.loc(zero[-1].n.l) if zero else W, "table.zero")
    cases = {}
    for e in sums:
        _, row, col = cell(e.n.loc)
        l = axis(e, row, M)
        rep.count("sums")
        if l is None or l is H:
            rep.bad("weights are not summed per target", P.loc(e.n.l), "sum.row", show(row, 4))
            continue
        k = l.info["k"]
        a = el(solution, row, ZERO)
        det = lt(a, N, integer=True)
        # the alternatives exclude each other: rows count from 0
        own = eq(a, add(N, row))
        mis = and_(not_(det), own)
        kind = "report" if same_ix(col, a) else "missed" if col is N else None
        ok = prior(e, w, R, row, col, {own: False, det: True} if kind == "report" else {own: True, det: False})
        rep.ob(ok, "a hypothesis adds its own weight, once", P.loc(e.n.l), "sum.weight", show(e.n.val, 5)[:250])
        if kind is None:
            rep.bad("weight summed under another alternative", P.loc(e.n.l), "sum.col", show(col, 4)[:200])
            continue
        want = and_(pos, det if kind == "report" else mis)
        got = G(e)
        rep.ob(kind not in cases and (flow.same(got, want, dom) or kind == "missed" and flow.same(got, and_(pos, own), dom)), "a hypothesis counts for the %s alternative it assigns" % kind, P.loc(e.n.l), "sum." + kind, "when %s" % show(got, 6)[:300])
        cases[kind] = e
    for k in ("report", "missed"):
        if k not in cases:
            rep.bad("no sum for the %s alternative" % k, W, "sum.none." + k)
    # --- total and count
    tot = [e for e in evs if e.kind == "write" and e.loops == (H,) and e.n.loc not in (R,) and grows(e, w)]
    cnt = [e for e in evs if e.kind == "write" and e.loops == (H,) and counts(v, H, e)]
    for what, es in (("total weight", tot), ("hypothesis count", cnt)):
        if len(es) != 1:
            rep.bad("no single %s" % what, W, what.split()[0], "%d candidates" % len(es))
            continue
        got = G(es[0])
        rep.ob(flow.same(got, pos, dom), "the %s takes every hypothesis of positive weight once" % what, P.loc(es[0].n.l), what.split()[0], "when %s" % show(got, 6)[:300])
        rep.ob(start(evs, H, es[0].n.loc) is ZERO, "the %s starts at zero" % what, P.loc(es[0].n.l), what.split()[0] + ".zero")
    if len(tot) != 1 or len(cnt) != 1:
        return
    tot, cnt = tot[0], cnt[0]
    # --- when enumeration stops
    stops = [e for e in evs if e.kind in ("break", "return", "throw", "goto") and e.loops == (H,) and not inlined(e, d)]
    got = flow.expand(or_(*[assume(and_(pre, live(e, M, N)), {drawn: True, **on}) for e in stops]))
    for x, loc in flags.items():
        for e in evs:
            if e.kind == "write" and e.n.loc is loc and e.loops == (H,):
                got = or_(got, flow.expand(and_(assume(live(e, M, N), {drawn: True, **on}), not_(truth(e.n.val)))))
    wl, nm = tracker.param("w_lim"), tracker.param("nhyp_max")
    n1 = cnt.n.val
    want = or_(not_(pos), lt(div(w, tot.n.val), wl), not_(lt(n1, nm, integer=True)))
    got, want = tracker.canon(v, got), tracker.canon(v, want)
    rep.ob(flow.same(got, want, dom), "enumeration stops exactly at the weight limit, the count limit or an impossible hypothesis", P.loc(stops[0].n.l) if stops else W, "stop",
           "stops when %s" % show(got, 8)[:400])
    rep.ob(flow.implies(not_(drawn), not_(pre)) or flow.implies(and_(live(d, M), not_(drawn)), or_(*[live(e, M, N) for e in stops])), "enumeration stops when it is exhausted", P.loc(d.n.l), "exhaust")
    # --- use of the sums
    Rend, total, n = T("after", H.info["id"], R), T("after", H.info["id"], tot.n.loc), T("after", H.info["id"], cnt.n.loc)
    some = not_(eq(n, ZERO))
    use(P, rep, v, evs, H, M, N, Rend, total, some, tl, rl, W)


def ismat(v, loc):
    r = v.p.rec_of(v.ltype[loc])
    return r is not None and r["qual"] == "Eigen::Matrix"


def isfloat(v, loc):
    t = v.ltype.get(loc)
    return isinstance(t, int) and v.p.ty(v.p.unref(t))["k"] in ("float", "fp", "flt", "double")


def prior(e, w, R, row, col, facts):
    """The written value is the cell's previous value plus w."""
    o = resolve(sub(e.n.val, w), facts)
    if o.op != "el":
        return False
    b, i, j = o.args
    return i is row and j is col and b.op in ("phi", "after", "init", "upd") and any(a is R for a in b.args)


def same_ix(col, a):
    return col is a


def grows(e, w):
    o = sub(e.n.val, w) if isinstance(e.n.val, Term) and dims(e.n.val) == (None, None) else None
    return o is not None and o.op == "phi" and any(a is e.n.loc for a in o.args)


def counts(v, H, e):
    x = e.n.val
    if not isinstance(x, Term) or dims(x) != (None, None) or e.n.get("op") == "havoc":
        return False
    k = H.info["k"]
    o = sub(x, ONE)
    return o is k or (o.op == "phi" and any(a is e.n.loc for a in o.args))


def start(evs, H, loc):
    last = None
    for e in evs:
        if e.kind == "loop" and e.n is H:
            break
        if e.kind == "write" and e.n.loc is loc and not e.loops:
            last = e.n.val
    return last


def inlined(e, d):
    """A return of a helper inlined in the loop body, not of the loop itself."""
    return e.kind == "return" and len(e.fns) > len(d.fns)


def use(P, rep, v, evs, H, M, N, Rend, total, some, tl, rl, W):
    i = next(j for j, e in enumerate(evs) if e.kind == "loop" and e.n is H)
    later = [e for e in evs[i:] if H not in e.loops]
    # existence and density of each target
    k = T("idx", "any")
    rs = [e for e in later if e.kind == "write" and field(v, e, tl, "r")]
    js = [e for e in later if e.kind == "call" and e.n.f["n"] == "join"]
    if not rs or not js:
        return rep.bad("targets are not updated from the hypothesis sums", W, "use.none")
    nm = Norm(Rend, M, N)
    X = []
    for e in rs + js:
        loc = e.n.loc if e.kind == "write" else pdfarg(e)
        ix = elem(v, loc, tl) if loc is not None else None
        l = axis(e, ix, M) if ix is not None else None
        ok = l is not None and len(e.loops) == 1
        rep.ob(ok, "hypothesis sums are applied to every target once", P.loc(e.n.l), "use.loop")
        if not ok:
            return
        X.append((e, nm(subst(flow.expand(live(e, M, N)), {ix: k})), ix))
    val = T("keep")
    for e, g, ix in X:
        if e.kind == "write":
            val = ite(g, nm(subst(e.n.val, {ix: k})), val)
    s = div(T("rowsum", Rend, k), total)
    low = {}
    for x in walk(T("w", val, *[g for _, g, _ in X])):
        if x.op == "lt0":
            c = sub(s, x.args[0])
            if is_num(c):
                low[x] = numval(c)
    rep.ob(len(low) <= 1 and all(0 <= c <= Fraction(1, 1000000) for c in low.values()), "a target's probability is only zeroed when negligible", P.loc(rs[0].n.l), "use.floor", str(low.values()))
    for what, facts, want in (("at least the floor", {x: False for x in low}, s), ("below the floor", {x: True for x in low}, ZERO if low else s)):
        facts = dict(facts)
        sf = [y for y in flow.atoms(some)]
        for y in sf:
            facts[y] = False
        got = resolve(val, facts)
        same_or_report(rep, got, want, "existence probability is the normalised sum over a target's alternatives, %s" % what, P.loc(rs[0].n.l), "use.r." + what.split()[1], dom)
    got = resolve(val, {y: True for y in flow.atoms(some)})
    rep.ob(got is T("keep"), "existence probability is kept when no hypothesis counts", P.loc(rs[0].n.l), "use.keep", show(got, 5)[:200])
    rep.ob(len(js) == 1, "the density is formed once per target", P.loc(js[0].n.l), "use.join.once")
    e, g, ix = X[-1]
    g1 = assume(g, {x: False for x in low})
    rep.ob(flow.same(g1, some, dom), "the density is formed for every target that keeps a non-negligible probability", P.loc(e.n.l), "use.join.cond", show(g, 6)[:200])
    wl = [a for a in e.n.args if isinstance(a, Term) and dims(a)[0] == 1]
    ok = len(wl) == 1 and all(numsame(el(wl[0], ZERO, x), div(el(Rend, ix, x), total)) for x in (ZERO, num(2), N))
    rep.ob(ok, "the density mixes the alternatives by the target's own normalised sums", P.loc(e.n.l), "use.join.w", show(wl[0], 6)[:250] if wl else "")
    alt = [x for x in (e.n.get("locs") or ()) if isinstance(x, Term) and x.op == "loc" and x.args[1] and isvec(v, x)]
    rep.ob(len(alt) == 1 and elem(v, alt[0], tl) is ix, "the density mixes the target's own alternatives", P.loc(e.n.l), "use.join.pdfs", str([show(x, 3) for x in alt]))
    # birth weights
    bs = [e for e in later if e.kind == "write" and field(v, e, rl, "rB")]
    norm = none = False
    for e in bs:
        ix = elem(v, e.n.loc, rl)
        l = axis(e, ix, N)
        ok = l is not None and len(e.loops) == 1
        rep.ob(ok, "birth weights are given to every report once", P.loc(e.n.l), "birth.loop")
        if not ok:
            continue
        g = flow.expand(assume(e.g, {eq(N, ZERO): False, lt(ZERO, N): True}))
        m0 = eq(M, ZERO)
        if e.n.val is ONE:
            none = True
            want = or_(m0, not_(some))
            rep.ob(flow.same(g, want, dom), "every report is free for birth when no hypothesis counts", P.loc(e.n.l), "birth.none", "when %s" % show(g, 6)[:200])
        else:
            norm = True
            want = sub(ONE, div(T("colsum", Rend, ix), total))
            same_or_report(rep, nm(e.n.val), want, "birth weight is one minus a report's normalised sum", P.loc(e.n.l), "birth.val", dom)
            rep.ob(flow.same(g, and_(not_(m0), some), dom), "birth weights are updated whenever a hypothesis counts", P.loc(e.n.l), "birth.cond", "when %s" % show(g, 6)[:200])
    rep.ob(norm and none, "birth weights are set in both cases", W, "birth.both")


class Norm:
    """Sums over rows and columns of the hypothesis table in one form."""

    def __init__(self, R, M, N):
        self.R, self.M, self.N = R, M, N

    def __call__(self, t):
        m = {}
        for x in list(walk(t)):
            if x.op == "fn" and x.args[0] == "msum":
                y = x.args[1]
                r, c = extents(y)
                b = T("bv", 91)
                if r == 1:
                    m[x] = self.total(c, el(y, 0, b), b)
                elif c == 1:
                    m[x] = self.total(r, el(y, b, 0), b)
            elif x.op == "el" and x.args[0].op in ("fn", "fnm") and x.args[0].args[0] == "col.sum":
                b = T("bv", 91)
                m[x] = self.total(T("rows"), el(x.args[0].args[1], b, x.args[2]), b)
            elif x.op == "sum":
                ns = [y.args[0] for y in walk(x.args[1]) if y.op == "bv"]
                if ns:
                    m[x] = self.total(x.args[0], x.args[1], T("bv", max(ns)))
        m = {x: y for x, y in m.items() if y is not None}
        return subst(t, m) if m else t

    def total(self, n, body, b):
        """Sum of a body linear in the table's cells over b."""
        out = ZERO
        one = T("unit")
        R = self.R
        cells = [x for x in walk(body) if x.op == "el" and x.args[0] is R and mentions(x, b)]
        if not cells:
            return None
        rest = subst(body, {x: ZERO for x in cells})
        if rest is not ZERO:
            return None
        for x in cells:
            c = subst(body, {y: (ONE if y is x else ZERO) for y in cells})
            if mentions(c, b) or sub(subst(body, {y: (num(2) if y is x else ZERO) for y in cells}), mul(num(2), c)) is not ZERO:
                return None
            i, j = x.args[1], x.args[2]
            if j is b and not mentions(tmi(i), b) and self.count(n, add(self.N, ONE), "cols"):
                out = add(out, mul(c, T("rowsum", R, i)))
            elif i is b and not mentions(tmi(j), b) and self.count(n, self.M, "rows"):
                out = add(out, mul(c, T("colsum", R, j)))
            else:
                return None
        return out

    def count(self, n, want, kind):
        return n is want or (isinstance(n, Term) and n.op == kind)


def extents(y):
    """Rows and columns of a matrix expression, from its blocks where the whole has none."""
    r, c = dims(y)
    for k, _ in tm_lin(y):
        for a, t in k[:1] if r is None or c is None else ():
            if len(k) == 1 and a.op == "blk":
                p, q = a.args[3], a.args[4]
                p, q = (q, p) if t else (p, q)
                r, c = r if r is not None else p, c if c is not None else q
    return r, c


def tm_lin(y):
    import terms
    return terms._lin(y).items()


def tmi(x):
    return x if isinstance(x, Term) else num(x)


def resolve(t, facts):
    while t.op == "ite":
        c = assume(flow.expand(t.args[0]), facts)
        if c is TRUE:
            t = t.args[1]
        elif c is FALSE:
            t = t.args[2]
        else:
            return ite(c, resolve(t.args[1], facts), resolve(t.args[2], facts))
    return t


def numsame(a, b):
    import numev
    return a is b or numev.same(a, b, dom, seed=1)[0] in ("identical", "agree")


def isvec(v, loc):
    t = v.ltype.get(loc)
    r = v.p.rec_of(t) if isinstance(t, int) else None
    return r is not None and r["qual"] == "std::vector"


def field(v, e, coll, name):
    loc = e.n.loc
    return loc is not None and loc.op == "loc" and loc.args[1] == (("f", name),) and elem(v, loc, coll) is not None


def pdfarg(e):
    for x in e.n.get("locs") or ():
        if isinstance(x, Term) and x.op == "loc" and x.args[1] and x.args[1][-1] == ("f", "pdf"):
            return x
    return e.n.obj if isinstance(e.n.obj, Term) else None


def elem(v, loc, coll):
    """Index of the collection element a location is reached through, or None."""
    root = loc.args[0]
    if root[0] == "D":
        x = tracker.element(root[1])
        if x is not None and x[0] is coll:
            return x[1]
    return None
