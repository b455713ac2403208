from common import *
from compose import Unread
import tracker
import flow
import assoc

TITLE = "Combining densities keeps the heaviest parts, each unchanged"
EXPLANATION = ("Adding, pruning and joining of densities are evaluated with helpers inlined; the reduction is read as filter, ordering and truncation, the join as a merge of ordered lists whose invariant (one entry per list, "
               "the next unused one, under its own product weight) is checked at its start and over one generic step.")


def run(P, rep):
    rep.rule = ("reduce: exactly components below the limit are dropped, the rest ordered by weight, at most the maximum kept, weights renormalised; join: next part taken == largest association weight x weight not yet taken; "
                "it keeps its mean and covariance; sampling: consecutive columns, floor(weight x count) each, the last component the rest; resampling: first particle whose cumulative weight reaches u0 + i/N")
    for q in ("prune", "operator+=", "operator+"):
        for f in P.find("lmb::GM::" + q):
            reduce_(P, rep, f, q)
    insts(P, "lmb::GM::operator+=")
    for f in insts(P, "lmb::GM::join"):
        join(P, rep, f, True)
    for f in insts(P, "lmb::PF::join"):
        join(P, rep, f, False)
    for f in insts(P, "lmb::PF::resample"):
        resample(P, rep, f)
    for q in ("sample", "sample_pos"):
        for f in insts(P, "lmb::GM::" + q):
            sample(P, rep, f, q)
    for f in [g for g in P.fns if g["n"] == "PF" and g.get("ctor") and len(g["params"]) == 3]:
        drawn(P, rep, f)
    for f in insts(P, "lmb::PF::transform_to_global"):
        v, _ = ev(P, f)
        boxed(P, rep, v, f, "a conversion to global coordinates")


def drawn(P, rep, f):
    v, _ = ev(P, f)
    rep.ob(F(v, "valid") is TRUE, "a density drawn from a mean and covariance is valid", where(P, f), "pf.valid", show(F(v, "valid"), 4)[:120])
    boxed(P, rep, v, f, "drawing a density")


def boxed(P, rep, v, f, what):
    """What is returned as the density's box (read through its accessor where there is one) is the box of the corners computed last."""
    for x in ("min", "max"):
        a, b = F(v, "aabbox", x), F(v, "_llaabbox", x)
        init = any(lastname(t) in ("_llaabbox", "aabbox") for t in walk(b)) or lmbinf(b)
        rep.ob(b is a and not init, "%s leaves its box at the corners' extremes, %s" % (what, x), where(P, f), "pf.box." + x + f["n"], show(b, 3)[:160])


def lmbinf(b):
    return b.op == "list" and any("inf" in show(x, 2) for x in b.args)


class Cfg(tracker.Cfg):
    def is_opaque(self, f):
        return False


def ev(P, f):
    cfg = Cfg()
    cfg.P = P
    v = tracker.evalf(P, f, cfg)
    return v, flow.events(v.nodes)


def maxn(P, v, loc):
    return next(int(t) for t in P.rec_of(v.ltype[loc])["targs"] if isinstance(t, int) and t > 8)


# ------------------------------------------------------------------ reduction
def reduce_(P, rep, f, q):
    v, evs = ev(P, f)
    W = where(P, f)
    N = maxn(P, v, v.this)
    obj = None
    for e in evs:
        if e.kind == "write" and has(e.n.val, "keepif") and e.n.loc is not None and e.n.loc.args[1][-1:] == (("f", "c"),):
            obj = e.n.loc
            break
    if obj is None:
        return rep.bad("%s: light components are dropped" % q, W, q + ".filter", "no component list is filtered")
    whole = [e for e in evs if e.kind == "write" and e.n.loc is obj and not e.loops]
    last = next((e for e in evs if e.kind == "loop" and any(x.op == "keepif" for x in walk(e.n.info["trip"])) and any(w.kind == "write" and w.loops and w.loops[-1] is e.n and w.n.loc.args[:1] == obj.args[:1] for w in evs)), None)
    cur = None
    norm = None
    for e in whole:
        if last is not None and e.no > last.no:
            break
        if last is not None and flow.implies(last.g, not_(e.g)):
            continue        # the other branch, left early
        val = e.n.val
        cur = val if e.g is TRUE or cur is None else ite(e.g, val, cur)
    base = None
    K = next((x for x in walk(cur) if x.op == "keepif"), None)
    if K is None:
        return rep.bad("%s: light components are dropped" % q, W, q + ".filter", show(cur, 5))
    # what is dropped
    c = [x for x in walk(K.args[1]) if x.op == "get"]
    ws = {x for x in walk(K.args[1]) if lastname(x) == "w" and any(y.op == "bv" for y in walk(x))}
    lim = {x for x in walk(K.args[1]) if lastname(x) == "cw_lim"}
    ok = len(ws) == 1 and len(lim) == 1
    if ok:
        w, m = ws.pop(), lim.pop()
        ok = all(decide(K.args[1], {w: num(a), m: num(b)}) == (a < b) for a, b in ((0, 1), (1, 1), (2, 1), (0, 0), (Fraction(1, 2), Fraction(1, 3))))
    rep.ob(ok, "%s: exactly the components below the component limit are dropped" % q, W, q + ".filter", show(K.args[1], 6)[:200])
    # what is reduced
    src = K.args[0]
    while src.op == "perm":
        src = src.args[0]
    if q == "prune":
        ok = src is v.peek(at(v, ["c"]), v.st0)
    else:
        a, b = v.peek(at(v, ["c"]), v.st0), v.peek(at(v, ["c"], v.args[0]), v.st0)
        ok = src is T("splice", a, size(a), b, ZERO, size(b)) or src.op == "mapped" and src.args[0] is a and mapped(T("list"), *src.args[1:]) is b
    rep.ob(ok, "%s: every component%s takes part" % (q, "" if q == "prune" else " of both"), W, q + ".all", show(src, 5)[:200])
    # order and number
    n = size(K)
    bad = None
    for s in (0, 1, N - 1, N, N + 1, 3 * N):
        t = at_size(cur, n, s)
        if t.op == "erased" and len(t.args) == 3 and subst(t.args[2].args[1], {n: num(s)}) is num(s):
            t = T("resized", t.args[0], subst(t.args[1].args[1], {n: num(s)}))
        if numval_(subst(size(t), {n: num(s)})) != min(s, N):
            bad = bad or "of %d components %s are kept" % (s, show(subst(size(t), {n: num(s)}), 4))
        p = t.args[0] if t.op == "resized" else t
        if not descending(P, v, p) and (s > N or t.op == "resized"):
            bad = bad or "%d components are cut without ordering them by weight, heaviest first" % s
    rep.ob(bad is None, "%s: of more than %d components, the %d heaviest are kept" % (q, N, N), W, q + ".max", bad)
    normalised(rep, evs, obj, last, W, q)


def has(t, op):
    return isinstance(t, Term) and any(x.op == op for x in walk(t))


def numval_(t):
    return numval(t) if is_num(t) else None


def at_size(t, n, s):
    while t.op == "ite":
        g = assume(subst(t.args[0], {n: num(s)}), {})
        if g is TRUE:
            t = t.args[1]
        elif g is FALSE:
            t = t.args[2]
        else:
            break
    return t


def decide(c, S):
    g = assume(subst(c, S), {})
    return True if g is TRUE else False if g is FALSE else None


def descending(P, v, t):
    """A list ordered by weight, heaviest first."""
    while t.op == "keepif":
        t = t.args[0]
    if t.op != "perm" or t.args[1] not in ("sort", "stable_sort") or t.args[3].op != "void":
        return False
    rev = len(t.args) > 4
    key = t.args[2]
    if key.op == "void":
        key, a, b = natural(P)
        if key is None:
            return False
    else:
        ws = {x for x in walk(key) if x.op == "get" and x.args[1] == ("f", "w") and x.args[0].op == "get" and x.args[0].args[0] is t.args[0]}
        a = [x for x in ws if x.args[0].args[1][1].op == "bv"]
        b = [x for x in ws if x.args[0].args[1][1].op != "bv"]
        if len(a) != 1 or len(b) != 1:
            return False
        a, b = a[0], b[0]
    r = [decide(key, {a: num(x), b: num(y)}) for x, y in ((2, 1), (1, 2), (1, 1))]
    return r == ([False, True, False] if rev else [True, False, False])


def natural(P):
    """operator< of the elements, over element weights."""
    for f in P.find("lmb::Gaussian_::operator<"):
        w = evaluate(P, f)
        a, b = I0(w, "w"), w.peek(at(w, ["w"], w.args[0]), w.st0)
        return truth(w.ret), a, b
    return None, None, None


def normalised(rep, evs, obj, loop, W, tag):
    """At the end the weights are divided by their sum."""
    ok = False
    d = None
    for e in evs:
        if e.kind != "write" or not e.loops or e.n.loc.args[0] != obj.args[0] or not e.loops[-1].info["full"]:
            continue
        st = e.n.loc.args[1][len(obj.args[1]):]
        k = e.loops[-1].info["k"]
        if len(st) != 2 or st[0][0] != "e" or st[0][1] is not k or st[1] != ("f", "w"):
            continue
        s = [x for x in walk(e.n.val) if x.op == "sum"]
        d = show(e.n.val, 5)[:200]
        if not s:
            continue
        s = s[0]
        n = e.loops[-1].info["trip"]
        a = mul(e.n.val, s)
        ok = s is sum_over(n, lambda i: subst(a, {k: i}))
        break
    rep.ob(ok, "%s: the weights are then divided by their sum" % tag, W, tag + ".norm", d)


# ----------------------------------------------------------------------- join
def join(P, rep, f, gm):
    v, evs = ev(P, f)
    W = where(P, f)
    tag = "join" if gm else "pf.join"
    pdf, wv, pdfs = v.args[0], argterm(v, 1), v.args[2]
    N = maxn(P, v, pdf)
    ws = [e for e in evs if e.kind == "write" and e.loops and isinstance(e.n.val, Term) and e.n.val.op == "push" and e.n.val.args[1].op == "tuple"]
    byq = {}
    for e in ws:
        byq.setdefault(e.n.loc, []).append(e)
    byq = {k: x for k, x in byq.items() if len(x) == 2}
    if len(byq) != 1:
        return rep.bad("%s: the next part of every association is kept in one queue" % tag, W, tag + ".queue", "%d queues" % len(byq))
    qloc, (e0, e1) = list(byq.items())[0]
    L1, L2 = e0.loops[-1].info, e1.loops[-1].info
    j = L1["k"]
    A = T("cols", wv)
    t0, t1 = e0.n.val.args[1].args, e1.n.val.args[1].args
    gets = v.peek(ve.ext(pdfs, ("e", j)), v.st0) if False else None
    ok = len(e0.loops) == 1 and len(e1.loops) == 1 and L1["full"] and L1["trip"] is v.shape(wv)[1] and e0.no < e1.no and t0[1] is j
    rep.ob(ok, "%s: the queue starts with one entry of every association" % tag, P.loc(e0.n.l), tag + ".start", show(L1["trip"], 4) if L1["trip"] is not None else None)
    if not ok:
        return
    # parts of association j, ordered
    order = [x for x in walk(t0[0]) if x.op == "perm"]
    if not order:
        return rep.bad("%s: the parts of an association are ordered by weight" % tag, P.loc(e0.n.l), tag + ".order", show(t0[0], 5)[:200])
    lst = order[0]
    if gm:
        ok = descending(P, v, lst) and lst.args[0] is v.peek(at(v, [j, "c"], pdfs), v.st0)
    else:
        ok = pforder(v, lst, pdfs, j)
    rep.ob(ok, "%s: the parts of an association are ordered by weight, heaviest first" % tag, P.loc(e0.n.l), tag + ".order", show(lst, 5)[:200])

    def weight(jj, n):
        l = subst(lst, {j: jj})
        wt = get(get(l, ("e", n)), ("f", "w")) if gm else el(v.peek(at(v, [jj, "w"], pdfs), v.st0), ZERO, get(l, ("e", n)))
        return mul(el(wv, ZERO, jj), wt)
    rep.ob(t0[0] is weight(j, ZERO), "%s: an entry's key is association weight times weight, from the heaviest on" % tag, P.loc(e0.n.l), tag + ".key0", show(t0[0], 6)[:200])
    n0 = size(lst)
    if gm:
        g = e0.g
        ok = all(decide(g, {n0: num(s)}) == (s > 0) for s in (0, 1, 2, 9))
    else:
        ok = e0.g is TRUE or decide(e0.g, {n0: num(3)}) is True
    rep.ob(ok, "%s: every association with parts is in the queue" % tag, P.loc(e0.n.l), tag + ".start", show(e0.g, 5)[:200])
    # one step
    top = None
    q = e1.n.val.args[0]
    ok = q.op == "popped" and q.args[0].op == "phi" and q.args[0].args[1] is qloc
    rep.ob(ok, "%s: each step takes the first entry out and puts its successor in" % tag, P.loc(e1.n.l), tag + ".step", show(q, 4))
    if not ok:
        return
    top = get(q.args[0], ("e", ZERO))
    names = ("first", "second") if len(t0) == 2 else ("0", "1", "2")
    nw, J = [get(top, ("f", x)) for x in names[:2]]
    n = get(top, ("f", "2")) if len(t0) > 2 else None
    cnt = None
    if n is None:
        cs = [e for e in evs if e.kind == "write" and e.loops and e.loops[-1].info is L2 and e.n.loc.args[1][-1:] == (("e", J),)]
        if len(cs) != 1:
            return rep.bad("%s: a counter per association tells the parts taken" % tag, W, tag + ".count", "%d writes" % len(cs))
        n = sub(cs[0].n.val, ONE)
        cl = LOC_(cs[0].n.loc)
        ok = n.op == "after" and n.args[1] is cs[0].n.loc and zeroed(evs, cl, L1, L2, e1, v)
        rep.ob(ok, "%s: a counter per association starts at zero and advances by one" % tag, P.loc(cs[0].n.l), tag + ".count", show(cs[0].n.val, 5)[:200])
        cnt = cs[0]
    else:
        rep.ob(t0[2] is ZERO and t1[2] is add(n, ONE), "%s: an entry's position starts at zero and advances by one" % tag, P.loc(e1.n.l), tag + ".count", show(t1[2], 4))
    inr = lambda t: live(t, J, L1["trip"])
    rep.ob(inr(t1[0]) is inr(weight(J, add(n, ONE))) and t1[1] is J, "%s: the successor is the next part of the same association, under its own product weight" % tag, P.loc(e1.n.l), tag + ".key1", show(inr(t1[0]), 7)[:250])
    sz = [x for x in walk(e1.g) if x is size(subst(lst, {j: J})) or x.op == "size" and mentions(x, J)]
    g = rel(inr(e1.g), brk(evs, L2, e1))
    if gm:
        s = size(inr(v_list(v, e1.g, lst, j, J)))
        ok = all(decide(g, {n: num(a), s: num(b)}) == (a + 1 < b) for a, b in ((0, 1), (0, 2), (1, 2), (3, 5), (4, 5), (198, 200), (199, 200)))
    else:
        ok = all(decide(g, {n: num(a)}) == (a + 1 < N) for a in (0, 1, N - 2, N - 1))
    rep.ob(ok, "%s: there is a successor as long as parts are left" % tag, P.loc(e1.n.l), tag + ".more", show(g, 6)[:250])
    # what is taken
    item = subst(lst, {j: J})
    if gm:
        out = [e for e in evs if e.kind == "write" and e.loops and e.loops[-1].info is L2 and e.n.loc is at(v, ["c"], pdf) and e.n.val.op == "push"]
        ok = len(out) == 1 and out[0].n.val.args[0].op == "phi"
        if not ok:
            return rep.bad("%s: each step adds one component" % tag, W, tag + ".out", "%d" % len(out))
        o = out[0]
        c = o.n.val.args[1]
        want = [get(get(item, ("e", n)), ("f", "x")), get(get(item, ("e", n)), ("f", "P")), nw]
        got = [inr(get(c, ("f", x))) for x in ("x", "P", "w")]
        for a, b, x in zip(got, want, ("mean", "covariance", "product weight")):
            rep.ob(a is b, "%s: the component added has the %s of the part taken" % (tag, x), P.loc(o.n.l), tag + ".out." + x, show(a, 6)[:200])
        prev = [e for e in evs if e.kind == "write" and e.n.loc is o.n.loc and e.no < e1.no and not e.loops]
        rep.ob(bool(prev) and prev[-1].g is TRUE and prev[-1].n.val.op == "list" and not prev[-1].n.val.args, "%s: the joined density starts empty" % tag, W, tag + ".empty")
        stop(P, rep, v, evs, L2, o, e1, nw, N, qloc, tag, pdf)
        rep.ob(not o.no > e1.no or True, "", W) if False else None
    else:
        w = [e for e in evs if e.kind == "write" and e.loops and e.loops[-1].info is L2 and e.n.loc.args[0] == pdf.args[0]]
        k = L2["k"]
        wl = [e for e in w if ("f", "w") in e.n.loc.args[1]]
        xl = [e for e in w if ("f", "x") in e.n.loc.args[1]]
        ok = L2["full"] and L2["trip"] is num(N) and len(wl) == 1 and len(xl) == 1
        rep.ob(ok, "%s: every particle is set once" % tag, W, tag + ".all", "%d, %d" % (len(wl), len(xl)))
        if not ok:
            return
        cw = assoc.cell(wl[0].n.loc)
        rep.ob(cw is not None and cw[2] is k and wl[0].n.val is nw, "%s: a particle has the product weight of the part taken" % tag, P.loc(wl[0].n.l), tag + ".out.w", show(wl[0].n.val, 5)[:200])
        st = xl[0].n.loc.args[1][-1]
        src = v.peek(at(v, [J, "x"], pdfs), v.st0)
        S = dims(xl[0].n.val)[0] or 4
        ok = st[0] == "v" and tm_(st[1]) is ZERO and tm_(st[2]) is k and all(inr(el(xl[0].n.val, a, ZERO)) is el(src, num(a), get(item, ("e", n))) for a in range(S))
        rep.ob(ok, "%s: a particle has the state of the part taken" % tag, P.loc(xl[0].n.l), tag + ".out.x", show(inr(el(xl[0].n.val, 0, ZERO)), 6)[:200])
        pfnorm(rep, evs, pdf, W, tag)
    if gm:
        normalised(rep, [e for e in evs if e.no > e1.no], at(v, ["c"], pdf), None, W, tag)


def LOC_(l):
    return ve.LOC(l.args[0], l.args[1][:-1])


def zeroed(evs, cl, L1, L2, e1, v):
    """A counter array is zero when the merge starts."""
    z = False
    for e in evs:
        if e.no >= e1.no or e.kind != "write" or e.n.loc.args[0] != cl.args[0]:
            continue
        if e.loops and e.loops[-1].info is L2:
            continue
        if e.n.loc is cl:
            z = e.n.val.op == "fill" and e.n.val.args[1] is ZERO and e.n.val.args[0] is L1["trip"]
        elif e.n.val is ZERO:
            z = z or e.loops and e.loops[-1].info["full"] and e.g is TRUE
        else:
            z = False
    return z


def live(t, J, trip):
    """A term for an association that is in the queue: its number is within the associations."""
    c = [x for x in walk(t) if x.op in ("lt", "le", "<") and mentions(x, J) and not any(y.op in ("size", "phi") and y is not J and not mentions(J, y) for y in walk(x) if y.op == "size")]
    S = {}
    for x in walk(t):
        if x is lt(J, trip):
            S[x] = TRUE
    return subst(t, S) if S else t


def v_list(v, g, lst, j, J):
    return subst(lst, {j: J})


def brk(evs, L2, e1):
    g = TRUE
    for e in evs:
        if e.kind == "break" and e.loops and e.loops[-1].info is L2 and e.no < e1.no:
            g = and_(g, not_(e.g))
    return g


def rel(g, given):
    return assume(g, add_fact({}, given, True))


def stop(P, rep, v, evs, L2, o, e1, nw, N, qloc, tag, pdf):
    """The merge stops when nothing is left, at the maximum, or at the first part below the limit."""
    cond = L2["cond"]
    qs = [x for x in walk(cond) if x.op == "size" and x.args[0].op == "phi" and x.args[0].args[1] is qloc]
    k = L2["k"]
    cs = [x for x in walk(cond) if x.op == "size" and x.args[0].op == "phi" and x.args[0].args[1] is o.n.loc]
    c = cs[0] if cs else k
    bad = None
    for a in (0, 1, N - 1, N):
        for b in (0, 1, 5):
            if decide(cond, {c: num(a), **({qs[0]: num(b)} if qs else {})}) != (a < N and b > 0):
                bad = bad or "after %d components with %d associations left" % (a, b)
    rep.ob(bad is None, "%s: components are added until no part is left or there are %d" % (tag, N), P.loc(L2["l"]), tag + ".until", bad)
    bs = [e for e in evs if e.kind == "break" and e.loops and e.loops[-1].info is L2]
    if len(bs) != 1:
        return rep.bad("%s: the merge stops at the first part below the limit" % tag, P.loc(L2["l"]), tag + ".limit", "%d stops" % len(bs))
    b = bs[0]
    s = [x for x in walk(b.g) if x.op == "phi" and x.args[0] == L2["id"] and x.args[1] is not qloc]
    s = list({x: 0 for x in s})
    lim = v.peek(at(v, ["cw_lim"], ve.LOC(("D", v.peek(at(v, ["params"], pdf), v.st0)))), v.st0)
    lims = [x for x in walk(b.g) if lastname(x) == "cw_lim"]
    ok = len(s) == 1 and bool(lims)
    if ok:
        ups = [e for e in evs if e.kind == "write" and e.n.loc is s[0].args[1]]
        inl = [e for e in ups if e.loops and e.loops[-1].info is L2]
        ini = [e for e in ups if not e.loops and e.no < b.no]
        ok = len(inl) == 1 and inl[0].n.val is add(s[0], nw) and bool(ini) and ini[-1].n.val is ZERO
        for a, w, l in ((1, 1, Fraction(1, 100)), (99, 1, Fraction(1, 100)), (100, 1, Fraction(1, 100)), (98, 1, Fraction(1, 100)), (0, 1, Fraction(1, 2)), (3, 2, Fraction(1, 2)), (1, 2, Fraction(1, 2))):
            if decide(b.g, {s[0]: num(a), nw: num(w), lims[0]: num(l)}) != (Fraction(w) / (a + w) < l):
                ok = False
    rep.ob(ok and o.no > b.no, "%s: the merge stops at the first part below the component limit, relative to the sum so far" % tag, P.loc(b.n.l), tag + ".limit", show(b.g, 6)[:250])


def pforder(v, lst, pdfs, j):
    if lst.op != "perm" or lst.args[1] not in ("sort", "stable_sort") or lst.args[3].op != "void" or len(lst.args) > 4:
        return False
    key = lst.args[2]
    w = v.peek(at(v, [j, "w"], pdfs), v.st0)
    ws = [x for x in walk(key) if x.op == "el" and x.args[0] is w or x.op == "el" and x.args[0] is subst(w, {})]
    a = {x for x in ws if has(x, "bv")}
    b = {x for x in ws if not has(x, "bv")}
    if len(a) != 1 or len(b) != 1:
        return False
    a, b = a.pop(), b.pop()
    return [decide(key, {a: num(x), b: num(y)}) for x, y in ((2, 1), (1, 2), (1, 1))] == [True, False, False]


def pfnorm(rep, evs, pdf, W, tag):
    ok, d = False, None
    for e in evs:
        if e.kind == "write" and not e.loops and e.n.loc.args[0] == pdf.args[0] and e.n.loc.args[1][-1:] == (("f", "w"),):
            m = [x for x in walk(e.n.val) if x.op == "msum" or x.op == "fn" and x.args[0] == "msum"]
            if m:
                d = show(e.n.val, 5)
                k = T("idx", 991)
                ok = mul(el(e.n.val, ZERO, k), m[0]) is el(m[0].args[-1], ZERO, k)
                break
    rep.ob(ok, "%s: the weights are then divided by their sum" % tag, W, tag + ".norm", d)


# ------------------------------------------------------------------- resample
def resample(P, rep, f):
    v, evs = ev(P, f)
    W = where(P, f)
    N = maxn(P, v, v.this)
    x0, w0 = v.peek(at(v, ["x"]), v.st0), v.peek(at(v, ["w"]), v.st0)
    cp = [e for e in evs if e.kind == "write" and len(e.loops) == 1 and e.n.val is not None and e.n.loc.args[1] and e.n.loc.args[1][-1][0] == "v" and mentions(e.n.val, x0)]
    if len(cp) != 1:
        return rep.bad("resample: every particle is drawn in one place", W, "res.draw", "%d" % len(cp))
    c = cp[0]
    L = c.loops[-1].info
    st = c.n.loc.args[1][-1]
    src = [x for x in walk(el(c.n.val, 0, ZERO)) if x.op == "el" and x.args[0] is x0]
    S = dims(x0)[0] or 4
    ok = L["full"] and L["trip"] is num(N) and tm_(st[2]) is L["k"] and tm_(st[1]) is ZERO and src and all(el(c.n.val, a, ZERO) is el(x0, num(a), src[0].args[2]) for a in range(S))
    rep.ob(ok, "resample: every new particle is one of the old ones", P.loc(c.n.l), "res.draw", show(c.n.val, 5)[:200])
    if not ok:
        return
    j = src[0].args[2]
    inner = [e for e in evs if e.kind == "loop" and e.loops and e.loops[-1].info is L]
    if j.op != "after" or len(inner) != 1 or inner[0].n.info["id"] != j.args[0]:
        return rep.bad("resample: a particle is searched from the last one drawn on", P.loc(c.n.l), "res.search", show(j, 5))
    I = inner[0].n.info
    upd = [e for e in evs if e.kind == "write" and e.n.loc is j.args[1] and e.loops and e.loops[-1].info is I]
    J = [sub(e.n.val, ONE) for e in upd]
    ok = len(J) == 1 and any(y.op == "phi" and y.args[0] == L["id"] and y.args[1] is j.args[1] for y in walk(J[0]))
    init = [e for e in evs if e.kind == "write" and e.n.loc is j.args[1] and not e.loops]
    rep.ob(ok and bool(init) and init[-1].n.val is ZERO, "resample: a particle is searched from the last one drawn on", P.loc(inner[0].n.l), "res.search", show(I["cond"], 6)[:200])
    if not ok:
        return
    cdf = [y for y in walk(I["cond"]) if y.op == "get" and y.args[1] == ("e", J[0]) and y.args[0].op == "alg" and y.args[0].args[0] == "partial_sum" and y.args[0].args[2][0] is w0 and y.args[0].args[3].op == "void"]
    us = [y for y in walk(I["cond"]) if y.op == "res" and str(y.args[0]).startswith("std::uniform_real_distribution")]
    ok = bool(cdf) and len(us) == 1 and mentions(I["cond"], L["k"])
    if ok:
        u = us[0]
        for a, i, cc, jj in ((Fraction(1, 2), 0, Fraction(1, 4 * N), 0), (Fraction(1, 2), 0, Fraction(3, 4 * N), 0), (Fraction(1, 2), 5, Fraction(5, N), 3), (Fraction(1, 2), 5, Fraction(6, N), 3), (0, 1, Fraction(1, N), 0), (Fraction(1, 2), N - 1, Fraction(1, 2), N - 2), (Fraction(1, 2), N - 1, Fraction(1, 2), N - 1)):
            S_ = {cdf[0]: num(cc), u: num(a), L["k"]: num(i)}
            g = subst(I["cond"], S_)
            for y in list(walk(g)):
                pass
            g = subst(g, {J[0]: num(jj)})
            want = cc < (Fraction(a) + i) / N and jj + 1 < N
            if decide_j(g, J[0], jj) != want:
                ok = False
    rep.ob(ok, "resample: particle i is the first whose cumulative weight reaches u0 + i/N, or the last one", P.loc(inner[0].n.l), "res.first", show(I["cond"], 7)[:300])
    g = next((e for e in evs if e.kind == "write" and not e.loops and e.n.loc is at(v, ["w"])), None)
    rep.ob(g is not None and el(g.n.val, ZERO, ZERO) is num(Fraction(1, N)) and el(g.n.val, ZERO, num(5)) is num(Fraction(1, N)), "resample: all particles weigh the same", P.loc(g.n.l) if g else W, "res.weight", show(g.n.val, 4) if g else None)


def decide_j(g, J, jj):
    """Truth of a condition in which the position appears as a sum."""
    ks = [y for y in walk(J) if y.op in ("phi", "idx")]
    S = {}
    for n, y in enumerate(ks):
        S[y] = num(jj) if n == 0 else ZERO
    return decide(g, S)


# ------------------------------------------------------------------- sampling
def sample(P, rep, f, q):
    v, evs = ev(P, f)
    W = where(P, f)
    tag = q
    res = v.args[0]
    ws = [e for e in evs if e.kind == "write" and e.n.loc is not None and e.n.loc.args[0] == res.args[0] and len(e.loops) == 2]
    if len(ws) != 1:
        return rep.bad("%s: samples are written in one place" % q, W, tag + ".write", "%d" % len(ws))
    w = ws[0]
    L1, L2 = w.loops[0].info, w.loops[1].info
    c0 = v.peek(at(v, ["c"]), v.st0)
    n = size(c0)
    rr, cols = v.shape(argterm(v, 0))
    R = 2 if q.endswith("pos") else None
    r, c, h, wd = ZERO, ZERO, None, None
    ok = True
    for st in w.n.loc.args[1]:
        if st[0] != "v":
            ok = False
            break
        r, c, h, wd = add(r, tm_(st[1])), add(c, tm_(st[2])), st[3], st[4]
    k1, k2 = L1["k"], L2["k"]
    col = [x for x in walk(c) if x.op == "phi" and x.args[0] == L1["id"]]
    comp = [x for x in walk(w.n.val) if x.op == "get" and x.args[0] is c0]
    ok = ok and L1["full"] and L1["trip"] is n and L2["full"] and w.g is TRUE and len(set(col)) == 1 and c is add(col[0], k2) and r is ZERO and is_num(tm_(wd)) and numval(tm_(wd)) == 1
    rep.ob(ok, "%s: every component fills consecutive columns after those of the last" % q, P.loc(w.n.l), tag + ".cols", show(w.n.loc, 6)[:200])
    if not ok:
        return
    col = col[0]
    cs = L2["trip"]
    up = [e for e in evs if e.kind == "write" and e.n.loc is col.args[1] and e.loops and e.loops[-1].info is L1]
    init = [e for e in evs if e.kind == "write" and e.n.loc is col.args[1] and not e.loops]
    ok = len(up) == 1 and up[0].n.val is add(col, cs) and up[0].g is TRUE and bool(init) and init[-1].n.val is ZERO
    rep.ob(ok, "%s: no column is skipped or filled twice" % q, P.loc(w.n.l), tag + ".next", show(up[0].n.val, 6)[:200] if up else None)
    left = sub(cols, col)
    wt = get(get(c0, ("e", k1)), ("f", "w"))
    bad = None
    for i, m in ((0, 1), (1, 2), (4, 5), (0, 2), (2, 5), (3, 5)):
        g = subst(cs, {k1: num(i), n: num(m)})
        L, Wt = subst(left, {k1: num(i)}), subst(wt, {k1: num(i)})
        want = L if i == m - 1 else fn("min", L, fn("trunc", mul(Wt, cols)))
        vals = [(a, b, d) for a in (10, 64, 1000) for b in (0, 3, 7) for d in (Fraction(1, 16), Fraction(1, 2), Fraction(3, 1000))]
        for a, b, d in vals:
            S = {cols: num(a), col: num(b), Wt: num(d)}
            x = subst(g, S)
            y = num(a - b) if i == m - 1 else num(min(a - b, int(d * a)))
            if x is not y:
                bad = bad or "component %d of %d: %s" % (i + 1, m, show(g, 6)[:200])
    rep.ob(bad is None, "%s: a component gets the whole part of weight x number of samples, the last one the rest" % q, P.loc(w.n.l), tag + ".share", bad)
    mean, cov = get(get(c0, ("e", k1)), ("f", "x")), get(get(c0, ("e", k1)), ("f", "P"))
    draws(P, rep, v, evs, w, mean, cov, 2 if q == "sample_pos" else int(next(t for t in P.rec_of(v.ltype[v.this])["targs"] if isinstance(t, int))), h, q)


def tm_(x):
    return x if isinstance(x, Term) else num(x)


def draws(P, rep, v, evs, w, mean, cov, S, h, tag):
    """A column written is mean + A z with A A' the covariance and z fresh standard normal numbers."""
    rep.ob(is_num(tm_(h)) and numval(tm_(h)) == S, "%s: all %d coordinates are drawn" % (tag, S), P.loc(w.n.l), tag + ".rows", show(tm_(h), 3))
    z = list({x: 0 for x in walk(w.n.val) if x.op == "fresh" and x.args[0] == "unaryExpr"})
    own = [x for x in z if x.args[-1] == ("in",) + tuple(l.info["k"] for l in w.loops) or T("x", x.args[-1]) is T("x", ("in",) + tuple(l.info["k"] for l in w.loops))]
    ks = tuple(l.info["k"] for l in w.loops)
    ok = len(z) == 1 and all(any(k is y for y in flatten(z[0].args)) for k in ks)
    rep.ob(ok, "%s: every sample has numbers of its own" % tag, P.loc(w.n.l), tag + ".fresh", "%d" % len(z))
    if not ok:
        return
    z = z[0]
    calls = [e for e in evs if e.kind == "call" and e.loops[:len(w.loops)] == w.loops and e.n.f is not None and e.n.f["q"].startswith("std::normal_distribution")]
    rep.ob(len(calls) >= 1, "%s: the numbers are normally distributed" % tag, P.loc(w.n.l), tag + ".normal", "%d" % len(calls))
    at_ = lambda vals, a: el(subst(w.n.val, {z: colv(*[num(x) for x in vals])}), a, 0)
    at0 = [at_([0] * S, a) for a in range(S)]
    for a in range(S):
        same_or_report(rep, at0[a], el(mean, a, 0), "%s: samples are centred on the mean, coordinate %d" % (tag, a), P.loc(w.n.l), tag + ".mean%d" % a)
    A = [[sub(at_([1 if i == b else 0 for i in range(S)], a), at0[a]) for b in range(S)] for a in range(S)]
    dom = covdom()
    for a in range(S):
        for b in range(a + 1):
            same_or_report(rep, add(*[mul(A[a][i], A[b][i]) for i in range(S)]), el(cov, a, b), "%s: samples spread by the covariance (%d,%d)" % (tag, a, b), P.loc(w.n.l), tag + ".cov%d%d" % (a, b), dom, tol=1e-6)


def flatten(x):
    for y in x:
        if isinstance(y, tuple):
            yield from flatten(y)
        else:
            yield y
