import itertools
from common import *
import tracker
import flow
from assoc import constant
from compose import *

TITLE = "Ranked associations split the remaining ones without loss or repetition"
EXPLANATION = ("Drawing an association, solving one subproblem, building the first one, the order of subproblems and the call of the solver are evaluated with helpers inlined; the matrices and index lists of every "
               "subproblem put aside are composed from the recorded block and element writes and compared entry by entry with the partition rule.")
MURTY = "lap::Murty"
STATE = "lap::MurtyState"
SIZES = [(1, 1), (1, 3), (2, 2), (2, 4), (3, 3), (3, 4), (4, 5)]
A, B, R, Q, PI, PJ = [T("idx", "spec18", i) for i in range(6)]


def run(P, rep):
    rep.rule = ("next subproblem = (node without the row and column of the next pair, pair's cost bound), aside = (node with that pair at infinite cost) iff the row has another finite entry, next node = next subproblem; "
                "solution[row map] = column map[assigned], cost = bound cost + sum of assigned entries; solver fed row-major")
    draws = insts(P, MURTY + "::draw")
    for f in draws:
        draw(P, rep, f)
    for f in solvers(P):
        solve(P, rep, f)
    for f in insts(P, MURTY + "::Murty", lambda f: len(f["params"]) == 1 and ismatrix(P, f["params"][0]["t"])):
        first(P, rep, f)
    for f in P.find("lap::MurtyStatePtrCompare::operator()"):
        order(P, rep, f)
    if not P.find("lap::MurtyStatePtrCompare::operator()"):
        rep.bad("the order of the subproblems is unknown", "include/murty.hpp", "order")
    for f in insts(P, "lap::lap"):
        (single if len(f["params"]) == 1 else lap)(P, rep, f)
    for f in P.find("lap::cost"):
        v = tracker.evalf(P, f, keeping(P, f["q"]))
        c, r = argterm(v, 0), argterm(v, 1)
        want = sum_over(rows_(v, r), lambda k: el(c, k, el(r, k, ZERO)))
        same_or_report(rep, v.ret, want, "the cost of an assignment is the sum of its entries", where(P, f), "cost")
    shifts(P, rep)
    rep.assumption("the solver behind lap::lap returns a cheapest assignment; its inner algorithm is not analysed")


def ismatrix(P, t):
    r = P.rec_of(P.unref(t))
    return r is not None and r["qual"] == "Eigen::Matrix"


def keeping(P, *q):
    return tracker.Cfg(opaque=("lap::lap", "lap::rlap"), keep=q)


def rows_(v, t):
    return v.shape(t)[0]


def solvers(P):
    """Methods of a subproblem that reach the solver."""
    fs = []
    for f in P.fns:
        if f.get("method") and "body" in f and f["q"].startswith(STATE + "::") and not f.get("ctor"):
            if any(P.fns[i]["q"] == "lap::lap" for i in tracker.reach(P, tracker.direct(P, f))):
                fs.append(f)
    return tracker.entries(P, fs) if fs else fs


# ----------------------------------------------------------------------- draw
def draw(P, rep, f):
    v = tracker.evalf(P, f, tracker.Cfg(opaque=("lap::lap",), keep=("lap::Murty::draw",)))
    evs = flow.events(v.nodes)
    W = where(P, f)
    calls = [e for e in evs if e.kind == "call" and e.n.f is not None and e.n.f["q"] == "lap::lap"]
    news = [e for e in evs if e.kind == "new"]
    pops = [e for e in evs if e.kind == "write" and e.n.get("op") == "pop"]
    pushes = [e for e in evs if e.kind == "write" and e.n.val is not None and e.n.val.op == "push" and e.n.val.args[1].op in ("new", "phi", "init", "after", "get")]
    if len(calls) != 1:
        return rep.bad("subproblems are not solved in one place", W, "solve1", "%d calls of the solver" % len(calls))
    if not calls[0].loops:
        return rep.bad("subproblems are not solved until one is at the front", W, "lazy")
    L = calls[0].loops[0]
    qloc = pops[0].n.loc if pops else None
    if qloc is None or any(e.n.loc is not qloc for e in pops + pushes):
        return rep.bad("subproblems are not kept in one queue", W, "queue")
    # solving: one popped, one solved, put back iff solvable
    lp = [e for e in pops if L in e.loops]
    lq = [e for e in pushes if L in e.loops]
    rep.ob(len(lp) == 1 and lp[0].loops == calls[0].loops and flow.equiv(rel(lp[0].g, calls[0].g), TRUE) and lp[0].no < min([e.no for e in lq], default=1 << 30),
           "an unsolved subproblem is taken from the front to be solved", P.loc(calls[0].n.l), "take")
    s0 = pointer(calls[0].n.args[0])
    if s0 is None:
        return rep.bad("the solver is not given a subproblem's costs", P.loc(calls[0].n.l), "solve.of", show(calls[0].n.args[0], 4))
    ok = len(lq) == 1 and lq[0].n.val.op == "push" and lq[0].n.val.args[1] is s0
    rep.ob(ok, "a solved subproblem goes back to the queue", P.loc((lq or calls)[0].n.l), "back", None if ok else "%d pushes" % len(lq))
    if ok:
        succ = rel(lq[0].g, calls[0].g)
        good = T("truth", calls[0].n.ret) if calls[0].n.ret is not None and calls[0].n.ret.op != "truth" else calls[0].n.ret
        x = assume(succ, {good: True})
        drop = assume(succ, {good: False})
        fin = x is TRUE or x.op == "lt0" and bool(infs(P, x))
        rep.ob(drop is FALSE and fin, "a subproblem is dropped only when it has no assignment of finite cost", P.loc(lq[0].n.l), "drop", None if drop is FALSE and fin else "put back when %s" % show(succ, 6)[:200])
    # stops only on an empty queue
    for e in evs:
        if e.kind == "return" and not e.n.get("val") is None and top(e, f) and e.n.val is FALSE:
            c = conj(e.g)
            q = [x for x in c if x.op == "eq0" and any(y.op in ("size",) for y in walk(x))]
            rep.ob(bool(q) or e.g is FALSE, "drawing fails only when no subproblem is left", P.loc(e.n.l), "empty", "returns false when %s" % show(e.g, 6)[:200])
    # the drawn one
    out = [e for e in pops if L not in e.loops]
    once = len(out) == 1 and not out[0].loops
    if not out and len(lp) == 1 and lp[0].loops == (L,):
        # taken from the front in the loop: every one that is not drawn is solved
        stop = [e for e in evs if e.kind == "break" and e.loops == (L,) and e.no > lp[0].no]
        once = bool(stop) and flow.equiv(or_(rel(calls[0].g, lp[0].g), *[rel(e.g, lp[0].g) for e in stop]), TRUE) and all(issolved(e, lp[0], s0) for e in stop)
    rep.ob(once, "the drawn association's subproblem leaves the queue once", P.loc((out or calls)[0].n.l), "drawn")
    a = v.args
    sol = last(evs, a[0])
    cst = last(evs, a[1])
    N = pointer(sol.n.val, "solution") if sol is not None else None
    ok = N is not None and not sol.loops
    rep.ob(ok, "the association drawn is the solution of the subproblem at the front", P.loc((sol or calls[0]).n.l), "sol", None if ok else show(sol.n.val, 5) if sol is not None else "none")
    if not ok:
        return
    rep.ob(N.op == "after" or any(y is T("init", qloc, 0) or y.op == "after" for y in walk(N)), "the drawn subproblem comes from the queue", P.loc(sol.n.l), "front")
    off = [x for x in walk(cst.n.val) if x.op == "init" and lastname(x) == "offset"] if cst is not None else []
    cs = sub(cst.n.val, off[0]) if off else None
    rep.ob(cs is not None and pointer(cs, "cost") is N, "its cost is the subproblem's, on the scale of the costs given", P.loc((cst or sol).n.l), "cost.out", show(cst.n.val, 6)[:200] if cst is not None else None)
    partition(P, rep, v, f, evs, N, news, [e for e in pushes if L not in e.loops], sol)


def issolved(e, base, p):
    """The condition of a jump says that *p is solved."""
    return any(isfield(x.args[0] if x.op == "truth" else x, p, "solved") for x in conj(rel(e.g, base.g)))


def last(evs, loc):
    es = [e for e in evs if e.kind == "write" and e.n.loc is loc]
    return es[-1] if es else None


def top(e, f):
    return not e.fns or e.fns[-1] is f


def rel(g, base):
    """A condition given that another holds."""
    f = {}
    for x in conj(base):
        f = add_fact(f, x, True)
    return assume(g, f)


def conj(g):
    return list(g.args) if g.op == "and" else ([] if g is TRUE else [g])


def isinf(P, t):
    if t.op == "lit" or is_num(t):
        return False
    if t.op == "init" and t.args[0].args[0][0] == "G":
        return constant(P, t) == float("inf")
    return t.op == "sym" and t.args[0] == "inf" or t.op in ("inf",)


def infs(P, *ts):
    return [x for t in ts for x in walk(t) if isinf(P, x)]


def pointer(t, name=None):
    """The pointer p when a value is a field of *p (the named one, if given)."""
    while t is not None and t.op == "after":
        l = t.args[1] if len(t.args) > 1 and isinstance(t.args[1], Term) and t.args[1].op == "loc" else None
        if l is None:
            break
        if l.args[0][0] == "D" and (name is None or l.args[1] == (("f", name),)):
            return l.args[0][1]
        return None
    if t is not None and t.op in ("init", "after", "phi"):
        for l in t.args:
            if isinstance(l, Term) and l.op == "loc" and l.args[0][0] == "D" and len(l.args[1]) == 1 and (name is None or l.args[1][0] == ("f", name)):
                return l.args[0][1]
    return None


def cur(v, p, name):
    """Terms that stand for a field of *p."""
    return ve.LOC(("D", p), (("f", name),))


def isfield(t, p, name):
    return t is not None and pointer(t, name) is p


def partition(P, rep, v, f, evs, N, news, pushes, sol):
    W = where(P, f)
    if len(pushes) != 1 or not pushes[0].loops:
        return rep.bad("the rest of a drawn subproblem is not put aside in one place", W, "aside1", "%d places" % len(pushes))
    pu = pushes[0]
    Lp = pu.loops[-1]
    base = pu.loops
    K = Lp.info["k"]
    n1 = pu.n.val.args[1]
    nn = [e for e in news if e.loops == base]
    other = [e for e in nn if e.n.ptr is not n1]
    if len(other) != 1 or not any(e.n.ptr is n1 for e in nn):
        return rep.bad("each step does not make one subproblem to put aside and one to continue with", P.loc(pu.n.l), "two", "%d new subproblems" % len(nn))
    n2 = other[0].n.ptr
    # node: the drawn one first, then the one to continue with
    node = None
    for e in evs:
        if e.kind == "write" and e.loops == base and e.n.val is n2 and e.n.loc is not None and e.n.loc.args[0][0] == "L" and T("phi", Lp.info["id"], e.n.loc) in marks(evs, base):
            node = e
    if node is None:
        return rep.bad("the steps do not continue with the bound subproblem", P.loc(pu.n.l), "next")
    ND = T("phi", Lp.info["id"], node.n.loc)
    start = [e for e in evs if e.kind == "write" and e.n.loc is node.n.loc and e.no < pu.no and not e.loops]
    rep.ob(bool(start) and start[-1].n.val is N, "the steps start from the drawn subproblem", P.loc((start or [node])[-1].n.l), "start")
    rep.ob(flow.equiv(rel(node.g, sol.g), TRUE), "every step binds its pair", P.loc(node.n.l), "binds", "only when %s" % show(node.g, 5)[:200])
    # the pairs
    O = pairlist(evs, base, K)
    if O is None:
        return rep.bad("the order of binding is not a list of pairs", P.loc(pu.n.l), "pairs")
    comp = lambda k, c: fieldof(O, k, c)
    n = rowsof(N)
    ok = Lp.info["full"] and Lp.info["trip"] is not None and (Lp.info["trip"] is size(O) or Lp.info["trip"] is n)
    rep.ob(ok, "every pair is bound", P.loc(Lp.l) if Lp.get("l") else W, "all", "steps: %s" % show(Lp.info["trip"], 4) if Lp.info["trip"] is not None else None)
    entries(P, rep, v, evs, O, N, sol)
    wi = add(comp(K, 1), sum_over(K, lambda m: ite(lt(comp(m, 1), comp(K, 1)), num(-1), ZERO)))
    wj = add(comp(K, 2), sum_over(K, lambda m: ite(lt(comp(m, 2), comp(K, 2)), num(-1), ZERO)))
    d = comp(K, 0)
    # values at the push and at the end of the step
    o1, o2 = ve.LOC(("D", n1)), ve.LOC(("D", n2))
    rep.ob(flow.equiv(rel(pu.g, and_(sol.g)), lt(d, inf_of(P, pu.g))) if infs(P, pu.g) else rel(pu.g, sol.g) is TRUE,
           "a pair's alternatives are put aside exactly when its row has one of finite cost", P.loc(pu.n.l), "aside", "put aside when %s" % show(rel(pu.g, sol.g), 5)[:200])
    names = {"C": 2, "u": 1, "v": 1}
    cell = [(e, st) for e, st in field_writes(evs, o1, "C", pu.no, base) if len(st) == 1 and st[0][0] == "m" and not e.inner]
    i1 = j1 = None
    if cell:
        i1, j1 = tm(cell[-1][1][0][1]), tm(cell[-1][1][0][2])
    bound = scalar(evs, o2, "boundcost", 1 << 30, base)
    x = [y for y in walk(bound) if y.op == "el" and isfield(y.args[0], ND, "C")] if bound is not None else []
    i2, j2 = (x[0].args[1], x[0].args[2]) if x else (None, None)
    for a, w, what, key in ((i1, wi, "row of the pair excluded", "i1"), (j1, wj, "column of the pair excluded", "j1"), (i2, wi, "row of the pair bound", "i2"), (j2, wj, "column of the pair bound", "j2")):
        same_or_report(rep, a, w, "the %s counts the rows or columns still left" % what, P.loc(pu.n.l if key[1] == "1" else other[0].n.l), key)
    if None in (i1, j1, i2, j2):
        return
    rep.ob(sub(bound, x[0]) is not None and isfield(sub(bound, x[0]), ND, "boundcost"), "a bound pair's cost is added to the bound cost", P.loc(other[0].n.l), "bound", show(bound, 6)[:200])
    b1 = scalar(evs, o1, "boundcost", pu.no, base)
    rep.ob(isfield(b1, ND, "boundcost"), "excluding a pair leaves the bound cost", P.loc(pu.n.l), "bound1", show(b1, 5)[:200] if b1 is not None else "unset")
    for o, upto, key, e in ((o1, pu.no, "1", pu), (o2, 1 << 30, "2", other[0])):
        what = "put aside" if key == "1" else "continued with"
        sv = scalar(evs, o, "solved", upto, base)
        rep.ob(sv is FALSE, "a subproblem %s is unsolved" % what, P.loc(e.n.l), "unsolved" + key)
        ss = scalar(evs, o, "solution", upto, base)
        rep.ob(isfield(ss, ND, "solution"), "a subproblem %s keeps the pairs already bound" % what, P.loc(e.n.l), "solution" + key, show(ss, 5)[:200] if ss is not None else "unset")
        cc = scalar(evs, o, "cost", upto, base)
        want = d if key == "1" else ZERO
        okc = cc is not None and isfield(sub(cc, want), ND, "cost")
        rep.ob(okc, "the cost a subproblem %s waits with is a bound from below" % what, P.loc(e.n.l), "waits" + key, show(cc, 6)[:200] if cc is not None else "unset")
        matrices(P, rep, v, evs, o, upto, base, ND, (i1, j1) if key == "1" else (i2, j2), key, what, e, sol)


def marks(evs, base):
    s = set()
    for e in evs:
        if e.loops[:len(base)] == base:
            for x in (e.n.get("val"), e.n.get("cond"), e.g):
                if isinstance(x, Term):
                    s |= set(walk(x))
            l = e.n.get("loc")
            if isinstance(l, Term):
                s |= set(walk(l))
    return s


def pairlist(evs, base, K):
    """The list whose elements' fields are read at index K in the loop."""
    for x in marks(evs, base):
        if x.op == "get" and x.args[-1][0] == "f" and len(x.args) == 2 and x.args[0].op == "get" and x.args[0].args[1:] == (("e", K),):
            return x.args[0].args[0]
        if x.op == "get" and len(x.args) == 3 and x.args[1] == ("e", K):
            return x.args[0]
    return None


def fieldof(O, k, c):
    return get(get(O, ("e", k)), ("f", str(c)))


def inf_of(P, g):
    return infs(P, g)[0]


def rowsof(p):
    l = ve.LOC(("D", p), (("f", "C"),))
    return T("rows", T("init", l, 0))


def entries(P, rep, v, evs, O, N, sol):
    """The pairs: every row of the drawn subproblem with the column assigned to it, and its least reduced alternative."""
    W = P.loc(sol.n.l)
    lst = O
    while lst.op == "perm":
        lst = lst.args[0]
    k = None
    wr = []
    for e in evs:
        if e.kind == "write" and e.n.loc is not None and e.loops:
            x = e.n.val
            if e.n.loc.args[1] and e.n.loc.args[1][-1][0] == "e" and x.op == "tuple" and len(x.args) == 3:
                wr.append((e, x, e.n.loc.args[1][-1][1]))
            elif x.op == "push" and x.args[1].op == "tuple" and len(x.args[1].args) == 3:
                wr.append((e, x.args[1], None))
    if len(wr) != 1:
        return rep.bad("the pairs are not listed in one place", W, "list", "%d places" % len(wr))
    w, tup, ix = wr[0]
    L = w.loops[-1]
    k = L.info["k"]
    if ix is None:
        ix = k
    rc = [x for x in walk(L.info["trip"])] if L.info["trip"] is not None else []
    C = next((x.args[0] for x in rc if x.op == "rows" and isfield(x.args[0], N, "C")), None)
    ok = C is not None and L.info["full"] and L.info["trip"] is T("rows", C) and len(w.loops) == 1 and ix is k and rel(w.g, sol.g) is TRUE
    rep.ob(ok, "every row of the drawn subproblem gives a pair", P.loc(w.n.l), "rows", show(L.info["trip"], 5)[:200] if L.info["trip"] is not None else None)
    if C is None:
        return
    dual, i, j = tup.args
    rep.ob(i is k and j.op == "el" and isfield(j.args[0], N, "res") and j is el(j.args[0], k, ZERO), "a pair is a row and the column assigned to it", P.loc(w.n.l), "pair", show(tup, 6)[:200])
    # the least reduced alternative
    dl = ve.LOC(w.n.loc.args[0], w.n.loc.args[1] + (("f", "0"),))
    if dual.op == "after" and isinstance(dual.args[1], Term) and dual.args[1].op == "loc":
        # gathered in a variable of its own
        dl = dual.args[1]
        ini = [e for e in evs if e.kind == "write" and e.n.loc is dl and e.loops == w.loops and e.no < w.no]
        dual = ini[-1].n.val if ini else dual
    lw = [e for e in evs if e.kind == "write" and e.n.loc is dl and len(e.loops) > 1]
    rep.ob(isinf(P, dual), "a row without alternative has an infinite least alternative", P.loc(w.n.l), "none")
    if len(lw) != 1 or len(lw[0].loops) != 2:
        return rep.bad("the least alternative of a row is not sought over its columns", P.loc(w.n.l), "least")
    e = lw[0]
    m = e.loops[-1].info
    c = m["k"]
    rep.ob(m["full"] and m["trip"] is T("cols", C), "every column of a row is considered", P.loc(e.n.l), "columns")
    cc = el(C, k, c)
    # value
    us = [x for x in walk(e.n.val) if x.op == "el"]
    u = next((x for x in us if isfield(x.args[0], N, "u")), None)
    vv = next((x for x in us if isfield(x.args[0], N, "v")), None)
    ok = u is not None and vv is not None and u is el(u.args[0], k, ZERO) and vv is el(vv.args[0], c, ZERO) and e.n.val is sub(sub(cc, u), vv)
    rep.ob(ok, "an alternative counts with its reduced cost", P.loc(e.n.l), "reduced", show(e.n.val, 6)[:200])
    g = rel(e.g, sol.g)
    lows = [x for x in conj(g) if x.op == "lt0" and any(y.op == "phi" for y in walk(x)) and mentions(x, cc)]
    rest = and_(*[x for x in conj(g) if x not in lows])
    inf_ = infs(P, g)
    want = and_(not_(eq(c, j)), lt(cc, inf_[0])) if inf_ else None
    rep.ob(want is not None and flow.equiv(rest, want), "every other column of finite cost is an alternative", P.loc(e.n.l), "alternatives", show(rest, 6)[:200])
    if len(lows) == 1:
        ph = [y for y in walk(lows[0]) if y.op == "phi" or (y.op == "after")]
        rep.ob(any(lt(e.n.val, y) is lows[0] for y in ph if y.op == "phi"), "the least alternative is kept", P.loc(e.n.l), "min", show(lows[0], 6)[:200])
    else:
        rep.bad("the least alternative is kept", P.loc(e.n.l), "min")


def matrices(P, rep, v, evs, o, upto, base, ND, ij, key, what, ev, sol):
    """Costs and index lists of a new subproblem, entry by entry, for small sizes and every pair."""
    terms = marks(evs, base)
    C = fieldterm(terms, ND, "C")
    u = fieldterm(terms, ND, "u")
    vv = fieldterm(terms, ND, "v")
    rm = fieldterm(terms, ND, "rmap")
    cm_ = fieldterm(terms, ND, "cmap")
    N = P.loc(ev.n.l)
    if C is None or rm is None or cm_ is None:
        return rep.bad("a subproblem %s does not take over its parent's costs and rows" % what, N, "from" + key)
    w = {n: relative(field_writes(evs, o, n, upto, base), ev, sol) for n in ("C", "u", "v", "rmap", "cmap")}
    bad = {}
    count = 0
    dimterms = []
    for x in terms:
        if x.op in ("rows", "cols", "size") and isinstance(x.args[0], Term):
            for n, d in DIMS.items():
                if isfield(x.args[0], ND, n):
                    dimterms.append((x, d[x.op != "rows"] if x.op != "size" else d[0], None))
    for t, n in ((C, "C"), (u, "u"), (vv, "v")):
        if t is not None:
            dimterms += [(T("rows", t), DIMS[n][0], None), (T("cols", t), DIMS[n][1], None)]
    for t, n in ((rm, "rmap"), (cm_, "cmap")):
        dimterms.append((size(t), DIMS[n][0], None))
    for r, q in SIZES:
        for pi, pj in itertools.product(range(r), range(q)):
            try:
                S = {**pinned(ij[0], pi), **pinned(ij[1], pj)}
                for x, a, b in dimterms:
                    S[x] = num(a(r, q)) if callable(a) else num(a)
                nr, nq = (r, q) if key == "1" else (r - 1, q - 1)
                for a in range(nr):
                    for b in range(nq):
                        got = entry(w["C"], num(a), num(b), S)
                        if key == "1":
                            hit = (a, b) == (pi, pj)
                            okk = got is not None and (isinf(P, got) if hit else got is subst(el(C, num(a), num(b)), {}))
                        else:
                            okk = got is el(C, num(a + (a >= pi)), num(b + (b >= pj)))
                        count += 1
                        if not okk:
                            bad.setdefault("C", "%dx%d without (%d,%d): entry (%d,%d) is %s" % (r, q, pi, pj, a, b, show(got, 4) if got is not None else "unset"))
                for n, t, x, m in (("rmap", rm, pi, r), ("cmap", cm_, pj, q)):
                    val = listvalue(w[n])
                    s = sequence(val, m, S)
                    full = sequence(t, m, {})
                    want = full if key == "1" else full[:x] + full[x + 1:]
                    count += 1
                    if s != want:
                        bad.setdefault(n, "%d entries without %d: %s" % (m, x, [show(y, 3) for y in s]))
                for n, t, x, m in (("u", u, nr, r), ("v", vv, nq, q)):
                    g = extent(v, w[n], S)
                    count += 1
                    if g is None or not (is_num(g) and numval(g) == x):
                        bad.setdefault(n, "%s entries for %d" % (show(g, 4) if g is not None else "unknown", x))
                if key == "2":
                    g = extents(v, w["C"], S)
                    if [numval(y) if y is not None and is_num(y) else None for y in g] != [nr, nq]:
                        bad.setdefault("C", "%s x %s left of %dx%d" % (show(g[0], 4), show(g[1], 4), r, q))
            except Unread as x:
                bad.setdefault("C", "not decided: %s" % x)
    rep.count("entries_compared", count)
    for n, t in (("C", "costs"), ("rmap", "rows"), ("cmap", "columns"), ("u", "row workspace"), ("v", "column workspace")):
        rep.ob(n not in bad, "the %s of a subproblem %s are its parent's %s" % (t, what, "with the pair excluded" if key == "1" else "without the bound pair"), N, n + key, bad.get(n))


def relative(ws, ev, sol):
    """The writes with their conditions given those of the subproblem's creation."""
    out = []
    for e, st in ws:
        r = Ev2()
        r.n, r.inner, r.loops = e.n, e.inner, e.loops
        r.g = rel(rel(e.g, sol.g), ev.g)
        out.append((r, st))
    return out


def pinned(t, n):
    """Substitution that gives an index term the value n."""
    m = {t: num(n)}
    if t.op == "poly":
        free = None
        for mono, c in t.args[0]:
            if not mono:
                n -= c
            elif len(mono) == 1 and mono[0][1] == 1 and c == 1 and free is None and mono[0][0].op != "sum":
                free = mono[0][0]
            elif len(mono) == 1:
                m[mono[0][0]] = ZERO
            else:
                raise Unread("index %s" % show(t, 4))
        if free is None:
            raise Unread("index %s" % show(t, 4))
        m[free] = num(n)
    return m


DIMS = {"C": (lambda r, q: r, lambda r, q: q), "u": (lambda r, q: r, 1), "v": (lambda r, q: q, 1), "rmap": (lambda r, q: r,), "cmap": (lambda r, q: q,)}


def fieldterm(terms, p, name):
    for x in terms:
        if x.op in ("init", "after") and isfield(x, p, name):
            return x
    return None


def listvalue(w):
    if not w or any(st for e, st in w):
        raise Unread("index list")
    return w[-1][0].n.val


def extents(v, w, S):
    """Rows and columns after the last whole write."""
    for e, st in reversed(w):
        if not st:
            return [subst(x, S) for x in v.shape(e.n.val)]
    return [None, None]


def extent(v, w, S):
    for e, st in reversed(w):
        if not st:
            r, c = [subst(x, S) for x in v.shape(e.n.val)]
            return mul(r, c)
    return None


# ---------------------------------------------------------------------- solve
def solve(P, rep, f):
    v = tracker.evalf(P, f, keeping(P, f["q"]))
    evs = flow.events(v.nodes)
    W = where(P, f)
    cs = [e for e in evs if e.kind == "call" and e.n.f is not None and e.n.f["q"] == "lap::lap"]
    if len(cs) != 1 or cs[0].loops or cs[0].g is not TRUE:
        return rep.bad("a subproblem is solved by one call", W, "solve.once", "%d calls" % len(cs))
    c = cs[0]
    C, res = c.n.args[0], c.n.args[1]
    rep.ob(C is I0(v, "C"), "the subproblem's own costs are solved", P.loc(c.n.l), "solve.C", show(C, 4))
    sh = v.shape(res)
    rep.ob(sh[0] is T("rows", I0(v, "C")) or sh[0] is v.shape(I0(v, "C"))[0], "the assignment has a place for every row", P.loc(c.n.l), "solve.res", show(sh[0], 4))
    rloc = at(v, ["res"])
    after = [e for e in evs if e.kind == "write" and e.n.loc is rloc and e.no > c.no]
    if not after:
        return rep.bad("the solver's assignment is not kept", W, "solve.keep")
    r = after[0].n.val
    good = T("truth", c.n.ret) if c.n.ret.op != "truth" else c.n.ret
    # cost
    nr = [v.shape(r)[0], T("rows", r), T("rows", I0(v, "C")), size(I0(v, "rmap"))]
    fin = None
    got = restrict(F(v, "cost"), good)
    want = [add(I0(v, "boundcost"), sum_over(n, lambda k: el(C, k, el(r, k, ZERO)))) for n in nr]
    ok = any(got is w for w in want) or any(numev.same(got, w, None, seed=1, samples=32, tol=1e-9, need=8)[0] in ("identical", "agree") for w in want[:1])
    rep.ob(ok, "the cost is the bound cost plus the assigned entries", W, "solve.cost", show(got, 7)[:300])
    sv = F(v, "solved")
    rep.ob(restrict(sv, good) is TRUE, "a solved subproblem is marked so", W, "solve.mark", show(sv, 4))
    # solution
    ws = [e for e in evs if e.kind == "write" and e.n.loc is not None and e.n.loc.args[0] == v.this.args[0] and e.n.loc.args[1][:1] == (("f", "solution"),)]
    ok = len(ws) == 1 and len(ws[0].loops) == 1
    if ok:
        e = ws[0]
        i = e.loops[0].info
        st = e.n.loc.args[1][1:]
        k = i["k"]
        rm, cmp_ = I0(v, "rmap"), I0(v, "cmap")
        ok = i["full"] and i["trip"] in nr and rel(e.g, good) is TRUE and len(st) == 1 and st[0][0] == "m" and st[0][1] is get(rm, ("e", k)) and e.n.val is get(cmp_, ("e", el(r, k, ZERO)))
        if not ok and st and st[0][0] == "m":
            ok = i["full"] and i["trip"] in nr and rel(e.g, good) is TRUE and show(st[0][1], 9) == "this.rmap[%s]" % show(k) and pick(e.n.val, "cmap") is el(r, k, ZERO) and pick(tm(st[0][1]), "rmap") is k
    rep.ob(ok, "the solution gives each row of the original costs its column of the original costs", P.loc((ws or [c])[0].n.l), "solve.map", "; ".join("%s = %s" % (show(e.n.loc, 5), show(e.n.val, 5)) for e in ws)[:300])
    ret = v.ret
    g1, g0 = assume(ret, {good: True}), assume(ret, {good: False})
    cost = F(v, "cost")
    inf_ = infs(P, g1)
    rep.ob(g0 is FALSE and (g1 is TRUE or bool(inf_) and g1 is lt(restrict(cost, good), inf_[0])), "solving reports whether an assignment of finite cost exists", W, "solve.ret", show(ret, 6)[:300])


def pick(t, name):
    """Index x of name[x]."""
    if t.op == "get" and t.args[-1][0] == "e" and lastname(T("get", *t.args[:-1]) if len(t.args) > 2 else t.args[0]) == name:
        return t.args[-1][1]
    if t.op == "init":
        root, st = t.args[0].args
        if len(st) >= 2 and st[-2] == ("f", name) and st[-1][0] == "e":
            return st[-1][1]
    return None


def restrict(t, c):
    """A value given that a condition holds."""
    facts = add_fact({}, c, True)
    while t.op == "ite":
        g = assume(t.args[0], facts)
        if g is TRUE:
            t = t.args[1]
        elif g is FALSE:
            t = t.args[2]
        else:
            break
    if t.op in ("and", "or", "not", "truth"):
        return assume(t, facts)
    return t


# ---------------------------------------------------------------------- first
def first(P, rep, f):
    v = tracker.evalf(P, f, keeping(P, f["q"], MURTY + "::Murty"))
    evs = flow.events(v.nodes)
    W = where(P, f)
    pu = [e for e in evs if e.kind == "write" and e.n.get("op") in ("push", "emplace") and e.n.val.op == "push"]
    if len(pu) != 1 or pu[0].g is not TRUE or pu[0].loops:
        return rep.bad("ranking starts from one subproblem", W, "first", "%d" % len(pu))
    p = pu[0].n.val.args[1]
    o = ve.LOC(("D", p))
    C = argterm(v, 0)
    got = scalar(evs, o, "C", pu[0].no, ())
    off = F(v, "offset")
    if got is None:
        return rep.bad("the first subproblem has no costs", W, "first.C")
    a, b = [T("idx", "spec18", x) for x in "ab"]
    conds = sorted({x.args[0] for x in (got, off) if x.op == "ite"}, key=str)
    for pol in itertools.product((True, False), repeat=len(conds)):
        g, o_ = got, off
        for c, p_ in zip(conds, pol):
            g, o_ = restrict(g, c if p_ else not_(c)), restrict(o_, c if p_ else not_(c))
        m = {y: T("sym", "R") for y in walk(o_) if y.op == "rows"}
        m[v.shape(C)[0]] = m[T("rows", C)] = T("sym", "R")
        x = subst(add(el(g, a, b), div(o_, v.shape(C)[0])), m)
        ok = x is el(C, a, b) or x is subst(el(C, a, b), m)
        rep.ob(ok, "the shift of the first subproblem's costs is the offset, once per row", W, "first.C", "%s for %s" % (show(x, 6)[:200], show(el(C, a, b), 3)))
    for n, w in (("cost", ZERO), ("boundcost", ZERO), ("solved", FALSE)):
        s = scalar(evs, o, n, pu[0].no, ())
        rep.ob(s is w, "the first subproblem starts %s" % {"cost": "at no cost", "boundcost": "with nothing bound", "solved": "unsolved"}[n], W, "first." + n, show(s, 4) if s is not None else "unset")
    for n, d in (("rmap", 0), ("cmap", 1)):
        ws = field_writes(evs, o, n, pu[0].no, ())
        okk = False
        why = "; ".join("%s = %s" % (show(e.n.loc, 5), show(e.n.val, 4)) for e, st in ws)[:300]
        idw = [(e, st) for e, st in ws if st]
        dim = lambda t: t is not None and any(dimof(v, got, C, d, y) for y in [t])
        if len(idw) == 1 and len(idw[0][0].loops) == 1:
            e, st = idw[0]
            i = e.loops[0].info
            okk = i["full"] and dim(i["trip"]) and len(st) == 1 and st[0] == ("e", i["k"]) and e.n.val is i["k"] and e.g is TRUE
            last_ = [e2 for e2, st2 in ws if not st2 and e2.no < e.no]
            okk = okk and bool(last_) and dim(size(last_[-1].n.val))
        elif not idw and ws:
            okk = identity(ws[-1][0].n.val, dim)
        rep.ob(okk, "the first subproblem's %s are the original ones" % ("rows" if d == 0 else "columns"), W, "first." + n, why)
    for n, d in (("u", 0), ("v", 1), ("solution", 0)):
        ws = [e for e, st in field_writes(evs, o, n, pu[0].no, ()) if not st]
        g = v.shape(ws[-1].n.val)[0] if ws else None
        rep.ob(g is not None and dimof(v, got, C, d, g), "the first subproblem's %s has an entry for every %s" % ({"u": "row workspace", "v": "column workspace", "solution": "solution"}[n], "row" if d == 0 else "column"),
               W, "first." + n, show(g, 5) if g is not None else "unset")


def dimof(v, got, C, d, t):
    if t is v.shape(got)[d] or t is v.shape(C)[d] or t is T(("rows", "cols")[d], C) or t is T(("rows", "cols")[d], got):
        return True
    if t.op == "ite":
        return all(dimof(v, got, C, d, x) for x in t.args[1:])
    if t.op in ("rows", "cols"):
        x = t.args[0]
        return t.op == ("rows", "cols")[d] and same_shape(x, C)
    return False


def same_shape(x, C):
    """A sum of the matrix and constants of its shape."""
    if x is C:
        return True
    if x.op == "mat":
        return any(len(k) == 1 and k[0][0] is C for k, c in x.args[2])
    return False


def identity(t, dim):
    """The list 0, 1, 2, ..."""
    if t.op == "mapped" and t.args[0].op == "list" and not t.args[0].args:
        return dim(t.args[1]) and t.args[2].op == "bv"
    if t.op == "fnm" and t.args[0] == "iota":
        return True
    return t.op == "filt" and dim(t.args[1]) and t.args[3] is TRUE and t.args[2] is t.args[4]


# ---------------------------------------------------------------------- order
def order(P, rep, f):
    v = tracker.evalf(P, f, keeping(P, f["q"]))
    W = where(P, f)
    ca, cb = [costof(v, i) for i in (0, 1)]
    r = v.ret
    low = lt(ca, cb)
    high = lt(cb, ca)
    tie = eq(ca, cb)
    # a comes after b exactly when it costs more; equal costs must not come after each other
    ok = taut_num(or_(not_(high), r)) and taut_num(or_(not_(low), not_(r)))
    rep.ob(ok, "subproblems come in the order of their costs", W, "order", show(r, 6)[:300])
    sw = swap(v, r)
    rep.ob(taut_num(not_(and_(tie, r, sw))), "the order of subproblems is a strict one", W, "strict", show(r, 6)[:300])


def costof(v, i):
    p = v.peek(v.args[i], v.st0)
    return v.peek(at(v, ["cost"], ve.LOC(("D", p))), v.st0)


def swap(v, r):
    a, b = v.peek(v.args[0], v.st0), v.peek(v.args[1], v.st0)
    t = T("sym", "swap")
    x = deepsub(r, {a: t})
    x = deepsub(x, {b: a})
    return deepsub(x, {t: b})


def deepsub(t, m):
    return subst(t, m)


def taut_num(c):
    """Valid over all signs of the comparisons, with x<0, x==0, x>0 exclusive."""
    ats = [x for x in flow.atoms(c)]
    keys = {}
    rest = []
    for x in ats:
        if x.op in ("lt0", "eq0"):
            p = x.args[0]
            n = neg(p)
            k = next((q for q in keys if q is p or q is n), None)
            if k is None:
                k = p
                keys[p] = []
            keys[k].append((x, k is n and p is not n))
        else:
            rest.append(x)
    ks = list(keys)
    for signs in itertools.product((-1, 0, 1), repeat=len(ks)):
        m = {}
        for k, s in zip(ks, signs):
            for x, fl in keys[k]:
                y = -s if fl else s
                m[x] = y < 0 if x.op == "lt0" else y == 0
        for vals in itertools.product((False, True), repeat=len(rest)):
            m.update(zip(rest, vals))
            if not flow.ev(c, m):
                return False
    return True


# ------------------------------------------------------------------------ lap
def lap(P, rep, f):
    v = tracker.evalf(P, f, tracker.Cfg(opaque=("lap::rlap",), keep=("lap::lap",)))
    evs = flow.events(v.nodes)
    W = where(P, f)
    cs = [e for e in evs if e.kind == "call" and e.n.f is not None and e.n.f["q"] == "lap::rlap"]
    if len(cs) != 1 or cs[0].loops:
        return rep.bad("an assignment is found by one call of the solver", W, "lap.once", "%d" % len(cs))
    c = cs[0]
    C = argterm(v, 0)
    a = c.n.args
    R_, Q_ = v.shape(C)
    rep.ob(a[0] is R_ and a[1] is Q_, "the solver is told the rows and columns of the costs", P.loc(c.n.l), "lap.dims", "%s x %s" % (show(a[0], 4), show(a[1], 4)))
    rep.ob(content(a[2]) is C, "the solver is given the costs", P.loc(c.n.l), "lap.costs", show(a[2], 5))
    o = dataobj(c.n.argx[2])
    rep.ob(o is not None and rowmajor(P, o["t"]), "the costs the solver reads lie row by row in memory", P.loc(c.n.l), "lap.rowmajor", P.rec_of(P.unref(o["t"]))["name"] if o is not None and P.rec_of(P.unref(o["t"])) else "not the data of a matrix")
    # the answer
    r = v.ret
    x = [y for y in walk(r) if y.op == "fn" and y.args[0] in ("any", "all")]
    rs = [e.n.val for e in evs if e.kind == "write" and e.n.loc is v.args[1] and e.n.get("op") == "havoc"]
    ok = bool(rs) and any(mentions(y, rs[-1]) for y in x)
    rep.ob(ok, "success means every row was assigned", W, "lap.answer", show(r, 6)[:300])
    # buffers
    for i, (n, want) in {4: ("assignment of the rows", None), 5: ("assignment of the columns", Q_), 6: ("row workspace", None), 7: ("column workspace", None)}.items():
        if i < len(a):
            y = content(a[i])
            s = v.shape(y)[0] if y is not None else None
            if want is not None:
                rep.ob(s is want, "the %s has room for all of them" % n, P.loc(c.n.l), "lap.buffer%d" % i, show(s, 4) if s is not None else "unknown")


def content(t):
    """The matrix whose data a pointer refers to."""
    return t.args[1] if t.op in ("fn", "fnm") and t.args[0] == "data" else None


def dataobj(e):
    while e is not None and e["k"] in ("cast", "paren"):
        e = e["e"]
    return e["obj"] if e is not None and e["k"] == "call" and e.get("obj") is not None else None


def rowmajor(P, t):
    r = P.rec_of(P.unref(t))
    return r is not None and storage(P, r) == "row"


def single(P, rep, f):
    v = tracker.evalf(P, f, keeping(P, f["q"]) if False else Single())
    evs = flow.events(v.nodes)
    W = where(P, f)
    C = argterm(v, 0)
    cs = [e for e in evs if e.kind == "call" and e.n.f is not None and e.n.f["q"] == "lap::lap"]
    if len(cs) != 1:
        return rep.bad("the assignment of a matrix is solved by one call", W, "lap1.once", "%d" % len(cs))
    a = cs[0].n.args
    R_, Q_ = v.shape(C)
    rep.ob(a[0] is C, "the matrix given is solved", W, "lap1.C", show(a[0], 4))
    for i, (n, w) in {1: ("assignment", R_), 2: ("row workspace", R_), 3: ("column workspace", Q_)}.items():
        s = v.shape(a[i])[0]
        rep.ob(s is w, "the %s has room for every entry" % n, W, "lap1.%d" % i, show(s, 4))
    rs = [e.n.val for e in evs if e.kind == "write" and e.n.get("op") == "havoc" and e.no > cs[0].no]
    rep.ob(v.ret in rs[:1], "the solver's assignment is returned", W, "lap1.ret", show(v.ret, 4))


class Single(tracker.Cfg):
    def is_opaque(self, f):
        return f["q"] == "lap::lap" and len(f["params"]) > 1 or f["q"] == "lap::rlap" or super().is_opaque(f) and f["q"] != "lap::lap"


def storage(P, r):
    """'row' or 'col': storage order of a dense matrix class, from its options argument."""
    a = r.get("targs") or []
    try:
        return "row" if int(a[3]) & 1 else "col"
    except (IndexError, TypeError, ValueError):
        return None


def shifts(P, rep):
    """No shift by a number that grows with the problem."""
    n = 0
    for f in P.fns:
        if not (f.get("repo") and "body" in f and f["q"].startswith("lap::")):
            continue
        for x in tree(f["body"]):
            if x.get("k") in ("bin", "asg") and x.get("op") in ("<<", "<<=", ">>", ">>=") and P.ty(x["t"])["k"] in ("int", "bool"):
                n += 1
                b = x["b"]
                if b.get("k") not in ("int",) and "cv" not in b and "v" not in b:
                    rep.bad("a shift by a run-time amount limits the size of assignment problems", P.loc(x["l"]), "shift." + f["n"])
    rep.count("shifts", n)
    rep.good("no shift by a run-time amount in the assignment code", "include/rlapjv.h")


def tree(x):
    if isinstance(x, dict):
        yield x
        for y in x.values():
            yield from tree(y)
    elif isinstance(x, list):
        for y in x:
            yield from tree(y)
