from common import *
import tracker
import flow

TITLE = "The spatial index returns every stored entry whose rectangle overlaps the query"
EXPLANATION = ("Each operation of the index is evaluated on its own with the others as symbols, for every possible number of branches in a node, and compared with its part of an inductive argument over tree height: "
               "covers bound what is below them, no operation loses, duplicates or moves an entry, and a search follows every overlapping branch.")
FRONT = {("Search", 5), ("InsertRectRec", 5), ("InsertRect", 4), ("RemoveRectRec", 4), ("RemoveRect", 3), ("AddBranch", 3), ("SplitNode", 3), ("DisconnectBranch", 2), ("ReInsert", 2),
         ("AllocNode", 0), ("FreeNode", 1), ("AllocListNode", 0), ("FreeListNode", 1), ("RemoveAllRec", 1), ("LoadNodes", 3), ("GetBranches", 3), ("ChoosePartition", 2), ("Classify", 3),
         ("PickSeeds", 1), ("PickBranch", 2), ("NodeCover", 1), ("Overlap", 2), ("CalcRectVolume", 1)}
BR, CNT, LEV = ("m_branch", "m_count"), "m_count", "m_level"
# what a call changes: parameter -> fields of its pointee (None: the pointee itself)
EFF = {"InsertRectRec": {2: BR, 3: None}, "InsertRect": {2: None}, "RemoveRectRec": {2: BR, 3: None}, "RemoveRect": {2: None}, "AddBranch": {1: BR, 2: None}, "SplitNode": {0: BR, 2: None},
       "DisconnectBranch": {0: BR}, "ReInsert": {1: None}, "LoadNodes": {0: BR, 1: BR}, "GetBranches": {0: BR + (LEV,), 2: None}, "Search": {2: None}}
PARTS = ("m_partition", "m_taken", "m_count", "m_cover", "m_area")
for _n, _i in (("Classify", 2), ("PickSeeds", 0), ("ChoosePartition", 0)):
    EFF[_n] = {_i: PARTS}
AND = and_


class Front(tracker.Cfg):
    def is_opaque(self, f):
        if f["q"].startswith("RTree::"):
            return (f["n"], len(f["params"])) in FRONT
        return super().is_opaque(f)

    def effects(self, v, f, this, vals, locs):
        n = f["n"]
        if (n, len(f["params"])) not in FRONT or not f["q"].startswith("RTree::"):
            return None
        out = []
        for i, fs in EFF.get(n, {}).items():
            b = locs[i] if locs[i] is not None else ptr(vals[i])
            if b is not None:
                out += [b] if fs is None else [ve.ext(b, ("f", x)) for x in fs]
        return out


def ptr(t):
    """Location a pointer value points to."""
    if t.op == "addr":
        return t.args[0]
    if t.op == "null":
        return None
    return ve.LOC(("D", t))


class S:
    """One operation of the index, evaluated with a given number of branches."""

    def __init__(s, P, n, k, node=None, count=None, setup=None, f=None):
        s.f = f
        s.P, s.W = P, where(P, f)
        s.v = ve.VE(P, Front())
        s.v.cfg.v = s.v

        def b(v):
            if node is not None:
                p = v.read(v.args[node], note=False)
                v._put(ve.ext(ptr(p), ("f", CNT)), num(count))
            if setup:
                setup(v)
        s.v.run(f, bind=b)
        s.evs = flow.events(s.v.nodes)
        s.A = and_(*[not_(e.g) for e in s.evs if e.kind == "call" and e.n.q == "__assert_fail"])

    def arg(s, i):
        return argterm(s.v, i)

    def node(s, i):
        return ptr(s.arg(i))

    def calls(s, n, k):
        return [e for e in s.evs if e.kind == "call" and e.n.f is not None and e.n.f["q"] == "RTree::" + n and len(e.n.f["params"]) == k]

    def writes(s, pred):
        return [e for e in s.evs if e.kind == "write" and e.n.loc is not None and e.n.loc.op == "loc" and pred(e.n.loc)]

    def rd(s, loc, *path, st=None):
        l = loc
        for p in path:
            l = ve.ext(l, ("f", p) if isinstance(p, str) else ("e", p if isinstance(p, Term) else num(p)))
        return norm(s.v.peek(l, st or s.v.st0))

    def kid(s, node, i, st=None):
        """Child pointer or entry of branch i."""
        return pay(s, ve.ext(node, ("f", "m_branch"), ("e", i if isinstance(i, Term) else num(i))), st)

    def eq(s, a, b, m=None):
        a, b = and_(s.A, a), and_(s.A, b)
        if m:
            a, b = subst(a, m), subst(b, m)
        return flow.equiv(a, b)


def pay(s, br, st=None):
    st = st or s.v.st0
    c, d = s.v.peek(ve.ext(br, ("f", ""), ("f", "m_child")), st), s.v.peek(ve.ext(br, ("f", ""), ("f", "m_data")), st)
    t = d if undef(c) else c
    return norm(t)


def norm(t):
    """The two readings of a branch's payload are the same storage."""
    if not isinstance(t, Term):
        return t
    m = {}
    for x in walk(t):
        if x.op == "init" and x.args[0].op == "loc" and ("f", "m_data") in x.args[0].args[1]:
            l = x.args[0]
            m[x] = T("init", ve.LOC(l.args[0], tuple(("f", "m_child") if y == ("f", "m_data") else y for y in l.args[1])), *x.args[1:])
    return subst(t, m) if m else t


def rc(t, a, i):
    return get(t, ("f", a), ("e", num(i))) if False else get(get(t, ("f", a)), ("e", num(i)))


def anchors(P, n, k):
    fs = [f for f in P.fns if f.get("q") == "RTree::" + n and len(f["params"]) == k and "body" in f]
    if not fs:
        raise AnalysisError("anchor not found: RTree::" + n)
    return fs


def extent(P, rec, field):
    for r in P.recs:
        if r["qual"].startswith("RTree") and r["qual"].endswith("::" + rec):
            for f in P.rec_fields(r):
                if f["n"] == field:
                    t = P.ty(f["t"])
                    return t.get("n") or t.get("size") or t.get("count")
    return None


def run(P, rep):
    rep.rule = ("overlap == closed intervals meet on both axes; cover of a node == least rectangle around all its branches; search/remove follow exactly the overlapping branches; add appends or splits, split hands every branch to one of two "
                "nodes of the same level; insert keeps covers and grows the root with both halves; remove takes one entry, refreshes covers and reinserts all branches of dropped nodes at their level")
    N = extent(P, "Node", "m_branch")
    if not N:
        raise AnalysisError("node capacity not found")
    for n, k, h in (("Overlap", 2, overlap), ("CombineRect", 2, combine), ("NodeCover", 1, cover), ("Search", 5, search), ("Search", 4, pub), ("Insert", 3, pub), ("Remove", 3, pub),
                    ("PickBranch", 2, pick), ("AddBranch", 3, add_), ("DisconnectBranch", 2, disconnect), ("InsertRectRec", 5, insertrec), ("InsertRect", 4, insert),
                    ("RemoveRectRec", 4, removerec), ("RemoveRect", 3, remove), ("ReInsert", 2, reinsert), ("GetBranches", 3, getbranches), ("ChoosePartition", 2, choose),
                    ("PickSeeds", 1, seeds), ("Classify", 3, classify), ("LoadNodes", 3, loadnodes), ("SplitNode", 3, split), ("AllocNode", 0, alloc), ("RemoveAllRec", 1, removeall),
                    ("RemoveAll", 0, clear), ("RTree", 0, clear)):
        for f in anchors(P, n, k):
            rep.count("operations")
            h(P, rep, f, N)
    rep.assumption("a node holds between 1 and %d branches; the tree below a node satisfies the properties by induction on its height" % N)
    rep.assumption("rectangle volumes are finite, so some branch is always preferred when a node is divided")


def rects(s, a, b):
    return [[(s.rd(x, "m_min", i), s.rd(x, "m_max", i)) for i in (0, 1)] for x in (a, b)]


def overlap(P, rep, f, N):
    s = S(P, None, None, f=f)
    a, b = rects(s, s.node(0), s.node(1))
    want = and_(*[and_(not_(lt(b[i][1], a[i][0])), not_(lt(a[i][1], b[i][0]))) for i in (0, 1)])
    rep.ob(flow.same(assume_(s, truth(s.v.ret)), want), "rectangles overlap exactly when they meet on both axes", s.W, "overlap", show(s.v.ret, 8)[:300])
    frame(rep, s, "testing for overlap")


def frame(rep, s, what):
    for e in s.writes(lambda l: l.args[0][0] in ("D",) or l.args[0] == s.v.this.args[0]):
        rep.bad("%s changes what it looks at" % what, s.P.loc(e.n.l), "pure." + s.f["n"], show(e.n.loc, 4))


def assume_(s, t):
    m = {}
    for e in s.evs:
        if e.kind == "call" and e.n.q == "__assert_fail":
            for a in flow.atoms(e.g):
                if a.op == "truth" and a.args[0].op in ("init", "get"):
                    m[a] = True
    return assume(t, m)


def combine(P, rep, f, N):
    s = S(P, None, None, f=f)
    a, b = rects(s, s.node(0), s.node(1))
    for i in (0, 1):
        same_or_report(rep, rc(s.v.ret, "m_min", i), fn("min", a[i][0], b[i][0]), "combined rectangle: lower bound %d" % i, s.W, "combine.min%d" % i)
        same_or_report(rep, rc(s.v.ret, "m_max", i), fn("max", a[i][1], b[i][1]), "combined rectangle: upper bound %d" % i, s.W, "combine.max%d" % i)
    frame(rep, s, "combining rectangles")


def cover(P, rep, f, N):
    for n in range(1, N + 1):
        s = S(P, None, None, node=0, count=n, f=f)
        nd = s.node(0)
        for i in (0, 1):
            for a, op in (("m_min", "min"), ("m_max", "max")):
                same_or_report(rep, rc(s.v.ret, a, i), fn(op, *[s.rd(nd, "m_branch", j, "m_rect", a, i) for j in range(n)]), "cover of %d branches: %s %d" % (n, op, i), s.W, "cover.%s%d" % (op, i))
        frame(rep, s, "covering a node")


def ovmap(s, rectarg, nd):
    """Overlap tests of branch i against the query rectangle become one condition per branch."""
    m, order = {}, []
    for e in s.calls("Overlap", 2):
        q = s.arg(rectarg)
        a = list(e.n.args)
        if a[0] is not q and a[1] is q:
            a.reverse()
        if a[0] is not q or a[1].op != "addr":
            return None, None
        l = a[1].args[0]
        if l.args[0] != nd.args[0] or len(l.args[1]) != 3 or l.args[1][2] != ("f", "m_rect") or l.args[1][0] != ("f", "m_branch"):
            return None, None
        i = tm_(l.args[1][1][1])
        m[T("truth", e.n.ret)] = m[e.n.ret] = T("truth", T("sym", "ov%s" % show(i, 2)))
        order.append((e.no, i))
    return m, order


def tm_(x):
    return x if isinstance(x, Term) else num(x)


def OV(i):
    return T("truth", T("sym", "ov%s" % show(num(i), 2)))


def search(P, rep, f, N):
    for n in range(0, N + 1):
        s = S(P, None, None, node=0, count=n, f=f)
        nd = s.node(0)
        I = lt(ZERO, s.rd(nd, LEV), integer=True)
        m, order = ovmap(s, 1, nd)
        if m is None:
            return rep.bad("a branch is tested against something other than the query", s.W, "search.test")
        rec = s.calls("Search", 5)
        cb = [e for e in s.evs if e.kind == "call" and e.n.q == "<indirect>" and e.n.callee is s.arg(3)]
        go, done = {True: TRUE, False: TRUE}, {True: set(), False: set()}
        found = ZERO
        for e in rec + cb:
            inner = e in rec
            i = next((j for j in range(n) if norm(e.n.args[0]) is s.kid(nd, j)), None)
            if i is None or i in done[inner] or e.loops:
                rep.bad("search visits something other than the node's own branches once", P.loc(e.n.l), "search.what", show(e.n.args[0], 4))
                return
            done[inner].add(i)
            ok = s.eq(e.g, and_(I if inner else not_(I), OV(i), go[inner]), m)
            rep.ob(ok, "search %s exactly the overlapping %s (%d of %d)" % ("follows" if inner else "reports", "branches" if inner else "entries", i + 1, n), P.loc(e.n.l), "search.guard%d" % inner,
                   show(assume_(s, e.g), 5)[:200])
            if inner:
                a = e.n.args
                rep.ob(a[1] is s.arg(1) and a[3] is s.arg(3) and a[4] is s.arg(4) and e.n.obj is s.v.this and e.n.locs[2] is s.v.args[2], "the search below uses the same query and receiver of results", P.loc(e.n.l), "search.args")
                go[inner] = and_(go[inner], or_(not_(OV(i)), T("truth", e.n.ret)))
            else:
                rep.ob(e.n.args[1] is s.arg(4), "results go to the caller's receiver", P.loc(e.n.l), "search.ctx")
                r = next((x for x in s.evs if x.no > e.no and x.kind == "if"), None)
                r = [x for x in walk(r.n.cond) if x.op == "fresh" and x.args[0] == "indirect"] if r is not None else []
                go[inner] = and_(go[inner], or_(not_(OV(i)), T("truth", r[0]))) if r else go[inner]
                found = e
        for inner in (True, False):
            rep.ob(done[inner] == set(range(n)), "search considers every %s of a node with %d" % ("branch" if inner else "entry", n), s.W, "search.all%d" % inner, "only %s" % sorted(done[inner]))
        rep.ob(s.eq(truth(s.v.ret), or_(and_(I, go[True]), and_(not_(I), go[False])), m), "search ends early only when told to (%d)" % n, s.W, "search.ret", show(assume_(s, s.v.ret), 5)[:200])
        for e in s.writes(lambda l: l is s.v.args[2]):
            if e.n.get("op") == "havoc":
                continue
            near = [c for c in cb if s.eq(c.g, e.g)]
            rep.ob(len(near) == 1 and not e.loops, "results are counted as they are reported", P.loc(e.n.l), "search.count")
        if n == 1:
            got = subst(s.v.peek(s.v.args[2], s.v.st), m | {I: FALSE, not_(I): TRUE})
            got = subst(got, {OV(0): TRUE})
            rep.ob(got is add(s.v.peek(s.v.args[2], s.v.st0), ONE), "a reported result counts one", s.W, "search.one", show(got, 4))
        frame(rep, s, "searching")


def pub(P, rep, f, N):
    n = f["n"]
    s = S(P, None, None, f=f)
    tgt = {"Search": ("Search", 5, 1), "Insert": ("InsertRect", 4, 0), "Remove": ("RemoveRect", 3, 0)}[n]
    cs = s.calls(*tgt[:2])
    if len(cs) != 1 or cs[0].loops or cs[0].g is not TRUE:
        return rep.bad("%s does not run exactly once" % n, s.W, "pub." + n, "%d calls" % len(cs))
    c = cs[0]
    a = c.n.args
    r = a[tgt[2]]
    l = ptr(r)
    for i in (0, 1):
        for k, w in ((0, "m_min"), (1, "m_max")):
            got = s.rd(l, w, i, st=c.n.st)
            rep.ob(got is s.rd(s.node(k), i), "%s passes on %s %d" % (n, w[2:], i), P.loc(c.n.l), "pub.%s.%s%d" % (n, w, i), show(got, 4))
    root = at(s.v, ["m_root"])
    if n == "Search":
        ok = a[0] is s.rd(root) and a[3] is s.arg(2) and a[4] is s.arg(3)
        rep.ob(ok, "a search starts at the root with the caller's receiver", P.loc(c.n.l), "pub.root.Search")
        fl = c.n.locs[2]
        rep.ob(s.v.peek(fl, c.n.st) is ZERO and s.v.ret is s.v.peek(fl, s.v.st), "a search returns how many entries it reported", P.loc(c.n.l), "pub.count")
        return
    idv = a[1]
    rep.ob(idv is s.arg(2) and a[2].op == "addr" and a[2].args[0] is root, "%s works on the caller's entry and the tree's root" % n, P.loc(c.n.l), "pub.root." + n, "%s %s" % (show(idv, 3), show(a[2], 3)))
    if n == "Insert":
        rep.ob(a[3] is ZERO, "entries are inserted into leaves", P.loc(c.n.l), "pub.level", show(a[3], 3))


def leaves(t, seen=None):
    seen = set() if seen is None else seen
    if t in seen:
        return
    seen.add(t)
    if t.op == "ite":
        yield from leaves(t.args[1], seen)
        yield from leaves(t.args[2], seen)
    else:
        yield t


def pick(P, rep, f, N):
    for n in range(1, N + 1):
        s = S(P, None, None, node=1, count=n, f=f)
        bad = [x for x in leaves(s.v.ret) if not is_num(x) or not 0 <= numval(x) < n]
        rep.ob(not bad, "the branch to descend is one of the %d" % n, s.W, "pick", show(bad[0], 4) if bad else "")
        frame(rep, s, "choosing a branch")


def add_(P, rep, f, N):
    for n in range(0, N + 1):
        s = S(P, None, None, node=1, count=n, f=f)
        nd, br = s.node(1), s.node(0)
        sp = s.calls("SplitNode", 3)
        if n < N:
            rep.ob(not [c for c in sp if c.g is not FALSE] and assume_(s, truth(s.v.ret)) is FALSE, "a branch fits into a node with %d" % n, s.W, "add.room")
            F_ = s.v.st
            ok = s.rd(nd, "m_branch", n, "m_rect", "m_min", 0, st=F_) is s.rd(br, "m_rect", "m_min", 0) and s.rd(nd, "m_branch", n, st=F_) is s.rd(br) and s.rd(nd, CNT, st=F_) is num(n + 1)
            rep.ob(ok, "a branch is appended to a node with %d" % n, s.W, "add.append", "%s, count %s" % (show(s.rd(nd, "m_branch", n, st=F_), 3), show(s.rd(nd, CNT, st=F_), 3)))
            for i in range(n):
                rep.ob(s.rd(nd, "m_branch", i, st=F_) is s.rd(nd, "m_branch", i), "adding keeps branch %d of %d" % (i, n), s.W, "add.keep")
        else:
            c = sp[0] if len(sp) == 1 else None
            ok = c is not None and s.eq(c.g, TRUE) and c.n.args[0] is s.arg(1) and ptr(c.n.args[1]) is br and c.n.args[2] is s.arg(2) and assume_(s, truth(s.v.ret)) is TRUE
            rep.ob(ok, "a full node is divided, with the new branch", s.W, "add.split")
        for e in s.writes(lambda l: l.args[0] == nd.args[0] and l.args[1] and l.args[1][0] == ("f", LEV)):
            rep.bad("adding a branch changes the level", P.loc(e.n.l), "add.level")


def disconnect(P, rep, f, N):
    s = S(P, None, None, f=f)
    nd, i = s.node(0), s.arg(1)
    last = sub(s.rd(nd, CNT), ONE)
    ws = s.writes(lambda l: l.args[0] == nd.args[0])
    for e in ws:
        st = e.n.loc.args[1]
        if st[0] == ("f", CNT):
            rep.ob(e.n.val is last and s.eq(e.g, TRUE) and not e.loops, "dropping a branch makes the node one smaller", P.loc(e.n.l), "drop.count", show(e.n.val, 4))
        elif st == (("f", "m_branch"), ("e", i)):
            rep.ob(norm(e.n.val) is s.rd(nd, "m_branch", last) and s.eq(e.g, TRUE) and not e.loops, "the dropped branch is replaced by the last one", P.loc(e.n.l), "drop.move", show(e.n.val, 4))
        else:
            rep.bad("dropping a branch changes something else", P.loc(e.n.l), "drop.other", show(e.n.loc, 4))
    ks = sorted({e.n.loc.args[1][0][1] for e in ws})
    rep.ob(ks == ["m_branch", "m_count"], "dropping a branch updates branch and count", s.W, "drop.both", str(ks))


def insertrec(P, rep, f, N):
    s = S(P, None, None, f=f)
    v, nd = s.v, s.node(2)
    lev = s.rd(nd, LEV)
    G, E = lt(s.arg(4), lev, integer=True), not_(lt(s.arg(4), lev, integer=True))
    rec = s.calls("InsertRectRec", 5)
    pk = [c.n.ret for c in s.calls("PickBranch", 2) if c.n.args[0] is s.arg(0) and c.n.args[1] is s.arg(2)]
    if len(rec) != 1 or not pk:
        return rep.bad("an entry does not go down exactly one branch", s.W, "ins.rec", "%d descents" % len(rec))
    r = rec[0]
    a = r.n.args
    i = next((p for p in pk if norm(a[2]) is s.kid(nd, p)), None)
    rep.ob(i is not None and a[0] is s.arg(0) and a[1] is s.arg(1) and a[4] is s.arg(4) and not r.loops, "the entry goes down the chosen branch unchanged", P.loc(r.n.l), "ins.args", show(a[2], 4))
    rep.ob(s.eq(r.g, G), "the entry goes down exactly while above its level", P.loc(r.n.l), "ins.down", show(assume_(s, r.g), 5))
    if i is None:
        return
    split = T("truth", r.n.ret)
    ads = s.calls("AddBranch", 3)
    ret = FALSE
    seen = set()
    for c in ads:
        a = c.n.args
        b = ptr(a[0])
        rect, kid = s.rd(b, "m_rect", st=c.n.st), pay(s, b, c.n.st)
        ok = a[1] is s.arg(2) and a[2] is s.arg(3) and not c.loops
        if s.eq(c.g, and_(G, split)):
            other = s.rd(ptr(r.n.args[3]), st=c.n.st)
            nc = [x for x in s.calls("NodeCover", 1) if x.n.ret is rect and x.no > r.no and x.n.args[0] is other]
            rep.ob(ok and kid is other and len(nc) == 1, "the new half of a divided child is added with its cover", P.loc(c.n.l), "ins.half", "%s %s" % (show(kid, 4), show(rect, 3)))
            seen.add("half")
            ret = or_(ret, and_(G, split, T("truth", c.n.ret)))
        elif s.eq(c.g, E):
            ok = ok and all(s.rd(b, "m_rect", k, q, st=c.n.st) is s.rd(s.node(0), k, q) for k in ("m_min", "m_max") for q in (0, 1)) and kid is s.arg(1)
            rep.ob(ok, "at its level the entry is added with its rectangle", P.loc(c.n.l), "ins.entry", "%s %s" % (show(kid, 4), show(rect, 3)))
            seen.add("entry")
            ret = or_(ret, and_(E, T("truth", c.n.ret)))
        else:
            rep.bad("a branch is added under another condition", P.loc(c.n.l), "ins.when", show(assume_(s, c.g), 5)[:200])
    rep.ob(seen == {"half", "entry"} and len(ads) == 2, "entry and divided children are added", s.W, "ins.both", str(sorted(seen)))
    rep.ob(s.eq(truth(v.ret), ret), "a division is reported to the caller", s.W, "ins.ret", show(assume_(s, v.ret), 5)[:200])
    rl = ve.ext(nd, ("f", "m_branch"), ("e", i), ("f", "m_rect"))
    ws = [e for e in s.writes(lambda l: l.args[0] == nd.args[0]) if e.n.get("op") != "havoc"]
    kinds = set()
    for e in ws:
        if e.n.loc is not rl or e.no < r.no:
            rep.bad("inserting changes another part of the node", P.loc(e.n.l), "ins.other", show(e.n.loc, 4))
            continue
        for pol, nm in ((False, "grow"), (True, "cover")):
            g = and_(G, split if pol else not_(split))
            if flow.taut(not_(and_(s.A, e.g, g))):
                continue
            kinds.add(nm) if flow.implies(and_(s.A, g), e.g) else None
            val = when(e.n.val, split, pol)
            if pol:
                ok = any(c.n.ret is val and c.no > r.no and norm(c.n.args[0]) is norm(r.n.args[2]) for c in s.calls("NodeCover", 1))
                rep.ob(ok, "the cover of a divided child is recomputed", P.loc(e.n.l), "ins.recover", show(val, 4))
            else:
                old = ve.ext(nd, ("f", "m_branch"), ("e", i), ("f", "m_rect"))
                for q in (0, 1):
                    for w, op in (("m_min", "min"), ("m_max", "max")):
                        same_or_report(rep, rc(val, w, q), fn(op, s.rd(s.node(0), w, q), s.rd(old, w, q)), "the cover grows by the entry: %s %d" % (op, q), P.loc(e.n.l), "ins.grow.%s%d" % (op, q))
    rep.ob(kinds == {"grow", "cover"}, "the cover is kept up to date whether or not the child was divided", s.W, "ins.update", str(sorted(kinds)))


def insert(P, rep, f, N):
    s = S(P, None, None, f=f)
    rl = s.node(2)
    root = s.rd(rl)
    rec = s.calls("InsertRectRec", 5)
    if len(rec) != 1 or rec[0].loops:
        return rep.bad("an insertion does not descend exactly once", s.W, "root.rec")
    r = rec[0]
    a = r.n.args
    rep.ob(s.eq(r.g, TRUE) and a[0] is s.arg(0) and a[1] is s.arg(1) and a[2] is root and a[4] is s.arg(3), "an insertion descends from the root", P.loc(r.n.l), "root.args")
    split = T("truth", r.n.ret)
    half = s.rd(ptr(a[3]), st=s.v.st)
    al = s.calls("AllocNode", 0)
    rep.ob(s.eq(truth(s.v.ret), split), "growth is reported", s.W, "root.ret")
    final = s.rd(rl, st=s.v.st)
    new = when(final, split, True)
    ok = len(al) == 1 and new is al[0].n.ret and when(final, split, False) is root
    rep.ob(ok, "the root is replaced exactly when it was divided", s.W, "root.new", show(final, 4))
    if not ok:
        return
    lv = when(s.rd(ptr(new), LEV, st=s.v.st), split, True)
    rep.ob(lv is add(s.rd(ptr(root), LEV), ONE), "the new root is one level above the old one", s.W, "root.level", show(lv, 5))
    got = []
    for c in s.calls("AddBranch", 3):
        b = ptr(c.n.args[0])
        kid, rect = when(pay(s, b, c.n.st), split, True), when(s.rd(b, "m_rect", st=c.n.st), split, True)
        nc = [x for x in s.calls("NodeCover", 1) if x.n.ret is rect and x.n.args[0] is kid and x.no > r.no]
        ok = c.n.args[1] is new and s.eq(c.g, split) and not c.loops and len(nc) == 1 and kid in (root, when(half, split, True))
        rep.ob(ok, "the new root gets each half with its cover", P.loc(c.n.l), "root.half", "%s %s" % (show(kid, 4), show(rect, 3)))
        got.append(kid)
    rep.ob(len(got) == 2 and len(set(got)) == 2, "the new root has both halves", s.W, "root.halves", "%d" % len(got))


def removerec(P, rep, f, N):
    for n in range(0, N + 1):
        s = S(P, None, None, node=2, count=n, f=f)
        nd = s.node(2)
        I = lt(ZERO, s.rd(nd, LEV), integer=True)
        m, order = ovmap(s, 0, nd)
        if m is None:
            return rep.bad("a branch is tested against something other than the entry's rectangle", s.W, "rem.test")
        done = set()
        go = TRUE
        st = s.calls("ReInsert", 2) + s.calls("DisconnectBranch", 2)
        ws = [e for e in s.writes(lambda l: l.args[0] == nd.args[0]) if e.n.get("op") != "havoc"]
        used = set()
        for r in s.calls("RemoveRectRec", 4):
            a = r.n.args
            i = next((j for j in range(n) if norm(a[2]) is s.kid(nd, j)), None)
            if i is None or i in done or r.loops:
                return rep.bad("removal visits something other than the node's own branches once", P.loc(r.n.l), "rem.what", show(a[2], 4))
            done.add(i)
            rep.ob(a[0] is s.arg(0) and a[1] is s.arg(1) and a[3] is s.arg(3) and s.eq(r.g, and_(I, OV(i), go), m), "removal follows the overlapping branches until it succeeds (%d of %d)" % (i + 1, n), P.loc(r.n.l), "rem.down",
                   show(assume_(s, r.g), 5)[:200])
            hit = and_(I, OV(i), go, not_(T("truth", r.n.ret)))
            go = and_(go, or_(not_(OV(i)), T("truth", r.n.ret)))
            W = [e for e in ws if e.no > r.no and flow.implies(subst(and_(s.A, e.g), m), hit)]
            R = [c for c in st if c.no > r.no and flow.implies(subst(and_(s.A, c.g), m), hit)]
            cov = [e for e in W if e.n.loc is ve.ext(nd, ("f", "m_branch"), ("e", num(i)), ("f", "m_rect"))]
            used |= set(W) | set(R)
            ok = len(W) == 1 and cov == W and any(c.n.ret is W[0].n.val and c.no > r.no and norm(c.n.args[0]) is norm(a[2]) for c in s.calls("NodeCover", 1))
            rep.ob(ok, "the cover of the branch is recomputed after a removal (%d of %d)" % (i + 1, n), P.loc(r.n.l), "rem.cover")
            ri = [c for c in R if c.n.f["n"] == "ReInsert" and norm(c.n.args[0]) is norm(a[2]) and c.n.args[1] is s.arg(3)]
            dc = [c for c in R if c.n.f["n"] == "DisconnectBranch" and c.n.args[0] is s.arg(2) and c.n.args[1] is num(i)]
            ok = len(ri) == 1 and len(dc) == 1 and len(R) == 2 and ri[0].no < dc[0].no and s.eq(ri[0].g, dc[0].g, m)
            rep.ob(ok, "a dropped branch is queued for reinsertion (%d of %d)" % (i + 1, n), P.loc(r.n.l), "rem.drop", "%d queued, %d dropped" % (len(ri), len(dc)))
            if ok and W:
                rep.ob(s.eq(or_(W[0].g, dc[0].g), hit, m) and flow.taut(not_(subst(and_(s.A, W[0].g, dc[0].g), m))), "after a removal the branch is either covered anew or dropped (%d of %d)" % (i + 1, n), P.loc(r.n.l), "rem.either")
        rep.ob(done == set(range(n)), "removal considers every branch of a node with %d" % n, s.W, "rem.all", "only %s" % sorted(done))
        # leaf: the entries are tested by identity
        lf = [c for c in s.calls("DisconnectBranch", 2) if c not in used]
        miss = TRUE
        hits = set()
        for c in lf:
            if c.n.args[0] is not s.arg(2):
                return rep.bad("removal takes an entry from another node", P.loc(c.n.l), "leaf.node", show(c.n.args[0], 4))
            for x in leaves(c.n.args[1]):
                g = flow.expand(and_(c.g, eq(c.n.args[1], x))) if x is not c.n.args[1] else c.g
                if flow.taut(not_(and_(s.A, norm(g)))):
                    continue
                i = numval(x) if is_num(x) else None
                if i is None or i in hits or not 0 <= i < n:
                    return rep.bad("removal takes something other than one of the node's entries", P.loc(c.n.l), "leaf.what", show(c.n.args[1], 4))
                hits.add(i)
                same = eq(s.kid(nd, int(i)), s.arg(1))
                rep.ob(flow.equiv(norm(and_(s.A, g)), and_(s.A, not_(I), same, miss)), "exactly the given entry is removed (%d of %d)" % (i + 1, n), P.loc(c.n.l), "leaf.same", show(assume_(s, c.g), 5)[:200])
                miss = and_(miss, not_(same))
        rep.ob(hits == set(range(n)), "removal looks at every entry of a leaf with %d" % n, s.W, "leaf.all")
        extra = [e for e in ws if e not in used] + [c for c in s.calls("ReInsert", 2) if c not in used]
        rep.ob(not extra, "removal changes nothing else (%d)" % n, P.loc(extra[0].n.l) if extra else s.W, "rem.extra")
        got = norm(flow.expand(subst(and_(s.A, truth(s.v.ret)), m)))
        rep.ob(flow.equiv(got, and_(s.A, or_(and_(I, go), and_(not_(I), miss)))), "removal reports whether the entry was found (%d)" % n, s.W, "rem.ret", show(assume_(s, s.v.ret), 5)[:200])


def remove(P, rep, f, N):
    s = S(P, None, None, f=f)
    rl = s.node(2)
    root = s.rd(rl)
    rec = s.calls("RemoveRectRec", 4)
    if len(rec) != 1 or rec[0].loops:
        return rep.bad("a removal does not descend exactly once", s.W, "rroot.rec")
    r = rec[0]
    a = r.n.args
    q = ptr(a[3])
    rep.ob(s.eq(r.g, TRUE) and a[0] is s.arg(0) and a[1] is s.arg(1) and a[2] is root and s.v.peek(q, r.n.st).op == "null", "a removal descends from the root with nothing queued", P.loc(r.n.l), "rroot.args")
    miss = T("truth", r.n.ret)
    rep.ob(s.eq(truth(s.v.ret), miss), "a removal reports whether the entry was found", s.W, "rroot.ret", show(s.v.ret, 4)[:200])
    ins = s.calls("InsertRect", 4)
    if len(ins) != 1 or len(ins[0].loops) != 2:
        rep.bad("branches of dropped nodes are not reinserted by one pass over queue and branches", s.W, "re.none", "%d" % len(ins))
    else:
        c = ins[0]
        outer, inner = sorted(c.loops, key=lambda l: l.info["id"])
        a = c.n.args
        k = inner.info["k"]
        lv, rect, id_ = norm(a[3]), a[0], norm(a[1])
        nodes_ = [ptr(x) for x in walk(T("pair", lv, rect, id_)) if x.op in ("get", "init", "phi") and s.P.ty(s.v.ltype.get(x, -1) if False else 0) is not None]
        # the node the branches come from: the pointer whose level is passed on
        src = owner(lv, LEV)
        ok = src is not None and rect.op == "addr" and rect.args[0] is ve.ext(src, ("f", "m_branch"), ("e", k), ("f", "m_rect")) and id_ is norm(s.v.peek(ve.ext(src, ("f", "m_branch"), ("e", k), ("f", ""), ("f", "m_child")), c.n.st)) \
            and a[2] is s.arg(2)
        rep.ob(ok, "each branch of a dropped node is reinserted with its own rectangle at its level", P.loc(c.n.l), "re.args", "%s %s %s" % (show(rect, 4), show(id_, 4), show(lv, 4)))
        if src is not None:
            t = norm(s.v.peek(ve.ext(src, ("f", CNT)), c.n.st))
            rep.ob(inner.info["full"] and inner.info["trip"] is not None and owner(inner.info["trip"], CNT) is src, "all branches of a dropped node are reinserted", P.loc(c.n.l), "re.all", "%s of %s" % (show(inner.info["trip"], 4), show(t, 4)))
        ph = outer.info.get("cond")
        ok = not outer.info["early"] and flow.equiv(and_(s.A, inloop(c, s.evs, outer)), and_(s.A, not_(miss))) 
        rep.ob(ok, "reinsertion follows every successful removal", P.loc(c.n.l), "re.when", show(assume_(s, c.g), 5)[:200])
        # the queue advances by its own link
        qs = [e for e in s.writes(lambda l: l is q) if outer in e.loops]
        ok = len(qs) == 1 and owner(qs[0].n.val, "m_next") is not None and qs[0].no > c.no and inner not in qs[0].loops
        nn = owner(qs[0].n.val, "m_next") if ok else None
        ok = ok and src is not None and src.args[0][0] == "D" and owner(src.args[0][1], "m_node") is nn
        rep.ob(ok, "the queue of dropped nodes is worked off entry by entry", P.loc(qs[0].n.l) if qs else s.W, "re.next")
        fr = [e for e in s.calls("FreeNode", 1) if outer in e.loops]
        ok = len(fr) == 1 and fr[0].no > c.no and inner not in fr[0].loops and src is not None and ptr(norm(fr[0].n.args[0])) is src
        rep.ob(ok, "a dropped node is released after its branches were taken", P.loc(fr[0].n.l) if fr else s.W, "re.free")
    fin = s.rd(rl, st=s.v.st)
    hit = when(fin, miss, False)
    rep.ob(when(fin, miss, True) is root, "nothing changes when the entry is not found", s.W, "rroot.keep", show(fin, 4)[:200])
    if hit.op != "ite":
        return rep.bad("a root with one branch is not replaced by it", s.W, "rroot.collapse", show(hit, 4)[:200])
    c, x, y = hit.args
    if owner(x, "m_child") is None:
        c, x, y = not_(c), y, x
    nd = ptr(y)
    named = lambda n: [z for z in walk(c) if z.op in ("init", "get", "phi", "after", "fresh") and show(z, 9).endswith("." + n)]
    ct, lv = named(CNT), named(LEV)
    ok = bool(ct) and bool(lv) and any(flow.equiv(c, and_(one, lt(ZERO, lv[0], integer=True))) for one in (eq(ct[0], ONE), lt(ct[0], num(2), integer=True)))
    rep.ob(ok, "the root is dropped only when internal with a single branch", s.W, "rroot.cond", show(c, 8)[:200])
    rep.ob(x.op != "ite" and "m_child" in show(x, 8) and ix(x) == 0, "the only branch of a dropped root becomes the root", s.W, "rroot.child", show(x, 6)[:200])


def when(t, c, pol):
    """A value given that a condition holds or not."""
    return subst(t, {c: TRUE if pol else FALSE}) if isinstance(t, Term) else t


def ix(x):
    for z in walk(x):
        if z.op == "init":
            for st in z.args[0].args[1]:
                if st[0] == "e":
                    return numval(tm_(st[1])) if is_num(tm_(st[1])) else None
        if z.op == "get":
            for st in z.args[1:]:
                if isinstance(st, tuple) and st[0] == "e":
                    return numval(tm_(st[1])) if is_num(tm_(st[1])) else None
    return None


def inloop(c, evs, outer):
    """Condition under which the outer loop is reached."""
    return next(e.g for e in evs if e.kind == "loop" and e.n is outer)


def owner(t, field):
    """Location of the object whose field a term reads."""
    if t is None or not isinstance(t, Term):
        return None
    if t.op in ("init", "after", "phi", "fresh"):
        for l in t.args:
            if isinstance(l, Term) and l.op == "loc" and l.args[1] and l.args[1][-1] == ("f", field):
                return ve.LOC(l.args[0], l.args[1][:-1])
    return None


def reinsert(P, rep, f, N):
    s = S(P, None, None, f=f)
    q = s.node(1)
    new = s.rd(q, st=s.v.st)
    al = s.calls("AllocListNode", 0)
    ok = len(al) == 1 and new is al[0].n.ret
    rep.ob(ok, "a dropped node is queued in front", s.W, "queue.new", show(new, 4))
    if ok:
        rep.ob(s.rd(ptr(new), "m_node", st=s.v.st) is s.arg(0), "the queue refers to the dropped node", s.W, "queue.node")
        rep.ob(s.rd(ptr(new), "m_next", st=s.v.st) is s.rd(q), "what was queued stays queued", s.W, "queue.next")


def getbranches(P, rep, f, N):
    s = S(P, None, None, node=0, count=N, f=f)
    nd, pv, F_ = s.node(0), s.node(2), s.v.st
    for i in range(N):
        for k in ("m_min", "m_max"):
            for q in (0, 1):
                rep.ob(s.rd(pv, "m_branchBuf", i, "m_rect", k, q, st=F_) is s.rd(nd, "m_branch", i, "m_rect", k, q), "division takes rectangle %d over" % i, s.W, "buf.rect")
        rep.ob(pay(s, ve.ext(pv, ("f", "m_branchBuf"), ("e", num(i))), F_) is s.kid(nd, i), "division takes branch %d over" % i, s.W, "buf.old", show(s.rd(pv, "m_branchBuf", i, st=F_), 4))
    ok = pay(s, ve.ext(pv, ("f", "m_branchBuf"), ("e", num(N))), F_) is pay(s, s.node(1)) and s.rd(pv, "m_branchBuf", N, "m_rect", "m_max", 1, st=F_) is s.rd(s.node(1), "m_rect", "m_max", 1)
    rep.ob(ok, "division takes the new branch over", s.W, "buf.new", show(s.rd(pv, "m_branchBuf", N, st=F_), 4))
    rep.ob(s.rd(pv, "m_branchCount", st=F_) is num(N + 1), "division counts all branches", s.W, "buf.count", show(s.rd(pv, "m_branchCount", st=F_), 4))
    rep.ob(s.rd(nd, CNT, st=F_) is ZERO, "a divided node is emptied first", s.W, "buf.empty", show(s.rd(nd, CNT, st=F_), 4))


def untaken(s, e, i, pv):
    """The branch with this number is known not to be assigned yet when the event happens."""
    for a in flow.atoms(e.g):
        if a.op in ("truth", "eq0") and "m_taken" in show(a, 9) and any(x is i for x in walk(a)) and flow.implies(and_(s.A, e.g), a if a.op == "eq0" else not_(a)):
            return True
    return False


def choose(P, rep, f, N):
    s = S(P, None, None, f=f)
    pv = s.node(0)
    tot = s.rd(pv, "m_branchCount")
    sd = s.calls("PickSeeds", 1)
    rep.ob(len(sd) == 1 and s.eq(sd[0].g, TRUE) and not sd[0].loops and sd[0].n.args[0] is s.arg(0), "two groups are started", s.W, "div.seeds")
    if len(sd) == 1:
        st = sd[0].n.st
        k = T("idx", "any")
        tk = s.v.peek(ve.ext(pv, ("f", "m_taken"), ("e", num(3))), st)
        ini = [e for e in s.writes(lambda l: l.args[0] == pv.args[0] and l.args[1] and l.args[1][0] == ("f", "m_taken")) if e.no < sd[0].no]
        ok = len(ini) == 1 and len(ini[0].loops) == 1 and ini[0].loops[0].info["full"] and ini[0].loops[0].info["trip"] is tot and truth(ini[0].n.val) is FALSE and ini[0].n.loc.args[1][1] == ("e", ini[0].loops[0].info["k"])
        rep.ob(ok, "no branch is assigned when a division starts", s.W, "div.init")
        rep.ob(s.rd(pv, "m_total", st=st) is tot, "division is over all branches", s.W, "div.total", show(s.rd(pv, "m_total", st=st), 4))
        rep.ob(all(s.rd(pv, "m_count", g, st=st) is ZERO for g in (0, 1)), "both groups start empty", s.W, "div.zero")
    last = None
    for c in s.calls("Classify", 3):
        i, g = c.n.args[0], c.n.args[1]
        bad = [x for x in leaves(g) if not (is_num(x) and numval(x) in (0, 1))]
        ok = not bad or all(chosen(s, x, c, lambda e: all(is_num(y) and numval(y) in (0, 1) for y in leaves(e.n.val))) for x in bad)
        rep.ob(ok, "a branch is put into one of the two groups", P.loc(c.n.l), "div.group", show(g, 4))
        lp = c.loops[-1] if c.loops else None
        if lp is not None and i is lp.info["k"]:
            ok = untaken(s, c, i, pv)
            if lp.info["full"] and lp.info["trip"] is tot and len(c.loops) == 1:
                last = c
        else:
            ok = chosen(s, i, c, lambda e: e.loops and e.n.val is e.loops[-1].info["k"] and e.loops[-1].info["full"] and e.loops[-1].info["trip"] is tot and untaken(s, e, e.n.val, pv))
        rep.ob(ok, "only branches without a group are put into one", P.loc(c.n.l), "div.once", show(i, 4))
    if last is None:
        return rep.bad("branches left over are not put into a group", s.W, "div.rest")
    lg = next(e.g for e in s.evs if e.kind == "loop" and e.n is last.loops[0])
    st = last.n.st
    for e in s.evs:
        if e.kind == "loop" and e.n is last.loops[0]:
            break
    both = [x for x in flow.atoms(lg) if x.op == "lt0"]
    ok = s.eq(lg, TRUE) or (len(both) == 1 and s.eq(lg, both[0]) and remaining(both[0], tot))
    rep.ob(ok, "branches left over are put into a group whenever there are any", P.loc(last.n.l), "div.left", show(lg, 6)[:200])
    g = and_(*[x for x in flow.atoms(last.g) if "m_taken" not in show(x, 9)])
    rep.ob(flow.equiv(and_(s.A, last.g), and_(s.A, lg, *[x if x.op == "eq0" else not_(x) for x in flow.atoms(last.g) if "m_taken" in show(x, 9)])), "every branch left over is put into a group", P.loc(last.n.l), "div.every")


def remaining(a, tot):
    """count[0] + count[1] - total < 0"""
    p = add(a.args[0], tot)
    cs = [x for x in walk(p) if owner2(x)]
    tops = {}
    for x in cs:
        tops[owner2(x)] = x
    return len(tops) == 2 and p is add(*tops.values())


def owner2(x):
    """Which group's size a term is, or None."""
    if x.op == "get" and len(x.args) == 2 and isinstance(x.args[1], tuple) and x.args[1][0] == "e" and is_num(tm_(x.args[1][1])):
        b = x.args[0]
        if b.op in ("after", "init", "phi", "fresh") and any(isinstance(l, Term) and l.op == "loc" and l.args[1] and l.args[1][-1] == ("f", "m_count") for l in b.args):
            return "g%d" % numval(tm_(x.args[1][1]))
    if x.op in ("after", "init") and any(isinstance(l, Term) and l.op == "loc" and len(l.args[1]) > 1 and l.args[1][-2] == ("f", "m_count") for l in x.args):
        l = [l for l in x.args if isinstance(l, Term) and l.op == "loc"][0]
        return "g" + show(tm_(l.args[1][-1][1]), 2)
    return None


def chosen(s, t, c, pred):
    """Every assignment that may reach the local variable behind a loop value satisfies the predicate."""
    ls = [l for l in t.args if isinstance(l, Term) and l.op == "loc"] if t.op in ("after", "phi") else []
    if not ls:
        return False
    ws = [e for e in s.writes(lambda l: l is ls[0]) if e.no < c.no and not undef(e.n.val)]
    return bool(ws) and all(pred(e) for e in ws)


def undef(v):
    return isinstance(v, Term) and v.op == "fresh" and str(v.args[0]).startswith("undef")


def seeds(P, rep, f, N):
    s = S(P, None, None, f=f)
    pv = s.node(0)
    cs = s.calls("Classify", 3)
    rep.ob(len(cs) == 2 and all(s.eq(c.g, TRUE) and not c.loops and c.n.args[2] is s.arg(0) for c in cs) and {c.n.args[1] for c in cs} == {ZERO, ONE}, "one branch starts each group", s.W, "seed.two", "%d" % len(cs))
    if len(cs) != 2:
        return
    tot = s.rd(pv, "m_total")
    ws = []
    for c in cs:
        t = c.n.args[0]
        ls = [l for l in t.args if isinstance(l, Term) and l.op == "loc"] if t.op in ("after", "phi") else []
        ws.append([e for e in s.writes(lambda l: l is ls[0]) if not undef(e.n.val)] if ls else [])
    ok = len(ws[0]) == len(ws[1]) == 1 and ws[0][0].n.loc is not ws[1][0].n.loc and ws[0][0].g is ws[1][0].g and ws[0][0].loops == ws[1][0].loops
    rep.ob(ok, "the two starting branches are chosen together", s.W, "seed.pair")
    if not ok:
        return
    a, b = ws[0][0].n.val, ws[1][0].n.val
    ks = [l.info["k"] for l in ws[0][0].loops]
    d = sub(a, b)
    pos = [x for x in (d, neg(d))]
    # distinct for all iterations: the difference is one plus a loop counter, or a test rules equality out
    ok = any(x is add(k, ONE) for x in pos for k in ks) or any(flow.implies(ws[0][0].g, not_(q)) for q in (eq(a, b),)) or any(flow.implies(ws[0][0].g, q) for q in (lt(a, b, integer=True), lt(b, a, integer=True)))
    rep.ob(ok, "the two starting branches are different", P.loc(ws[0][0].n.l), "seed.distinct", "%s, %s" % (show(a, 4), show(b, 4)))


def classify(P, rep, f, N):
    s = S(P, None, None, f=f)
    pv, i, g, F_ = s.node(2), s.arg(0), s.arg(1), s.v.st
    rep.ob(s.rd(pv, "m_partition", i, st=F_) is g, "a branch is recorded in its group", s.W, "cls.group", show(s.rd(pv, "m_partition", i, st=F_), 4))
    rep.ob(truth(s.rd(pv, "m_taken", i, st=F_)) is TRUE, "a branch with a group is not considered again", s.W, "cls.taken")
    rep.ob(s.rd(pv, "m_count", g, st=F_) is add(s.rd(pv, "m_count", g), ONE), "a group counts its branches", s.W, "cls.count", show(s.rd(pv, "m_count", g, st=F_), 4))
    for e in s.writes(lambda l: l.args[0] == pv.args[0] and l.args[1][0][1] in ("m_partition", "m_taken", "m_count", "m_total", "m_branchBuf", "m_minFill")):
        st = e.n.loc.args[1]
        ok = st[0][1] in ("m_partition", "m_taken", "m_count") and len(st) == 2 and st[1] == ("e", g if st[0][1] == "m_count" else i) and not e.loops
        rep.ob(ok, "putting a branch into a group leaves the others alone", P.loc(e.n.l), "cls.other", show(e.n.loc, 4))


def loadnodes(P, rep, f, N):
    for n in (2, N + 1):
        def setup(v):
            v._put(ve.ext(ptr(v.read(v.args[2], note=False)), ("f", "m_total")), num(n))
        s = S(P, None, None, f=f, setup=setup)
        pv = s.node(2)
        got = {}
        for c in s.calls("AddBranch", 3):
            l = ptr(c.n.args[0])
            i = next((j for j in range(n) if l is ve.ext(pv, ("f", "m_branchBuf"), ("e", num(j))) or s.v.peek(l, c.n.st) is s.rd(pv, "m_branchBuf", j)), None)
            g = {s.arg(0): 0, s.arg(1): 1}.get(c.n.args[1])
            if i is None or g is None or (i, g) in got or c.loops:
                rep.bad("a division hands over something other than its branches", P.loc(c.n.l), "load.what", show(c.n.args[0], 4))
                continue
            got[i, g] = c
            p = s.rd(pv, "m_partition", i)
            # partition values are 0 or 1
            two = and_(or_(eq(p, ZERO), eq(p, ONE)), not_(and_(eq(p, ZERO), eq(p, ONE))))
            rep.ob(flow.equiv(and_(s.A, two, c.g), and_(s.A, two, eq(p, num(g)))), "branch %d goes to the node of its group" % i, P.loc(c.n.l), "load.guard", show(assume_(s, c.g), 5)[:200])
        rep.ob(len(got) == 2 * n, "every branch of %d is handed over" % n, s.W, "load.all", "%d" % len(got))


def split(P, rep, f, N):
    s = S(P, None, None, f=f)
    nd = s.node(0)
    lev = s.rd(nd, LEV)
    al, gb, cp, ln = s.calls("AllocNode", 0), s.calls("GetBranches", 3), s.calls("ChoosePartition", 2), s.calls("LoadNodes", 3)
    ok = all(len(x) == 1 and not x[0].loops and s.eq(x[0].g, TRUE) for x in (al, gb, cp, ln)) 
    ok = ok and gb[0].no < cp[0].no < ln[0].no and al[0].no < ln[0].no
    rep.ob(ok, "a division collects, partitions and hands over all branches", s.W, "split.steps")
    if not ok:
        return
    pv = gb[0].n.args[2]
    rep.ob(gb[0].n.args[0] is s.arg(0) and gb[0].n.args[1] is s.arg(1) and cp[0].n.args[0] is pv and ln[0].n.args[2] is pv, "a division works on the full node and the new branch", s.W, "split.args")
    new = al[0].n.ret
    rep.ob({ln[0].n.args[0], ln[0].n.args[1]} == {s.arg(0), new}, "the branches go to the old node and a new one", s.W, "split.nodes")
    rep.ob(s.rd(s.node(2), st=s.v.st) is new, "the new node is handed to the caller", s.W, "split.out")
    for l, w in ((nd, "old"), (ptr(new), "new")):
        got = s.rd(l, LEV, st=s.v.st)
        rep.ob(got is lev, "the %s node keeps the level" % w, s.W, "split.level", show(got, 4))


def alloc(P, rep, f, N):
    s = S(P, None, None, f=f)
    r = s.v.ret
    rep.ob(r is not None and s.rd(ptr(r), CNT, st=s.v.st) is ZERO, "a new node is empty", s.W, "alloc", show(s.rd(ptr(r), CNT, st=s.v.st), 4))


def removeall(P, rep, f, N):
    for n in (0, 1, N):
        s = S(P, None, None, node=0, count=n, f=f)
        nd = s.node(0)
        I = lt(ZERO, s.rd(nd, LEV), integer=True)
        done = set()
        fr = s.calls("FreeNode", 1)
        ok = len(fr) == 1 and fr[0].n.args[0] is s.arg(0) and s.eq(fr[0].g, TRUE) and not fr[0].loops
        rep.ob(ok, "clearing releases a node once", s.W, "clear.free")
        for c in s.calls("RemoveAllRec", 1):
            i = next((j for j in range(n) if norm(c.n.args[0]) is s.kid(nd, j)), None)
            rep.ob(i is not None and i not in done and s.eq(c.g, I) and ok and c.no < fr[0].no, "clearing descends into each branch before its node is released", P.loc(c.n.l), "clear.down", show(c.n.args[0], 4))
            done.add(i)
        rep.ob(done == set(range(n)), "clearing descends into all %d branches" % n, s.W, "clear.all")


def clear(P, rep, f, N):
    s = S(P, None, None, f=f)
    root = at(s.v, ["m_root"])
    al = s.calls("AllocNode", 0)
    got = s.rd(root, st=s.v.st)
    ok = len(al) == 1 and got is al[0].n.ret
    rep.ob(ok, "a fresh index has a new root", s.W, "fresh.root", show(got, 4))
    if ok:
        rep.ob(s.rd(ptr(got), LEV, st=s.v.st) is ZERO, "a fresh index is a single leaf", s.W, "fresh.level")
    ra = s.calls("RemoveAllRec", 1)
    if f["n"] == "RemoveAll":
        rep.ob(len(ra) == 1 and ra[0].n.args[0] is s.rd(root) and s.eq(ra[0].g, TRUE) and ra[0].no < (al[0].no if al else 0), "clearing drops everything stored", s.W, "fresh.clear")
    else:
        rep.ob(not ra, "a new index has nothing to drop", s.W, "fresh.new")
