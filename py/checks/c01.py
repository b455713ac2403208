from common import *
import race

TITLE = "Parallel loops are free of data races"
EXPLANATION = ("Every function that opens an OpenMP parallel region is evaluated with the region's body inlined; each pair of accesses two "
               "iterations could make to memory existing outside the region is classified by access path (element of this iteration, reduction, "
               "same critical section, thread-local), and every function reachable from a region is searched for unsynchronised mutable globals.")
OPAQUE = ("RTree::Insert", "RTree::Remove", "RTree::RemoveAll", "RTree::Search", "lap::Murty::draw", "lap::Murty::Murty")


class Cfg(ve.Config):
    def __init__(self):
        super().__init__(reads=True)
        self.v = None
        self.memo = {}

    def is_opaque(self, f):
        return self.v.pardepth == 0 or f["q"] in OPAQUE

    def is_pure(self, f):
        """Reads its receiver and arguments only: no side effect, no parallelism, no pointer results."""
        r = self.memo.get(f["id"])
        if r is None:
            self.memo[f["id"]] = False
            r = self.memo[f["id"]] = self.purefn(f)
        return r

    def purefn(self, f):
        P = self.v.p
        if not f.get("repo") or "body" not in f or f.get("ctor") or f.get("lambda") or (f.get("method") and not f.get("static") and not f.get("const")):
            return False
        if P.ty(f["ret"])["k"] in ("void", "ref", "ptr", "rref"):
            return False
        for p in f["params"]:
            ty = P.ty(p["t"])
            if ty["k"] == "ptr" or (ty["k"] in ("ref", "rref") and not P.ty(ty["to"]).get("const")):
                return False
        if race.has_par(f["body"]):
            return False
        muts = []
        mutations(P, f["body"], muts)
        if muts:
            return False
        s = set()
        callees(f["body"], s)
        return all(not P.fns[i].get("repo") or "body" not in P.fns[i] or self.calm(i) for i in s)

    def calm(self, i, depth=0):
        """No parallelism or global mutation below this function."""
        key = ("calm", i)
        r = self.memo.get(key)
        if r is None:
            self.memo[key] = True
            P = self.v.p
            f = P.fns[i]
            muts = []
            mutations(P, f["body"], muts)
            s = set()
            callees(f["body"], s)
            r = not race.has_par(f["body"]) and not muts and all(
                not P.fns[j].get("repo") or "body" not in P.fns[j] or self.calm(j) for j in s)
            self.memo[key] = r
        return r


def evalf(P, f):
    c = Cfg()
    v = ve.VE(P, c)
    c.v = v
    v.run(f)
    return v


def lname(loc):
    return show(loc, 6)


def run(P, rep):
    rep.rule = ("for iterations k != k': accesses A(k), B(k') with at least one write are to different elements (index injective in the iteration), "
                "or both in one critical section, or a reduction, or thread-local/private")
    n = 0
    for f in P.fns:
        if not f.get("repo") or "body" not in f or not race.has_par(f["body"]):
            continue
        v = evalf(P, f)
        regs = list(race.regions(v.nodes))
        if not regs:
            rep.bad("parallel region not reached by the evaluation", where(P, f), f["q"] + ".noregion")
        for reg in regs:
            n += 1
            region(P, rep, f, v, reg)
    rep.count("regions", n)
    globals_reached(P, rep)
    if n < 10:
        raise AnalysisError("only %d parallel regions found" % n)
    rep.assumption("pointers stored in different elements of a target, report or cluster list refer to different objects (the clustering property)")
    rep.assumption("asking a standard container for its size or bounds does not conflict with writes to its elements")


def region(P, rep, f, v, reg):
    W = P.loc(reg.l)
    lp = race.region_loop(reg)
    name = f["q"]
    if "for" in reg.dir and lp is None:
        return rep.bad("work-shared loop not recognised", W, name)
    k = lp.info["k"] if lp is not None else T("idx", "none")
    acc = race.accesses(reg, lp)
    writes = [a for a in acc if a.kind == "w"]
    rep.count("accesses", len(acc))
    rep.count("shared_writes", len(writes))
    bad = {}
    for w in writes:
        g = rootglob(P, w)
        if g is not None and g.get("tls"):
            continue
        for a in acc:
            if w.crit & a.crit:
                continue
            if race.conflict(w, a, k):
                bad.setdefault((w.loc, P.loc(w.node.l)), (w, a))
                break
    for (loc, l), (w, a) in sorted(bad.items(), key=str):
        rep.bad("iterations of the parallel loop race on %s (written at %s, %s at %s)" % (
            lname(loc), l, "written" if a.kind == "w" else "read", P.loc(a.node.l)), W, "%s:%s" % (name, lname(loc)))
    reds = race.reductions(reg)
    for n in nodes(reg.body):
        if n.kind == "write" and n.loc is not None and n.loc.args[0] in reds:
            if n.op not in ("+=", "-=", "++", "--") and reds[n.loc.args[0]] in ("operator+", "operator-", "+", "-"):
                rep.bad("reduction variable %s is assigned, not accumulated" % lname(n.loc), P.loc(n.l), name + ".red")
    if not bad:
        rep.good("iterations touch disjoint memory (%d accesses, %d writes)" % (len(acc), len(writes)), W)


def rootglob(P, a):
    r = a.path[0]
    if r[0] == "root" and r[1][0] == "G":
        for g in P.globs:
            if g["q"] == r[1][1] and (len(r[1]) < 3 or g["d"] == r[1][2]):
                return g
    return None


def kids(x):
    if isinstance(x, dict):
        return [y for y in x.values() if isinstance(y, (dict, list))]
    return [y for y in x if isinstance(y, (dict, list))]


def callees(x, out):
    if isinstance(x, dict):
        for key in ("fn", "ctor", "dtor"):
            if isinstance(x.get(key), int):
                out.add(x[key])
    if isinstance(x, dict) and x.get("k") == "lambda":
        for i in x.get("fns", ()):
            out.add(i)
    for y in kids(x):
        callees(y, out)


def parparts(x, out):
    if isinstance(x, dict) and x.get("k") == "omp" and "parallel" in x.get("dir", ""):
        out.append(x["body"])
        return
    for y in kids(x):
        parparts(y, out)


def isglob(e):
    while isinstance(e, dict) and e.get("k") in ("mem", "idx", "cast", "paren"):
        e = e.get("obj") or e.get("e") or e.get("a") or e.get("b")
    return e if isinstance(e, dict) and e.get("k") == "ref" and e.get("dk") == "global" else None


def mutations(P, x, out, crit=False):
    """Globals this code may modify outside critical sections."""
    if isinstance(x, dict):
        if x.get("k") == "omp" and x.get("dir") == "critical":
            crit = True
        if not crit:
            hit = []
            if x.get("k") == "asg":
                hit.append(x.get("a"))
            elif x.get("k") == "un" and x.get("op") in ("++", "--", "&"):
                hit.append(x.get("e"))
            elif x.get("k") == "call" and isinstance(x.get("fn"), int):
                f = P.fns[x["fn"]]
                if x.get("obj") is not None and not f.get("const"):
                    hit.append(x["obj"])
                for i, a in enumerate(x.get("args", ())):
                    if i < len(f["params"]):
                        ty = P.ty(f["params"][i]["t"])
                        if ty["k"] == "ref" and not P.ty(ty["to"]).get("const"):
                            hit.append(a)
            for h in hit:
                g = isglob(h)
                if g is not None:
                    out.append((g["g"], x.get("l") or g.get("l")))
    for y in kids(x):
        mutations(P, y, out, crit)


def globals_reached(P, rep):
    """Mutable globals modified by any function callable from a parallel region."""
    parts = []
    for f in P.fns:
        if f.get("repo") and "body" in f and race.has_par(f["body"]):
            parparts(f["body"], parts)
    todo = set()
    for x in parts:
        callees(x, todo)
    seen = set()
    while todo:
        i = todo.pop()
        if i in seen:
            continue
        seen.add(i)
        f = P.fns[i]
        if f.get("repo") and "body" in f:
            s = set()
            callees(f["body"], s)
            for x in f.get("inits", ()):
                callees(x, s)
            todo |= s - seen
    n = 0
    bad = {}
    for x in parts + [P.fns[i]["body"] for i in seen if P.fns[i].get("repo") and "body" in P.fns[i]]:
        n += 1
        out = []
        mutations(P, x, out)
        for g, l in out:
            gl = P.globs[g]
            if not gl.get("tls") and not gl.get("const") and gl.get("repo"):
                bad.setdefault(gl["q"], l)
    rep.count("reachable_functions", n)
    for q, l in sorted(bad.items()):
        rep.bad("code running in parallel regions modifies the shared global %s without synchronisation" % q, P.loc(l), "global:" + q)
    if not bad:
        rep.good("no unsynchronised mutable global is modified by the %d functions reachable from parallel regions" % n, "")
