from common import *
import tracker

TITLE = "Lock discipline: no self-deadlock, no cyclic order, no exit by exception"
EXPLANATION = ("Over the call graph (calls, constructors, lambdas, function values): for every critical section and parallel region the critical "
               "sections, barriers and throws reachable from inside it are collected, with the call path.")


class G:
    def __init__(self, P):
        self.P = P
        self.memo = {}

    def items(self, x, skip_par=False):
        """Constructs met when executing x: ('crit', name, node), ('throw', node), ('team', node), ('call', fn id, node)."""
        out = []
        self.walk(x, out)
        return out

    def walk(self, x, out):
        if isinstance(x, dict):
            k = x.get("k")
            if k == "omp":
                d = x.get("dir", "")
                if d == "critical":
                    out.append(("crit", x.get("name"), x))
                    self.walk(x.get("body"), out)
                    return
                if "parallel" in d:
                    inner = []
                    self.walk(x.get("body"), inner)
                    out.append(("par", inner, x))
                    return
                if d in ("barrier", "for", "sections", "single", "taskwait"):
                    out.append(("team", d, x))
                self.walk(x.get("body"), out)
                return
            if k == "throw":
                out.append(("throw", None, x))
            if k == "try":
                inner = []
                self.walk(x.get("body"), inner)
                for it in inner:
                    if it[0] == "throw" and catches(self.P, x, it[2]):
                        continue
                    out.append(("tried", x, it) if it[0] == "call" else it)
                self.walk(x.get("handlers", ()), out)
                return
            for key in ("fn", "ctor", "dtor", "call"):
                if isinstance(x.get(key), int):
                    out.append(("call", x[key], x))
            if k == "lambda":
                for i in x.get("fns", ()):
                    out.append(("call", i, x))
        for y in tracker.kids(x) if isinstance(x, (dict, list)) else ():
            self.walk(y, out)

    def fn(self, i):
        f = self.P.fns[i]
        if not f.get("repo") or "body" not in f:
            return ()
        r = self.memo.get(i)
        if r is None:
            r = []
            self.memo[i] = r
            self.walk(f["body"], r)
            for x in f.get("inits", ()):
                self.walk(x, r)
        return r


def catches(P, tr, th):
    t = throwtype(P, th)
    for h in tr.get("handlers", ()):
        if h.get("any"):
            return True
        ht = h.get("t")
        if ht is not None and t is not None and P.unref(ht) == P.unref(t):
            return True
        r = P.rec_of(ht) if ht is not None else None
        q = P.rec_of(t) if t is not None else None
        if r is not None and q is not None and (r["qual"] == q["qual"] or derives(P, q, r) or r["qual"] == "std::exception"):
            return True
    return False


def derives(P, a, b):
    return any(P.recs[x]["qual"] == b["qual"] or derives(P, P.recs[x], b) for x in a.get("bases", ()))


def throwtype(P, th):
    e = th.get("e")
    return e.get("t") if isinstance(e, dict) else None


def reachable(g, items, kinds, path=(), seen=None, tries=(), inpar=False):
    """(item, call path) of the given kinds reachable when executing these items."""
    seen = set() if seen is None else seen
    for it in items:
        k = it[0]
        if k == "tried":
            yield from reachable(g, [it[2]], kinds, path, seen, tries + (it[1],), inpar)
            continue
        if k == "par":
            if "throw" in kinds or "team" in kinds:
                # a new team: judged at its own region
                sub = tuple(x for x in kinds if x == "crit")
            else:
                sub = kinds
            if sub:
                yield from reachable(g, it[1], sub, path, seen, (), True)
            continue
        if k in kinds:
            if k == "throw" and any(catches(g.P, t, it[2]) for t in tries):
                continue
            yield it, path
        if k == "call":
            key = (it[1], tuple(id(t) for t in tries), kinds)
            if key in seen:
                continue
            seen.add(key)
            yield from reachable(g, g.fn(it[1]), kinds, path + ((it[1], it[2].get("l")),), seen, tries, inpar)


def showpath(P, path):
    return " -> ".join(P.fns[i]["q"] for i, _ in path)


def allomp(x, out):
    if isinstance(x, dict):
        if x.get("k") == "omp":
            out.append(x)
    for y in tracker.kids(x) if isinstance(x, (dict, list)) else ():
        allomp(y, out)


def run(P, rep):
    rep.rule = ("no critical section is reachable from inside one of the same name; acquisition order over names is acyclic; "
                "no throw leaves a critical section or parallel region; no barrier or work-sharing construct binds to a team inside one")
    g = G(P)
    order = {}
    n = 0
    for f in P.fns:
        if not f.get("repo") or "body" not in f:
            continue
        om = []
        allomp(f["body"], om)
        for x in om:
            d = x.get("dir", "")
            W = P.loc(x.get("l"))
            if d == "critical":
                n += 1
                rep.count("critical_sections")
                its = g.items(x.get("body"))
                bad = False
                for it, path in reachable(g, its, ("crit",)):
                    order.setdefault((x.get("name"), it[1]), (W, path, it[2]))
                    if it[1] == x.get("name"):
                        bad = True
                        rep.bad("%s: critical(%s) is entered again while held, at %s%s" % (
                            f["q"], it[1], P.loc(it[2].get("l")), " through " + showpath(P, path) if path else ""), W, "%s.reenter" % f["q"])
                bad |= escapes(P, rep, g, its, f, "critical(%s)" % x.get("name"), W)
                if not bad:
                    rep.good("critical(%s) in %s cannot be re-entered or left by an exception" % (x.get("name"), f["q"]), W)
            elif "parallel" in d:
                n += 1
                rep.count("parallel_regions")
                its = g.items(x.get("body"))
                if not escapes(P, rep, g, its, f, "parallel region", W, skipteam=("for" not in d)):
                    rep.good("parallel region in %s cannot be left by an exception" % f["q"], W)
    for (a, b), (W, path, x) in sorted(order.items(), key=str):
        if a != b and cyc(order, b, a):
            rep.bad("critical(%s) and critical(%s) are acquired in both orders" % (a, b), W, "order.%s.%s" % (a, b))
    if n < 15:
        raise AnalysisError("only %d critical sections and parallel regions found" % n)
    rep.assumption("library code called from regions does not throw (allocation failure aside) and does not call back into the tracker")


def cyc(order, a, b):
    seen, todo = set(), [a]
    while todo:
        x = todo.pop()
        if x == b:
            return True
        if x in seen:
            continue
        seen.add(x)
        todo += [q for p, q in order if p == x]
    return False


def escapes(P, rep, g, its, f, what, W, skipteam=False):
    bad = False
    for it, path in reachable(g, its, ("throw",)):
        bad = True
        rep.bad("%s: an exception thrown at %s leaves the %s%s" % (
            f["q"], P.loc(it[2].get("l")), what, " through " + showpath(P, path) if path else ""), W, "%s.throw" % f["q"])
    if not skipteam:
        for it, path in reachable(g, its, ("team",)):
            bad = True
            rep.bad("%s: omp %s at %s inside the %s" % (f["q"], it[1], P.loc(it[2].get("l")), what), W, "%s.team" % f["q"])
    return bad
