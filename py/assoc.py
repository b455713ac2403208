"""The cluster's association step: evaluated once, shared by the checks about it."""
from common import *
import tracker
import flow

CLUSTER = "lmb::Cluster_"
PDFOPS = ("correct", "missed", "join", "transform_to_local", "transform_to_global")


class Opaque(tracker.Cfg):
    """Operations of the density class are symbols; everything else of the cluster update is inlined."""

    def is_opaque(self, f):
        return (f["n"] in PDFOPS and bool(f.get("rec") is not None) and isdensity(self.P, f)) or super().is_opaque(f)


def isdensity(P, f):
    r = P.recs[f["rec"]] if isinstance(f.get("rec"), int) else None
    return r is not None and r["qual"] in ("lmb::GM", "lmb::PF")


def evaluate_cluster(P, f):
    c = Opaque()
    c.P = P
    return tracker.evalf(P, f, c)


def cell(loc):
    """(root, row, column) of a matrix cell addressed through blocks, or None."""
    root, steps = loc.args
    n = len(steps)
    i = n
    while i and steps[i - 1][0] in ("v", "m"):
        i -= 1
    r = c = ZERO
    for s in steps[i:]:
        r, c = add(r, tm(s[1])), add(c, tm(s[2]))
    if not n or steps[-1][0] != "m":
        return None
    return ve.LOC(root, steps[:i]), r, c


def under(loc):
    root, steps = loc.args
    i = len(steps)
    while i and steps[i - 1][0] in ("v", "m"):
        i -= 1
    return ve.LOC(root, steps[:i])


def axis(e, ix, n):
    """The loop that runs an index term over 0..n-1 exactly once each, or None."""
    for l in e.loops:
        i = l.info
        if i["full"] and i["trip"] is n and (ix is i["k"] or ix is sub(sub(n, ONE), i["k"])):
            return l
    return None


def live(e, *ns):
    """Guard of an event given that the collections are not empty."""
    f = {}
    for n in ns:
        f[eq(n, ZERO)] = False
        f[lt(ZERO, n)] = True
    return assume(e.g, f)


def constant(P, t):
    """Numeric value of a literal or of a namespace-scope constant."""
    if is_num(t):
        return float(numval(t))
    if t.op == "lit":
        return float(t.args[0])
    x = glob(P, t)
    if x is None:
        return None
    while x and x.get("k") in ("cast", "paren"):
        x = x["e"]
    if x and x.get("k") in ("int", "float", "flt", "fl", "double") and "v" in x:
        return float(x["v"])
    if x and x.get("k") == "call" and isinstance(x.get("fn"), int) and P.fns[x["fn"]]["n"] == "infinity":
        return float("inf")
    return None


def glob(P, t):
    name = None
    for x in ([t] if t.op != "init" else [t.args[0]]):
        if x.op == "loc" and x.args[0][0] == "G":
            name = x.args[0][1]
    for g in (P.globs.values() if isinstance(P.globs, dict) else P.globs):
        if name is not None and g.get("q") == name:
            return g.get("init")
    return None


def calls(evs, *names):
    return [e for e in evs if e.kind == "call" and e.n.f is not None and e.n.f["n"] in names]


def tm(x):
    return x if isinstance(x, Term) else num(x)
