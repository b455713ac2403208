"""Evaluation of the tracker's operations for the tracker-level checks."""
import ve
import flow
from terms import *
from ir import AnalysisError

TREE = "lmb::TargetTree_"
TRACKER = "lmb::SILMB"


def kids(x):
    if isinstance(x, dict):
        return [y for y in x.values() if isinstance(y, (dict, list))]
    return [y for y in x if isinstance(y, (dict, list))]


def callees(x, out):
    """Functions an expression or statement tree refers to (calls, constructors, function values, lambdas)."""
    if isinstance(x, dict):
        for key in ("fn", "ctor", "dtor", "call"):
            if isinstance(x.get(key), int):
                out.add(x[key])
    if isinstance(x, dict) and x.get("k") == "lambda":
        for i in x.get("fns", ()):
            out.add(i)
    for y in kids(x):
        callees(y, out)


def direct(P, f):
    s = set()
    callees(f["body"], s)
    for x in f.get("inits", ()):
        callees(x, s)
    return s


def scalarquery(f):
    return f["q"].startswith("cf::") and not f["q"].endswith("_i")


DENSITY_PURE = ("mean", "cov", "pD", "within")


class Cfg(ve.Config):
    """Spatial index, assignment solver and pure density queries are symbols; everything else is inlined."""

    def __init__(self, opaque=(), pure=DENSITY_PURE, reads=False, keep=()):
        super().__init__(reads=reads)
        self.oq = opaque
        self.pq = pure
        self.keep = keep
        self.v = None

    def is_opaque(self, f):
        q = f["q"]
        if q in self.keep:
            return False
        return q in self.oq or q.startswith("RTree::") or q in ("lap::Murty::draw", "lap::Murty::Murty") or (
            q.startswith("lap::lap") and not f.get("method"))

    def is_pure(self, f):
        if f["q"] in self.keep:
            return False
        if scalarquery(f):
            return True
        return bool(f.get("const") and f["n"] in self.pq and f.get("method"))


def evalf(P, f, cfg=None):
    c = cfg or Cfg()
    v = ve.VE(P, c)
    c.v = v
    v.run(f)
    return v


def methods(P, roots=True):
    """Operations of the tracker class: its methods that no other tracker method calls."""
    fs = [f for f in P.fns if f.get("method") and f.get("repo") and "body" in f and f["q"].startswith(TRACKER + "::")
          and not f.get("ctor") and not f.get("dtor") and "~" not in f["n"]]
    if not fs:
        raise AnalysisError("no tracker methods found")
    return entries(P, fs) if roots else fs


def entries(P, fs):
    """Those of the functions that no other of them reaches (overloads of one name count as one)."""
    ids = {f["id"] for f in fs}
    helper = set()
    for f in fs:
        for i in reach(P, direct(P, f)):
            if i in ids and P.fns[i]["n"] != f["n"]:
                helper.add(i)
    return [f for f in fs if f["id"] not in helper]


def reach(P, start):
    seen = set()
    todo = set(start)
    while todo:
        i = todo.pop()
        if i in seen:
            continue
        seen.add(i)
        f = P.fns[i]
        if f.get("repo") and "body" in f:
            todo |= direct(P, f) - seen
    return seen


def rec_at(v, loc):
    t = v.ltype.get(loc)
    if t is None:
        return None
    r = v.p.rec_of(t)
    return r["qual"] if r is not None else None


def inner(v, loc, rec):
    """Steps below the outermost object of a record type on the location's own path (not through pointers), or None."""
    if loc is None or loc.op != "loc":
        return None
    root, steps = loc.args
    for n in range(len(steps) + 1):
        if rec_at(v, ve.LOC(root, steps[:n])) == rec:
            return steps[n:]
    return None


def sig(P, f):
    return "%s(%s)" % (f["q"].split("::")[-1], ",".join(P.ty(P.unref(p["t"])).get("s", "?").split("::")[-1][:24] for p in f["params"]))


# ------------------------------------------------------------------ targets and the index over them
K = T("idx", "any")


def element(ptr):
    """(collection location, index) of a pointer that is an element of a collection as it was on entry."""
    if ptr.op == "init":
        root, steps = ptr.args[0].args
        if steps and steps[-1][0] == "e":
            return ve.LOC(root, steps[:-1]), steps[-1][1]
    return None


class Each:
    """An event that happens for the elements of a collection: once each, under a guard over element K."""

    def __init__(self, e, coll, guard, ok, why):
        self.e, self.coll, self.guard, self.ok, self.why = e, coll, guard, ok, why


def foreach(v, e, ptr, n=None):
    el_ = element(ptr)
    if el_ is None:
        return Each(e, None, e.g, False, "not an element of the operation's target list")
    coll, ix = el_
    n = n or size(v.peek(coll, v.st0))
    if len(e.loops) != 1:
        return Each(e, coll, e.g, False, "inside %d loops" % len(e.loops))
    i = e.loops[0].info
    g = assume(e.g, {eq(n, ZERO): False})
    if not i["full"] or i["trip"] is not n:
        return Each(e, coll, g, False, "the loop does not visit every element exactly once")
    if ix is i["k"]:
        return Each(e, coll, subst(g, {i["k"]: K}), True, "")
    if ix is sub(sub(n, ONE), i["k"]):
        return Each(e, coll, subst(g, {i["k"]: sub(sub(n, ONE), K)}), True, "")
    return Each(e, coll, g, False, "the loop does not address element by element")


def box_fn(P, f):
    """The bounding-box query of the objects an index operation stores."""
    ty = P.ty(P.unref(f["params"][2]["t"]))
    rid = P.ty(ty["to"]).get("rec") if ty["k"] == "ptr" else None
    fs = [g for g in P.fns if g.get("method") and "body" in g and g["n"] == "llaabbox" and not g["params"] and g["rec"] == rid]
    if not fs:
        raise AnalysisError("no bounding box query for the indexed objects")
    return fs[0]


def pointee(v, ptr):
    loc = ve.LOC(("D", ptr))
    return loc


def rect(v, a, st):
    """The array an index argument points to."""
    if isinstance(a, Term) and a.op == "addr":
        loc = a.args[0]
        root, steps = loc.args
        if steps and steps[-1][0] == "e" and steps[-1][1] is ZERO:
            return v.peek(ve.LOC(root, steps[:-1]), st)
    return None


def box(P, v, n, st):
    """Box of the object an index operation n is about, in a state."""
    return v.query(box_fn(P, n.f), pointee(v, n.args[2]), st=st)


def samerect(v, n, b):
    return all(r is not None and (r is m or all(get(r, ("e", num(i))) is get(m, ("e", num(i))) for i in (0, 1)))
               for r, m in ((rect(v, n.args[0], n.st), get(b, ("f", "min"))), (rect(v, n.args[1], n.st), get(b, ("f", "max")))))


def listloc(v, loc):
    """Whether a location is the tree's list of targets."""
    st = inner(v, loc, TREE)
    return st is not None and len(st) == 1 and isinstance(v.ltype.get(loc), int) and (v.p.rec_of(v.ltype[loc]) or {}).get("qual") == "std::vector"


# ------------------------------------------------------------------ parameters
PARAMS = "lmb::Params"


def canon(v, t):
    """A term with every entry value of a parameter replaced by the parameter's name (there is one parameter set per tracker)."""
    m = {}
    names = {f["n"] for r in v.p.recs if r["qual"] == PARAMS for f in r["fields"]}
    for x in walk(t):
        if x.op == "init":
            root, steps = x.args[0].args
            if steps and steps[-1][0] == "f" and steps[-1][1] in names and rec_at(v, ve.LOC(root, steps[:-1])) in (PARAMS, None):
                m[x] = T("param", steps[-1][1])
    return subst(t, m) if m else t


def param(n):
    return T("param", n)


def pointer_k(t, ptr):
    """A term about the element a pointer names, over the generic element."""
    e = element(ptr)
    return subst(t, {e[1]: K}) if e is not None and not is_num(e[1]) else t

