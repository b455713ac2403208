"""Parallel regions: which locations do two iterations share?

Each function that opens a parallel region is evaluated; code before and after the region is
summarised by its calls' signatures, code inside is inlined. Accesses to locations that exist before the
region are compared pairwise across two different iterations.
"""
import ve
from terms import *
from ir import AnalysisError


def has_par(x):
    if isinstance(x, dict):
        if x.get("k") == "omp" and "parallel" in x.get("dir", ""):
            return True
        return any(has_par(v) for v in x.values() if isinstance(v, (dict, list)))
    if isinstance(x, list):
        return any(has_par(v) for v in x)
    return False


class Acc:
    __slots__ = ("path", "kind", "crit", "node", "loc", "atom", "inner")

    def __init__(s, path, kind, crit, node, loc, inner):
        s.path, s.kind, s.crit, s.node, s.loc, s.inner = path, kind, crit, node, loc, inner


def flat(loc):
    """Access path: pointers loaded from a location continue that location's path."""
    root, steps = loc.args
    if root[0] == "D":
        pre = flatval(root[1])
        return pre + (("*",),) + tuple(steps)
    return (("root", root),) + tuple(steps)


def flatval(v):
    if v.op == "init":
        return flat(v.args[0])
    if v.op == "addr":
        return flat(v.args[0])[:-1] if False else flat(v.args[0])
    if v.op == "get":
        return flatval(v.args[0]) + tuple(s for s in v.args[1:])
    if v.op == "after" and len(v.args) > 1 and isinstance(v.args[1], Term) and v.args[1].op == "loc":
        return flat(v.args[1])
    return (("val", v),)


def idxterms(t):
    return {x for x in walk(t) if x.op == "idx"} if isinstance(t, Term) else set()


def linear_in(t, k):
    """t = c*k + rest with a nonzero number c and rest free of any loop index."""
    if not isinstance(t, Term):
        return False
    if t is k:
        return True
    from terms import subst
    d = tsub(subst(t, {k: T("idx", "probe")}), t)
    d = subst(d, {T("idx", "probe"): add(k, ONE)})
    if d.op != "num" or d.args[0] == 0:
        return False
    return not (idxterms(t) - {k})


def tsub(a, b):
    return add(a, mul(num(-1), b))


def distinct_value(t, k):
    """A value read from the iteration's own element that names it: its id."""
    if isinstance(t, Term) and t.op in ("init", "get"):
        p = flatval(t)
        if p and p[-1] == ("f", "id"):
            return any(s[0] == "e" and linear_in(s[1], k) for s in p)
    return False


def as_t(x):
    return x if isinstance(x, Term) else num(x)


def step_rel(a, b, k):
    """Relation of two path steps taken in different iterations: 'same', 'disjoint', 'maybe'."""
    if a[0] != b[0]:
        if {a[0], b[0]} <= {"v", "m"}:
            return view_rel(a, b, k)
        return "maybe"
    if a[0] == "f":
        return "same" if a == b else "disjoint"
    if a[0] == "*":
        return "same"
    if a[0] == "e":
        x, y = a[1], b[1]
        if isinstance(x, Term) and isinstance(y, Term):
            if x is y:
                if linear_in(x, k) or distinct_value(x, k):
                    return "disjoint"
                return "maybe" if idxterms(x) or not invariant(x, k) else "same"
            d = tsub(x, y)
            if d.op == "num" and d.args[0] != 0 and not idxterms(x):
                return "disjoint"
            return "maybe"
        return "same" if x == y else "disjoint"
    if a[0] in ("v", "m"):
        return view_rel(a, b, k)
    return "same" if a == b else "maybe"


def invariant(x, k):
    return k not in idxterms(x)


def view_rel(a, b, k):
    for d in (1, 2):
        x, y = as_t(a[d]), as_t(b[d])
        la = as_t(a[d + 2]) if a[0] == "v" else ONE
        lb = as_t(b[d + 2]) if b[0] == "v" else ONE
        if la is ONE and lb is ONE:
            if x is y and linear_in(x, k):
                return "disjoint"
            df = tsub(x, y)
            if df.op == "num" and df.args[0] != 0 and not idxterms(x):
                return "disjoint"
        elif x is y and la is lb and la.op == "num" and block_stride(x, k, la):
            return "disjoint"
    return "maybe"


def block_stride(x, k, n):
    from terms import subst
    if idxterms(x) - {k}:
        return False
    d = tsub(subst(x, {k: add(k, ONE)}), x)
    return d.op == "num" and abs(d.args[0]) >= n.args[0]


def conflict(a, b, k):
    """May access a (one iteration) and access b (another iteration) touch the same memory?"""
    pa, pb = a.path, b.path
    if pa[0] != pb[0]:
        if pa[0][0] == "val" and pb[0][0] == "val":
            x, y = pa[0][1], pb[0][1]
            if x.op == "new" or y.op == "new":
                return False
            return False
        return False
    if pa[0][0] == "val" and pa[0][1].op == "new":
        return False
    n = min(len(pa), len(pb))
    for i in range(1, n):
        r = step_rel(pa[i], pb[i], k)
        if r == "disjoint":
            return False
    if len(pa) != len(pb):
        lo, hi = (a, b) if len(pa) < len(pb) else (b, a)
        nxt = hi.path[n]
        # asking a container for its size or bounds is not an element access; following a pointer reads only the pointer
        if lo.kind == "r" and nxt[0] in ("e", "*") and not (lo.node.get("whole") and nxt[0] == "e"):
            return False
        if lo.kind == "w" and nxt[0] == "*" and hi.kind == "w":
            return False
    return True


def regions(nodes, stack=()):
    """Outermost-first parallel regions of an effect tree."""
    for n in nodes or ():
        if n.kind == "par" and "parallel" in n.dir:
            yield n
        for key in ("then", "body", "a", "b", "els"):
            x = n.get(key)
            if isinstance(x, list):
                yield from regions(x)
        if n.kids:
            yield from regions(n.kids)


def region_loop(reg):
    """The work-shared loop of a region."""
    def find(ns):
        for n in ns:
            if n.kind == "loop":
                return n
            if n.kind == "par" and "for" in n.dir:
                r = find(n.body)
                if r:
                    return r
            if n.kind in ("crit",):
                continue
        return None
    if "for" in reg.dir:
        return find(reg.body)
    for n in reg.body:
        if n.kind == "par" and "for" in n.dir:
            return find(n.body)
    return None


def shared(root, reg):
    if root[0] == "O":
        return True
    if root[0] == "G":
        return True
    if root[0] == "L":
        return root in reg.pre
    if root[0] == "T":
        return root[1] <= reg.tn[0]
    if root[0] == "D":
        return True
    return root in reg.pre


def private_vars(reg):
    """Locations named in private/reduction clauses, of this region."""
    out = set()
    for c, op, vs in reg.clauses:
        if c in ("private", "firstprivate", "lastprivate", "linear"):
            out |= {x.args[0] for x in vs if x is not None}
    return out


def reductions(reg):
    return {x.args[0]: op for c, op, vs in reg.clauses if c == "reduction" for x in vs if x is not None}


def accesses(reg, lp):
    """Accesses to memory that exists before the region, inside one iteration (or thread)."""
    acc = []
    priv = private_vars(reg)
    red = set(reductions(reg))

    def visit(ns, crit, inloop, inner):
        for n in ns or ():
            if n.kind in ("read", "write"):
                loc = n.loc
                if loc is None:
                    continue
                p = flat(loc)
                root = p[0][1] if p[0][0] == "root" else None
                if root is not None:
                    if root in priv or root in red or not shared(root, reg):
                        continue
                    if root in ind_roots and n.kind in ("read", "write"):
                        continue
                elif p[0][1].op == "new" and created_inside(p[0][1]):
                    continue
                acc.append(Acc(p, n.kind[0], crit, n, loc, inner))
            elif n.kind == "call":
                f = n.get("f")
                o = n.get("obj")
                if f is not None and o is not None and isinstance(o, Term) and o.op == "loc":
                    p = flat(o)
                    if p[0][0] != "root" or (shared(p[0][1], reg) and p[0][1] not in priv):
                        acc.append(Acc(p, "r", crit, n, o, inner))
            elif n.kind == "crit":
                visit(n.body, crit | {n.name}, inloop, inner)
                continue
            elif n.kind == "par" and n is not reg and "atomic" in n.dir:
                visit(n.body, crit | {"<atomic>"}, inloop, inner)
                continue
            if n is lp:
                visit(n.body, crit, True, inner)
                continue
            for key in ("then", "body", "a", "b", "els"):
                x = n.get(key)
                if isinstance(x, list):
                    visit(x, crit, inloop, inner)
            if n.kids:
                visit(n.kids, crit, inloop, inner)

    def created_inside(t):
        return t.args[0] > reg.tn[1]

    ind_roots = lp.info.get("own", ()) if lp is not None else ()
    visit([lp] if lp is not None else reg.body, frozenset(), False, ())
    return acc
