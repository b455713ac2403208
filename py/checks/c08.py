from common import *
import tracker
import flow
import numev
from terms import _lin as lin

TITLE = "Filtering happens in one local metric frame and positions return to geodetic"
EXPLANATION = ("Prediction, the cluster update and density construction are evaluated with helpers inlined. Every conversion of a stored position into or out of a local frame is read off the effect tree with the loops "
               "around it, its origin and its place relative to the other changes of the same density or report.")
TO, FROM = "cf::ll2ne", "cf::ne2ll"


def run(P, rep):
    rep.rule = ("each affected position is converted to the local frame exactly once and back exactly once, unconditionally, over complete loops, about one common origin that is itself "
                "geodetic; every other change of the density or report lies between; all conversions in an operation share that origin")
    for q in (tracker.TRACKER + "::predict", "lmb::Cluster_::correct"):
        for f in insts(P, q):
            operation(P, rep, f)
    for f in [f for f in tracker.methods(P, roots=False) if f["n"] in ("ospa", "gospa", "pos_phd")]:
        metric(P, rep, f)
    ctors(P, rep)


def conv(t):
    """(kind, position, origin) when a value's position pair is the result of a conversion."""
    if not isinstance(t, Term):
        return None
    if t.op == "fn" and t.args[0] in (TO, FROM):
        return t.args
    r, c = dims(t)
    if r is not None and c == 1 and isinstance(r, int) and r > 2:
        return conv(block(t, 0, 0, 2, 1))
    if t.op == "cm" and (r, c) == (2, 1):
        a, b = el(t, 0, 0), el(t, 1, 0)
        if a.op == "el" and b.op == "el" and a.args[0] is b.args[0]:
            return conv(a.args[0])
    return None


def base(loc):
    root, steps = loc.args
    n = len(steps)
    while n and steps[n - 1][0] in ("v", "m"):
        n -= 1
    return ve.LOC(root, steps[:n]), steps[n:]


def canonical(v, e, t):
    """A term about the element an event addresses, over generic element indices."""
    ixs = [ix for _, ix, _ in chain(e.n.loc)] if e.n.get("loc") is not None else []
    m = {}
    for i, l in enumerate(e.loops):
        k, g = l.info["k"], T("idx", "lvl", i)
        m[k] = g
        for ix in ixs:
            if isinstance(ix, Term) and mentions(ix, k):
                off = subst(ix, {k: ZERO})
                if sub(off, ix) is k:
                    m[k] = sub(off, g)
                break
    return subst(t, m)


def chain(loc):
    """(container, index, axis) along a location, outermost first."""
    out = []
    root, steps = loc.args
    if root[0] == "D" and root[1].op == "init":
        out += chain(root[1].args[0])
    for i, s in enumerate(steps):
        if s[0] == "e":
            out.append((ve.LOC(root, steps[:i]), s[1], None))
        elif s[0] == "v":
            for a in (0, 1):
                if isinstance(s[1 + a], Term) and not is_num(s[1 + a]):
                    out.append((ve.LOC(root, steps[:i]), s[1 + a], a))
    return out


def extent(v, c, axis, st):
    x = v.peek(c, st)
    if axis is None:
        return size(x)
    d = dims(x)[axis]
    return num(d) if isinstance(d, int) else d


def covers(v, e, loc, evs=()):
    """Whether the loops around an event visit every element along its location exactly once."""
    ch = [(c, canonical(v, e, ix), a) for c, ix, a in chain(loc)]
    if len(ch) != len(e.loops):
        return "inside %d loops, for %d levels of elements" % (len(e.loops), len(ch))
    for j, ((c, ix, a), l) in enumerate(zip(ch, e.loops)):
        i = l.info
        if not i["full"]:
            return "the loop may stop before the last element"
        ns = [canonical(v, e, extent(v, c, a, st)) for st in (v.st0, v.st)]
        tr = canonical(v, e, i["trip"])
        for w in evs:
            # a local copy has as many elements as what it was copied from
            if w.kind == "write" and w.no < e.no and w.n.get("op") in ("init", "=", None) and w.n.loc is not None and w.n.loc.args[0] == c.args[0] and isinstance(w.n.val, Term):
                k = len(w.n.loc.args[1])
                if c.args[1][:k] == w.n.loc.args[1]:
                    x = w.n.val
                    for s in c.args[1][k:]:
                        x = get(x, s)
                    ns.append(canonical(v, e, size(x)))
        if a is not None and None in ns:
            # a dynamically sized matrix: as many columns as the density's class fixes
            root, steps = c.args
            r = next((v.p.rec_of(v.ltype[x]) for n in range(len(steps), -1, -1) for x in [ve.LOC(root, steps[:n])] if n < len(steps) and x in v.ltype), None)
            ns = [num(x) for x in (r or {}).get("targs", ()) if isinstance(x, int)]
        if tr not in ns:
            return "the loop runs %s times over %s elements" % (show(i["trip"], 4)[:120], show(ns[1], 4)[:120])
        raw = chain(e.n.loc)[j][1]
        if not (raw is i["k"] or any(raw is sub(sub(n, ONE), i["k"]) for n in [extent(v, c, a, st) for st in (v.st0, v.st)] + [i["trip"]])):
            return "the loop does not address element by element"
    return ""


def operation(P, rep, f):
    v = tracker.evalf(P, f)
    W, name = where(P, f), f["q"].replace("lmb::", "")
    if f["n"] == "predict":
        name += " (%s)" % P.ty(P.unref(f["params"][0]["t"])).get("s", "?").split("::")[-1]
    evs = flow.events(v.nodes)
    groups = {}
    for e in evs:
        if e.kind != "write" or e.n.get("op") == "havoc":
            continue
        b, views = base(e.n.loc)
        c = conv(e.n.val)
        if c is None or b.args[0][0] != "D":
            continue
        key = canonical(v, e, b)
        groups.setdefault(key, []).append((e, c))
    if not groups:
        return rep.bad("%s converts no position" % name, W, name + ".none")
    for key, cs in groups.items():
        what = "reports" if tracker.rec_at(v, base(cs[0][0].n.loc)[0]) is None and len(chain(key)) == 1 else "densities"
        gname = "%s: %s" % (name, what)
        tos = [(e, c) for e, c in cs if c[0] == TO]
        fro = [(e, c) for e, c in cs if c[0] == FROM]
        rep.count("converted_positions")
        rep.ob(len(tos) == 1 and len(fro) == 1, "%s are converted to the local frame once and back once" % gname, P.loc(cs[0][0].n.l), name + ".once",
               "%d conversions in, %d out" % (len(tos), len(fro)))
        if len(tos) != 1 or len(fro) != 1:
            continue
        (a, ca), (b, cb) = tos[0], fro[0]
        rep.ob(a.no < b.no, "%s are converted in before out" % gname, P.loc(b.n.l), name + ".order")
        for e, d in ((a, "in"), (b, "out")):
            w = covers(v, e, e.n.loc)
            rep.ob(not w, "%s: all of them are converted %s%s" % (gname, d, " (%s)" % w if w else ""), P.loc(e.n.l), name + ".all" + d)
            g = nonempty(v, e)
            rep.ob(g is TRUE, "%s are converted %s unconditionally" % (gname, d), P.loc(e.n.l), name + ".cond" + d, show(g, 5)[:300])
        oa, ob = canonical(v, a, ca[2]), canonical(v, b, cb[2])
        rep.ob(oa is ob, "%s go in and out about the same origin" % gname, P.loc(b.n.l), name + ".origin", "in about %s, out about %s" % (show(oa, 5)[:200], show(ob, 5)[:200]))
        rep.ob(not any(x.op == "fn" and x.args[0] == TO for x in walk(oa)), "%s: the origin is a geodetic position" % gname, P.loc(a.n.l), name + ".origeo")
        m = mass(oa)
        ok = m is ONE or m is not None and numev.same(m, ONE, None, seed=1, samples=24, tol=1e-9, need=8)[0] in ("identical", "agree")
        rep.ob(ok, "%s: the origin is a mean of their positions" % gname, P.loc(a.n.l), name + ".mean", show(oa, 6)[:300])
        # everything else in between
        owner = prefix(key)
        for e in evs:
            if e.kind == "write" and e is not a and e is not b and e.n.loc is not None:
                k = canonical(v, e, base(e.n.loc)[0])
                if k.args[0] == owner.args[0] and dense(k, owner):
                    rep.ob(a.no < e.no < b.no, "%s change only while in the local frame" % gname, P.loc(e.n.l), name + ".between", show(k, 5)[:200])
        # other conversions on behalf of the same elements
        for e in evs:
            if e.kind == "write" and e.n.get("val") is not None and e is not a and e is not b:
                if canonical(v, e, base(e.n.loc)[0]).args[0] == owner.args[0]:
                    for x in walk(e.n.val):
                        if x.op == "fn" and x.args[0] in (TO, FROM):
                            o = canonical(v, e, x.args[2])
                            if o is not oa:
                                rep.bad("%s: a conversion uses another origin" % gname, P.loc(e.n.l), name + ".other", show(o, 5)[:200])


def mass(o):
    """Sum of the coefficients with which positions enter a point."""
    if o.op == "ite":
        a, b = mass(o.args[1]), mass(o.args[2])
        return None if a is None or b is None else ite(o.args[0], a, b)
    out = []
    for k, c in lin(o).items():
        if len(k) != 1:
            return None
        t = k[0][0]
        if t.op == "summ":
            b = mass(t.args[1])
            if b is None:
                return None
            c = mul(c, t.args[0], b)
        elif t.op == "cm":
            return None
        out.append(c)
    return add(*out) if out else None


def nonempty(v, e):
    """Guard of an event given that the loops around it run at all."""
    f = {}
    for l in e.loops:
        t = l.info["trip"]
        if t is not None:
            f[eq(t, ZERO)] = False
            n = t
            while n.op == "ite":
                n = n.args[1] if n.args[2] is ZERO else n.args[2]
            f[eq(n, ZERO)] = False
            f[lt(ZERO, n)] = True
    return assume(e.g, f)


def prefix(key):
    return key


def dense(k, owner):
    """Whether a location belongs to the state the conversions protect: the components or the report's mean and covariance."""
    s, o = k.args[1], owner.args[1]
    if len(o) >= 2 and any(x[0] == "e" for x in o):
        p = next(i for i, x in enumerate(o) if x[0] == "e")
        return s[:p] == o[:p] and len(s) > p
    return len(s) == 1 and s[0] in (("f", "x"), ("f", "P"))


def metric(P, rep, f):
    v = tracker.evalf(P, f)
    W, name = where(P, f), tracker.sig(P, f)
    os = {}
    n = 0
    for e in flow.events(v.nodes):
        for key in ("val", "cond"):
            t = e.n.get(key)
            if isinstance(t, Term):
                for x in walk(t):
                    if x.op == "fn" and x.args[0] in (TO, FROM, "cf::ll2lla", "cf::ne2ned"):
                        n += 1
                        os.setdefault(x.args[2], e)
    if not n:
        return
    rep.count("metrics")
    evs = flow.events(v.nodes)
    for e in evs:
        if e.kind != "write" or e.n.get("op") == "havoc" or conv(e.n.val) is None:
            continue
        ch = chain(e.n.loc)
        if not ch:
            continue
        inner = flow.Ev(e.n, e.g, e.loops[-len(ch):], e.crits, e.pars, e.fns, e.no)
        w = covers(v, inner, e.n.loc, evs) if len(e.loops) >= len(ch) else "not in a loop"
        rep.ob(not w, "%s: every element is converted%s" % (name, " (%s)" % w if w else ""), P.loc(e.n.l), name + ".all")
        ks = {l.info["k"] for l in inner.loops}
        g = nonempty(v, e)
        rep.ob(not any(mentions(g, k) for k in ks), "%s: elements are converted unconditionally" % name, P.loc(e.n.l), name + ".cond", show(g, 5)[:300])
    rep.ob(len(os) == 1, "%s: all points and densities are compared in one local frame" % name, P.loc(list(os.values())[-1].n.l), name + ".frame",
           "; ".join(show(o, 5)[:150] for o in os))


def ctors(P, rep):
    """Densities built from a geodetic mean keep it geodetic."""
    n = 0
    for f in P.fns:
        if f.get("ctor") and f.get("repo") and "body" in f and f["q"] in ("lmb::GM::GM", "lmb::PF::PF"):
            v = tracker.evalf(P, f)
            for e in flow.events(v.nodes):
                if e.kind == "write":
                    b, views = base(e.n.loc)
                    c = conv(e.n.val)
                    if c is not None and c[0] == TO and b.args[0][0] == "O" and b.args[0][1] == "this" and f["params"][1:]:
                        n += 1
                        x = v.peek(b, v.st)
                        if any(a is not None for _, _, a in chain(e.n.loc)):
                            continue
                        d = conv(x)
                        ok = d is not None and d[0] == FROM and d[2] is c[2]
                        rep.ob(ok, "%s: the mean is brought back to geodetic about the origin it left by" % tracker.sig(P, f), P.loc(e.n.l), f["q"] + ".ctor", show(x, 5)[:300])
    rep.count("constructors", n)
