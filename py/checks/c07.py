from common import *
import tracker
import flow

TITLE = "Every target gets an identity no other target ever has"
EXPLANATION = ("Every operation of the tracker and of its target list is evaluated with helpers inlined; all writes to target identities and to the counter they are drawn from are read off "
               "the effect trees with their loops, guards and critical sections.")
TARGET = "lmb::Target_"


def run(P, rep):
    rep.rule = ("an identity is written only to a newly created target, from the counter's value, and the counter is advanced by one in the same critical section "
                "under the same conditions; nothing else writes either")
    fs = tracker.entries(P, [f for f in P.fns if f.get("method") and f.get("repo") and "body" in f and not f.get("ctor") and not f.get("dtor") and "~" not in f["n"]
                             and f["q"].startswith((tracker.TRACKER + "::", tracker.TREE + "::", "lmb::Cluster_::", TARGET + "::"))])
    offs = set()
    made = 0
    for f in fs:
        v = tracker.evalf(P, f)
        evs = flow.events(v.nodes)
        W, name = where(P, f), f["q"].replace("lmb::", "")
        top = f["q"].startswith(tracker.TRACKER + "::")
        news = [e for e in evs if e.kind == "new" and is_target(v, e.n)]
        ids = [e for e in evs if e.kind == "write" and idloc(v, e.n.loc) and not building(e)]
        cnt = counter_writes(v, evs)
        rep.count("operations")
        for e in news:
            made += 1
            mine = [i for i in ids if i.n.loc.args[0] == ("D", e.n.ptr)]
            if not mine:
                rep.bad("%s: a new target gets no identity" % name, P.loc(e.n.l), name + ".noid")
                continue
            i = mine[-1]
            rep.ob(same(i, e), "%s: every new target gets an identity" % name, P.loc(i.n.l), name + ".every")
            ups = [c for c in cnt if advances(c) and c.loops == i.loops and c.n.loc is src(v, i)]
            ok = len(ups) == 1 and same(ups[0], i) and is_num(offset(i, ups[0]))
            rep.ob(ok, "%s: the identity is the counter's value and the counter moves on by one with it" % name, P.loc(i.n.l), name + ".counter",
                   None if ok else "identity %s, counter writes %s" % (show(i.n.val, 5)[:200], [show(c.n.val, 4)[:100] for c in ups]))
            if ok:
                offs.add(offset(i, ups[0]))
            if top:
                cs = set(e.crits) & set(i.crits) & set(ups[0].crits if ups else i.crits)
                rep.ob("ttree" in cs or bool(cs), "%s: creation and numbering share one critical section" % name, P.loc(i.n.l), name + ".crit")
        known = {("D", e.n.ptr) for e in news}
        for i in ids:
            if i.n.loc.args[0] not in known:
                rep.bad("%s: the identity of an existing target is changed" % name, P.loc(i.n.l), name + ".rewrite", show(i.n.loc, 4))
        taken = len(news)
        if len(cnt) > taken:
            rep.bad("%s: the identity counter is changed without a new target" % name, P.loc(cnt[-1].n.l), name + ".reset")
    rep.ob(len(offs) <= 1, "all creation sites number from the same base", "include/targettree.hpp", "base")
    rep.ob(made > 0, "targets are created somewhere", "include/targettree.hpp", "created")
    rep.assumption("fewer than 2^32 targets are created over the life of a tracker")


def is_target(v, n):
    t = n.get("ty")
    if isinstance(t, int):
        r = v.p.rec_of(t)
        return r is not None and r["qual"] == TARGET
    l = ve.LOC(("D", n.ptr)) if n.get("ptr") is not None else None
    return l is not None and tracker.rec_at(v, l) == TARGET


def idloc(v, loc):
    st = tracker.inner(v, loc, TARGET)
    return st is not None and st == (("f", "id"),)


def building(e):
    """A write of the target's own constructor."""
    return any(f.get("ctor") for f in e.fns)


def counter_writes(v, evs):
    out = []
    for e in evs:
        if e.kind == "write":
            st = tracker.inner(v, e.n.loc, tracker.TREE)
            if st and len(st) == 1 and st[0][0] == "f" and e.n.loc is not None and isint(v, e.n.loc):
                out.append(e)
            elif st is not None and not st:
                out.append(e)
    return out


def isint(v, loc):
    t = v.ltype.get(loc)
    return isinstance(t, int) and v.p.ty(t)["k"] == "int"


def src(v, i):
    """Location of the counter an identity was drawn from."""
    for c in walk(i.n.val):
        if c.op in ("init", "phi") and any(isinstance(a, Term) and a.op == "loc" and isint(v, a) for a in c.args):
            return next(a for a in c.args if isinstance(a, Term) and a.op == "loc")
    return None


def same(a, b):
    return a.loops == b.loops and flow.equiv(a.g, b.g)


def offset(i, c):
    """Distance of the identity from the counter before it moved on."""
    return sub(i.n.val, sub(c.n.val, ONE))



def advances(c):
    """The counter goes up by one."""
    return any(sub(c.n.val, x) is ONE for x in walk(c.n.val) if x.op in ("init", "phi", "after"))
