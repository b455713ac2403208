from common import *
import tracker
import flow

TITLE = "The spatial index holds every live target under its current box"
EXPLANATION = ("Prediction, the cluster update and target creation are evaluated with helpers inlined; the index insertions and removals, list changes and "
               "deletions they perform are read off the effect tree with their loops and path conditions, and the rectangles passed to the index are compared "
               "with the box the target reports on entry (removal) and on return (insertion).")


def run(P, rep):
    rep.rule = ("all affected targets leave the index under the box they had on entry before any is inserted; then each is either inserted under the box it has "
                "on return, or dropped from the list and deleted; never both, never neither")
    for f in insts(P, tracker.TRACKER + "::predict"):
        update(P, rep, f)
    for f in insts(P, "lmb::Cluster_::correct"):
        update(P, rep, f)
    for f in insts(P, tracker.TREE + "::new_target"):
        create(P, rep, f)
    for f in [f for f in tracker.methods(P) if f["n"] not in ("predict", "correct")]:
        v = tracker.evalf(P, f)
        b = [e for e in flow.events(v.nodes) if indexop(e, "Insert", "Remove", "RemoveAll", "Load") or e.kind == "delete"]
        rep.ob(not b, "%s does not change the index" % tracker.sig(P, f), where(P, f), f["q"] + ".index")
    rep.assumption("a target belongs to one cluster at a time, so cluster updates touch disjoint targets")
    rep.assumption("the index implementation itself is the subject of the index properties")


def indexop(e, *names):
    return e.kind == "call" and e.n.f is not None and e.n.f["q"].startswith("RTree::") and e.n.f["n"] in names


def update(P, rep, f):
    v = tracker.evalf(P, f)
    W, name = where(P, f), f["q"].replace("lmb::", "")
    evs = flow.events(v.nodes)
    ins, rem, dele, drop, allrem = [], [], [], [], []
    for e in evs:
        if indexop(e, "Insert"):
            ins.append(e)
        elif indexop(e, "Remove"):
            rem.append(e)
        elif indexop(e, "RemoveAll"):
            allrem.append(e)
        elif e.kind == "delete":
            dele.append(e)
        elif e.kind == "write" and tracker.listloc(v, e.n.loc):
            drop.append(e)
    rep.count("index_operations", len(ins) + len(rem) + len(allrem))
    if not ins:
        return rep.bad("%s never inserts the targets into the index" % name, W, name + ".insert")
    I = [tracker.foreach(v, e, e.n.args[2]) for e in ins]
    coll = next((x.coll for x in I if x.coll is not None), None)

    def covers(x):
        return x.ok and x.coll is coll
    for x in I:
        rep.ob(covers(x), "%s: insertion addresses each target once%s" % (name, "" if x.ok else " (%s)" % x.why), P.loc(x.e.n.l), name + ".insloop")
        b = tracker.box(P, v, x.e.n, v.st)
        rep.ob(tracker.samerect(v, x.e.n, b), "%s: a target is inserted under the box it has on return" % name, P.loc(x.e.n.l), name + ".insbox",
               None if tracker.samerect(v, x.e.n, b) else "inserted under %s" % show(tracker.rect(v, x.e.n.args[0], x.e.n.st) or ZERO, 5)[:300])
    # removal
    first = min(e.no for e in ins)
    if allrem:
        e = allrem[0]
        whole = tracker.listloc(v, coll)
        rep.ob(e.g is TRUE and not e.loops and e.no < first and whole, "%s: the index is emptied before the targets, all of the list, are inserted again" % name,
               P.loc(e.n.l), name + ".removeall")
        for e in allrem[1:]:
            rep.ob(e.no < first, "%s: the index is not emptied after insertions" % name, P.loc(e.n.l), name + ".removeall2")
    else:
        R = [tracker.foreach(v, e, e.n.args[2]) for e in rem]
        good = [x for x in R if covers(x) and x.guard is TRUE and x.e.no < first]
        rep.ob(len(good) == 1, "%s: every target is taken out of the index before any is inserted again%s" % (
            name, "" if len(good) == 1 else "".join(" (%s)" % x.why for x in R if x.why)), P.loc(rem[0].n.l) if rem else W, name + ".removal")
        rep.ob(len(R) == 1, "%s: no target is taken out twice" % name, W, name + ".remove2")
        for x in R:
            b = tracker.box(P, v, x.e.n, v.st0)
            rep.ob(tracker.samerect(v, x.e.n, b), "%s: a target is removed under the box it was indexed with" % name, P.loc(x.e.n.l), name + ".rembox",
                   "removed under %s" % show(tracker.rect(v, x.e.n.args[0], x.e.n.st) or ZERO, 5)[:300])
    # list and deletion
    D = [tracker.foreach(v, e, e.n.ptr) for e in dele if tracker.element(e.n.ptr)]
    E = []
    for e in drop:
        val = e.n.val
        if e.n.op in ("remove", "remove_if", "unique"):
            continue
        if val.op == "without":
            # erasing an element if it is found: the same as erasing it
            e.g = assume(e.g, {eq(T("fn", "find", val.args[0], val.args[1]), size(val.args[0])): False})
            E.append(tracker.foreach(v, e, val.args[1]))
        else:
            rep.bad("%s: the target list is changed in an unrecognised way: %s" % (name, show(val, 4)[:200]), P.loc(e.n.l), name + ".list")
    for x in D + E:
        rep.ob(covers(x), "%s: dropping addresses each target once%s" % (name, "" if x.ok else " (%s)" % x.why), P.loc(x.e.n.l), name + ".droploop")
    gi = or_(*[x.guard for x in I])
    ge = or_(*[x.guard for x in E])
    gd = or_(*[x.guard for x in D])
    rep.ob(flow.equiv(gi, not_(ge)), "%s: each target is either inserted or dropped from the list" % name, W, name + ".either",
           "inserted when %s; dropped when %s" % (show(gi, 4)[:200], show(ge, 4)[:200]))
    rep.ob(flow.equiv(ge, gd), "%s: exactly the targets dropped from the list are deleted" % name, W, name + ".delete")
    for group, what in ((I, "inserted"), (D, "deleted"), (E, "dropped")):
        for a in range(len(group)):
            for b in range(a):
                if not flow.equiv(and_(group[a].guard, group[b].guard), FALSE):
                    rep.bad("%s: a target can be %s twice" % (name, what), P.loc(group[a].e.n.l), name + ".twice")
    # nothing is done with a deleted target
    if D:
        last = {id(x.e.loops[-1]) for x in D if x.e.loops}
        end = max(x.e.no for x in D)
        for e in evs:
            if e.no > end and e.kind in ("write", "call") and not (e.loops and id(e.loops[-1]) in last):
                l = e.n.get("loc") or e.n.get("obj")
                if isinstance(l, Term) and l.op == "loc" and l.args[0][0] == "D" and (tracker.element(l.args[0][1]) or (None,))[0] is coll:
                    rep.bad("%s: targets are used after some of them were deleted" % name, P.loc(e.n.l), name + ".after")
    # everything happens under the lock in one piece
    rep.ob(len({e.crits for e in ins + drop + dele}) == 1 and all(e.crits for e in ins), "%s: insertion and dropping share one critical section" % name, W, name + ".crit")


def create(P, rep, f):
    v = tracker.evalf(P, f)
    W, name = where(P, f), f["q"].replace("lmb::", "")
    evs = flow.events(v.nodes)
    ins = [e for e in evs if indexop(e, "Insert")]
    other = [e for e in evs if indexop(e, "Remove", "RemoveAll")]
    pushes = [e for e in evs if e.kind == "write" and tracker.listloc(v, e.n.loc)]
    ok = len(ins) == 1 and ins[0].g is TRUE and not ins[0].loops and not other
    rep.ob(ok, "%s: a new target is inserted into the index exactly once" % name, W, name + ".insert")
    ok2 = len(pushes) == 1 and pushes[0].g is TRUE and pushes[0].n.val.op == "push" and not pushes[0].loops
    rep.ob(ok2, "%s: a new target is added to the list exactly once" % name, W, name + ".list")
    if ok and ok2:
        p = ins[0].n.args[2]
        rep.ob(p.op == "new", "%s: the target inserted is the new one" % name, W, name + ".new")
        rep.ob(pushes[0].n.val.args[1] is p, "%s: the target listed is the one inserted" % name, W, name + ".same")
        rep.ob(tracker.samerect(v, ins[0].n, tracker.box(P, v, ins[0].n, v.st)), "%s: the new target is inserted under its box" % name, P.loc(ins[0].n.l), name + ".box")
