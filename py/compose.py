"""Contents of matrices, fields and lists composed from the recorded writes of an effect tree, at concrete sizes."""
from common import *
import ve
from assoc import under
from terms import *


class Ev2:
    pass


class Unread(Exception):
    pass


def entry(w, a, b, S):
    """Entry (a, b) of a matrix after the writes w, all under the substitution S (concrete numbers)."""
    return runwrites([(e, steps, list(e.inner)) for e, steps in w], a, b, S, None)


def runwrites(ws, a, b, S, cur):
    i = 0
    while i < len(ws):
        e, steps, loops = ws[i]
        if not loops:
            cur = write1(e, steps, a, b, S, cur)
            i += 1
            continue
        j = i
        while j < len(ws) and ws[j][2] and ws[j][2][0] is loops[0]:
            j += 1
        body = [(e_, s_, l_[1:]) for e_, s_, l_ in ws[i:j]]
        info = loops[0].info
        n = subst(info["trip"], S) if info["trip"] is not None else None
        if n is None or not is_num(n) or not info["full"]:
            raise Unread("a loop that may stop early")
        for x in range(int(numval(n))):
            cur = runwrites(body, a, b, {**S, info["k"]: num(x)}, cur)
        i = j
    return cur


def write1(e, steps, a, b, S, cur):
    g = ground(e.g, S)
    if g is FALSE:
        return cur
    val = e.n.val
    r0, c0 = ZERO, ZERO
    whole = True
    for st in steps:
        if st[0] == "v" and whole:
            r, c, h, wd = [subst(tm(x), S) for x in st[1:5]]
            if not all(is_num(x) for x in (r, c, h, wd)):
                raise Unread("block %s" % show(e.n.loc, 4))
            r0, c0 = add(r0, r), add(c0, c)
            i, j = numval(a) - numval(r0), numval(b) - numval(c0)
            if not (0 <= i < numval(h) and 0 <= j < numval(wd)):
                return cur
        elif st[0] == "m" and whole:
            r, c = subst(tm(st[1]), S), subst(tm(st[2]), S)
            if not (is_num(r) and is_num(c)):
                raise Unread("element %s" % show(e.n.loc, 4))
            r0, c0 = add(r0, r), add(c0, c)
            if not (r0 is a and c0 is b):
                return cur
            whole = False
        else:
            raise Unread(show(e.n.loc, 4))
    if not whole:
        new = subst(val, S)
    elif val.op == "fresh":
        new = T("undefined")
    else:
        i, j = sub(a, r0), sub(b, c0)
        new = el(subst(val, S), i, j) if val.op != "ite" else subst(el(val, i, j), S)
    new = inplace(new, e.n.loc, a, b, cur)
    return new if g is TRUE else ite(g, new, cur if cur is not None else T("undefined"))


def inplace(new, loc, a, b, cur):
    """An entry computed from the matrix itself: the former entry is put in."""
    loc = under(loc)
    old = [x for x in walk(new) if x.op == "el" and x.args[0].op in ("after", "phi", "agg", "init") and any(y is loc for y in x.args[0].args)]
    if not old:
        return new
    if any(el(x.args[0], a, b) is not x for x in old) or cur is None:
        raise Unread("an entry computed from other entries of %s" % show(loc, 4))
    return subst(new, {x: cur for x in old})


def ground(g, S):
    return assume(subst(g, S), {}) if g not in (TRUE, FALSE) else g


def tm(x):
    return x if isinstance(x, Term) else num(x)


def field_writes(evs, obj, name, upto, base):
    """Writes to a field of obj (in order, before event upto), with the loops inside base."""
    out = []
    for e in evs:
        if e.no >= upto or e.kind != "write" or e.n.loc is None or e.n.loc.args[0] != obj.args[0]:
            continue
        st = e.n.loc.args[1]
        n = len(obj.args[1])
        if st[:n] != obj.args[1] or len(st) <= n or st[n] != ("f", name):
            continue
        r = Ev2()
        r.n, r.g, r.no, r.loops, r.inner = e.n, e.g, e.no, e.loops, e.loops[len(base):]
        out.append((r, st[n + 1:]))
    return out


def scalar(evs, obj, name, upto, base):
    """Value of a scalar field at an event, or None when it depends on the path."""
    cur = None
    for e, st in field_writes(evs, obj, name, upto, base):
        if st:
            return None
        cur = (e.n.val, e)
    return cur[0] if cur else None


def sequence(t, n, S):
    """The elements of a list of n entries under concrete numbers."""
    if t.op == "erased":
        src, it = t.args[0], t.args[1:]
        if len(it) != 1 or it[0].op != "iter":
            raise Unread("erase")
        i = subst(it[0].args[1], S)
        if not is_num(i):
            raise Unread("erase at %s" % show(i, 4))
        s = sequence(src, n, S)
        i = int(numval(i))
        if not 0 <= i < len(s):
            return s + [T("outofrange")]
        return s[:i] + s[i + 1:]
    if t.op == "list":
        return [subst(x, S) for x in t.args]
    if t.op == "filt":
        base, cnt, elem, cond, bv = t.args
        s = sequence(base, n, S)
        c = subst(cnt, S)
        if not is_num(c):
            raise Unread("length %s" % show(c, 4))
        for x in range(int(numval(c))):
            m = dict(S)
            m[bv] = num(x)
            g = subst(cond, m)
            if g is TRUE:
                s.append(subst(elem, m))
            elif g is not FALSE:
                raise Unread("condition %s" % show(g, 4))
        return s
    if t.op in ("init", "after", "get", "phi"):
        return [T("at", t, num(k)) for k in range(n)]
    raise Unread(t.op)
