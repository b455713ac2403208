import json
from common import *
import tracker
import flow

TITLE = "Printed forms are well-formed JSON naming each value once"
EXPLANATION = ("Every printing function is evaluated with the ones it calls inlined; what it writes to its stream, in order and under the conditions and loops found, is a text with holes for values. "
               "The text is laid out for a set of list lengths and parsed as JSON; every hole is then compared with the key it stands under.")

# list lengths, in the order the lists are met
SIZES = ([0], [1], [2], [3], [1, 0], [2, 0, 1], [2, 3, 0], [3, 1, 2, 0], [2, 1, 1])
NAMED = ("id", "cid", "w", "r", "x", "P", "la", "last_action")


class Cfg(tracker.Cfg):
    def is_opaque(self, f):
        return False


def run(P, rep):
    rep.rule = ("text written == JSON for all list lengths tried (no list, one, several entries, empty and non-empty lists nested), every number and matrix under the key of its own member, "
                "list entry i of list i, once")
    n = 0
    for f in P.fns:
        if not f.get("repo") or "body" not in f:
            continue
        os = [i for i, p in enumerate(f["params"]) if isstream(P, p["t"])]
        if f["n"] == "repr" and f.get("method") and os or f["n"] == "operator<<" and os and len(f["params"]) == 2:
            n += printed(P, rep, f, os[0])
        elif f["n"] == "print" and len(f["params"]) == 1 and "string" in (P.ty(f["ret"]).get("s") or ""):
            n += printed(P, rep, f, None)
    rep.ob(n >= 8, "the printing functions are found", "include/lmb.hpp:1", "found", "%d" % n)
    rep.assumption("numbers are finite")


def isstream(P, t):
    r = P.rec_of(t)
    return r is not None and "stream" in r["qual"]


def subject(P, f):
    """The class printed."""
    if f.get("method"):
        return P.recs[f["rec"]]
    for p in f["params"]:
        if not isstream(P, p["t"]):
            return P.rec_of(p["t"])


def printed(P, rep, f, os):
    r = subject(P, f)
    if r is None or r.get("qual", "").endswith("::AABBox"):
        return 0
    cfg = Cfg()
    cfg.P = P
    v = tracker.evalf(P, f, cfg)
    evs = flow.events(v.nodes)
    W = where(P, f)
    what = "%s of %s" % (f["n"], (r.get("name") or r["qual"]).replace("lmb::", ""))
    if os is None:
        ret = v.ret
        ok = isinstance(ret, Term) and ret.op == "fn" and ret.args[0] == "str"
        if not ok:
            rep.bad("%s returns the text written" % what, W, "ret." + what, show(ret, 3) if isinstance(ret, Term) else None)
            return 1
        root = ret.args[1]
    else:
        root = v.args[os]
    bad = None
    for pat in SIZES:
        try:
            bad = layout(v, evs, root, pat)
        except Odd as e:
            bad = str(e)
        if bad:
            bad = "lengths %s: %s" % (pat, bad)
            break
    rep.ob(bad is None, "%s is one JSON value naming its members" % what, W, "json." + what, bad)
    return 1


class Odd(Exception):
    pass


class State:
    def __init__(self, pat):
        self.pat, self.at = list(pat), 0
        self.env, self.loc, self.holes, self.text = {}, {}, [], []

    def size(self):
        n = self.pat[self.at % len(self.pat)]
        self.at += 1
        return n


def conc(st, t):
    """Term with loop counters, lengths and local flags replaced by their values."""
    for _ in range(4):
        S = {}
        for y in walk(t):
            if y in st.env:
                S[y] = st.env[y]
            elif y.op in ("phi", "after") and y.args[1] in st.loc:
                S[y] = st.loc[y.args[1]]
        if not S:
            break
        t = subst(t, S)
    return t


def lengths(st, t):
    t = conc(st, t)
    while True:
        s = [y for y in walk(t) if y.op == "size" and not any(z.op == "size" for x in y.args for z in walk(x))]
        if not s:
            return t
        st.env[s[0]] = num(st.size())
        t = conc(st, t)


def layout(v, evs, root, pat):
    st = State(pat)
    try:
        play(st, evs, 0, (), root)
    except Ended:
        pass
    text = "".join(st.text)
    try:
        doc = json.loads(text)
    except ValueError as e:
        return "not JSON (%s): %s" % (e, text[:160])
    if not isinstance(doc, (dict, list)):
        return "neither an object nor a list: %s" % text[:80]
    seen = []
    return names(st, doc, None, seen) or order(st, seen)


class Ended(Exception):
    pass


class Leave(Exception):
    def __init__(self, kind):
        self.kind = kind


def play(st, evs, i, loops, root):
    """Run the events of one loop body in order."""
    n = len(evs)
    while i < n:
        e = evs[i]
        if e.loops[:len(loops)] != loops or len(e.loops) < len(loops):
            return i
        if len(e.loops) > len(loops):
            i += 1
            continue
        if e.kind == "loop":
            j = i + 1
            while j < n and e.n in evs[j].loops:
                j += 1
            g = decided(st, e.g)
            if g:
                info = e.n.info
                t = lengths(st, info["trip"]) if isinstance(info.get("trip"), Term) else None
                if t is None or not is_num(t):
                    if any(x.kind == "out" for x in evs[i:j]):
                        raise Odd("the number of rounds of a loop is not read: %s" % (show(t, 4) if t is not None else None))
                    i = j
                    continue
                for k in range(int(numval(t))):
                    st.env[info["k"]] = num(k)
                    try:
                        play(st, evs[i + 1:j], 0, e.loops + (e.n,), root)
                    except Leave as x:
                        if x.kind == "break":
                            break
                st.env.pop(info["k"], None)
            i = j
            continue
        if e.kind == "write" and e.n.loc is not None and e.n.loc.op == "loc" and not e.n.loc.args[1]:
            if decided(st, e.g):
                x = lengths(st, e.n.val) if isinstance(e.n.val, Term) else None
                if x is not None and (is_num(x) or x in (TRUE, FALSE) or x.op == "str"):
                    st.loc[e.n.loc] = x
                else:
                    st.loc.pop(e.n.loc, None)
        elif e.kind == "out" and e.n.stream is root:
            if decided(st, e.g):
                put(st, e.n.val)
        elif e.kind in ("break", "continue") and e.loops and any(x.kind == "out" for x in evs):
            if decided(st, e.g):
                raise Leave(e.kind)
        i += 1
    return i


def decided(st, g):
    g = lengths(st, g)
    if g is TRUE:
        return True
    if g is FALSE:
        return False
    raise Odd("depends on %s" % show(g, 4)[:120])


def put(st, x):
    if not isinstance(x, Term):
        raise Odd("an unknown value")
    x = lengths(st, x)
    if x.op == "str":
        st.text.append(x.args[0] if x.args else "")
        return
    k = len(st.holes)
    st.holes.append(x)
    if x.op == "fmt":
        s = x.args[1]
        if len(s) < 6:
            raise Odd("a matrix format that is not read")
        cs, rs, rp, rx, mp, mx = s[:6]
        row = rp + cs.join([str(k)] * 2) + rx
        st.text.append(mp + rs.join([row] * 2) + mx)
    elif x.op == "int" and isinstance(x.args[0], str):
        st.text.append(x.args[0])
    else:
        st.text.append(str(k))


def names(st, doc, key, seen):
    """Every hole stands under the name of the member it shows."""
    if isinstance(doc, dict):
        for k, x in doc.items():
            b = names(st, x, k, seen)
            if b:
                return b
        return None
    if isinstance(doc, list) and not (doc and isinstance(doc[0], list)):
        for x in doc:
            b = names(st, x, key if not isinstance(x, dict) else None, seen)
            if b:
                return b
        return None
    if isinstance(doc, list):
        x = doc[0][0] if doc[0] else None
        return names(st, x, key, seen)
    if isinstance(doc, str) and doc.isdigit() or isinstance(doc, int) and not isinstance(doc, bool):
        i = int(doc)
        if i < len(st.holes):
            t = st.holes[i]
            seen.append(t)
            n = lastname(t.args[0] if t.op == "fmt" else t)
            if n and key and key in ("id", "cid", "w", "r", "x", "P") and n != key and not {n, key} <= {"r", "w"}:
                return '"%s" shows %s' % (key, n)
    return None


def order(st, seen):
    """No list entry is shown twice or out of turn."""
    idx = []
    for t in seen:
        k = tuple(int(numval(y[1])) for y in steps(t) if y[0] == "e" and isinstance(y[1], Term) and is_num(y[1]))
        if lastname(t.args[0] if t.op == "fmt" else t) in ("w", "id"):
            idx.append((lastname(t.args[0] if t.op == "fmt" else t), k))
    for n in ("w", "id"):
        ks = [k for m, k in idx if m == n and k]
        if ks != sorted(set(ks)):
            return "list entries out of turn: %s" % ks
    paths = [[conc_step(st, y) for y in steps(t)] for t in seen]
    for y, n in st.env.items():
        if y.op != "size" or not is_num(n):
            continue
        pre = [conc_step(st, z) for z in steps(y.args[0])]
        if not pre:
            continue
        got = {p[len(pre)][1] for p in paths if len(p) > len(pre) and p[:len(pre)] == pre and p[len(pre)][0] == "e"}
        if got != set(range(int(numval(n)))):
            return "of %d entries, %s are shown" % (numval(n), sorted(got))
    return None


def conc_step(st, y):
    if len(y) > 1 and isinstance(y[1], Term):
        x = conc(st, y[1])
        return (y[0], int(numval(x)) if is_num(x) else x)
    return y


def steps(t):
    """Selection steps of a value, outermost first."""
    if t.op == "fmt":
        return steps(t.args[0])
    if t.op == "get":
        return steps(t.args[0]) + [s for s in t.args[1:] if isinstance(s, tuple)]
    if t.op == "init":
        root, st = t.args[0].args
        pre = steps(root[1]) if root[0] == "D" and isinstance(root[1], Term) else []
        return pre + list(st)
    return []
