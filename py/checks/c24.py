from common import *
from compose import Unread
import tracker
import flow

TITLE = "Python objects expose their own state and survive pickling"
EXPLANATION = ("The two module definitions are read as data: every attribute, method and constructor registration with its name, the member or function it is bound to and its keyword names; the state functions of "
               "every pickled class are evaluated and composed symbolically, and every registered constructor is evaluated for attributes left without a value.")

# names that Python gives to members of another name
ALIAS = {("Gaussian", "m"): "x", ("Target", "r"): "w"}


def run(P, rep):
    rep.rule = ("attribute n is bound to member n (m to x, r to w), method n to function n, constructor keyword n to parameter n; for every pickled class set(get(object)) has every attribute equal to the object's; "
                "after construction no attribute is uninitialised; the correction returns the scan it passed to the tracker")
    cls = classes(P)
    rep.ob(len(cls) >= 8, "the classes of the module are registered", "lmb/lmb.cpp:1", "classes", ", ".join(sorted(cls)))
    for c in sorted(cls):
        names(P, rep, c, cls[c])
        ctors(P, rep, c, cls[c])
        for kind, d in cls[c]["regs"]:
            if kind == "pickle":
                pickle(P, rep, c, cls[c], d)
    for c in ("BBox", "AABBox", "Target", "GaussianReport"):
        rep.ob(c in cls and any(k == "pickle" for k, _ in cls[c]["regs"]), "%s can be pickled" % c, "lmb/lmb.cpp:1", "pickled." + c)
    functions(P, rep)
    correct(P, rep, cls)


def walkj(x):
    if isinstance(x, dict):
        yield x
        for y in x.values():
            yield from walkj(y)
    elif isinstance(x, list):
        for y in x:
            yield from walkj(y)


def reach(P, name):
    """Expressions of a module definition and of the repository's functions it calls."""
    todo, seen = [f for f in P.fns if f["q"] == name], set()
    while todo:
        f = todo.pop()
        if f["id"] in seen:
            continue
        seen.add(f["id"])
        for e in walkj(f.get("body")):
            if e.get("k") in ("call", "ctor") and isinstance(e.get("fn"), int) and P.fns[e["fn"]].get("repo") and not P.fns[e["fn"]].get("method"):
                todo.append(P.fns[e["fn"]])
            yield e


def classes(P):
    """Python class name -> record and registrations, in order."""
    byrec, out = {}, {}
    es = list(reach(P, "pybind11_init_lmb"))
    for e in es:
        if e.get("k") != "ctor" or not isinstance(e.get("fn"), int):
            continue
        f = P.fns[e["fn"]]
        if f["q"].startswith("pybind11::class_::"):
            s = [a for a in e["args"] if strlit(a)]
            t = P.recs[f["rec"]]["targs"]
            if s and t:
                byrec[f["rec"]] = c = dict(name=strlit(s[0]), rec=P.rec_of(t[0]["t"]), ri=P.types[t[0]["t"]].get("rec"), l=e["l"], regs=[])
                out[c["name"]] = c
    for e in es:
        if e.get("k") != "call" or not isinstance(e.get("fn"), int):
            continue
        f = P.fns[e["fn"]]
        if f["q"].startswith("pybind11::class_::def") and f.get("rec") in byrec:
            c = byrec[f["rec"]]
            a = e["args"]
            n = strlit(a[0]) if a else None
            d = dict(name=n, args=a, l=e["l"])
            if f["n"] in ("def_readwrite", "def_readonly"):
                c["regs"].append(("attr", d))
            elif f["n"] == "def" and n is not None:
                c["regs"].append(("method", d))
            elif f["n"] == "def":
                g = P.fns[a[0]["fn"]] if a and a[0].get("k") in ("call", "ctor") and isinstance(a[0].get("fn"), int) else None
                if g is not None and g["q"] == "pybind11::init":
                    d["init"] = g
                    c["regs"].append(("init", d))
                elif g is not None and g["q"] == "pybind11::pickle":
                    d["fns"] = [x for x in a[0]["args"]]
                    c["regs"].append(("pickle", d))
    return out


def strlit(a):
    while isinstance(a, dict) and a.get("k") in ("cast", "paren", "given") and "e" in a:
        a = a["e"]
    return a.get("v") if isinstance(a, dict) and a.get("k") == "str" else None


def bound(a):
    """The member pointer, function or closure an argument denotes."""
    for e in walkj(a):
        if e.get("k") in ("memptr", "lambda"):
            return e
        if e.get("k") == "ref" and e.get("dk") == "fn":
            return e
    return None


def fields(P, c):
    return {f["n"]: f for f in allfields(P, c["rec"])}


def allfields(P, r):
    out = []
    for b in r.get("bases", []):
        br = P.rec_of(b["t"]) if isinstance(b, dict) else P.recs[b] if isinstance(b, int) else None
        if br is not None:
            out += allfields(P, br)
    return out + [f for f in P.rec_fields(r) if f["n"] not in {x["n"] for x in out}]


def attrs(c):
    return [(d["name"], bound(d["args"][1]), d) for k, d in c["regs"] if k == "attr"]


def norm(s):
    return s.strip("_")


def names(P, rep, c, cl):
    fs = fields(P, cl)
    used = {}
    for n, m, d in attrs(cl):
        W = P.loc(d["l"])
        if m is None or m.get("k") != "memptr" or "f" not in m:
            rep.ob(False, "%s.%s is bound to a member" % (c, n), W, "attr.%s.%s" % (c, n), "not read")
            continue
        f = m["f"]
        want = ALIAS.get((c, n), n)
        own = [x for x in fs if norm(x) == want]
        ok = norm(f) == want if own else True
        o = used.setdefault(f, n)
        rep.ob(ok and o == n, "%s.%s is the object's own %s" % (c, n, want), W, "attr.%s.%s" % (c, n), "bound to %s%s" % (f, "" if o == n else ", as is %s" % o))
    for k, d in cl["regs"]:
        if k != "method":
            continue
        W = P.loc(d["l"])
        m = bound(d["args"][1])
        if m is None or m.get("k") == "lambda":
            continue
        g = P.fns[m["fn"]] if isinstance(m.get("fn"), int) else None
        n = d["name"]
        if g is None:
            rep.ob(False, "%s.%s is bound to a function" % (c, n), W, "method.%s.%s" % (c, n), "not read")
            continue
        if n.startswith("__"):
            rep.ob(n != "__repr__" or g["n"] == "print", "%s prints itself" % c, W, "method.%s.%s" % (c, n), g["n"])
        else:
            same = [x for x in P.fns if x.get("rec") == g.get("rec") and x["n"] == n and x.get("method")]
            rep.ob(g["n"] == n or not same, "%s.%s calls the function of that name" % (c, n), W, "method.%s.%s" % (c, n), g["n"])
        keywords(P, rep, "%s.%s" % (c, n), g, d, W)


def keyword(P, a):
    """Keyword name of an argument annotation, and its default (None: none)."""
    name = None
    for e in walkj(a):
        if e.get("k") == "str" and name is None:
            name = e["v"]
    dflt = None
    if a.get("k") == "call" and P.fns[a["fn"]]["n"] == "operator=":
        x = a["args"][-1]
        while isinstance(x, dict) and x.get("k") in ("cast", "paren", "given") and "e" in x:
            x = x["e"]
        dflt = x.get("v") if x.get("k") in ("int", "float", "bool") else "?"
        if x is a["args"][-1] and dflt == "?" and x.get("k") == "un" and x.get("op") == "-":
            dflt = -x["e"].get("v", 0)
    return name, dflt


def kws(P, d, first):
    out = []
    for a in d["args"][first:]:
        f = P.fns[a["fn"]] if isinstance(a, dict) and isinstance(a.get("fn"), int) else None
        if f is None:
            continue
        r = P.rec_of(f["ret"]) if not f.get("ctor") else P.recs[f["rec"]]
        if r is not None and r["qual"] in ("pybind11::arg", "pybind11::arg_v"):
            out.append(keyword(P, a))
    return out


def keywords(P, rep, what, g, d, W, first=2):
    ks = kws(P, d, first)
    ps = [norm(p["n"]) for p in g["params"]]
    if not ks:
        return
    bad = None
    if len(ks) != len(ps):
        bad = "%d keywords for %d parameters" % (len(ks), len(ps))
    for i, (k, _) in enumerate(ks):
        if k in ps and i < len(ps) and ps[i] != k:
            bad = bad or "%s is parameter %d, passed as %d" % (k, ps.index(k) + 1, i + 1)
    rep.ob(bad is None, "%s takes its keywords in the order of its parameters" % what, W, "kw." + what + ".%d" % len(ks), bad)


# ---------------------------------------------------------------- construction
def ctor_of(P, cl, g):
    """The constructor init<Args...> calls."""
    args = []
    for t in g["targs"]:
        args += t["pack"] if isinstance(t, dict) and "pack" in t else [t]
    ts = [P.unref(t["t"]) if isinstance(t, dict) else t for t in args]
    best = None
    for f in P.fns:
        if not f.get("ctor") or f.get("rec") != cl["ri"] or len(f["params"]) != len(ts):
            continue
        ps = [P.unref(p["t"]) for p in f["params"]]
        if all(bare(P, a) == bare(P, b) for a, b in zip(ps, ts)):
            best = f
    return best


def bare(P, t):
    x = dict(P.types[t])
    x.pop("const", None)
    x.pop("s", None)
    return tuple(sorted((k, str(v)) for k, v in x.items()))


def ctors(P, rep, c, cl):
    at_ = attrs(cl)
    for k, d in cl["regs"]:
        if k != "init":
            continue
        W = P.loc(d["l"])
        f = ctor_of(P, cl, d["init"])
        tag = "init.%s.%d" % (c, len(f["params"]) if f else -1)
        if f is None:
            n = 0
            for t in d["init"]["targs"]:
                n += len(t["pack"]) if isinstance(t, dict) and "pack" in t else 1
            if n == 0 and not any(x.get("ctor") and x.get("rec") == cl["ri"] and not x["params"] for x in P.fns):
                continue
            rep.ob(False, "%s is constructed by one of its constructors" % c, W, tag, "not found")
            continue
        keywords(P, rep, "%s()" % c, f, d, W, 1)
        v = tracker.evalf(P, f, tracker.Cfg())
        for n, m, _ in at_:
            if m is None or "f" not in m:
                continue
            x = F(v, m["f"])
            u = [y for y in walk(x) if y.op == "undef"]
            rep.ob(not u, "a new %s has a value in %s" % (c, n), P.loc(f["l"]), tag + "." + n, show(x, 3)[:120])


# --------------------------------------------------------------------- pickling
def closure(P, a):
    m = bound(a)
    if m is None:
        return None
    if m["k"] == "lambda":
        return P.fns[m["fns"][0]]
    return P.fns[m["fn"]] if isinstance(m.get("fn"), int) else None


def pickle(P, rep, c, cl, d):
    W = P.loc(d["l"])
    g, s = [closure(P, a) for a in d["fns"][:2]]
    if g is None or s is None:
        return rep.bad("%s: the state functions are found" % c, W, "pickle." + c)
    vg, vs = tracker.evalf(P, g, tracker.Cfg()), tracker.evalf(P, s, tracker.Cfg())
    st = vg.ret
    if not isinstance(st, Term) or st.op != "tuple":
        return rep.bad("%s: the state is a tuple" % c, W, "pickle." + c, show(st, 3)[:200] if isinstance(st, Term) else None)
    out = vs.ret
    fs = fields(P, cl)
    ex = [e for e in flow.events(vs.nodes) if e.kind == "throw"]
    arg = {y.args[0] for x in [out] + [e.g for e in ex] for y in walk(x) if y.op == "pyval"} | {y.args[0] for e in ex for y in walk(e.g) if y.op == "size"}
    if len(arg) != 1:
        return rep.bad("%s: an object is restored from the state" % c, W, "pickle." + c, "%d states" % len(arg))
    arg = arg.pop()
    for e in ex:
        rep.ob(subst(e.g, {size(arg): num(len(st.args))}) is FALSE, "%s: its own state is accepted" % c, P.loc(e.n.l), "pickle.%s.accept" % c, show(e.g, 4))
    for n, m, _ in attrs(cl):
        if m is None or "f" not in m:
            continue
        f = m["f"]
        orig = vg.peek(at(vg, [f], vg.args[0]), vg.st0)
        res = get(out, ("f", f))
        S = {}
        bad = None
        for y in walk(res):
            if y.op == "pyval":
                if not is_num(y.args[1]) or numval(y.args[1]) >= len(st.args):
                    bad = "item %s of %d" % (show(y.args[1], 2), len(st.args))
                    continue
                t = st.args[int(numval(y.args[1]))]
                S[y] = t
                ft = P.types[P.unref(fs[f]["t"])]
                if ft["k"] in ("int", "flt", "bool", "enum") and y.args[2] != ft["k"]:
                    bad = "read as %s" % y.args[2]
                if ft["k"] == "rec" and y.args[2] not in ("rec", "flt"):
                    bad = "read as %s" % y.args[2]
        r = subst(res, S)
        if bad is None:
            bad = same(vg, r, orig, fs[f], f)
        rep.ob(bad is None, "%s: %s survives pickling" % (c, n), W, "pickle.%s.%s" % (c, n), bad)


def same(v, r, orig, fld, f):
    """Restored value equals the original one, entry by entry; the corners of a box are in order."""
    if r is orig:
        return None
    if f in ("min", "max"):
        for lo, hi in (((1, 2), (5, 7)), ((-3, -9), (2, -8)), ((0, 4), (0, 6))):
            for i in (0, 1):
                t = get(r, ("e", num(i)))
                t = subst(t, {v.peek(at(v, [x, num(k)], v.args[0]), v.st0): num(y[k]) for x, y in (("min", lo), ("max", hi)) for k in (0, 1)})
                w = (lo if f == "min" else hi)[i]
                if not (is_num(t) and numval(t) == w):
                    return "%s[%d] of a box (%s, %s) becomes %s" % (f, i, lo, hi, show(t, 4)[:120])
        return None
    sh = v.eig(fld["t"])
    if sh is None or not isinstance(sh[1], int) or not isinstance(sh[2], int):
        return "it becomes %s" % show(r, 4)[:150]
    for i in range(sh[1]):
        for j in range(sh[2]):
            if el(r, i, j) is not el(orig, i, j):
                return "entry (%d,%d) becomes %s" % (i, j, show(el(r, i, j), 4)[:150])
    return None


def functions(P, rep):
    """Module-level functions of the geodesy module."""
    n = 0
    for e in reach(P, "pybind11_init_cf"):
        if e.get("k") != "call" or not isinstance(e.get("fn"), int):
            continue
        f = P.fns[e["fn"]]
        if f["q"] != "pybind11::module_::def":
            continue
        nm = strlit(e["args"][0])
        m = bound(e["args"][1])
        g = P.fns[m["fn"]] if m is not None and isinstance(m.get("fn"), int) else None
        n += 1
        if nm is None or g is None or m.get("k") == "lambda":
            continue
        same = [x for x in P.fns if x["n"] == nm and x["q"].rsplit("::", 1)[0] == g["q"].rsplit("::", 1)[0]]
        rep.ob(g["n"] == nm or not same, "cf.%s calls the function of that name" % nm, P.loc(e["l"]), "cf." + nm, g["n"])
    rep.ob(n >= 10, "the geodesy functions are registered", "lmb/cf.cpp:1", "cf", "%d" % n)


def correct(P, rep, cls):
    t = cls.get("Tracker")
    d = [d for k, d in t["regs"] if k == "method" and d["name"] == "correct"] if t else []
    if not d:
        return rep.bad("the tracker is corrected from Python", "lmb/lmb.cpp:1", "correct")
    g = closure(P, d[0]["args"][1])
    W = P.loc(d[0]["l"])
    if g is None or not g.get("lambda") and g["n"] == "correct":
        return
    cfg = tracker.Cfg()
    cfg.P = P
    cfg.opaque = lambda f: f["q"].startswith("lmb::SILMB::")
    cfg.is_opaque = cfg.opaque
    v = tracker.evalf(P, g, cfg)
    cs = [e for e in flow.events(v.nodes) if e.kind == "call" and e.n.f["q"] == "lmb::SILMB::correct"]
    if len(cs) != 1 or cs[0].g is not TRUE or cs[0].loops:
        return rep.bad("a correction corrects the tracker once with what it was given", W, "correct.call", "%d calls" % len(cs))
    c = cs[0]
    this = c.n.get("obj")
    got = [this] + list(c.n.args)
    ok = len(got) == 4 and all(x is l or x is v.peek(l, v.st0) for x, l in zip(got, v.args))
    rep.ob(ok, "a correction passes the tracker its sensor, scan and time", P.loc(c.n.l), "correct.args", ", ".join(show(x, 3) for x in c.n.args))
    l = c.n.locs[1] if len(c.n.locs) > 1 else None
    rep.ob(l is not None and v.ret is v.peek(l, v.st) and v.ret is not v.peek(l, c.n.st), "a correction returns the scan the tracker has filled in", W, "correct.ret", show(v.ret, 3)[:150])
