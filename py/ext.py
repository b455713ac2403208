"""Models of the library functions the code base calls (Eigen, the standard library)."""
import re
from terms import *
import terms as tm
from ve import LOC, ext, VE, Frame, Unsupported

MATH = {"sqrt": "sqrt", "exp": "exp", "log": "log", "sin": "sin", "cos": "cos", "tan": "tan", "asin": "asin",
        "acos": "acos", "atan": "atan", "atan2": "atan2", "floor": "floor", "ceil": "ceil", "round": "round",
        "fabs": "abs", "abs": "abs", "isnan": "isnan", "isinf": "isinf", "isfinite": "isfinite", "hypot": "hypot",
        "cosh": "cosh", "sinh": "sinh", "tanh": "tanh", "fmod": "fmod", "cbrt": "cbrt", "log2": "log2", "log10": "log10", "log1p": "log1p", "expm1": "expm1"}
CONTAINERS = ("std::vector", "std::__cxx11::list", "std::set", "std::map", "std::deque", "std::priority_queue",
              "std::queue", "std::array", "std::unordered_map", "std::unordered_set", "std::multimap", "std::list")


def short(q):
    return re.sub(r"<.*>", "", q).split("::")[-1]


def isscalar(ve, t):
    return ve.p.ty(ve.p.unref(t))["k"] in ("int", "flt", "bool", "enum")


def arr(ve, e):
    if isinstance(e, Term):
        return False
    x = ve.eig(e["t"])
    return bool(x and x[3])


def rv(ve, e):
    return ve.argval(e)


def lvof(ve, obj, e):
    """Location of the object expression, or None when it is a pure value."""
    if isinstance(obj, Term):
        return obj if obj.op == "loc" else None
    if obj["k"] == "this":
        return ve.fr_this()
    ty = ve.p.ty(obj["t"])
    if ty["k"] == "ptr":
        return ve.deref(ve.rv(obj))
    return ve.lv(obj)


def objval(ve, obj):
    if isinstance(obj, Term):
        return ve.read(obj, note=False) if obj.op == "loc" else obj
    if obj["k"] == "this":
        return ve.read(ve.fr_this(), note=False)
    ty = ve.p.ty(obj["t"])
    if ty["k"] == "ptr":
        return ve.read(ve.deref(ve.rv(obj)))
    return ve.rv(obj)


def external(ve, f, obj, args, e, want):
    q = f["q"]
    n = f["n"]
    if f.get("repo"):
        return repo_opaque(ve, f, obj, args, e, want)
    rec = ve.p.recs[f["rec"]]["qual"] if f.get("rec") is not None and f.get("rec", -1) >= 0 and f.get("method") else ""
    if not n.startswith("operator") and (q == "std::" + n or q == n or q.startswith("std::__")) and n in MATH and not rec:
        vs = [rv(ve, a) for a in args]
        if len(vs) == 1 and isbool(vs[0]):
            vs = [boolnum(vs[0])]
        if n == "log1p":
            return fn("log", add(ONE, vs[0]))
        if n == "expm1":
            return sub(fn("exp", vs[0]), ONE)
        r = fn(MATH[n], *vs)
        return T("truth", r) if n.startswith("is") and not isbool(r) else r
    if not rec and n == "pow":
        a, b = rv(ve, args[0]), rv(ve, args[1])
        if ve.eig(args[0]["t"]) if not isinstance(args[0], Term) else False:
            return ve.tag(T("cwf", "pow", a, b), e["t"])
        return pw(a, b.args[0]) if is_num(b) else fn("pow", a, b)
    if q.startswith("Eigen::") or rec.startswith("Eigen::"):
        r = eigen(ve, f, rec, n, obj, args, e, want)
        if r is not None:
            return r
        return eigen_generic(ve, f, obj, args, e)
    if rec == "std::_Bit_reference" and obj is not None:
        # an element of a vector<bool>
        lo = lvof(ve, obj, e)
        if lo is not None and n == "operator=" and len(args) == 1:
            ve.write(lo, truth(rv(ve, args[0])), e["l"] if e else None)
            return lo
    if q.startswith(("std::", "__gnu_cxx::", "__gnu", "pybind11::")) or rec.startswith(("std::", "__gnu_cxx::", "pybind11::")):
        r = std(ve, f, rec, n, obj, args, e, want)
        if r is not None:
            return r
    return generic(ve, f, obj, args, e)


def erased(old, vs):
    """Container value after erase: the erase-remove idiom and erasing a found element are recognised."""
    a = vs[0].args[1] if vs and vs[0].op == "iter" else None
    if a is not None and a.op == "fn":
        whole = len(vs) == 1 or (vs[1].op == "iter" and vs[1].args[1] is size(old))
        if a.args[0] == "kept" and a.args[1] is old and old.op == "filtered" and whole and old.args[3] is ZERO:
            if old.args[0] == "remove":
                return T("without", old.args[1], old.args[2])
            if old.args[0] == "remove_if":
                return T("keepif", old.args[1], old.args[2])
            if old.args[0] == "unique":
                return T("dedup", old.args[1])
        if a.args[0] == "find" and a.args[1] is old and len(vs) == 1 and len(a.args) == 3:
            return T("without", old, a.args[2])
    return T("erased", old, *vs)


# ------------------------------------------------------------------ generic calls
def eval_args(ve, f, args):
    vals, locs = [], []
    for i, a in enumerate(args):
        p = f["params"][i] if i < len(f["params"]) else None
        l = None
        if p is not None and ve.p.ty(p["t"])["k"] in ("ref", "rref"):
            l = ve.argloc(a, p["t"])
            vals.append(ve.read(l, ve.ltype.get(l)))
        else:
            vals.append(ve.argval(a))
        locs.append(l)
    return vals, locs


def havoc_args(ve, f, vals, locs, l):
    for i, (v, loc) in enumerate(zip(vals, locs)):
        p = f["params"][i] if i < len(f["params"]) else None
        if p is None:
            continue
        ty = ve.p.ty(p["t"])
        if ty["k"] in ("ref", "rref") and loc is not None and not ve.p.ty(ty["to"]).get("const") and ty["k"] == "ref":
            ve.havoc(loc, f["n"], l)
        elif ty["k"] == "ptr" and not ve.p.ty(ty["to"]).get("const") and ve.p.ty(ty["to"])["k"] not in ("fn", "fun"):
            if v.op == "addr":
                ve.havoc(v.args[0] if not (v.args[0].args[1] and v.args[0].args[1][-1][0] == "e")
                         else LOC(v.args[0].args[0], v.args[0].args[1][:-1]), f["n"], l)
            elif v.op not in ("null", "str", "fnptr", "closure"):
                ve.havoc(LOC(("D", v)), f["n"], l)


def deref(ve, v):
    """Reference members replaced by the values they refer to."""
    m = {x: ve.read(x.args[0], note=False) for x in tm.walk(v) if x.op == "refto"}
    return tm.subst(v, m) if m else v


def repo_opaque(ve, f, obj, args, e, want):
    l = e.get("l") if e else None
    this = None
    if obj is not None:
        this = obj if isinstance(obj, Term) else ve.objloc(obj, e.get("arrow") if e else False)
    vals, locs = eval_args(ve, f, args)
    if ve.cfg.is_pure(f):
        ov = [ve.read(this, note=False)] if this is not None else []
        if ve.cfg.reads and not ve.cheap:
            for x in [this] + locs:
                if x is not None:
                    ve.emit("read", l, loc=x, whole=True)
        r = T("fn", f["q"], *[deref(ve, v) for v in ov + vals])
        if ve.p.ty(f["ret"])["k"] == "bool":
            r = T("truth", r)
        return ve.tag(r, f["ret"])
    ve.calln += 1
    ret = T("res", f["q"], ve.calln, ve.loopctx())
    ve.emit("call", l, q=f["q"], f=f, obj=this, args=vals, argx=args, locs=locs, ret=ret, st=ve.st.copy())
    eff = ve.cfg.effects(ve, f, this, vals, locs)
    if eff is not None:
        for x in eff:
            ve.havoc(x, f["n"], l)
    else:
        if this is not None and not f.get("const") and not f.get("static"):
            ve.havoc(this, f["n"], l)
        havoc_args(ve, f, vals, locs, l)
    if ve.p.ty(f["ret"])["k"] == "bool":
        return T("truth", ret)
    return ve.tag(ret, f["ret"])


def generic(ve, f, obj, args, e):
    l = e.get("l") if e else None
    this = None
    if obj is not None:
        this = lvof(ve, obj, e)
        if this is None:
            this = ve.temp(objval(ve, obj), obj["t"])
    vals, locs = eval_args(ve, f, args)
    ve.calln += 1
    ret = T("res", f["q"], ve.calln, ve.loopctx())
    ve.emit("call", l, q=f["q"], f=f, obj=this, args=vals, argx=args, locs=locs, ret=ret)
    for v in vals:
        call_closure_once(ve, v, e)
    if this is not None and not f.get("const") and not f.get("static") and this.args[0][0] != "T":
        ve.havoc(this, f["n"], l)
    havoc_args(ve, f, vals, locs, l)
    if f["n"] in ("exit", "abort", "terminate", "__assert_fail"):
        ve.emit("throw", l, exit=True)
        ve.st.dead = True
    if e is not None and ve.p.ty(e["t"])["k"] == "bool":
        return T("truth", ret)
    return ve.tag(ret, f["ret"])


def call_closure_once(ve, v, e, elems=None):
    """Effects of a callable handed to a library algorithm."""
    if v.op == "closure":
        le, fr, caps = ve.closures[v.args[0]]
        fns = [ve.p.fns[i] for i in le["fns"] if "body" in ve.p.fns[i]]
        if not fns:
            return None
        n = len(fns[0]["params"])
        a = []
        for i in range(n):
            x = elems[i] if elems and i < len(elems) else fresh("elem", i)
            if isinstance(x, Term) and x.op != "loc":
                x = ve.temp(x, fns[0]["params"][i]["t"])
            a.append(x)
        return ve.invoke_closure(v, a, e)
    if v.op == "fnptr":
        f = ve.p.fns[v.args[0]]
        if f.get("repo") and "body" in f and len(ve.stack) < 40 and f["id"] not in ve.stack:
            a = []
            for i, p in enumerate(f["params"]):
                x = elems[i] if elems and i < len(elems) else fresh("elem", i)
                if isinstance(x, Term) and x.op != "loc":
                    x = ve.temp(x, p["t"])
                a.append(x)
            return ve.dispatch(f, None, a, e, "rv")
    return None


# ------------------------------------------------------------------------- Eigen
VIEWS = {"head", "tail", "segment", "block", "row", "col", "topLeftCorner", "bottomRightCorner", "topRightCorner",
         "bottomLeftCorner", "topRows", "bottomRows", "leftCols", "rightCols", "middleRows", "middleCols"}
IDENTITY = {"array", "matrix", "noalias", "derived", "const_cast_derived", "eval", "finished", "nestedExpression", "selfadjointView"}


def asint(x):
    return int(x.args[0]) if isinstance(x, Term) and x.op == "num" else x


def tdim(f):
    return [x if isinstance(x, int) else (x.get("v") if isinstance(x, dict) else None) for x in f.get("targs", [])]


def viewbox(ve, f, n, obj, sh, av):
    """(i, j, r, c) of a view function of an object with shape sh (terms)."""
    R, C = asint(sh[0]), asint(sh[1])
    ta = [x for x in tdim(f) if isinstance(x, int) and x >= 0]
    nums = ta if ta else [asint(x) for x in av]
    sub = lambda a, b: a - b if isinstance(a, int) and isinstance(b, int) else asint(tm.sub(a if isinstance(a, Term) else num(a), b if isinstance(b, Term) else num(b)))
    col = not (R == 1 and C != 1)
    if n == "head":
        k = nums[0]
        return (0, 0, k, 1) if col else (0, 0, 1, k)
    if n == "tail":
        k = nums[0]
        return (sub(R, k), 0, k, 1) if col else (0, sub(C, k), 1, k)
    if n == "segment":
        if ta:
            k, i = ta[0], asint(av[0])
        else:
            i, k = asint(av[0]), asint(av[1])
        return (i, 0, k, 1) if col else (0, i, 1, k)
    if n == "block":
        if len(ta) >= 2:
            return (asint(av[0]), asint(av[1]), ta[0], ta[1])
        return tuple(asint(x) for x in av[:4])
    if n == "row":
        return (asint(av[0]), 0, 1, C)
    if n == "col":
        return (0, asint(av[0]), R, 1)
    if n.endswith("Corner"):
        r, c = (nums + nums)[:2] if len(nums) == 1 else nums[:2]
        i = 0 if n.startswith("top") else sub(R, r)
        j = 0 if "Left" in n else sub(C, c)
        return (i, j, r, c)
    k = nums[0]
    if n == "topRows":
        return (0, 0, k, C)
    if n == "bottomRows":
        return (sub(R, k), 0, k, C)
    if n == "leftCols":
        return (0, 0, R, k)
    if n == "rightCols":
        return (0, sub(C, k), R, k)
    if n == "middleRows":
        return (asint(av[0]), 0, ta[0] if ta else asint(av[1]), C)
    if n == "middleCols":
        return (0, asint(av[0]), R, ta[0] if ta else asint(av[1]))
    return None


def typedshape(ve, t, v):
    x = ve.eig(t)
    r, c = (x[1], x[2]) if x else (None, None)
    sh = None
    if not (r and c):
        sh = ve.shape(v)
    return (num(r) if r else sh[0], num(c) if c else sh[1])


def cw(op, a, b):
    """Element-wise combination."""
    if a.op == "ite":
        return ite(a.args[0], cw(op, a.args[1], b), cw(op, a.args[2], b))
    if b.op == "ite":
        return ite(b.args[0], cw(op, a, b.args[1]), cw(op, a, b.args[2]))
    if a.op == "const" and op == "*":
        return mscale(a.args[0], b)
    if b.op == "const" and op == "*":
        return mscale(b.args[0], a)
    if b.op == "const" and op == "/":
        return mscale(div(ONE, b.args[0]), a)
    r, c = tm._d2(a, b)
    if op == "+":
        return madd(a, b)
    if op == "-":
        return madd(a, mneg(b))
    if r and c and r * c <= 16 and (a.op == "cm" or b.op == "cm" or r * c <= 4):
        F = {"*": mul, "/": div, "min": lambda x, y: fn("min", x, y), "max": lambda x, y: fn("max", x, y),
             "<": lambda x, y: lt(x, y)}[op]
        return cm(r, c, [F(el(a, i, j), el(b, i, j)) for i in range(r) for j in range(c)])
    if op in ("*", "min", "max") and b.id < a.id:
        a, b = b, a
    return setdims(T("cw", op, a, b), r, c)


def cwf(name, a, *x):
    r, c = dims(a)
    if r and c and r * c <= 16:
        return cm(r, c, [fn(name, el(a, i, j), *x) for i in range(r) for j in range(c)])
    return setdims(T("cwf", name, a) if not x else T("cwf", name, a, *x), r, c)


def elems(a):
    r, c = dims(a)
    if r and c and r * c <= 16:
        return [el(a, i, j) for i in range(r) for j in range(c)]
    return None


def msum(a):
    es = elems(a)
    if es is not None:
        return add(*es)
    return fn("msum", a) if a.op != "mat" else T("fn", "msum", a)


def comma(ve, e):
    """(target location, items) of a comma initialiser chain."""
    f = ve.p.fns[e["fn"]]
    if f["n"] == "operator<<":
        o, it = (e["obj"], e["args"][0]) if e.get("obj") is not None else (e["args"][0], e["args"][1])
        l = lvof(ve, o, e)
        if l is None:
            l = ve.temp(objval(ve, o), o["t"])
        return l, o["t"], [it]
    o, it = (e["obj"], e["args"][0]) if e.get("obj") is not None else (e["args"][0], e["args"][1])
    while o["k"] == "cast" or (o["k"] == "ctor" and len(o["args"]) == 1):
        o = o["e"] if o["k"] == "cast" else o["args"][0]
    l, t, items = comma(ve, o)
    return l, t, items + [it]


def commawrite(ve, e):
    l, t, items = comma(ve, e)
    old = ve.read(l, note=False)
    R, C = typedshape(ve, t, old)
    R, C = asint(R), asint(C)
    vals = []
    for it in items:
        v = rv(ve, it)
        s = (1, 1) if isscalar(ve, it["t"]) else tuple(asint(x) for x in typedshape(ve, it["t"], v))
        vals.append((boolnum(v) if isbool(v) else v, s))
    if isinstance(R, int) and isinstance(C, int) and all(isinstance(s[0], int) and isinstance(s[1], int) for _, s in vals):
        grid = {}
        i = j = 0
        h = None
        ok = True
        for v, (r, c) in vals:
            if j + c > C and j == C:
                i, j, h = i + h, 0, None
            for a in range(r):
                for b in range(c):
                    grid[i + a, j + b] = v if (r, c) == (1, 1) and v.op not in ("cm", "mat", "blk") else el(v, a, b)
            h = r
            j += c
        if len(grid) == R * C and all((a, b) in grid for a in range(R) for b in range(C)):
            ve.write(l, cm(R, C, [grid[a, b] for a in range(R) for b in range(C)]), e.get("l"))
            return l
    v = ve.tag(fresh("comma", *[x for x, _ in vals]), t)
    ve.write(l, v, e.get("l"))
    return l


def product(ve, a, b, ea, eb):
    """a * b where either may be a scalar."""
    sa = ea is not None and isscalar(ve, ea["t"])
    sb = eb is not None and isscalar(ve, eb["t"])
    if sa:
        return mscale(a, b)
    if sb:
        return mscale(b, a)
    if arr(ve, ea) or arr(ve, eb):
        return cw("*", a, b)
    return mmul(a, b)


def constm(s, like):
    r, c = dims(like)
    if r and c and r * c <= 16:
        return cm(r, c, [s] * (r * c))
    t = T("const", s, num(r) if r else T("rows", like), num(c) if c else T("cols", like))
    return setdims(t, r, c)


def eigen(ve, f, rec, n, obj, args, e, want):
    l = e.get("l") if e else None
    if n == "operator," and rec == "Eigen::CommaInitializer":
        return commawrite(ve, e)
    if n == "operator<<":
        ops = ([obj] if obj is not None else []) + list(args)
        if len(ops) == 2 and ve.eig(ops[0]["t"]) and not ve.p.rec_of(ops[0]["t"])["qual"].startswith("std::"):
            return commawrite(ve, e)
        return stream(ve, ops[0], ops[1], e)
    if n == "finished" and obj is not None and not isinstance(obj, Term):
        o = obj
        while o["k"] in ("cast", "ctor"):
            o = o["e"] if o["k"] == "cast" else o["args"][0]
        if o["k"] == "call":
            return commawrite(ve, o)
    ops = ([obj] if obj is not None else []) + list(args)
    # views
    if n in VIEWS and obj is not None:
        lo = lvof(ve, obj, e)
        av = [rv(ve, a) for a in args]
        ov = ve.read(lo, note=False) if lo is not None else objval(ve, obj)
        if not isinstance(obj, Term):
            ve.tag(ov, obj["t"])
        sh = typedshape(ve, obj["t"], ov)
        box = viewbox(ve, f, n, obj, sh, av)
        if box is None:
            return None
        if lo is not None:
            r = ext(lo, ("v",) + box)
            ve.ltype.setdefault(r, e["t"])
            if want == "rv" and ve.cfg.reads and not ve.cheap:
                ve.emit("read", loc=r)
            return r
        return ve.tag(block(ov, *box), e["t"])
    if n in IDENTITY and obj is not None:
        lo = lvof(ve, obj, e) if n != "eval" else None
        return lo if lo is not None else objval(ve, obj)
    if n in ("operator()", "operator[]", "coeff", "coeffRef", "x", "y", "z", "w") and obj is not None:
        lo = lvof(ve, obj, e)
        av = [rv(ve, a) for a in args]
        if n in "xyzw":
            av = [num("xyzw".index(n))]
        ov = ve.read(lo, note=False) if lo is not None else objval(ve, obj)
        if len(av) == 1:
            sh = typedshape(ve, obj["t"], ov)
            if asint(sh[0]) == 1 and asint(sh[1]) != 1:
                av = [ZERO, av[0]]
            elif isinstance(sh[0], Term) and is_num(sh[0]) and numval(sh[0]) > 1 and asint(sh[1]) != 1 and is_num(av[0]):
                # one index into a matrix counts down its columns
                av = [num(int(numval(av[0]) % numval(sh[0]))), num(int(numval(av[0]) // numval(sh[0])))]
            else:
                av = [av[0], ZERO]
        if len(av) != 2:
            return None
        i, j = asint(av[0]), asint(av[1])
        if lo is not None:
            r = ext(lo, ("m", i, j))
            ve.ltype.setdefault(r, e["t"])
            if want == "rv" and ve.cfg.reads and not ve.cheap:
                ve.emit("read", loc=r)
            return r
        return el(ov, i, j)
    if n in ("value",) and obj is not None:
        return el(objval(ve, obj), 0, 0)
    # assignments
    if n in ("operator=", "operator+=", "operator-=", "operator*=", "operator/=", "lazyAssign"):
        lo = lvof(ve, ops[0], e)
        if lo is None:
            lo = ve.temp(objval(ve, ops[0]), ops[0]["t"])
        v = rv(ve, ops[1])
        o = n[8:-1]
        if o:
            old = ve.read(lo, note=ve.cfg.reads)
            ve.tag(old, ops[0]["t"])
            s = isscalar(ve, ops[1]["t"])
            if o == "+":
                v = madd(old, constm(v, old) if s else v)
            elif o == "-":
                v = madd(old, mneg(constm(v, old) if s else v))
            elif o == "*":
                v = mscale(v, old) if s else (cw("*", old, v) if arr(ve, ops[0]) else mmul(old, v))
            elif o == "/":
                v = mscale(div(ONE, v), old) if s else cw("/", old, v)
        ve.write(lo, v, l, op=o + "=" if o else "=")
        return lo
    # operators producing values
    if n == "operator+" and len(ops) == 2 or n == "operator-" and len(ops) == 2:
        x = [vw(ve, o) for o in ops]
        a, b = [rv(ve, o) for o in ops]
        a, b = bcast(ve, x, a, b)
        if isscalar(ve, ops[0]["t"]):
            a = constm(a, b)
        if isscalar(ve, ops[1]["t"]):
            b = constm(b, a)
        return ve.tag(madd(a, b if n == "operator+" else mneg(b)), e["t"])
    if n == "operator-" and len(ops) == 1:
        return mneg(rv(ve, ops[0]))
    if n == "operator*" and len(ops) == 2:
        x = [vw(ve, o) for o in ops]
        a, b = [rv(ve, o) for o in ops]
        if any(x):
            a, b = bcast(ve, x, a, b)
            return ve.tag(cw("*", a, b), e["t"])
        return ve.tag(product(ve, a, b, ops[0], ops[1]), e["t"])
    if n == "operator/" and len(ops) == 2:
        x = [vw(ve, o) for o in ops]
        a, b = [rv(ve, o) for o in ops]
        if any(x):
            a, b = bcast(ve, x, a, b)
            return ve.tag(cw("/", a, b), e["t"])
        if isscalar(ve, ops[1]["t"]):
            return mscale(div(ONE, b), a)
        if isscalar(ve, ops[0]["t"]):
            a = constm(a, b)
        return ve.tag(cw("/", a, b), e["t"])
    if n in ("cwiseProduct", "cwiseQuotient", "cwiseMin", "cwiseMax", "min", "max") and len(ops) == 2 and obj is not None:
        a, b = rv(ve, obj), rv(ve, args[0])
        if isscalar(ve, args[0]["t"]):
            b = constm(b, a)
        o = {"cwiseProduct": "*", "cwiseQuotient": "/", "cwiseMin": "min", "cwiseMax": "max"}.get(n, n)
        return ve.tag(cw(o, a, b), e["t"])
    if n in ("operator<", "operator>", "operator<=", "operator>=", "operator==", "operator!=") and len(ops) == 2:
        a, b = [rv(ve, o) for o in ops]
        if n == "operator==" and not (arr(ve, ops[0]) or arr(ve, ops[1])):
            return a is b and TRUE or T("truth", T("fn", "meq", a, b))
        if isscalar(ve, ops[1]["t"]):
            b = constm(b, a)
        if isscalar(ve, ops[0]["t"]):
            a = constm(a, b)
        return ve.tag(T("cw", n[8:], a, b), e["t"])
    if n == "transpose":
        v = objval(ve, obj)
        ve.tag(v, obj["t"])
        r = transpose(v)
        return ve.tag(r, e["t"])
    if n == "inverse":
        v = objval(ve, obj)
        ve.tag(v, obj["t"])
        return ve.tag(inverse(v), e["t"]) if dims(v) != (1, 1) else cm(1, 1, [div(ONE, el(v, 0, 0))])
    if n == "determinant":
        v = objval(ve, obj)
        ve.tag(v, obj["t"])
        r, c = dims(v)
        if (r, c) == (2, 2) and v.op == "cm":
            return sub(mul(el(v, 0, 0), el(v, 1, 1)), mul(el(v, 0, 1), el(v, 1, 0)))
        return fn("det", v)
    if n in ("sum", "minCoeff", "maxCoeff", "prod", "mean", "norm", "squaredNorm", "trace", "any", "all") and obj is not None:
        x = vw(ve, obj)
        v = rv(ve, obj)
        if args and n in ("minCoeff", "maxCoeff"):
            idx = fresh("arg" + n, v)
            for a in args:
                pv = rv(ve, a)
                if pv.op == "addr":
                    ve.write(pv.args[0], idx, l)
            return fn(n, v)
        if x:
            return ve.tag(T("fnm", x + "." + n, v), e["t"])
        ve.tag(v, obj["t"])
        es = elems(v)
        if n == "sum":
            return msum(v)
        if es is not None:
            if n == "minCoeff":
                return fn("min", *es)
            if n == "maxCoeff":
                return fn("max", *es)
            if n == "squaredNorm":
                return add(*[mul(x, x) for x in es])
            if n == "norm":
                return fn("sqrt", add(*[mul(x, x) for x in es]))
            if n == "trace":
                r, c = dims(v)
                return add(*[el(v, i, i) for i in range(r)])
        r = T("fn", n, v)
        return T("truth", r) if n in ("any", "all") else r
    if n in ("dot",):
        a, b = rv(ve, obj), rv(ve, args[0])
        ve.tag(a, obj["t"]), ve.tag(b, args[0]["t"])
        return el(mmul(transpose(a), b), 0, 0) if dims(a)[1] == 1 else fn("dot", a, b)
    if n in ("exp", "log", "sqrt", "abs", "floor", "square", "isInf", "isNaN", "isFinite", "cwiseAbs", "cwiseSqrt",
             "cwiseAbs2", "sin", "cos", "ceil") and obj is not None or (n in ("exp", "log", "sqrt", "abs") and args):
        v = rv(ve, ops[0])
        ve.tag(v, ops[0]["t"])
        if n in ("square", "cwiseAbs2"):
            return ve.tag(cw("*", v, v), e["t"])
        nm = {"cwiseAbs": "abs", "cwiseSqrt": "sqrt"}.get(n, n)
        if nm in ("isInf", "isNaN", "isFinite"):
            return ve.tag(T("cwf", nm, v), e["t"])
        return ve.tag(cwf(nm, v), e["t"])
    if n == "pow" and len(ops) == 2:
        v, p = rv(ve, ops[0]), rv(ve, ops[1])
        ve.tag(v, ops[0]["t"])
        es = elems(v)
        if es is not None and is_num(p):
            r, c = dims(v)
            return cm(r, c, [pw(x, p.args[0]) for x in es])
        return ve.tag(T("cwf", "pow", v, p), e["t"])
    if n == "operator!":
        return ve.tag(T("cwf", "!", rv(ve, ops[0])), e["t"])
    if n in ("cast", "asDiagonal", "diagonal", "template"):
        v = rv(ve, obj)
        if n == "cast":
            x = ve.eig(e["t"])
            return ve.tag(T("cwf", "cast", v), e["t"])
        if n == "asDiagonal":
            r = dims(v)[0]
            if r and r <= 6:
                return cm(r, r, [el(v, i, 0) if i == j else ZERO for i in range(r) for j in range(r)])
            return ve.tag(T("fnm", "diag", v), e["t"])
        r = dims(v)[0]
        if r and r <= 6:
            return cm(r, 1, [el(v, i, i) for i in range(r)])
        return ve.tag(T("fnm", "diagonal", v), e["t"])
    if n in ("colwise", "rowwise"):
        return rv(ve, obj)
    if n in ("replicate",):
        return None
    # constants
    if n in ("Zero", "Identity", "Constant", "Ones", "Random"):
        av = [rv(ve, a) for a in args]
        x = ve.eig(e["t"])
        r, c = x[1], x[2]
        dyn = [a for a in av]
        val = {"Zero": ZERO, "Ones": ONE}.get(n)
        if n == "Constant":
            val = dyn.pop()
        if len(dyn) == 2:
            R, C = dyn
        elif len(dyn) == 1:
            R, C = (dyn[0], num(1)) if r != 1 else (num(1), dyn[0])
        else:
            R, C = num(r or 0), num(c or 0)
        r, c = r or asint(R), c or asint(C)
        if n == "Identity" and isinstance(r, int) and isinstance(c, int) and 0 < r * c <= 36:
            return cm(r, c, [ONE if i == j else ZERO for i in range(r) for j in range(c)])
        if val is not None:
            if isinstance(r, int) and isinstance(c, int) and 0 < r * c <= 36:
                return cm(r, c, [val] * (r * c))
            return setdims(T("const", val, R, C), r if isinstance(r, int) else None, c if isinstance(c, int) else None)
        return None
    if n in ("setZero", "setConstant", "setIdentity", "setOnes", "fill", "resize", "conservativeResize", "setRandom"):
        lo = lvof(ve, obj, e)
        if lo is None:
            return None
        av = [rv(ve, a) for a in args]
        old = ve.read(lo, note=False)
        R, C = typedshape(ve, obj["t"], old)
        if n in ("resize", "conservativeResize"):
            x = ve.eig(obj["t"])
            if len(av) == 2:
                R, C = av
            elif x[1] == 1:
                R, C = ONE, av[0]
            else:
                R, C = av[0], C if x[2] else ONE
            v = T("resize", old, R, C) if n[0] == "c" else fresh("undefm", lo)
            if n[0] == "r":
                VE.UNDEFM.add(v)
            ve.tag(v, obj["t"])
            VE.SHAPE[v] = (R, C)
            ve.write(lo, v, l, op="resize")
            return lo
        val = {"setZero": ZERO, "setOnes": ONE}.get(n)
        if n in ("setConstant", "fill"):
            val = av.pop()
        if len(av) == 2:
            R, C = av
        elif len(av) == 1:
            R, C = (av[0], ONE) if ve.eig(obj["t"])[1] != 1 else (ONE, av[0])
        r, c = asint(R), asint(C)
        if n == "setIdentity" and isinstance(r, int) and isinstance(c, int) and r * c <= 36:
            v = cm(r, c, [ONE if i == j else ZERO for i in range(r) for j in range(c)])
        elif val is not None:
            if isinstance(r, int) and isinstance(c, int) and 0 < r * c <= 36:
                v = cm(r, c, [val] * (r * c))
            else:
                v = setdims(T("const", val, R, C), r if isinstance(r, int) else None, c if isinstance(c, int) else None)
        else:
            v = fresh(n)
        ve.write(lo, v, l)
        return lo
    if n in ("rows", "cols", "size"):
        rd, ve.cfg.reads = ve.cfg.reads, False
        v = objval(ve, obj)
        ve.cfg.reads = rd
        R, C = typedshape(ve, obj["t"], v)
        return R if n == "rows" else C if n == "cols" else mul(R, C)
    if n == "unaryExpr":
        v = objval(ve, obj)
        fv = rv(ve, args[0])
        call_closure_once(ve, fv, e)
        r = ve.tag(fresh("unaryExpr"), e["t"])
        R, C = typedshape(ve, obj["t"], v)
        if is_num(R) and is_num(C) and dims(r)[0] is None:
            r = setdims(r, int(numval(R)), int(numval(C)))
        return r
    if n == "format":
        return T("fmt", objval(ve, obj), ioformat(ve, args[0]) if args else ())
    if n == "swap" and obj is not None:
        a, b = lvof(ve, obj, e), lvof(ve, args[0], e)
        if a is not None and b is not None:
            va, vb = ve.read(a, note=False), ve.read(b, note=False)
            ve.write(a, vb, l)
            ve.write(b, va, l)
            return T("void")
    return None


def vw(ve, o):
    """'row'/'col' when the operand is a rowwise()/colwise() proxy."""
    if isinstance(o, Term):
        return None
    x = ve.eig(o["t"])
    if x and x[0] == "vw":
        while o["k"] in ("cast",) or (o["k"] == "ctor" and len(o["args"]) == 1):
            o = o["e"] if o["k"] == "cast" else o["args"][0]
        if o["k"] == "call":
            n = ve.p.fns[o["fn"]]["n"]
            return n[:3]
        return "vw"
    return None


def bcast(ve, x, a, b):
    if x[0] and not x[1]:
        r, c = dims(a)
        b = setdims(T("rep", x[0], b, a if r is None or c is None else num(r * c)), r, c)
    elif x[1] and not x[0]:
        r, c = dims(b)
        a = setdims(T("rep", x[1], a, b if r is None or c is None else num(r * c)), r, c)
    return a, b


PURE_EIGEN = ("llt", "ldlt", "matrixL", "matrixU", "eigenvalues", "eigenvectors", "solve", "triangularView", "lu",
              "partialPivLu", "fullPivLu", "householderQr", "jacobiSvd", "adjoint", "reverse", "normalized", "isApprox")


def eigen_generic(ve, f, obj, args, e):
    n = f["n"]
    vals = [rv(ve, a) for a in args]
    for v in vals:
        call_closure_once(ve, v, e)
    if obj is not None:
        lo = lvof(ve, obj, e)
        ov = ve.read(lo, note=False) if lo is not None else objval(ve, obj)
        if not f.get("const") and n not in PURE_EIGEN and lo is not None and lo.args[0][0] != "T" and not f.get("static"):
            ve.calln += 1
            ve.emit("call", e.get("l"), q=f["q"], f=f, obj=lo, args=vals, argx=args, locs=[None] * len(vals), ret=None)
            ve.havoc(lo, n, e.get("l"))
        if ov.op == "ctor" and len(ov.args) == 2:
            ov = ov.args[1]
        vals = [ov] + vals
    t = T("fnm", n, *vals)
    if ve.p.ty(e["t"])["k"] == "bool":
        return T("truth", t)
    return ve.tag(t, e["t"])


# ----------------------------------------------------------------------- standard
def ioformat(ve, a):
    """The separators of a matrix format: those its constructor was given."""
    def strs(x):
        if isinstance(x, dict):
            if x.get("k") == "str":
                return [x["v"]]
            return [s for k, y in x.items() if k in ("args", "e", "init") for s in strs(y)]
        return [s for y in x for s in strs(y)] if isinstance(x, list) else []
    while isinstance(a, dict) and a.get("k") in ("cast", "paren", "given") and "e" in a:
        a = a["e"]
    if isinstance(a, dict) and a.get("k") == "ref" and a.get("dk") not in ("parm",):
        for g in ve.p.globs:
            if g["d"] == a.get("d"):
                return tuple(strs(g.get("init")))
    return tuple(strs(a)) if isinstance(a, dict) else ()


def stream(ve, a, b, e):
    l = lvof(ve, a, e) if not isinstance(a, Term) else a
    v = rv(ve, b) if isinstance(b, Term) or ve.p.ty(b["t"])["k"] != "fn" else T("str", "")
    ve.emit("out", e.get("l") if e else None, stream=l, val=v)
    return l if l is not None else fresh("stream")


def iterloc(ve, obj, e):
    """(location holding the iterator or None, iterator value)."""
    lo = lvof(ve, obj, e) if not isinstance(obj, Term) else (obj if obj.op == "loc" else None)
    v = ve.read(lo, note=False) if lo is not None else rv(ve, obj)
    return lo, v


def contof(ve, a, e):
    """Container location of begin(x)/end(x)."""
    l = lvof(ve, a, e)
    if l is None:
        l = ve.temp(objval(ve, a), a["t"] if not isinstance(a, Term) else None)
    return l


def mkend(ve, l):
    return size(ve.read(l, note=False))


def is_iter_type(ve, t):
    r = ve.p.rec_of(t)
    return bool(r and ("iterator" in r["qual"]))


def std(ve, f, rec, n, obj, args, e, want):
    l = e.get("l") if e else None
    ops = ([obj] if obj is not None else []) + list(args)

    # ---- streams
    if n == "operator<<" and len(ops) == 2:
        r0 = ve.p.rec_of(ops[0]["t"]) if not isinstance(ops[0], Term) else None
        if r0 is None or "stream" in r0["qual"]:
            return stream(ve, ops[0], ops[1], e)
    if rec.startswith("std::") and "stream" in rec:
        if n == "str" and not args:
            lo = lvof(ve, obj, e)
            return T("fn", "str", lo if lo is not None else fresh("ss"))
        if n == "flush":
            return lvof(ve, obj, e)

    # ---- iterators
    if n.startswith("operator") and ops and not isinstance(ops[0], Term) and is_iter_type(ve, ops[0]["t"]) \
            or (n.startswith("operator") and "iterator" in rec):
        o = n[8:]
        if o in ("++", "--"):
            lo, v = iterloc(ve, ops[0], e)
            nv = ve.step(v, 1 if o == "++" else -1)
            if lo is not None:
                ve.write(lo, nv, l, op=o)
            return v if len(ops) == 2 else (lo if lo is not None and want == "lv" else nv)
        if o == "=":
            lo = lvof(ve, ops[0], e)
            ve.write(lo, rv(ve, ops[1]), l)
            return lo
        vs = [rv(ve, x) for x in ops]
        v = vs[0]
        if o == "*" and len(ops) == 1:
            if v.op == "iter":
                el_ = ve.iterelem(v)
            else:
                el_ = ve.deref(v, e["t"])
            ve.ltype.setdefault(el_, ve.p.unref(e["t"]))
            return el_
        if o == "->":
            el_ = ve.iterelem(v) if v.op == "iter" else ve.deref(v)
            ty = ve.p.ty(e["t"])
            if ty["k"] == "ptr":
                ve.ltype.setdefault(el_, ty["to"])
            return T("addr", el_)
        if o in ("==", "!=", "<", ">", "<=", ">=") and len(vs) == 2:
            return ve.compare(o, vs[0], vs[1], True, True)
        if o in ("+", "-", "+=", "-=") and len(vs) == 2:
            a, b = vs
            if a.op != "iter" and b.op == "iter" and o == "+":
                a, b = b, a
            if a.op == "iter" and b.op == "iter" and o == "-":
                return sub(a.args[1], b.args[1])
            if a.op == "iter":
                r = T("iter", a.args[0], add(a.args[1], b) if o[0] == "+" else sub(a.args[1], b), a.args[2])
            else:
                r = add(a, b) if o[0] == "+" else sub(a, b)
            if o in ("+=", "-="):
                ve.write(lvof(ve, ops[0], e), r, l)
            return r
        if o == "[]" and len(vs) == 2:
            v = ve.step(v, 0) if v.op != "iter" else T("iter", v.args[0], add(v.args[1], vs[1]), v.args[2])
            return ve.iterelem(v) if v.op == "iter" else ve.deref(add(v, vs[1]))
        return None
    if n == "base" and "iterator" in rec:
        return rv(ve, obj)

    # ---- begin/end
    if n in ("begin", "end", "cbegin", "cend", "rbegin", "rend", "crbegin", "crend") and (obj is not None or len(args) == 1):
        c = contof(ve, obj if obj is not None else args[0], e)
        d = -1 if n.lstrip("c").startswith("r") else 1
        if ve.cfg.reads and not ve.cheap:
            ve.emit("read", loc=c)
        return T("iter", c, ZERO if "begin" in n else mkend(ve, c), d)
    if n in ("next", "prev", "advance") and not rec:
        v = rv(ve, args[0])
        k = rv(ve, args[1]) if len(args) > 1 else ONE
        if v.op == "iter":
            r = T("iter", v.args[0], add(v.args[1], k) if n != "prev" else sub(v.args[1], k), v.args[2])
            if n == "advance":
                ve.write(lvof(ve, args[0], e), r, l)
            return r
        return None
    if n == "distance" and not rec:
        a, b = rv(ve, args[0]), rv(ve, args[1])
        if a.op == "iter" and b.op == "iter":
            return sub(b.args[1], a.args[1])
        return None

    # ---- smart pointers
    if rec in ("std::shared_ptr", "std::unique_ptr", "std::__shared_ptr_access", "std::__shared_ptr", "std::__uniq_ptr_impl"):
        if n == "operator->" or n == "get":
            return rv(ve, obj)
        if n == "operator*":
            return ve.deref(rv(ve, obj), e["t"])
        if n == "operator[]":
            v = rv(ve, obj)
            i = rv(ve, args[0])
            return ext(ve.deref(v), ("e", i))
        if n == "operator bool":
            return truth(rv(ve, obj))
        if n == "operator=":
            lo = lvof(ve, obj, e)
            ve.write(lo, rv(ve, args[0]), l)
            return lo
        if n == "reset":
            lo = lvof(ve, obj, e)
            ve.write(lo, rv(ve, args[0]) if args else T("null"), l)
            return T("void")
        if n == "release":
            return rv(ve, obj)
    if n in ("make_shared", "make_unique") and not rec:
        rt = ve.p.rec_of(e["t"])
        ta = [x["t"] for x in rt.get("targs", []) if isinstance(x, dict) and "t" in x]
        ve.newn += 1
        pv = T("new", ve.newn, ve.loopctx())
        loc = LOC(("D", pv))
        if ta:
            ve.ltype[loc] = ta[0]
            ve.emit("new", l, ptr=pv, ty=ta[0], arr=False, shared=True)
            build(ve, loc, ta[0], args, e)
        return pv

    # ---- containers
    if rec in CONTAINERS:
        r = container(ve, f, rec, n, obj, args, e, want)
        if r is not None:
            return r
    # ---- tuples
    if n == "get" and not rec:
        lo = lvof(ve, args[0], e)
        ta = [x for x in tdim(f) if isinstance(x, int)]
        rt = ve.p.rec_of(args[0]["t"])
        if ta and rt:
            i = ta[0]
            if rt["qual"] == "std::array":
                st = ("e", num(i))
            elif rt["qual"] == "std::pair":
                st = ("f", ("first", "second")[i])
            else:
                st = ("f", str(i))
            if lo is not None:
                r = ext(lo, st)
                ve.ltype.setdefault(r, ve.p.unref(e["t"]))
                return r
            return get(objval(ve, args[0]), st)
    if rec.startswith("pybind11::") and obj is not None:
        if n == "operator[]" and len(args) == 1:
            return T("pyitem", objval(ve, obj), rv(ve, args[0]))
        if n == "size" and not args:
            return size(objval(ve, obj))
        if n == "cast" and not args:
            o = objval(ve, obj)
            if o.op == "pyitem":
                return T("pyval", o.args[0], o.args[1], ve.p.types[ve.p.unref(e["t"])]["k"])
    if n in ("make_tuple", "make_pair", "forward_as_tuple") and not rec:
        return T("tuple", *[rv(ve, a) for a in args])
    if n == "tie" and not rec:
        return T("tuple", *[T("addr", ve.argloc(a)) for a in args])
    if rec in ("std::tuple", "std::pair") and n == "operator=":
        tv = None
        o = obj
        while not isinstance(o, Term) and (o["k"] == "cast" or (o["k"] == "ctor" and len(o["args"]) == 1)):
            o = o["e"] if o["k"] == "cast" else o["args"][0]
        v = rv(ve, args[0])
        if not isinstance(o, Term) and o["k"] == "call":
            tv = ve.rv(o)
            if tv.op == "tuple" and all(x.op == "addr" for x in tv.args):
                vs = [get(v, ("f", str(i))) for i in range(len(tv.args))]
                for i, x in enumerate(tv.args):
                    ve.write(x.args[0], vs[i], l)
                return T("void")
        lo = lvof(ve, obj, e)
        if lo is not None:
            ve.write(lo, v, l)
            return lo
    # ---- numeric helpers
    if n in ("min", "max") and not rec:
        if len(args) == 1:
            v = rv(ve, args[0])
            return fn(n, *v.args) if v.op == "list" else None
        vs = [rv(ve, a) for a in args[:2]]
        if len(args) == 2:
            return fn(n, *vs)
        return None
    if n == "clamp" and not rec and len(args) == 3:
        v, lo, hi = [rv(ve, a) for a in args]
        return fn("min", fn("max", v, lo), hi)
    if n in ("move", "forward", "as_const", "ref", "cref", "addressof", "__addressof") and not rec and len(args) == 1:
        lo = lvof(ve, args[0], e)
        if n.endswith("addressof"):
            return T("addr", lo) if lo is not None else None
        return lo if lo is not None else rv(ve, args[0])
    if n == "swap" and not rec and len(args) == 2:
        a, b = ve.argloc(args[0]), ve.argloc(args[1])
        va, vb = ve.read(a), ve.read(b)
        ve.write(a, vb, l)
        ve.write(b, va, l)
        return T("void")
    if rec == "std::numeric_limits" or "::numeric_limits" in f["q"]:
        if n == "infinity":
            return T("sym", "inf")
        return T("sym", n)
    if n == "isnan" or n == "isinf" or n == "isfinite":
        return T("truth", T("fn", n, rv(ve, args[0])))
    # ---- function objects
    if rec == "std::function" and n == "operator()":
        v = rv(ve, obj)
        if v.op == "closure":
            return ve.invoke_closure(v, args, e)
        if v.op == "fnptr":
            return ve.dispatch(ve.p.fns[v.args[0]], None, args, e, want)
    # ---- algorithms
    if not rec and n in ALGS:
        return algorithm(ve, f, n, args, e)
    if n in ("back_inserter", "inserter") and not rec:
        return T("inserter", contof(ve, args[0], e))
    if n == "operator==" or n == "operator!=":
        vs = [rv(ve, o) for o in ops]
        if len(vs) == 2:
            return ve.compare(n[8:], vs[0], vs[1], False, False)
    if n == "operator bool" or n == "operator!":
        v = truth(objval(ve, ops[0]))
        return v if n != "operator!" else not_(v)
    if rec.startswith("std::basic_string") or rec.startswith("std::__cxx11::basic_string"):
        if f.get("const"):
            vs = [objval(ve, obj)] + [rv(ve, a) for a in args]
            r = T("fn", "string." + n, *vs)
            return r
    return None


def build(ve, loc, t, args, e):
    """Construct an object of type t at loc from constructor arguments."""
    ty = ve.p.ty(t)
    if ty["k"] != "rec":
        ve.write(loc, rv(ve, args[0]) if args else ZERO, e.get("l"))
        return
    r = ve.p.recs[ty["rec"]]
    if not r.get("repo"):
        if len(args) == 1:
            ve.write(loc, rv(ve, args[0]), e.get("l"), op="init")
        elif r["qual"] in ("std::pair", "std::tuple"):
            ve.write(loc, T("tuple", *[rv(ve, a) for a in args]), e.get("l"), op="init")
        else:
            ve.write(loc, T("ctor", r["name"], *[rv(ve, a) for a in args]), e.get("l"), op="init")
        return
    if len(args) == 1 and not isinstance(args[0], Term):
        ar = ve.p.rec_of(args[0]["t"])
        if ar is r:
            ve.write(loc, rv(ve, args[0]), e.get("l"), op="init")
            return
    f = pickctor(ve, ty["rec"], args)
    if f is None:
        ve.write(loc, T("ctor", r["name"], *[rv(ve, a) for a in args]), e.get("l"), op="init")
        return
    ve.construct(loc, f, args, e)


def pickctor(ve, ri, args):
    best = None
    for f in ve.p.ctors.get(ri, []):
        ps = f["params"]
        need = sum(1 for p in ps if "def" not in p)
        if not (need <= len(args) <= len(ps)):
            continue
        if f.get("copyctor") or f.get("movector"):
            continue
        score = 0
        ok = True
        for a, p in zip(args, ps):
            ta = ve.p.ty(ve.p.unref(a["t"])) if not isinstance(a, Term) else None
            tp = ve.p.ty(ve.p.unref(p["t"]))
            if ta is None:
                continue
            if ta["k"] != tp["k"]:
                if {ta["k"], tp["k"]} <= {"int", "flt", "bool", "enum"}:
                    score += 1
                elif ta["k"] == "rec" or tp["k"] == "rec":
                    score += 5
                else:
                    ok = False
            elif ta["k"] == "rec" and ta["rec"] != tp["rec"]:
                score += 3
            elif ta["k"] == "ptr" and tp.get("to") != ta.get("to"):
                score += 1
        if ok and "body" in f and (best is None or score < best[0]):
            best = (score, f)
    return best[1] if best else None


def elem_t(ve, obj):
    r = ve.p.rec_of(obj["t"]) if not isinstance(obj, Term) else None
    if r is None and not isinstance(obj, Term):
        ty = ve.p.ty(obj["t"])
        if ty["k"] == "ptr":
            r = ve.p.rec_of(ty["to"])
    if r is None:
        return None
    a = [x["t"] for x in r.get("targs", []) if isinstance(x, dict) and "t" in x]
    if r["qual"] in ("std::map", "std::unordered_map", "std::multimap"):
        return a[1] if len(a) > 1 else None
    return a[0] if a else None


def container(ve, f, rec, n, obj, args, e, want):
    l = e.get("l") if e else None
    c = contof(ve, obj, e)
    if ve.ltype.get(c) is None and not isinstance(obj, Term):
        t = obj["t"]
        if ve.p.ty(t)["k"] == "ptr":
            t = ve.p.ty(t)["to"]
        ve.ltype[c] = ve.p.unref(t)
    cv = lambda: ve.read(c, note=False)
    rd = lambda: ve.emit("read", l, loc=c) if ve.cfg.reads and not ve.cheap else None
    et = elem_t(ve, obj)
    assoc = rec in ("std::map", "std::unordered_map", "std::set", "std::multimap", "std::unordered_set")

    def elem(i):
        r = ext(c, ("e", i))
        if et is not None:
            ve.ltype.setdefault(r, et)
        return r
    if n in ("operator[]", "at"):
        return elem(rv(ve, args[0]))
    if n == "front" or n == "top":
        return elem(ZERO)
    if n == "back":
        return elem(sub(size(cv()), ONE))
    if n == "data":
        return T("addr", ext(c, ("e", ZERO)))
    if n in ("size", "length"):
        rd()
        return size(cv())
    if n in ("max_size", "capacity"):
        return fresh(n)
    if n == "empty":
        rd()
        return eq(size(cv()), ZERO)
    if n == "operator=":
        v = rv(ve, args[0])
        ve.write(c, v, l, op="=")
        return c
    if n == "clear":
        ve.write(c, T("list"), l, op="clear")
        return T("void")
    if n in ("reserve", "shrink_to_fit"):
        for a in args:
            rv(ve, a)
        return T("void")
    if n in ("push_back", "emplace_back", "push", "emplace", "push_front", "emplace_front") and not (n == "emplace" and assoc):
        if n.startswith("emplace") and et is not None:
            tl = ve.temp(T("undef"), et)
            build(ve, tl, et, args, e)
            v = ve.read(tl, et, note=False)
        else:
            v = rv(ve, args[0])
        old = cv()
        if isbool(v):
            v = boolnum(v)
        k = size(old)
        if old.op == "list" and len(old.args) < 16 and rec != "std::priority_queue" and not n.endswith("front"):
            ve.write(c, T("list", *(old.args + (v,))), l, op="push")
        else:
            ve.write(c, T("push", old, v), l, op="push")
        return elem(k) if n.startswith("emplace") else T("void")
    if n in ("pop_back", "pop", "pop_front"):
        ve.write(c, T("popped", cv(), n), l, op="pop")
        return T("void")
    if n == "resize":
        k = rv(ve, args[0])
        old = cv()
        if len(args) > 1 and old.op == "list" and not old.args:
            ve.write(c, T("fill", k, rv(ve, args[1])), l, op="resize")
        else:
            ve.write(c, T("resized", old, k), l, op="resize")
        return T("void")
    if n == "assign":
        vs = [rv(ve, a) for a in args]
        if len(vs) == 2 and vs[0].op != "iter":
            ve.write(c, T("fill", vs[0], vs[1]), l, op="=")
        elif len(vs) == 2 and vs[0].op == "iter" and vs[1].op == "iter" and vs[0].args[1] is ZERO:
            ve.write(c, ve.read(vs[0].args[0], note=False), l, op="=")
        else:
            ve.write(c, T("assigned", *vs), l, op="=")
        return T("void")
    if n == "swap":
        o = contof(ve, args[0], e)
        a, b = ve.read(c, note=False), ve.read(o, note=False)
        ve.write(c, b, l, op="swap")
        ve.write(o, a, l, op="swap")
        return T("void")
    if n in ("insert", "emplace", "insert_or_assign", "try_emplace", "emplace_hint"):
        vs = [rv(ve, a) for a in args]
        old = cv()
        if assoc:
            if rec == "std::map" and n in ("emplace", "try_emplace", "insert_or_assign") and len(vs) == 2:
                ve.write(ext(c, ("e", vs[0])), vs[1], l, op="insert")
            else:
                ve.write(c, T("ins", old, *vs), l, op="insert")
            return T("tuple", T("iter", c, fresh("pos"), num(1).args and 1), T("truth", fresh("inserted")))
        if len(vs) == 3 and vs[1].op == "iter" and vs[0].op == "iter":
            src = ve.read(vs[1].args[0], note=False)
            ve.write(c, T("splice", old, vs[0].args[1], src, vs[1].args[1], vs[2].args[1] if vs[2].op == "iter" else vs[2]), l, op="insert")
        else:
            ve.write(c, T("ins", old, *vs), l, op="insert")
        return T("iter", c, vs[0].args[1] if vs and vs[0].op == "iter" else fresh("pos"), 1)
    if n == "erase":
        vs = [rv(ve, a) for a in args]
        old = cv()
        ve.write(c, erased(old, vs), l, op="erase")
        if vs and vs[0].op == "iter":
            return T("iter", c, vs[0].args[1], 1)
        return fresh("erased")
    if n in ("find", "count", "contains", "lower_bound", "upper_bound"):
        k = rv(ve, args[0])
        rd()
        if n == "find" or n.endswith("bound"):
            return T("iter", c, T("fn", n, cv(), k), 1)
        return T("fn", n, cv(), k)
    if n == "fill":
        ve.write(c, T("fill", size(cv()), rv(ve, args[0])), l, op="=")
        return T("void")
    return None


ALGS = {"accumulate", "sort", "stable_sort", "partial_sort", "nth_element", "copy_if", "partition_copy", "copy", "for_each", "remove_if",
        "remove", "unique", "set_difference", "set_union", "set_intersection", "find_if", "find", "any_of", "all_of", "none_of", "count_if",
        "transform", "iota", "partial_sum", "fill", "fill_n", "max_element", "min_element", "reverse", "generate",
        "lower_bound", "upper_bound", "inner_product", "random_shuffle", "shuffle", "push_heap", "pop_heap", "make_heap",
        "partition", "stable_partition", "minmax_element", "count", "reduce", "generate_n", "copy_n", "adjacent_find", "equal", "binary_search"}
MUTATES = {"sort", "stable_sort", "partial_sort", "nth_element", "remove_if", "remove", "unique", "reverse", "random_shuffle",
           "shuffle", "push_heap", "pop_heap", "make_heap", "partition", "stable_partition", "iota", "fill", "generate"}


def foreach_loop(ve, rng, callee, e, l):
    """std::for_each over a whole range is the range-based loop it abbreviates."""
    rt = next(i for i, t in enumerate(ve.p.types) if t["k"] == "ref")
    d = ("for_each", l, rng)

    def body():
        x = ve.st.bind[(ve.fr.id, d)]
        call_closure_once(ve, callee, e, [x])
        return [("fall", ve.st, None)] if not ve.st.dead else [("throw", ve.st, None)]
    outs = ve.loop({"l": l, "var": {"d": d, "n": "elem", "t": rt}}, None, {"k": "py", "l": l, "f": body}, None, rng=rng)
    falls = [o for o in outs if o[0] == "fall"]
    if falls:
        ve.st = falls[0][1] if len(falls) == 1 else ve.joinfalls(falls)[0]
    return T("void")


def v_inserts(vs):
    return any(v.op == "inserter" for v in vs)


def algorithm(ve, f, n, args, e):
    l = e.get("l")
    vs = []
    for i, a in enumerate(args):
        vs.append(rv(ve, a))
    rng = None
    if len(vs) >= 2 and vs[0].op == "iter" and vs[1].op == "iter" and vs[0].args[0] is vs[1].args[0]:
        rng = (vs[0].args[0], vs[0].args[1], vs[1].args[1], vs[0].args[2])
    if rng and ve.cfg.reads and not ve.cheap:
        ve.emit("read", l, loc=rng[0])
    trip = sub(rng[2], rng[1]) if rng else None
    if n == "for_each" and rng and len(vs) == 3 and vs[2].op in ("closure", "fnptr") and rng[1] is ZERO and rng[3] in (1, ONE):
        if rng[2] is size(ve.read(rng[0], note=False)):
            return foreach_loop(ve, rng[0], vs[2], e, l)
    # the callable applied to a generic element
    ve.loopn += 1
    k = T("idx", ve.loopn)
    elem = None
    if rng:
        idx = add(rng[1], k)
        elem = ve.iterelem(T("iter", rng[0], idx, rng[3]))
        et = ve.elemtype(ve.ltype.get(rng[0])) if ve.ltype.get(rng[0]) is not None else None
        if et is not None:
            ve.ltype.setdefault(elem, et)
    res = None
    fns = [v for v in vs if v.op in ("closure", "fnptr")]
    acc0 = None
    if n in ("accumulate", "reduce") and len(vs) >= 3:
        acc0 = vs[2]
    body = []
    if fns and rng:
        ls = ve.loopstack
        ve.loopstack = ls + (k,)
        s0 = ve.st
        ve.st = s0.copy()
        ve.wlog.append(set())
        phi = T("phi", ve.loopn, LOC(("acc", ve.loopn)))
        if acc0 is not None and n == "accumulate":
            el_args = [phi, elem]
        elif n in ("sort", "stable_sort", "unique", "max_element", "min_element", "lower_bound"):
            el_args = [elem, ve.iterelem(T("iter", rng[0], T("idx", -ve.loopn), rng[3]))]
        else:
            el_args = [elem]
        box = []
        body = ve.sub(lambda: box.append(call_closure_once(ve, fns[-1], e, el_args)))
        res = box[0]
        if isinstance(res, Term) and res.op == "loc":
            res = ve.read(res, note=False)
        w = ve.wlog.pop()
        ve.loopstack = ls
        ve.st = s0
        for x in w:
            if x.args[0] in s0.mem or x.args[0][0] in ("O", "D", "G"):
                if mentions(T("w", x.args[0], x.args[1]), k):
                    pat = ve.pattern(x)
                    ve.st.foralls = ve.st.foralls + ((pat[0], pat[1], pat[2], None, False, T("after", ve.loopn, x)),)
                    ve.wlog[-1].add(x)
                else:
                    ve.havoc(x, n, l)
        info = {"id": ve.loopn, "k": k, "trip": trip, "full": n not in ("find_if", "any_of", "all_of", "none_of"), "rng": rng[0],
                "early": False, "cond": TRUE, "post": False, "l": l, "ind": {}, "alg": n}
        ve.emit("loop", l, info=info, body=body)
    if n in ("accumulate", "reduce") and rng:
        # the running value has the type of the initial one
        at = ve.p.ty(ve.p.unref(e["t"])) if e.get("t") is not None else {}
        et = ve.ltype.get(elem)
        if not fns:
            d = ve.read(elem, note=False)
            r = add(acc0, ve.mksum(d, k, trip))
            st = et
        elif res is not None:
            if phi is res:
                return acc0
            r = ve.reduction(phi, acc0, res, k, trip, [phi])
            cl = ve.closures.get(fns[-1].args[0]) if fns[-1].op == "closure" else None
            st = next((ve.p.fns[i].get("ret") for i in cl[0]["fns"] if "body" in ve.p.fns[i]), None) if cl else None
        else:
            r = st = None
        if r is not None:
            st = ve.p.ty(ve.p.unref(st)) if st is not None else {}
            if at.get("k") == "int" and st.get("k") == "flt":
                return fn("trunc", T("stepwise", r))
            if at.get("k") == "flt" and at.get("bits", 64) < st.get("bits", 64):
                return fn("f%d" % at["bits"], r)
            return r
        return fresh("accumulate")
    if n in ("any_of", "all_of", "none_of") and rng and res is not None:
        r = ve.bindidx(truth(res), k)
        if n == "any_of":
            return T("any", trip, r)
        if n == "all_of":
            return T("all", trip, r)
        return not_(T("any", trip, r))
    if n in ("count_if", "count") and rng and (res is not None or n == "count"):
        c = truth(res) if n == "count_if" else eq(ve.read(elem, note=False), vs[2])
        return ve.mksum(ite(c, ONE, ZERO), k, trip)
    if n in MUTATES and rng:
        old = ve.read(rng[0], note=False)
        whole = rng[1] is ZERO and rng[2] is size(old)
        key = ve.bindidx(res, k) if res is not None else None
        if n in ("remove_if", "remove", "unique", "partition", "stable_partition"):
            x = key if key is not None else (vs[2] if len(vs) > 2 else T("void"))
            nv = T("filtered", n, old, x, rng[1])
            ve.write(rng[0], nv, l, op=n)
            return T("iter", rng[0], T("fn", "kept", nv), rng[3])
        if n == "fill":
            if whole:
                ve.write(rng[0], T("fill", rng[2], vs[2]), l, op=n)
            else:
                ve.havoc(rng[0], n, l)
            return T("void")
        if n == "iota" and len(vs) == 3 and whole and not list(x for x in walk(vs[2]) if x.op == "bv"):
            ve.write(rng[0], T("mapped", T("list"), rng[2], add(vs[2], T("bv", 0)), T("bv", 0)), l, op=n)
            return T("void")
        if n in ("sort", "stable_sort", "reverse", "shuffle", "random_shuffle"):
            ve.write(rng[0], T("perm", old, n, key if key is not None else T("void"), T("void") if whole else T("part", rng[1], rng[2]), *([] if rng[3] in (1, ONE) or n not in ("sort", "stable_sort") else ["backwards"])), l, op=n)
            return T("void")
        ve.havoc(rng[0], n, l)
        return T("void")
    # algorithms with an output iterator
    outs = []
    for i, v in enumerate(vs):
        if v.op == "inserter":
            outs.append(v.args[0])
        elif v.op == "iter" and i >= 2 and n in ("copy", "copy_if", "partition_copy", "transform", "partial_sum", "set_difference", "set_union", "set_intersection", "copy_n"):
            if i == len(vs) - 1 - len(fns) or (n in ("set_difference",) and i == 4):
                outs.append(v.args[0])
    ve.calln += 1
    ret = T("res", f["q"], ve.calln, ve.loopctx())
    ve.emit("call", l, q=f["q"], f=f, obj=None, args=vs, argx=args, locs=[None] * len(vs), ret=ret)
    for o in outs:
        old = ve.read(o, note=False)
        pure = tuple(v for v in vs if v.op != "closure")
        srcs = tuple(ve.read(v.args[0], note=False) for v in vs if v.op == "iter")
        key = ve.bindidx(res, k) if isinstance(res, Term) else T("void")
        if n == "transform" and len(srcs) == 2 and srcs[0] is srcs[1] and v_inserts(vs) and rng and rng[1] is ZERO and rng[2] is size(srcs[0]) and isinstance(res, Term):
            m = 0
            for x in walk(T("t", srcs[0], res)):
                if x.op == "bv":
                    m = max(m, x.args[0] + 1)
            ve.write(o, tm.mapped(old, rng[2], subst(res, {k: T("bv", m)}), T("bv", m)), l, op=n)
            continue
        if n in ("copy_if", "partition_copy") and len(srcs) == 2 and srcs[0] is srcs[1] and srcs[0] is not None and rng and rng[1] is ZERO and rng[2] is size(srcs[0]) and isinstance(res, Term):
            m = 0
            for x in walk(T("t", srcs[0], res)):
                if x.op == "bv":
                    m = max(m, x.args[0] + 1)
            b = T("bv", m)
            c = subst(truth(res), {k: b})
            ve.write(o, tm.filt(old, rng[2], get(srcs[0], ("e", b)), c if o is outs[0] else not_(c), b), l, op=n)
            continue
        ve.write(o, T("alg", n, old, srcs, key), l, op=n)
    if n == "generate_n" or n == "fill_n":
        if vs[0].op == "iter":
            ve.havoc(vs[0].args[0], n, l)
    if n in ("find", "find_if", "max_element", "min_element", "lower_bound", "upper_bound") and rng:
        old = ve.read(rng[0], note=False)
        return T("iter", rng[0], T("fn", n, old, *( [ve.bindidx(res, k)] if isinstance(res, Term) else [v for v in vs[2:] if v.op != "closure"])), rng[3])
    return ret
