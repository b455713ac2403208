"""Value and effect evaluation of the exported program.

One pass over an entry function (helpers inlined along the resolved call graph, loops
summarised once over a symbolic index, branches joined) yields
  * the value of every location as a normalised term, and
  * a structured tree of effects (reads, writes, calls, locks, parallel regions, branches,
    loops) for the path analyses.
Nothing is executed and no solver is involved: joins are syntactic merges of value-graph
nodes (gated by the branch condition), loops are summarised by recognising induction
variables and reductions.
"""
from terms import *
import terms as tm

_RVIEW = ("transpose",)


class Unsupported(Exception):
    pass


class Node:
    __slots__ = ("kind", "l", "fn", "d", "kids")

    def __init__(self, kind, l, fn, d=None, kids=None):
        self.kind = kind
        self.l = l
        self.fn = fn
        self.d = d or {}
        self.kids = kids

    def __getattr__(self, n):
        try:
            return self.d[n]
        except KeyError:
            raise AttributeError(n)

    def get(self, n, default=None):
        return self.d.get(n, default)

    def __repr__(self):
        return "<%s %s>" % (self.kind, self.d)


class Frame:
    _n = 0

    def __init__(self, fn, this=None, parent=None, caps=None):
        Frame._n += 1
        self.id = Frame._n
        self.fn = fn
        self.this = this
        self.parent = parent
        self.caps = caps or {}


class State:
    __slots__ = ("mem", "bind", "foralls", "facts", "pc", "dead", "n")

    def __init__(self):
        self.mem = {}
        self.bind = {}
        self.foralls = ()
        self.facts = {}
        self.pc = ()
        self.dead = False

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.bind = dict(self.bind)
        s.foralls = self.foralls
        s.facts = self.facts
        s.pc = self.pc
        s.dead = self.dead
        return s


def LOC(root, steps=()):
    return T("loc", root, tuple(steps))


def ext(loc, *steps):
    return T("loc", loc.args[0], loc.args[1] + tuple(steps))


TRIP = {}          # loop index term -> trip count, of the evaluation in progress


def outside(k, x):
    """Whether a loop index provably never takes the value x."""
    t = TRIP.get(k)
    if t is None:
        return False
    d = sub(x, t)
    return (is_num(d) and numval(d) >= 0) or (is_num(x) and numval(x) < 0)


def unify(pat, x, vars_, b):
    """Match pattern pat (terms/tuples) against x, binding the index terms in vars_."""
    if isinstance(pat, Term):
        if pat in vars_:
            if pat in b:
                return b[pat] is x
            if not isinstance(x, Term) or outside(pat, x):
                return False
            b[pat] = x
            return True
        if pat is x:
            return True
        if not isinstance(x, Term) or pat.op != x.op or len(pat.args) != len(x.args):
            return False
        if not any(mentions(pat, v) for v in vars_):
            return False
        return all(unify(p, y, vars_, b) for p, y in zip(pat.args, x.args))
    if isinstance(pat, tuple):
        return isinstance(x, tuple) and len(pat) == len(x) and all(unify(p, y, vars_, b) for p, y in zip(pat, x))
    return pat == x


class Config:
    """What a check wants from the evaluator."""

    def __init__(self, opaque=(), pure=(), reads=False, maxdepth=60, hook=None, scratch=None):
        self.opaque = opaque          # qualified names (or predicate) not inlined
        self.pure = pure              # qualified names kept as uninterpreted functions
        self.reads = reads
        self.maxdepth = maxdepth
        self.hook = hook

    def is_opaque(self, f):
        if callable(self.opaque):
            return self.opaque(f)
        return f["q"] in self.opaque

    def is_pure(self, f):
        if callable(self.pure):
            return self.pure(f)
        return f["q"] in self.pure

    def effects(self, v, f, this, vals, locs):
        """Locations an opaque call may change, or None for everything it can reach."""
        return None


def filtered(t):
    return t.op == "filt" and size(t.args[0]) is ZERO


def pushes(t, ph):
    """(condition, element) of a list that grows by one element under a condition."""
    if t is ph:
        return FALSE, None
    if t.op == "push" and t.args[0] is ph:
        return TRUE, t.args[1]
    if t.op == "ite":
        a, b = pushes(t.args[1], ph), pushes(t.args[2], ph)
        if a is None or b is None:
            return None
        c = or_(and_(t.args[0], a[0]), and_(not_(t.args[0]), b[0]))
        if a[1] is None or b[1] is None or a[1] is b[1]:
            return c, a[1] if b[1] is None else b[1]
        return c, ite(t.args[0], a[1], b[1])
    return None


def onlyread(body):
    """Variables of which a body only ever uses the value."""
    ok, bad = set(), set()
    todo = [body]
    while todo:
        x = todo.pop()
        if isinstance(x, dict):
            if x.get("k") == "ref" and "d" in x:
                (ok if x.get("ld") else bad).add(x["d"])
            for c in x.get("caps", ()) if x.get("k") == "lambda" else ():
                bad.add(c.get("d"))
            todo += x.values()
        elif isinstance(x, list):
            todo += x
    return ok - bad


def nonzero(v):
    """A number used as a condition."""
    if not isbool(v) and v.op == "ite":
        return ite(v.args[0], nonzero(v.args[1]), nonzero(v.args[2]))
    if not isbool(v) and v.op in ("get", "init", "phi", "after", "res", "size", "havoc", "el", "poly"):
        return not_(eq(v, ZERO))
    return truth(v)


class VE:
    def __init__(self, prog, cfg=None):
        self.p = prog
        self.cfg = cfg or Config()
        self.st = State()
        self.fr = None
        self.out = []
        self.stack = []
        self.ltype = {}
        self.closures = {}
        self.active = []        # closures being evaluated
        self.loopn = 0
        self.calln = 0
        self.cheap = 0
        self.newn = 0
        self.tmpn = 0
        self.unknown = []
        self.loops = {}
        self.wlog = [set()]
        self._eig = {}
        self._constcheck = {}
        self.curl = None
        self.steps = 0
        self.pardepth = 0

    # ------------------------------------------------------------------ nodes
    def emit(self, kind, l=None, **d):
        n = Node(kind, l if l is not None else self.curl, self.stack[-1] if self.stack else None, d)
        self.out.append(n)
        return n

    def sub(self, f):
        """Run f with a fresh node list; return the list."""
        old = self.out
        self.out = []
        try:
            f()
            return self.out
        finally:
            self.out = old

    # ------------------------------------------------------------- eigen types
    def eig(self, t):
        """(kind, rows, cols) for an Eigen type, kind in mat/arr/expr/other; None otherwise."""
        t = self.p.unref(t)
        ty = self.p.ty(t)
        if ty["k"] != "rec":
            return None
        return self.eigrec(ty["rec"])

    def eigrec(self, ri):
        if ri in self._eig:
            return self._eig[ri]
        self._eig[ri] = None
        r = self.p.recs[ri]
        q = r["qual"]
        if not q.startswith("Eigen::"):
            return None
        ta = r.get("targs", [])

        def sub(i):
            if i < len(ta) and isinstance(ta[i], dict) and "t" in ta[i]:
                x = self.eig(ta[i]["t"])
                if x:
                    return x
            return (None, None, None, None)

        n = q[len("Eigen::"):]
        res = ("other", None, None, False)

        def pos(x):
            return x if isinstance(x, int) and x > 0 else None
        if n in ("Matrix", "Array"):
            res = ("mat", pos(ta[1]), pos(ta[2]), n == "Array")
        elif n == "Block":
            s = sub(0)
            res = ("expr", pos(ta[1]), pos(ta[2]), s[3])
        elif n == "VectorBlock":
            s = sub(0)
            if s[2] == 1 or s[1] != 1:
                res = ("expr", pos(ta[1]), 1, s[3])
            else:
                res = ("expr", 1, pos(ta[1]), s[3])
        elif n == "Transpose":
            s = sub(0)
            res = ("expr", s[2], s[1], s[3])
        elif n == "CwiseBinaryOp":
            a, b = sub(1), sub(2)
            res = ("expr", a[1] or b[1], a[2] or b[2], a[3] or b[3])
        elif n in ("CwiseUnaryOp", "CwiseNullaryOp", "CwiseUnaryView"):
            s = sub(1)
            res = ("expr", s[1], s[2], s[3])
        elif n == "Product":
            a, b = sub(0), sub(1)
            res = ("expr", a[1], b[2], False)
        elif n == "ArrayWrapper":
            s = sub(0)
            res = ("expr", s[1], s[2], True)
        elif n == "MatrixWrapper":
            s = sub(0)
            res = ("expr", s[1], s[2], False)
        elif n in ("Inverse", "NestByValue", "Ref", "Map", "NoAlias", "Diagonal", "DiagonalWrapper", "TriangularView"):
            s = sub(0)
            res = ("expr", s[1], s[2], s[3])
        elif n == "PartialReduxExpr":
            s = sub(0)
            d = ta[2] if len(ta) > 2 else None
            res = ("expr", 1 if d == 0 else s[1], s[2] if d == 0 else 1, s[3])
        elif n in ("Replicate", "Solve", "Reverse", "Select"):
            res = ("expr", None, None, False)
        elif n in ("DenseBase", "MatrixBase", "ArrayBase", "EigenBase", "PlainObjectBase", "DenseCoeffsBase", "MapBase"):
            s = sub(0)
            res = ("base", s[1], s[2], s[3])
        elif n == "VectorwiseOp":
            s = sub(0)
            res = ("vw", s[1], s[2], s[3])
        elif n == "CommaInitializer":
            res = ("comma", None, None, False)
        self._eig[ri] = res
        return res

    def is_eig_value(self, t):
        x = self.eig(t)
        return x if x and x[0] in ("mat", "expr", "base") else None

    def tag(self, v, t):
        """Attach the static shape of type t to an atom."""
        x = self.is_eig_value(t) if t is not None else None
        if x and (x[1] or x[2]):
            r, c = dims(v)
            setdims(v, x[1] or r, x[2] or c)
        return v

    # --------------------------------------------------------------- memory
    def root(self, root):
        return self.st.mem.get(root)

    def loctype(self, loc):
        return self.ltype.get(loc)

    def read(self, loc, t=None, note=True):
        root, steps = loc.args
        if t is None:
            t = self.ltype.get(loc)
        n = len(steps)
        while n and steps[n - 1][0] in ("v", "m"):
            n -= 1
        if n < len(steps):
            base = LOC(root, steps[:n])
            if note and self.cfg.reads and not self.cheap:
                self.emit("read", loc=loc)
            v = self.read(base, self.ltype.get(base), False)
            for s in steps[n:]:
                v = get(v, s) if s[0] == "m" else block(v, *s[1:])
            if t is not None:
                self.tag(v, t)
            return v
        if note and self.cfg.reads and not self.cheap:
            self.emit("read", loc=loc)
        v = self._read(loc, root, steps, t)
        while v.op == "ite" and self.st.facts:
            c = assume(v.args[0], self.st.facts)
            if c is TRUE:
                v = v.args[1]
            elif c is FALSE:
                v = v.args[2]
            else:
                break
        if t is not None:
            self.tag(v, t)
        return v

    def _read(self, loc, root, steps, t):
        m = self.st.mem.get(root)
        if m is not None:
            v = m.get(steps)
            if v is not None and not self._hasub(m, root, steps):
                return v
            subs = self._hasub(m, root, steps)
            if subs:
                return self._assemble(loc, steps, t, m)
        else:
            subs = self._hasub({}, root, steps)
            if subs:
                return self._assemble(loc, steps, t, {})
        # summarised loop writes
        near = next((n for n in range(len(steps) - 1, -1, -1) if steps[:n] in m), -1) if m is not None else -1
        r = self._forall(root, steps, near)
        if r is not None:
            return r
        if m is not None:
            for n in range(len(steps) - 1, -1, -1):
                b = m.get(steps[:n])
                if b is not None:
                    if steps[n][0] == "e" and self._aliased(m, root, steps, n):
                        bl = LOC(root, steps[:n])
                        b = self._assemble(bl, bl.args[1], None, m)
                    for s in steps[n:]:
                        b = get(b, s)
                    return b
        if root[0] == "D" and root[1].op == "iteptr":
            pass
        return T("init", loc, 0)

    def _hasub(self, m, root, steps):
        n = len(steps)
        for k in m:
            if len(k) > n and k[:n] == steps:
                return True
        for fa in self.st.foralls:
            if len(fa[2]) > n and fa[1][0] == root[0]:
                b = {}
                if unify(fa[1], root, fa[0], b) and unify(fa[2][:n], steps, fa[0], b):
                    return True
        return False

    def _aliased(self, m, root, steps, n):
        """Whether an element written through another index may be the one read."""
        x = steps[n][1]

        def differ(y):
            d = sub(x, y)
            return is_num(d) and d is not ZERO
        for k in m:
            if len(k) > n and k[:n] == steps[:n] and k[n][0] == "e" and not differ(k[n][1]):
                return True
        for fa in self.st.foralls:
            if len(fa[2]) > n and fa[1] == root and fa[2][:n] == steps[:n] and fa[2][n][0] == "e":
                if not differ(fa[2][n][1]) and not (fa[2][n][1] in fa[0] and outside(fa[2][n][1], x)):
                    return True
        return False

    def _forall(self, root, steps, near=-1):
        """Value from a summarised loop write covering this location; a prefix of `near` steps was written since."""
        for fa in reversed(self.st.foralls):
            vars_, froot, fsteps, val, full, lid = fa
            if len(fsteps) <= near:
                continue
            if len(fsteps) > len(steps) or froot[0] != root[0]:
                continue
            b = {}
            if unify(froot, root, vars_, b) and unify(fsteps, steps[:len(fsteps)], vars_, b):
                if full and val is not None:
                    v = subst(val, b)
                else:
                    v = T("after", lid, LOC(root, steps[:len(fsteps)]))
                for s in steps[len(fsteps):]:
                    v = get(v, s)
                return v
        return None

    def _assemble(self, loc, steps, t, m):
        ty = self.p.ty(self.p.unref(t)) if t is not None else None
        root = loc.args[0]
        if ty and ty["k"] == "rec":
            r = self.p.recs[ty["rec"]]
            fs = self.p.rec_fields(r)
            if fs:
                return T("struct", r["name"], tuple(
                    (f["n"], self.read(LOC(root, steps + (("f", f["n"]),)), f["t"], note=False)) for f in fs))
            if r["qual"] == "std::array":
                n = [x for x in r.get("targs", []) if isinstance(x, int)]
                if n and n[0] <= 16:
                    return T("list", *[self.read(LOC(root, steps + (("e", num(i)),)), note=False) for i in range(n[0])])
            if r["qual"] in ("std::pair", "std::tuple"):
                pass
        if ty and ty["k"] == "arr" and ty.get("n", 99) <= 16:
            return T("list", *[self.read(LOC(root, steps + (("e", num(i)),)), note=False) for i in range(ty["n"])])
        # a container with some elements overwritten
        base = m.get(steps)
        if base is None:
            for n in range(len(steps) - 1, -1, -1):
                if steps[:n] in m:
                    base = m[steps[:n]]
                    for s in steps[n:]:
                        base = get(base, s)
                    break
        if base is None:
            base = self._forall(root, steps) or T("init", LOC(root, steps), 0)
        ups = []
        for k in sorted((k for k in m if len(k) > len(steps) and k[:len(steps)] == steps), key=str):
            ups.append((k[len(steps):], m[k]))
        for fa in self.st.foralls:
            if len(fa[2]) > len(steps) and fa[1][0] == root[0]:
                b = {}
                if unify(fa[1], root, fa[0], b) and unify(fa[2][:len(steps)], steps, fa[0], b):
                    ups.append((subst(fa[2][len(steps):], b), fa[3], fa[0], fa[4], fa[5]))
        return T("agg", base, tuple(ups))

    def write(self, loc, v, l=None, quiet=False, op=None):
        root, steps = loc.args
        # composite matrix views become whole-matrix updates
        full = loc
        n = len(steps)
        while n > 0 and steps[n - 1][0] in ("v", "m"):
            n -= 1
        if not quiet:
            self.emit("write", l, loc=full, val=v, op=op)
        self.wlog[-1].add(full if n == len(steps) else LOC(root, steps[:n]))
        if n < len(steps):
            views = steps[n:]
            i, j = 0, 0
            r, c = 1, 1
            for s in views:
                i, j = tm._iadd(i, s[1]), tm._iadd(j, s[2])
                r, c = (s[3], s[4]) if s[0] == "v" else (1, 1)
            ploc = LOC(root, steps[:n])
            old = self.read(ploc, self.ltype.get(ploc), note=False)
            single = views[-1][0] == "m"
            if not single and (r, c) == (1, 1) and v.op not in ("cm", "mat", "blk"):
                pass
            nv = updm(old, i, j, r, c, v)
            sh = self.shape(old)
            v, steps = nv, steps[:n]
            self.setshape(v, sh)
        m = dict(self.st.mem.get(root, {}))
        for k in list(m):
            if len(k) > len(steps) and k[:len(steps)] == steps:
                del m[k]
        m[steps] = v
        self.st.mem[root] = m
        # the write overrides summarised loop writes below it
        if self.st.foralls:
            fs = []
            for fa in self.st.foralls:
                if fa[1] == root and len(fa[2]) > len(steps) and fa[2][:len(steps)] == steps:
                    continue
                fs.append(fa)
            self.st.foralls = tuple(fs)

    def havoc(self, loc, why="", l=None):
        v = fresh("havoc", why, loc)
        t = self.ltype.get(loc)
        if t is not None:
            self.tag(v, t)
        self.write(loc, v, l, op="havoc")
        return v

    # shapes of dynamic matrices -------------------------------------------------
    SHAPE = {}

    def shape(self, v):
        r, c = dims(v)
        if r and c:
            return (num(r), num(c))
        if v in VE.SHAPE:
            return VE.SHAPE[v]
        if v.op == "const":
            return (v.args[1], v.args[2])
        if v.op == "updm":
            return self.shape(v.args[0])
        if v.op == "ite":
            a, b = self.shape(v.args[1]), self.shape(v.args[2])
            return a if a == b else (ite(v.args[0], a[0], b[0]), ite(v.args[0], a[1], b[1]))
        if v.op == "blk":
            _, i, j, r, c = v.args
            return (r if isinstance(r, Term) else num(r), c if isinstance(c, Term) else num(c))
        return (num(r) if r else T("rows", v), num(c) if c else T("cols", v))

    def setshape(self, v, sh):
        if sh and v.op not in ("num", "poly", "cm") and v not in VE.SHAPE:
            VE.SHAPE[v] = sh
        return v

    # ------------------------------------------------------------- environment
    def lookup(self, d):
        return self.lookup_in(self.fr, d)

    def lookup_in(self, fr, d):
        while fr is not None:
            b = self.st.bind.get((fr.id, d))
            if b is not None:
                return b, fr
            if d in fr.caps:
                return fr.caps[d], fr
            fr = fr.parent
        return None, None

    def newlocal(self, d, name, t):
        loc = LOC(("L", d, self.fr.id, name))
        self.st.bind[(self.fr.id, d)] = loc
        self.ltype[loc] = self.p.unref(t)
        return loc

    def temp(self, v, t=None):
        self.tmpn += 1
        loc = LOC(("T", self.tmpn))
        if t is not None:
            self.ltype[loc] = self.p.unref(t)
        self.st.mem[loc.args[0]] = {(): v}
        return loc

    # --------------------------------------------------------------- lvalues
    def deref(self, pv, t=None):
        if pv.op == "addr":
            return pv.args[0]
        if pv.op == "iter":
            return self.iterelem(pv)
        loc = LOC(("D", pv))
        if t is not None:
            self.ltype.setdefault(loc, t)
        return loc

    def iterelem(self, it):
        cont, idx, d = it.args
        if d == 1:
            loc = ext(cont, ("e", idx))
        else:
            loc = ext(cont, ("e", sub(sub(size(self.read(cont, note=False)), ONE), idx)))
        return loc

    def field(self, loc, name, t=None):
        f = ext(loc, ("f", name))
        if t is not None:
            self.ltype.setdefault(f, t)
        # a reference member stands for what it is bound to
        b = self.st.mem.get(f.args[0], {}).get(f.args[1])
        if b is not None and b.op == "refto":
            return b.args[0]
        return f

    def lv(self, e):
        """Location denoted by an lvalue expression, or None."""
        k = e["k"]
        self.curl = e.get("l") or self.curl
        if k == "ref":
            if e.get("dk") == "global":
                loc = LOC(("G", e["q"]) if not self.p.globs[e["g"]].get("local") else ("G", e["q"], e["d"]))
                self.ltype[loc] = self.p.unref(e["t"])
                g = self.p.globs[e["g"]]
                if g.get("const") and g.get("init") is not None and loc.args[0] not in self.st.mem:
                    v = self.globconst(e["g"])
                    if v is not None:
                        self.st.mem[loc.args[0]] = {(): v}
                return loc
            if "d" not in e:
                return None
            b, fr = self.lookup(e["d"])
            if b is None:
                loc = LOC(("L", e["d"], self.fr.id, e["n"]))
                self.ltype[loc] = self.p.unref(e["t"])
                self.st.bind[(self.fr.id, e["d"])] = loc
                return loc
            if isinstance(b, tuple) and b[0] == "lazy":
                return None
            return b
        if k == "this":
            return None
        if k == "mem":
            b = self.objloc(e["b"], e.get("arrow"))
            return self.field(b, e["f"], e["t"])
        if k == "idx":
            a = self.rv(e["a"]) if self.p.ty(e["a"]["t"])["k"] == "ptr" else None
            i = self.rv(e["b"])
            if a is not None:
                if a.op == "addr":
                    base = a.args[0]
                    root, steps = base.args
                    if steps and steps[-1][0] == "e":
                        return LOC(root, steps[:-1] + (("e", add(steps[-1][1], i)),))
                    return ext(base, ("e", i))
                return ext(self.deref(a), ("e", i)) if not (a.op == "iter") else self.iterelem(T("iter", a.args[0], add(a.args[1], i), a.args[2]))
            al = self.lv(e["a"])
            if al is None:
                al = self.temp(self.rv(e["a"]), e["a"]["t"])
            loc = ext(al, ("e", i))
            self.ltype.setdefault(loc, e["t"])
            return loc
        if k == "un" and e["op"] == "*":
            pv = self.rv(e["e"])
            return self.deref(pv, e["t"])
        if k == "un" and e["op"] in ("++", "--") and not e.get("post"):
            self.rv(e)
            return self.lv(e["e"])
        if k == "asg":
            self.rv(e)
            return self.lv(e["a"])
        if k == "cond":
            c = truth(self.rv(e["c"]))
            c = assume(c, self.st.facts)
            if c is TRUE:
                return self.lv(e["a"])
            if c is FALSE:
                return self.lv(e["b"])
            return None
        if k == "cast":
            if e.get("ck") in ("BaseToDerived", "LValueBitCast", "BitCast", "NoOp"):
                return self.lv(e["e"])
            return None
        if k == "call":
            r = self.call(e, want="lv")
            return r if isinstance(r, Term) and r.op == "loc" else (self.temp(r, e["t"]) if isinstance(r, Term) else None)
        if k == "bin" and e["op"] == ",":
            self.rv(e["a"])
            return self.lv(e["b"])
        if k in ("ctor", "init"):
            v = self.construct_expr(e)
            return v
        return None

    def objloc(self, e, arrow=False):
        """Location of the object an expression denotes (materialising temporaries)."""
        if e["k"] == "this":
            return self.fr_this()
        ty = self.p.ty(e["t"])
        if arrow or ty["k"] == "ptr":
            return self.deref(self.rv(e), ty.get("to") if ty["k"] == "ptr" else None)
        l = self.lv(e)
        if l is not None:
            return l
        return self.temp(self.rv(e), e["t"])

    def fr_this(self):
        fr = self.fr
        while fr is not None and fr.this is None:
            fr = fr.parent
        return fr.this if fr else LOC(("O", "this"))

    def globconst(self, gi):
        g = self.p.globs[gi]
        if gi in self._constcheck:
            return self._constcheck[gi]
        self._constcheck[gi] = None
        fr = self.fr
        self.fr = Frame(None)
        try:
            out = []

            def f():
                out.append(self.initval(g["init"], g["t"]))
            self.sub(f)
            v = out[0]
            if v is not None and any(x.op in ("init", "fresh", "loc") for x in walk(v)):
                v = None
        except Unsupported:
            v = None
        finally:
            self.fr = fr
        self._constcheck[gi] = v
        return v

    # --------------------------------------------------------------- rvalues
    def rv(self, e):
        self.steps += 1
        k = e["k"]
        self.curl = e.get("l") or self.curl
        if "cv" in e:
            ty = self.p.ty(e["t"])
            if ty["k"] == "bool":
                return TRUE if e["cv"] else FALSE
            if ty["k"] in ("int", "enum"):
                return num(e["cv"])
        m = getattr(self, "rv_" + k, None)
        if m is None:
            return self.unk(e)
        return m(e)

    def unk(self, e):
        for c in e.get("ch", ()):
            if c and c.get("k") and "t" in c:
                self.rv(c)
        if e.get("cls") not in ("SourceLocExpr", "PredefinedExpr"):
            self.unknown.append((e.get("l"), e["k"], e.get("cls")))
        return fresh("unk", e["k"], e.get("cls"))

    def rv_given(self, e):
        return e["v"]

    def rv_int(self, e):
        return num(e["v"])

    def rv_float(self, e):
        return lit(e["v"], None)

    def rv_bool(self, e):
        return TRUE if e["v"] else FALSE

    def rv_char(self, e):
        return num(e["v"])

    def rv_str(self, e):
        return T("str", e.get("v", ""))

    def rv_null(self, e):
        return T("null")

    def rv_zero(self, e):
        ty = self.p.ty(e["t"])
        if ty["k"] == "ptr":
            return T("null")
        if ty["k"] == "bool":
            return FALSE
        return ZERO

    def rv_sizeof(self, e):
        return num(e["cv"]) if "cv" in e else fresh("sizeof")

    def rv_this(self, e):
        return T("addr", self.fr_this())

    def rv_ref(self, e):
        dk = e.get("dk")
        if dk == "enum":
            return num(e["v"])
        if dk == "fn":
            return T("fnptr", self.invoker(e["fn"]))
        if dk == "binding" or dk in ("var", "parm", "global"):
            b, fr = (None, None)
            if dk != "global":
                b, fr = self.lookup(e["d"])
                if isinstance(b, tuple) and b[0] == "lazy":
                    old = self.fr
                    self.fr = b[2]
                    try:
                        return self.rv(b[1])
                    finally:
                        self.fr = old
            loc = self.lv(e)
            return self.readval(loc, e["t"])
        return fresh("ref", e.get("n"))

    def readval(self, loc, t):
        ty = self.p.ty(self.p.unref(t))
        if ty["k"] == "arr":
            return T("addr", ext(loc, ("e", ZERO)))
        return self.read(loc, self.p.unref(t))

    def rv_mem(self, e):
        loc = self.lv(e)
        return self.readval(loc, e["t"])

    def rv_idx(self, e):
        loc = self.lv(e)
        return self.readval(loc, e["t"])

    def rv_memptr(self, e):
        return T("memptr", e.get("f"), e.get("fn"), e.get("rec"))

    def rv_memfn(self, e):
        return T("fnptr", self.invoker(e["fn"]))

    def invoker(self, i):
        """The call operator behind a lambda's conversion to a function pointer."""
        f = self.p.fns[i]
        if f["n"] == "__invoke" and f.get("lambda"):
            for g in self.p.fns:
                if g.get("lambda") and g["n"] == "operator()" and g["rec"] == f["rec"]:
                    return g["id"]
        return i

    def rv_lambda(self, e):
        n = len(self.closures)
        caps = {}
        for c in e["caps"]:
            if "d" in c and not c.get("byref"):
                b, _ = self.lookup(c["d"])
                if isinstance(b, Term) and b.op == "loc":
                    nl = LOC(("L", c["d"], "cap%d" % n, c["n"]))
                    self.ltype[nl] = self.ltype.get(b)
                    self.st.mem[nl.args[0]] = {(): self.read(b, note=False)}
                    caps[c["d"]] = nl
        self.closures[n] = (e, self.fr, caps)
        return T("closure", n)

    def rv_throw(self, e):
        if e.get("e"):
            self.rv(e["e"])
        self.emit("throw", e["l"])
        self.st.dead = True
        return T("null")

    def narrowed(self, v, to, frm):
        """v as a value of a type that cannot hold all of the other's."""
        a, b = (self.p.ty(self.p.unref(t)) if t is not None else {} for t in (to, frm))
        n = a.get("bits", 64)
        if n >= b.get("bits", 64) and not (a.get("k") == "flt" and b.get("k") == "int" and n < 64):
            return v
        if v.op == "num":
            x = v.args[0]
            if abs(x) < 2 ** min(n - 1, 20) and (x * 1024).denominator == 1:
                return v
        if a.get("k") == "flt" and n < 64:
            return fn("f%d" % n, v)
        if a.get("k") == "int" and n <= 16:
            return fn("i%d" % n, v)
        return v

    def rv_cast(self, e):
        ck = e.get("ck")
        v = self.rv(e["e"])
        if ck in ("IntegralToBoolean", "FloatingToBoolean"):
            return nonzero(v)
        if ck == "IntegralToBoolean" or ck == "FloatingToBoolean" or ck == "PointerToBoolean":
            return truth(v)
        if ck == "FloatingToIntegral":
            if v.op == "num" and v.args[0].denominator == 1:
                return v
            return fn("trunc", v) if v.op != "fn" or v.args[0] not in ("trunc", "floor") else v
        if ck in ("IntegralToFloating", "IntegralCast", "FloatingCast", "BooleanToSignedIntegral"):
            if isbool(v):
                return boolnum(v)
            return self.narrowed(v, e.get("t"), e["e"].get("t"))
        if ck == "NullToPointer":
            return T("null")
        return v

    def rv_cond(self, e):
        c = assume(truth(self.rv(e["c"])), self.st.facts)
        if c is TRUE:
            return self.rv(e["a"])
        if c is FALSE:
            return self.rv(e["b"])
        return self.branch(c, lambda: self.rv(e["a"]), lambda: self.rv(e["b"]), e["l"])

    def branch(self, c, fa, fb, l=None):
        """Evaluate both arms and join; returns the gated value."""
        s0 = self.st
        res = []
        lists = []
        for pol, f in ((True, fa), (False, fb)):
            self.st = s0.copy()
            self.st.facts = add_fact(s0.facts, c, pol)
            box = []

            def g(f=f, box=box):
                box.append(f() if f else None)
            lists.append(self.sub(g))
            res.append((box[0], self.st))
        self.emit("if", l, cond=c, a=lists[0], b=lists[1])
        (va, sa), (vb, sb) = res
        if sa.dead and not sb.dead:
            self.st = sb
            sb.pc = s0.pc
            return vb
        if sb.dead and not sa.dead:
            self.st = sa
            sa.pc = s0.pc
            return va
        self.st = self.join(c, sa, sb, s0)
        if va is None or vb is None:
            return None
        return ite(c, va, vb)

    def join(self, c, a, b, s0):
        s = State()
        s.facts = {k: v for k, v in a.facts.items() if b.facts.get(k) is v}
        s.pc = s0.pc
        s.dead = a.dead and b.dead
        s.bind = dict(a.bind)
        for k, v in b.bind.items():
            if k not in s.bind:
                s.bind[k] = v
        mem = {}
        for root in set(a.mem) | set(b.mem):
            ma, mb = a.mem.get(root), b.mem.get(root)
            if ma is mb:
                mem[root] = ma
                continue
            if (ma is None or mb is None) and root[0] in ("L", "T"):
                mem[root] = ma if mb is None else mb
                continue
            ma, mb = ma or {}, mb or {}
            r = {}
            keys = set(ma) | set(mb)
            # keep only the outermost keys that differ in structure
            for k in keys:
                if k in ma and k in mb and ma[k] is mb[k]:
                    r[k] = ma[k]
                    continue
                va = self._in(a, LOC(root, k))
                vb = self._in(b, LOC(root, k))
                r[k] = ite(c, va, vb)
                if va in VE.SHAPE and VE.SHAPE.get(va) == VE.SHAPE.get(vb):
                    self.setshape(r[k], VE.SHAPE[va])
            mem[root] = r
        s.mem = mem
        if a.foralls == b.foralls:
            s.foralls = a.foralls
        else:
            com = []
            for fa in a.foralls:
                if fa in b.foralls:
                    com.append(fa)
            extra = []
            seen = []
            for fa in list(a.foralls) + list(b.foralls):
                if fa in com or (fa[1], fa[2]) in seen:
                    continue
                seen.append((fa[1], fa[2]))
                # a location that exists on both sides, at a generic index
                loc = LOC(fa[1], fa[2])
                va, vb = self._in(a, loc), self._in(b, loc)
                gid = T("gate", c, fa[5] if isinstance(fa[5], Term) else num(fa[5]))
                extra.append((fa[0], fa[1], fa[2], ite(c, va, vb), True, gid))
            s.foralls = tuple(com) + tuple(extra)
        return s

    def _in(self, st, loc):
        old = self.st
        self.st = st
        try:
            return self.read(loc, note=False)
        finally:
            self.st = old

    def rv_bin(self, e):
        op = e["op"]
        if op in ("&&", "||"):
            a = assume(truth(self.rv(e["a"])), self.st.facts)
            if op == "&&":
                if a is FALSE:
                    return FALSE
                if a is TRUE:
                    return assume(truth(self.rv(e["b"])), self.st.facts)
                return self.branch(a, lambda: assume(truth(self.rv(e["b"])), self.st.facts), lambda: FALSE, e["l"])
            if a is TRUE:
                return TRUE
            if a is FALSE:
                return assume(truth(self.rv(e["b"])), self.st.facts)
            return self.branch(a, lambda: TRUE, lambda: assume(truth(self.rv(e["b"])), self.st.facts), e["l"])
        if op == ",":
            self.rv(e["a"])
            return self.rv(e["b"])
        a, b = self.rv(e["a"]), self.rv(e["b"])
        return self.binop(op, a, b, e)

    def binop(self, op, a, b, e):
        ta, tb = self.p.ty(e["a"]["t"]), self.p.ty(e["b"]["t"])
        integer = ta["k"] in ("int", "enum", "bool") and tb["k"] in ("int", "enum", "bool")
        unsigned = integer and not (ta.get("sgn") and tb.get("sgn"))
        ptr = ta["k"] == "ptr" or tb["k"] == "ptr"
        if op in ("<", ">", "<=", ">=", "==", "!="):
            return self.compare(op, a, b, integer, unsigned, ptr)
        if ptr:
            if op in "+-":
                if a.op == "addr" and b.op not in ("addr", "iter"):
                    loc = a.args[0]
                    root, st = loc.args
                    d = b if op == "+" else neg(b)
                    if st and st[-1][0] == "e":
                        return T("addr", LOC(root, st[:-1] + (("e", add(st[-1][1], d)),)))
                if a.op == "iter" and b.op != "iter":
                    return T("iter", a.args[0], add(a.args[1], b) if op == "+" else sub(a.args[1], b), a.args[2])
                if op == "+":
                    return T("addr", ext(LOC(("D", a)), ("e", b)))
            return T("ptrop", op, a, b)
        if isbool(a):
            a2 = boolnum(a)
        else:
            a2 = a
        b2 = boolnum(b) if isbool(b) else b
        if op == "+":
            return add(a2, b2)
        if op == "-":
            return sub(a2, b2)
        if op == "*":
            return mul(a2, b2)
        if op == "/":
            if integer:
                if is_num(a2) and is_num(b2) and b2.args[0] != 0:
                    return num(int(a2.args[0] / b2.args[0]))
                return T("fn", "idiv", a2, b2)
            return div(a2, b2)
        if op == "%" and is_num(a2) and is_num(b2) and b2.args[0] != 0:
            return num(int(a2.args[0]) % int(b2.args[0]))
        if op == "<<" and is_num(a2) and is_num(b2):
            return num(int(a2.args[0]) << int(b2.args[0]))
        if op in ("&", "|") and isbool(a) and isbool(b):
            return and_(a, b) if op == "&" else or_(a, b)
        return T("fn", "op" + op, a2, b2)

    def compare(self, op, a, b, integer, unsigned, ptr=False):
        if isbool(a) and isbool(b):
            r = or_(and_(a, b), and_(not_(a), not_(b)))
            return r if op == "==" else not_(r)
        if isbool(a):
            a = boolnum(a)
        if isbool(b):
            b = boolnum(b)
        if a.op == "iter" and b.op == "iter":
            if a.args[0] is b.args[0]:
                a, b, integer, unsigned = a.args[1], b.args[1], True, True
        elif a.op == "addr" and b.op == "addr":
            la, lb = a.args[0], b.args[0]
            if la.args[0] == lb.args[0] and la.args[1][:-1] == lb.args[1][:-1] and la.args[1] and lb.args[1] \
                    and la.args[1][-1][0] == "e" and lb.args[1][-1][0] == "e":
                a, b, integer, unsigned = la.args[1][-1][1], lb.args[1][-1][1], True, True
        if op == "==":
            return eq(a, b)
        if op == "!=":
            return not_(eq(a, b))
        if op == "<":
            return lt(a, b, integer, unsigned)
        if op == ">":
            return lt(b, a, integer, unsigned)
        if op == "<=":
            return le(a, b, integer, unsigned)
        return le(b, a, integer, unsigned)

    def rv_asg(self, e):
        op = e["op"]
        if op == "=":
            v = self.rv(e["b"])
            loc = self.lv(e["a"])
            if isbool(v) and self.p.ty(e["a"]["t"])["k"] != "bool":
                v = boolnum(v)
            if loc is None:
                self.unknown.append((e["l"], "asg", None))
                return v
            self.write(loc, v, e["l"])
            return v
        b = self.rv(e["b"])
        loc = self.lv(e["a"])
        if loc is None:
            self.unknown.append((e["l"], "asg", None))
            return b
        a = self.read(loc, self.p.unref(e["a"]["t"]))
        v = self.binop(op[:-1], a, b, e)
        ta, tb = (self.p.ty(self.p.unref(e[x]["t"])) for x in "ab")
        if ta["k"] == "int" and tb["k"] == "flt":
            v = v if v.op == "num" and v.args[0].denominator == 1 else fn("trunc", v)
        elif ta["k"] in ("int", "flt") and tb["k"] in ("int", "flt"):
            v = self.narrowed(v, e["a"]["t"], e["b"]["t"])
        self.write(loc, v, e["l"], op=op)
        return v

    def rv_un(self, e):
        op = e["op"]
        if op in ("++", "--"):
            loc = self.lv(e["e"])
            if loc is None:
                return self.unk(e)
            a = self.read(loc, self.p.unref(e["e"]["t"]))
            v = self.step(a, 1 if op == "++" else -1)
            self.write(loc, v, e["l"], op=op)
            return a if e.get("post") else v
        if op == "&":
            loc = self.lv(e["e"])
            if loc is None:
                if e["e"]["k"] == "ref" and e["e"].get("dk") == "fn":
                    return T("fnptr", self.invoker(e["e"]["fn"]))
                return fresh("addr")
            # address of the pointee of p is p
            if not loc.args[1] and loc.args[0][0] == "D":
                return loc.args[0][1]
            return T("addr", loc)
        if op == "*":
            loc = self.lv(e)
            return self.readval(loc, e["t"])
        v = self.rv(e["e"])
        if op == "!":
            return not_(assume(truth(v), self.st.facts))
        if op == "-":
            return neg(boolnum(v) if isbool(v) else v)
        if op == "+":
            return v
        return T("fn", "un" + op, v)

    def step(self, a, n):
        if a.op == "iter":
            return T("iter", a.args[0], add(a.args[1], num(n)), a.args[2])
        if a.op == "addr":
            root, st = a.args[0].args
            if st and st[-1][0] == "e":
                return T("addr", LOC(root, st[:-1] + (("e", add(st[-1][1], num(n))),)))
            return T("ptrop", "+", a, num(n))
        if isbool(a):
            a = boolnum(a)
        return add(a, num(n))

    def rv_init(self, e):
        ty = self.p.ty(e["t"])
        items = e["items"]
        if ty["k"] == "rec":
            r = self.p.recs[ty["rec"]]
            if r["qual"] == "std::array" and len(items) == 1:
                return self.rv(items[0])
            fs = self.p.rec_fields(r)
            if fs and len(fs) == len(items):
                return T("struct", r["name"], tuple((f["n"], self.initval(i, f["t"])) for f, i in zip(fs, items)))
        if ty["k"] not in ("rec", "arr"):
            if len(items) == 1:
                return self.rv(items[0])
            if not items:
                return T("null") if ty["k"] == "ptr" else ZERO
        return T("list", *[self.rv(i) for i in items])

    def rv_arrcopy(self, e):
        l = self.lv(e["e"])
        return self.read(l) if l is not None else self.rv(e["e"])

    def rv_new(self, e):
        ty = e["ty"]
        self.newn += 1
        pv = T("new", self.newn, self.loopctx())
        loc = LOC(("D", pv))
        self.ltype[loc] = ty
        args = [self.rv(x) for x in e.get("placement", ())]
        self.emit("new", e["l"], ptr=pv, ty=ty, arr=e.get("arr"))
        if e.get("init") is not None and not e.get("arr"):
            self.init_into(loc, e["init"], ty)
        elif not e.get("arr"):
            self.mark_undef(loc, ty)
        return pv

    def rv_delete(self, e):
        pv = self.rv(e["e"])
        self.emit("delete", e["l"], ptr=pv, st=self.st.copy())
        return T("null")

    def rv_ctor(self, e):
        loc = self.construct_expr(e)
        return self.read(loc, e["t"], note=False)

    def rv_call(self, e):
        r = self.call(e, want="rv")
        if isinstance(r, Term) and r.op == "loc":
            return self.readval(r, e["t"])
        return r

    def loopctx(self):
        return tuple(self.loopstack)

    _ls = ()

    @property
    def loopstack(self):
        return self._ls

    @loopstack.setter
    def loopstack(self, x):
        self._ls = x
        tm.CTX[0] = x

    # ----------------------------------------------------------- construction
    def mark_undef(self, loc, t):
        ty = self.p.ty(self.p.unref(t))
        if ty["k"] == "rec":
            r = self.p.recs[ty["rec"]]
            x = self.eigrec(ty["rec"])
            if x and x[0] == "mat":
                v = T("undef", loc)
                self.tag(v, t)
                self._put(loc, v)
                return
            if r.get("repo"):
                for f in self.p.rec_fields(r):
                    self.mark_undef(self.field(loc, f["n"], f["t"]), f["t"])
                return
            if r["qual"].startswith("std::"):
                if r["qual"] == "std::array":
                    self._put(loc, T("undef", loc))
                else:
                    self._put(loc, T("list"))
                return
            return
        if ty["k"] in ("int", "flt", "bool", "ptr", "enum"):
            self._put(loc, T("undef", loc))

    def _put(self, loc, v):
        root, steps = loc.args
        m = dict(self.st.mem.get(root, {}))
        for k in list(m):
            if len(k) > len(steps) and k[:len(steps)] == steps:
                del m[k]
        m[steps] = v
        self.st.mem[root] = m

    def construct_expr(self, e):
        """Evaluates a constructor expression into a temporary; returns its location."""
        self.tmpn += 1
        loc = LOC(("T", self.tmpn))
        self.ltype[loc] = self.p.unref(e["t"])
        self.init_into(loc, e, e["t"])
        return loc

    def initval(self, e, t):
        """Value of an initialiser of type t."""
        ty = self.p.ty(self.p.unref(t))
        if e["k"] == "ctor":
            return self.rv_ctor(e)
        v = self.rv(e)
        if isbool(v) and ty["k"] in ("int", "flt"):
            v = boolnum(v)
        return v

    def init_into(self, loc, e, t):
        """Initialise the object at loc from initialiser expression e."""
        if e["k"] == "ctor":
            f = self.p.fns[e["fn"]]
            args = e["args"]
            self.construct(loc, f, args, e)
            return
        if e["k"] == "init":
            ty = self.p.ty(self.p.unref(t))
            if ty["k"] == "rec":
                r = self.p.recs[ty["rec"]]
                fs = self.p.rec_fields(r)
                if fs and len(fs) == len(e["items"]) and r.get("repo"):
                    for f, i in zip(fs, e["items"]):
                        self.init_into(self.field(loc, f["n"], f["t"]), i, f["t"])
                    return
        v = self.initval(e, t)
        self.write(loc, v, e.get("l"))

    def copy_part(self, loc, f, v, l, op):
        """Implicit copy by a member of f's class: of a base, only its own part."""
        r = self.p.recs[f["rec"]]
        t = self.ltype.get(loc)
        o = self.p.rec_of(t) if t is not None else None
        if o is not None and o is not r and r.get("repo") and o.get("repo") and r["qual"] != o["qual"] and self.eigrec(f["rec"]) is None:
            for fd in self.p.rec_fields(r):
                if self.p.ty(fd["t"])["k"] not in ("ref", "rref"):
                    self.write(self.field(loc, fd["n"], fd["t"]), get(v, ("f", fd["n"])), l, op=op)
            return
        self.write(loc, v, l, op=op)

    def construct(self, loc, f, args, e):
        """Run constructor f on loc with argument expressions or terms."""
        r = self.p.recs[f["rec"]]
        x = self.eigrec(f["rec"])
        if (f.get("copyctor") or f.get("movector")) and (f.get("implicit") or f.get("defaulted") or not r.get("repo")):
            v = self.argval(args[0])
            self.copy_part(loc, f, v, e.get("l") if e else None, "init")
            return
        if x:
            self._put(loc, self.eig_construct(loc, f, x, args, e))
            self.wlog[-1].add(loc)
            self.emit("write", e.get("l") if e else None, loc=loc, val=self.read(loc, note=False), op="init")
            return
        if "body" in f and r.get("repo") and not self.cfg.is_opaque(f):
            t = self.ltype.get(loc)
            ty = self.p.ty(t) if t is not None else None
            # a base-class constructor must not reset the derived part
            for fd in self.p.rec_fields(r):
                fl = ext(loc, ("f", fd["n"]))
                self.ltype.setdefault(fl, fd["t"])
                if self.p.ty(fd["t"])["k"] not in ("ref", "rref"):
                    self.mark_undef(fl, fd["t"])
            self.invoke(f, loc, args, e)
            return
        if r.get("repo") and f.get("defctor"):
            self.mark_undef(loc, self.ltype.get(loc))
            return
        av = [self.argval(a) for a in args]
        q = r["qual"]
        v = None
        if q.startswith(("std::", "__gnu_cxx::")):
            v = self.std_construct(q, r, f, av, args, loc)
        if v is None:
            v = T("ctor", r["name"], *av)
            self.emit("call", e.get("l") if e else None, q=f["q"], f=f, obj=loc, args=av, argx=args, ret=v)
        self.write(loc, v, e.get("l") if e else None, op="init")

    def std_construct(self, q, r, f, av, args, loc):
        if q in ("std::vector", "std::__cxx11::list", "std::set", "std::map", "std::deque", "std::priority_queue", "std::queue"):
            ps = f["params"]
            if not av:
                return T("list")
            k0 = self.p.ty(self.p.unref(ps[0]["t"]))
            if k0["k"] == "int":
                if len(av) >= 2 and not (self.p.rec_of(ps[1]["t"]) or {}).get("qual", "").startswith("std::"):
                    return T("fill", av[0], av[1])
                if len(av) >= 2 and av[1].op not in ("ctor", "list"):
                    return T("fill", av[0], av[1])
                return T("fill", av[0], ZERO)
            if av[0].op == "list" and (k0["k"] == "rec" and self.p.recs[k0["rec"]]["qual"] == "std::initializer_list"):
                return av[0]
            if av[0].op == "ctor" and "allocator" in str(av[0].args[0]):
                return T("list")
            if len(av) >= 2 and av[0].op == "iter" and av[1].op == "iter":
                c = av[0].args[0]
                if av[0].args[1] is ZERO and av[1].args[1] is size(self.read(c, note=False)):
                    return self.read(c, note=False)
            return T("ctor", r["name"], *av)
        if q in ("std::pair", "std::tuple") and av:
            return T("tuple", *av)
        if q == "std::initializer_list":
            return av[0] if av else T("list")
        if q == "std::function" and av:
            return av[0]
        if q in ("std::shared_ptr", "std::unique_ptr"):
            return av[0] if av else T("null")
        if q in ("std::allocator",):
            return T("ctor", r["name"])
        if (q.startswith("std::reverse_iterator")) and av and av[0].op == "iter":
            return av[0]
        if q.startswith("__gnu_cxx::__normal_iterator") and av:
            return av[0]
        return None

    def eig_construct(self, loc, f, x, args, e):
        av = [self.argval(a) for a in args]
        t = self.ltype.get(loc)
        r, c = x[1], x[2]
        if x[0] == "mat":
            if not av:
                v = fresh("undefm", loc)
                VE.UNDEFM.add(v)
                setdims(v, r, c)
                if r is None or c is None:
                    VE.SHAPE[v] = (num(r or 0), num(c or 0))
                return v
            kinds = [self.p.ty(self.p.unref(p["t"]))["k"] for p in f["params"]][:len(av)]
            if len(av) == 1 and kinds[0] in ("int",):
                v = fresh("undefm", loc)
                VE.UNDEFM.add(v)
                setdims(v, r, c)
                n = av[0]
                VE.SHAPE[v] = (num(r) if r and not (c == 1 and r is None) else n, num(c) if c else n)
                if r and c is None:
                    VE.SHAPE[v] = (num(r), n)
                return v
            if len(av) == 2 and all(k in ("int", "enum", "flt") for k in kinds):
                if r and c and r * c == 2:
                    return cm(r, c, av)
                v = fresh("undefm", loc)
                VE.UNDEFM.add(v)
                setdims(v, r, c)
                VE.SHAPE[v] = (av[0], av[1])
                return v
            if len(av) in (3, 4) and r and c and r * c == len(av) and all(k in ("int", "flt") for k in kinds):
                return cm(r, c, av)
            if len(av) == 1:
                v = av[0]
                if v.op in ("cm", "mat", "num", "poly"):
                    return v
                if dims(v) == (None, None) and (r or c):
                    setdims(v, r, c)
                return v
        v = T("ctor", self.p.recs[f["rec"]]["name"], *av)
        return v

    UNDEFM = set()

    def argval(self, a):
        if isinstance(a, Term):
            return self.read(a, self.ltype.get(a), note=False) if a.op == "loc" else a
        return self.rv(a)

    def argloc(self, a, t=None):
        if isinstance(a, Term):
            return a if a.op == "loc" else self.temp(a, t)
        l = self.lv(a)
        if l is None:
            l = self.temp(self.rv(a), a["t"])
        return l

    # ----------------------------------------------------------------- calls
    def call(self, e, want="rv"):
        self.curl = e.get("l") or self.curl
        fi = e.get("fn")
        if fi is None:
            # call through a pointer or an unresolved functor
            cal = self.rv(e["callee"])
            if cal.op == "fnptr":
                f = self.p.fns[cal.args[0]]
                return self.dispatch(f, None, e["args"], e, want)
            if cal.op == "closure":
                return self.invoke_closure(cal, e["args"], e)
            av = [self.rv(a) for a in e["args"]]
            self.emit("call", e["l"], q="<indirect>", f=None, obj=None, args=av, argx=e["args"], callee=cal)
            return fresh("indirect")
        f = self.p.fns[fi]
        o = e.get("obj")
        if o is not None and not isinstance(o, Term) and o["k"] == "cond":
            # a call on one of two objects is one of two calls
            c = assume(truth(self.rv(o["c"])), self.st.facts)
            if c in (TRUE, FALSE):
                return self.call(dict(e, obj=o["a" if c is TRUE else "b"]), want)
            if want == "rv":
                r = self.branch(c, lambda: self.rv_call(dict(e, obj=o["a"])), lambda: self.rv_call(dict(e, obj=o["b"])), e["l"])
                return r
        return self.dispatch(f, o, e["args"], e, want)

    def dispatch(self, f, obj, args, e, want):
        if f.get("lambda") and f["n"] == "operator()" and obj is not None:
            ov = self.rv(obj)
            if ov.op == "closure":
                return self.invoke_closure(ov, args, e)
        if f.get("static"):
            if obj is not None and not isinstance(obj, Term):
                self.rv(obj) if obj["k"] not in ("ref", "this") else None
            obj = None
        if f.get("repo") and "body" in f and not self.cfg.is_opaque(f) and not self.cfg.is_pure(f) \
                and self.stack.count(f["id"]) < 1 and len(self.stack) < self.cfg.maxdepth \
                and not (f.get("defaulted") and f["n"] == "operator="):
            this = None
            if obj is not None:
                this = obj if isinstance(obj, Term) else self.objloc(obj, e.get("arrow") if e else False)
            return self.invoke(f, this, args, e)
        if f.get("defaulted") and f["n"] == "operator=" and obj is not None:
            v = self.argval(args[0])
            ol = self.objloc(obj)
            self.copy_part(ol, f, v, e["l"], "=")
            return ol
        return self.external(f, obj, args, e, want)

    def invoke_closure(self, cal, args, e):
        le, fr, caps = self.closures[cal.args[0]]
        fns = [self.p.fns[i] for i in le["fns"] if "body" in self.p.fns[i]]
        if not fns:
            return fresh("closure")
        f = fns[0]
        if len(fns) > 1:
            f = next((g for g in fns if len(g["params"]) == len(args)), fns[0])
        if cal.args[0] in self.active:
            # a closure calling itself: whatever it refers to may have changed
            kept = onlyread(f["body"])
            for c in le["caps"]:
                if c.get("byref") and "d" in c and c["d"] not in kept:
                    b, _ = self.lookup_in(fr, c["d"])
                    if isinstance(b, Term) and b.op == "loc" and self.read(b, note=False).op != "closure":
                        self.havoc(b, "recursion", e.get("l"))
            for a in args:
                self.argval(a)
            return fresh("recursion", cal)
        self.active.append(cal.args[0])
        try:
            return self.invoke(f, fr.this, args, e, parent=fr, caps=caps)
        finally:
            self.active.pop()

    def bindparams(self, fr, f, args):
        old = self.fr
        vals = []
        for i, p in enumerate(f["params"]):
            a = args[i] if i < len(args) else p.get("def")
            if a is None:
                vals.append((p, "none", None))
                continue
            ty = self.p.ty(p["t"])
            if ty["k"] in ("ref", "rref"):
                vals.append((p, "loc", self.argloc(a, p["t"])))
            else:
                if not isinstance(a, Term) and a["k"] == "ctor":
                    vals.append((p, "val", self.read(self.construct_expr(a), note=False)))
                else:
                    vals.append((p, "val", self.argval(a)))
        for p, k, v in vals:
            if k == "loc":
                self.st.bind[(fr.id, p["d"])] = v
            else:
                self.fr = fr
                loc = self.newlocal(p["d"], p["n"], p["t"])
                self.fr = old
                if k == "val":
                    if isbool(v) and self.p.ty(p["t"])["k"] in ("int", "flt"):
                        v = boolnum(v)
                    self._put(loc, v)
                else:
                    self._put(loc, fresh("arg", p["n"]))
        self.fr = old

    def invoke(self, f, this, args, e, parent=None, caps=None):
        """Inline a call; returns the value (or location) returned."""
        fr = Frame(f, this, parent, caps)
        if self.cfg.hook:
            r = self.cfg.hook(self, f, this, args, e)
            if r is not None:
                return r
        self.bindparams(fr, f, args)
        oldfr, oldl = self.fr, self.curl
        self.fr = fr
        self.stack.append(f["id"])
        pc0 = self.st.pc
        self.st.pc = ()
        facts0 = self.st.facts
        box = []
        # arguments as the callee sees them, for the path analyses
        argv = []
        for p in f["params"]:
            argv.append(self.st.bind.get((fr.id, p["d"])))

        def g():
            for i in f.get("inits", ()):
                if "f" in i:
                    rec = self.p.recs[f["rec"]]
                    fd = next((x for x in self.p.rec_fields(rec) if x["n"] == i["f"]), None)
                    t = fd["t"] if fd else i["e"]["t"]
                    fl = ext(this, ("f", i["f"]))
                    self.ltype.setdefault(fl, t)
                    if self.p.ty(t)["k"] in ("ref", "rref"):
                        tl = self.lv(i["e"])
                        if tl is None:
                            tl = self.temp(self.rv(i["e"]), i["e"]["t"])
                        self._put(fl, T("refto", tl))
                        self.emit("bindref", i.get("l"), loc=fl, to=tl)
                    else:
                        self.init_into(fl, i["e"], t)
                elif "base" in i or i.get("deleg"):
                    if i["e"]["k"] == "ctor":
                        self.construct(this, self.p.fns[i["e"]["fn"]], i["e"]["args"], i["e"])
                    else:
                        self.rv(i["e"])
            box.extend(self.exec(f["body"]))
        nodes = self.sub(g)
        self.stack.pop()
        n = self.emit("fn", e.get("l") if e else None, f=f, this=this, args=argv, body=nodes)
        self.fr = oldfr
        self.curl = oldl
        # join the outcomes
        rets = [(s, v) for k, s, v in box if k in ("ret", "fall")]
        if not rets:
            self.st.dead = True
            self.st.pc = pc0
            return fresh("noreturn", f["n"])
        byref = self.p.ty(f["ret"])["k"] in ("ref", "rref")
        s, v = self.joinrets(rets)
        s.pc = pc0
        self.st = s
        n.d["ret"] = v
        self.prune(fr.id)
        if v is None:
            return T("void")
        return v

    def prune(self, fid):
        """Forget the locals of a finished call."""
        st = self.st
        dead = [r for r in st.mem if r[0] == "L" and isinstance(r[2], int) and r[2] >= fid]
        for r in dead:
            del st.mem[r]
        if st.foralls:
            st.foralls = tuple(fa for fa in st.foralls if not (fa[1][0] == "L" and fa[1][2] >= fid))
        for b in [b for b in st.bind if b[0] >= fid]:
            del st.bind[b]

    def joinrets(self, rets, depth=0):
        if len(rets) == 1:
            return rets[0]
        # first position where the path conditions differ
        n = depth
        while True:
            heads = set()
            for s, v in rets:
                heads.add(s.pc[n] if len(s.pc) > n else None)
            if len(heads) > 1:
                break
            if heads == {None}:
                # identical paths: cannot tell apart, keep an arbitrary gate
                a, b = rets[0], self.joinrets(rets[1:], n)
                return self._join2(T("cond", fresh("path")), a, b)
            n += 1
        c = next(h for h in heads if h is not None)[0]
        if heads == {(c, True), (c, False)}:
            yes = [(s, v) for s, v in rets if s.pc[n] == (c, True)]
            no = [(s, v) for s, v in rets if s.pc[n] != (c, True)]
            return self._join2(c, self.joinrets(yes, n + 1), self.joinrets(no, n + 1))
        # earlier outcomes come first: the condition of the first one decides, the others follow otherwise
        s0, v0 = rets[0]
        cc = and_(*[x if pol else not_(x) for x, pol in s0.pc[n:]])
        if cc is TRUE:
            return self._join2(T("cond", fresh("path")), rets[0], self.joinrets(rets[1:], n))
        return self._join2(cc, rets[0], self.joinrets(rets[1:], n))

    def _join2(self, c, a, b):
        (sa, va), (sb, vb) = a, b
        s = self.join(c, sa, sb, sa)
        s.pc = ()
        if va is None or vb is None:
            v = None
        elif isinstance(va, Term) and isinstance(vb, Term):
            if va is vb:
                v = va
            else:
                x = self._in(sa, va) if va.op == "loc" else va
                y = self._in(sb, vb) if vb.op == "loc" else vb
                v = ite(c, x, y)
        else:
            v = None
        return s, v

    # ------------------------------------------------------------- statements
    def exec(self, s):
        """Returns outcomes [(kind, state, value)] and leaves self.st undefined."""
        if s is None:
            return [("fall", self.st, None)]
        if self.st.dead:
            return []
        k = s["k"]
        self.curl = s.get("l") or self.curl
        m = getattr(self, "ex_" + k, None)
        if m is not None:
            return m(s)
        self.rv(s)
        if self.st.dead:
            return [("throw", self.st, None)]
        return [("fall", self.st, None)]

    def ex_py(self, s):
        return s["f"]()

    def ex_null(self, s):
        return [("fall", self.st, None)]

    def ex_compound(self, s):
        return self.execlist(s["body"])

    def execlist(self, ss):
        outs = []
        for x in ss:
            if x is None:
                continue
            r = self.exec(x)
            falls = [o for o in r if o[0] == "fall"]
            outs += [o for o in r if o[0] != "fall"]
            if not falls:
                return outs
            st = falls[0][1]
            if len(falls) > 1:
                st, _ = self.joinfalls(falls)
            self.st = st
        return outs + [("fall", self.st, None)]

    def joinfalls(self, falls):
        rets = [(s, None) for _, s, _ in falls]
        pre = 0
        pcs = [s.pc for s, _ in rets]
        while all(len(p) > pre for p in pcs) and len({p[pre] for p in pcs}) == 1:
            pre += 1
        common = pcs[0][:pre]
        s, v = self.joinrets(rets, pre)
        s.pc = common
        return s, v

    def ex_decl(self, s):
        for v in s["vars"]:
            self.declare(v)
        if self.st.dead:
            return [("throw", self.st, None)]
        return [("fall", self.st, None)]

    def declare(self, v):
        t = v["t"]
        ty = self.p.ty(t)
        if v.get("static"):
            g = self.p.globs[v["g"]]
            loc = LOC(("G", g["q"], v["d"]))
            self.st.bind[(self.fr.id, v["d"])] = loc
            self.ltype[loc] = self.p.unref(t)
            if g.get("const"):
                c = self.globconst(v["g"])
                if c is not None:
                    self.st.mem[loc.args[0]] = {(): c}
            return
        if ty["k"] in ("ref", "rref"):
            init = v.get("init")
            l = self.lv(init) if init else None
            if l is None:
                l = self.temp(self.rv(init), t) if init else self.temp(fresh("noinit"))
            self.st.bind[(self.fr.id, v["d"])] = l
            self.ltype.setdefault(l, self.p.unref(t))
            return
        x = self.eig(t)
        if x and x[0] in ("expr", "vw") and v.get("init") is not None:
            # a lazy expression: evaluated where it is used
            init = v["init"]
            view = self.eig_view(init)
            if view is not None:
                self.st.bind[(self.fr.id, v["d"])] = view
                return
            self.st.bind[(self.fr.id, v["d"])] = ("lazy", init, self.fr, v["l"])
            # evaluated once here too, so that its effects are seen
            self.rv(init)
            return
        loc = self.newlocal(v["d"], v["n"], t)
        if v.get("init") is not None:
            self.init_into(loc, v["init"], t)
        else:
            self.mark_undef(loc, t)
        for b in v.get("bindings", ()):
            if b.get("hv"):
                self.declare(b["hv"])
                bl, _ = self.lookup(b["hv"]["d"])
            else:
                bl = self.lv(b["e"]) if b.get("e") else None
            if bl is not None:
                self.st.bind[(self.fr.id, b["d"])] = bl

    def eig_view(self, e):
        """Location of a writable Eigen view expression, else None."""
        if e["k"] == "ctor" and len(e["args"]) == 1 and not isinstance(e["args"][0], Term):
            return self.eig_view(e["args"][0])
        if e["k"] == "call" and e.get("obj") is not None:
            f = self.p.fns[e["fn"]] if e.get("fn") is not None else None
            if f and f["n"] in ("head", "tail", "block", "row", "col", "topLeftCorner", "bottomRightCorner", "topRows",
                                "bottomRows", "leftCols", "rightCols", "segment", "array", "matrix", "topRightCorner",
                                "bottomLeftCorner", "middleRows", "middleCols"):
                r = self.call(e, want="lv")
                if isinstance(r, Term) and r.op == "loc" and r.args[0][0] != "T":
                    return r
        return None

    def ex_if(self, s):
        if s.get("init"):
            self.exec(s["init"])
        if s.get("var"):
            self.declare(s["var"])
        if "cx" in s:
            return self.exec(s["a"] if s["cx"] else s.get("b"))
        c = assume(truth(self.rv(s["c"])), self.st.facts)
        if self.st.dead:
            return [("throw", self.st, None)]
        if c is TRUE:
            return self.exec(s["a"])
        if c is FALSE:
            return self.exec(s.get("b"))
        s0 = self.st
        outs = []
        falls = []
        lists = []
        for pol, body in ((True, s["a"]), (False, s.get("b"))):
            self.st = s0.copy()
            self.st.facts = add_fact(s0.facts, c, pol)
            self.st.pc = s0.pc + ((c, pol),)
            box = []

            def g(body=body, box=box):
                box.extend(self.exec(body))
            lists.append(self.sub(g))
            fs = [o for o in box if o[0] == "fall"]
            outs += [o for o in box if o[0] != "fall"]
            if len(fs) > 1:
                st, _ = self.joinfalls(fs)
                fs = [("fall", st, None)]
            falls.append(fs[0][1] if fs else None)
        self.emit("if", s["l"], cond=c, a=lists[0], b=lists[1])
        sa, sb = falls
        if sa is not None and sb is not None:
            st = self.join(c, sa, sb, s0)
            return outs + [("fall", st, None)]
        if sa is not None or sb is not None:
            st = sa if sa is not None else sb
            return outs + [("fall", st, None)]
        return outs

    def ex_return(self, s):
        v = None
        if s.get("e"):
            ret = self.fr.fn["ret"] if self.fr.fn else None
            if ret is not None and self.p.ty(ret)["k"] in ("ref", "rref"):
                v = self.lv(s["e"])
                if v is None:
                    v = self.rv(s["e"])
            elif s["e"]["k"] in ("ctor",):
                v = self.rv_ctor(s["e"])
            else:
                v = self.rv(s["e"])
            if isinstance(v, Term) and isbool(v) and ret is not None and self.p.ty(ret)["k"] in ("int", "flt"):
                v = boolnum(v)
            if isinstance(v, Term) and ret is not None and self.p.ty(ret)["k"] == "bool":
                v = truth(v)
            if isinstance(v, Term) and v.op != "loc" and ret is not None:
                self.tag(v, ret)
        if self.st.dead:
            return [("throw", self.st, None)]
        self.emit("return", s["l"], val=v)
        return [("ret", self.st, v)]

    def ex_break(self, s):
        self.emit("break", s["l"])
        return [("brk", self.st, None)]

    def ex_continue(self, s):
        self.emit("continue", s["l"])
        return [("cont", self.st, None)]

    def ex_label(self, s):
        self.emit("label", s["l"], label=s["label"])
        return self.exec(s["body"])

    def ex_goto(self, s):
        self.emit("goto", s["l"], label=s["label"])
        self.unknown.append((s["l"], "goto", s["label"]))
        return [("throw", self.st, None)]

    def ex_try(self, s):
        r = self.exec(s["body"])
        for h in s["handlers"]:
            self.emit("catch", s["l"], any=h.get("any"))
        return r

    def ex_switch(self, s):
        c = self.rv(s["c"])
        self.unknown.append((s["l"], "switch", None))
        s0 = self.st
        body = s["body"]["body"] if s["body"] and s["body"]["k"] == "compound" else [s["body"]]
        outs = []
        sts = []

        def g():
            for i, x in enumerate(body):
                if x and x["k"] in ("case", "default"):
                    self.st = s0.copy()
                    cond = T("cond", fresh("case"))
                    self.st.pc = s0.pc + ((cond, True),)
                    seq = [y["body"] if y and y["k"] in ("case", "default") else y for y in body[i:]]
                    r = self.execlist(seq)
                    for o in r:
                        if o[0] in ("fall", "brk"):
                            sts.append(o[1])
                        else:
                            outs.append(o)
        nodes = self.sub(g)
        self.emit("switch", s["l"], body=nodes, cond=c)
        if not any(x and x["k"] == "default" for x in body):
            sts.append(s0)
        if not sts:
            return outs
        st = sts[0]
        for o in sts[1:]:
            st = self.join(T("cond", fresh("case")), st, o, s0)
        st.pc = s0.pc
        return outs + [("fall", st, None)]

    # ------------------------------------------------------------------ loops
    def ex_for(self, s):
        if s.get("init"):
            r = self.exec(s["init"])
            self.st = r[0][1]
        return self.loop(s, s.get("c"), s["body"], s.get("inc"))

    def ex_while(self, s):
        return self.loop(s, s["c"], s["body"], None, var=s.get("var"))

    def ex_do(self, s):
        return self.loop(s, s["c"], s["body"], None, post=True)

    def ex_rfor(self, s):
        if s.get("init"):
            self.exec(s["init"])
        rl = self.lv(s["range"])
        if rl is None:
            rl = self.temp(self.rv(s["range"]), s["range"]["t"])
        return self.loop(s, None, s["body"], None, rng=rl)

    def ex_omp(self, s):
        d = s["dir"]
        if d == "critical":
            name = s.get("name", "")
            box = []

            def g():
                box.extend(self.exec(s["body"]))
            nodes = self.sub(g)
            self.emit("crit", s["l"], name=name, body=nodes)
            return box
        cl = []
        for c in s.get("clauses", ()):
            vs = []
            for v in c["vars"]:
                if v and v.get("k") == "ref" and "d" in v:
                    b, _ = self.lookup(v["d"])
                    vs.append(b if isinstance(b, Term) else None)
            cl.append((c["c"], c.get("op"), vs))
        box = []

        def g():
            self.pardepth += 1
            try:
                box.extend(self.exec(s["body"]))
            finally:
                self.pardepth -= 1
        pre = frozenset(x.args[0] for x in self.st.bind.values() if isinstance(x, Term) and x.op == "loc")
        tn = (self.tmpn, self.newn)
        nodes = self.sub(g)
        self.emit("par", s["l"], dir=d, clauses=cl, body=nodes, pre=pre, tn=tn)
        return box

    def bodyonce(self, s, cond, body, inc, post, var, rngelem):
        """One symbolic iteration; returns (cond term, next-states, outs, brk)."""
        outs = []
        brk = []
        ct = TRUE
        s0pc = self.st.pc
        if rngelem is not None:
            v = s["var"]
            if self.p.ty(v["t"])["k"] in ("ref", "rref"):
                self.st.bind[(self.fr.id, v["d"])] = rngelem
            else:
                loc = self.newlocal(v["d"], v["n"], v["t"])
                self._put(loc, self.read(rngelem, self.p.unref(v["t"])))
            # structured bindings over elements
        if not post:
            if var:
                self.declare(var)
            if cond is not None:
                ct = assume(truth(self.rv(cond)), self.st.facts)
            if self.st.dead:
                return FALSE, [], outs, brk
        entry = self.st
        pre = entry.copy()
        if ct is FALSE:
            return FALSE, [], outs, brk
        self.st.facts = add_fact(self.st.facts, ct, True) if ct is not TRUE else self.st.facts
        r = self.exec(body)
        nxt = []
        for k, st, v in r:
            if k in ("fall", "cont"):
                nxt.append(("fall", st, None))
            elif k == "brk":
                brk.append(st)
            else:
                outs.append((k, st, v))
        if not nxt:
            return ct, [], outs, brk
        if len(nxt) > 1:
            st, _ = self.joinfalls(nxt)
        else:
            st = nxt[0][1]
        self.st = st
        if inc is not None:
            self.rv(inc)
        if post and cond is not None:
            ct = assume(truth(self.rv(cond)), self.st.facts)
        self.st.pc = s0pc
        return ct, [self.st], outs, brk

    MAXUNROLL = 16

    def loop(self, s, cond, body, inc, post=False, var=None, rng=None, filt=None):
        self.loopn += 1
        lid = self.loopn
        l = s["l"]
        s0 = self.st
        k = T("idx", lid)
        pc0 = s0.pc
        savedn = (self.tmpn, self.newn)

        # --- pass 1: what does an iteration write?
        def dry(st):
            self.cheap += 1
            self.wlog.append(set())
            ls = self.loopstack
            self.loopstack = ls + (k,)
            self.st = st.copy()
            res = []
            try:
                rngelem = None
                if rng is not None:
                    rngelem = ext(rng, nth())
                    self.set_elem_type(rng, rngelem)

                def g():
                    res.append(self.bodyonce(s, cond, body, inc, post, var, rngelem))
                self.sub(g)
            finally:
                w = self.wlog.pop()
                self.cheap -= 1
                self.loopstack = ls
            return res[0], w

        unk_mark = len(self.unknown)
        if rng is None and cond is not None and not post and not var:
            self.st = s0.copy()
            box0 = []
            self.wlog.append(set())
            self.cheap += 1
            self.sub(lambda: box0.append(assume(truth(self.rv(cond)), self.st.facts)))
            self.cheap -= 1
            self.wlog.pop()
            if box0[0] is FALSE:
                # never entered (condition decided false at entry)
                self.st = s0
                self.rv(cond)
                return [("fall", self.st, None)]
            self.st = s0
        if rng is None:
            u = self.try_unroll(s, cond, body, inc, post, var, lid, s0)
            if u is not None:
                return u
        if rng is not None:
            n = size(self.read(rng, note=False))
            if is_num(n) and n.args[0] <= self.MAXUNROLL:
                return self.unroll_range(s, body, rng, int(n.args[0]), s0)

        # a list filtered from a range is visited as the range itself, with the filter as a condition
        if rng is not None:
            filt = self.read(rng, note=False)
            if not filtered(filt):
                filt = None
        body0 = body
        nofilt = filt is FALSE
        if nofilt:
            filt = None
        if filt is not None:
            body = {"k": "if", "c": {"k": "given", "v": subst(filt.args[3], {filt.args[4]: k})}, "a": body, "l": l}

        kk = k if filt is None else T("rank", filt, k)
        if filt is not None:
            s0 = s0.copy()
            s0.facts = add_fact(s0.facts, lt(kk, size(filt)), True)

        def nth():
            return ("e", kk)

        def outer(loc):
            """written location that exists outside the loop"""
            root = loc.args[0]
            if root[0] == "T":
                return root in s0.mem
            if root[0] == "L":
                return root in s0.mem or (root[2], root[1]) in s0.bind
            if root[0] == "D" and root[1].op == "new" and root not in s0.mem:
                return False
            return True

        phis = {}
        foralls = []

        canon = set()

        def mkphi(w):
            ch = False
            for loc in sorted(w, key=lambda t: t.id):
                if not outer(loc) or loc in phis:
                    continue
                if self.varies(loc, k, lid):
                    pat = self.pattern(loc)
                    cf = self.canonpat(pat, k)
                    if cf not in canon:
                        canon.add(cf)
                        foralls.append(pat)
                        ch = True
                    continue
                ph = T("phi", lid, loc)
                t = self.ltype.get(loc)
                if t is not None:
                    self.tag(ph, t)
                phis[loc] = ph
                ch = True
            return ch

        ind = {}

        def entrystate():
            st = s0.copy()
            self.st = st
            for loc, ph in phis.items():
                v = ph
                if loc in ind:
                    lo, stp = ind[loc]
                    v = self.advance(lo, stp, kk)
                if v is ph:
                    old = self.read(loc, self.ltype.get(loc), note=False)
                    if old in VE.SHAPE or dims(old) != (None, None) or old.op in ("const", "updm"):
                        self.setshape(v, self.shape(old))
                    if dims(old) != (None, None) and dims(v) == (None, None):
                        setdims(v, *dims(old))
                self._put(loc, v)
                if self.st.foralls:
                    self.st.foralls = tuple(fa for fa in self.st.foralls if not (
                        fa[1] == loc.args[0] and fa[2][:len(loc.args[1])] == loc.args[1]))
            for vars_, root, steps in foralls:
                if not mentions((root, steps), k) or any(v is not k for v in vars_):
                    # written by every iteration: unknown at the start of one
                    if not any(v is k for v in vars_):
                        self.st.foralls = self.st.foralls + ((vars_, root, steps, None, False, T("phi", lid, LOC(root, steps))),)
            return self.st

        # counters stepped by the increment expression alone
        incs = []

        def steps_of(e):
            if e is None:
                return
            if e["k"] == "un" and e["op"] in ("++", "--") and e["e"]["k"] == "ref" and "d" in e["e"]:
                incs.append((e["e"], 1 if e["op"] == "++" else -1))
            elif e["k"] == "bin" and e["op"] == ",":
                steps_of(e["a"])
                steps_of(e["b"])
        steps_of(inc)
        own = set()
        for e, d in incs:
            self.st = s0
            loc = self.lv(e)
            if isinstance(loc, Term) and loc.op == "loc":
                own.add(loc.args[0])
            if isinstance(loc, Term) and loc.op == "loc":
                lo = self.read(loc, self.ltype.get(loc), note=False)
                if lo.op in ("fresh", "undef") or loc in phis:
                    continue
                ph = T("phi", lid, loc)
                if self.ltype.get(loc) is not None:
                    self.tag(ph, self.ltype.get(loc))
                phis[loc] = ph
                ind[loc] = (lo, num(d))
        for it in range(7):
            es = entrystate()
            (ct, nxt, outs, brk), w = dry(es)
            if it == 0 and ind:
                okp = bool(nxt)
                if nxt:
                    self.st = nxt[0]
                    for loc, (lo, stp) in ind.items():
                        if self.read(loc, self.ltype.get(loc), note=False) is not self.advance(lo, stp, add(kk, ONE)):
                            okp = False
                if not okp:
                    ind.clear()
                    phis.clear()
                    (ct, nxt, outs, brk), w = dry(entrystate())
            changed = mkphi(w)
            nind = len(ind)
            if nxt:
                self.st = nxt[0]
                for loc, ph in phis.items():
                    if loc in ind:
                        continue
                    end = self.read(loc, self.ltype.get(loc), note=False)
                    stp = self.stride(ph, end)
                    if stp is not None:
                        self.st_save = self.st
                        self.st = s0
                        lo = self.read(loc, self.ltype.get(loc), note=False)
                        self.st = self.st_save
                        if lo.op not in ("fresh", "undef"):
                            ind[loc] = (lo, stp)
                            changed = True
            if len(ind) != nind:
                # patterns seen before the induction variables were known are stale
                phis = {x: p for x, p in phis.items() if x in ind}
                del foralls[:]
                canon.clear()
                continue
            if not changed:
                break

        # the induction variables of memory other than plain locals stay phis
        es = entrystate()
        del self.unknown[unk_mark:]
        self.wlog.append(set())
        ls = self.loopstack
        self.loopstack = ls + (k,)
        self.st = es
        box = []
        rngelem = None
        if rng is not None:
            rngelem = ext(rng, nth())
            self.set_elem_type(rng, rngelem)

        # facts about the index
        def g():
            box.append(self.bodyonce(s, cond, body, inc, post, var, rngelem))
        nodes = self.sub(g)
        self.loopstack = ls
        w = self.wlog.pop()
        for x in w:
            if outer(x):
                self.wlog[-1].add(x)
        ct, nxt, outs, brk = box[0]
        # coverage
        trip = None
        if rng is not None:
            self.st = s0
            trip = size(self.read(rng, note=False)) if filt is None else filt.args[1]
        elif filt is not None:
            trip = filt.args[1]
            if not ind:
                self.st = s0
                return self.loop(s, cond, body0, inc, post, var, rng, FALSE)
        elif ct is not TRUE and not post:
            trip = self.trip(ct, k)
            if trip is not None and trip.op == "size" and filtered(trip.args[0]) and not nofilt:
                self.st = s0
                return self.loop(s, cond, body0, inc, post, var, rng, trip.args[0])
        if trip is not None and (any(mentions(trip, ph) for ph in phis.values())):
            trip_inv = False
        else:
            trip_inv = True
        early = bool(brk) or any(o[0] == "ret" for o in outs)
        # an unconditional early return/throw is not an iteration
        full = trip is not None and trip_inv and not early
        info = {"id": lid, "k": k, "trip": trip if trip_inv else None, "full": full, "rng": rng, "early": early,
                "cond": ct, "post": post, "l": l, "ind": {x.args[0]: v for x, v in ind.items()}, "own": own}
        self.loops[lid] = info
        self.emit("loop", l, info=info, body=nodes)

        # --- state after the loop
        after = s0.copy()
        endst = nxt[0] if nxt else None
        vals = {}
        if endst is not None:
            self.st = endst
            for loc, ph in phis.items():
                vals[loc] = self.read(loc, self.ltype.get(loc), note=False)
            fvals = []
            for vars_, root, steps in foralls:
                fvals.append(self.read(LOC(root, steps), self.ltype.get(LOC(root, steps)), note=False)
                             if set(vars_) == {k} else None)
        else:
            fvals = [None] * len(foralls)
        self.st = after
        for loc, ph in phis.items():
            self.st = s0
            v0 = self.read(loc, self.ltype.get(loc), note=False)
            self.st = after
            v1 = vals.get(loc)
            t = self.ltype.get(loc)
            nv = None
            if v1 is None:
                nv = None
            elif v1 is ph or v1 is v0:
                nv = v0
            elif loc in ind and full:
                nv = self.advance(v0, ind[loc][1], trip if filt is None else size(filt))
            elif full:
                nv = self.reduction(ph, v0, v1, k, trip, phis.values())
            if nv is None:
                nv = T("after", lid, loc)
                if t is not None:
                    self.tag(nv, t)
                if v1 is not None and self.shape(v1) == self.shape(ph) and ph in VE.SHAPE:
                    self.setshape(nv, VE.SHAPE[ph])
            self._put(loc, nv)
        for (vars_, root, steps), v in zip(foralls, fvals):
            ok = full and v is not None and not any(mentions(v, ph) for ph in phis.values())
            if root in self.st.mem:
                m = dict(self.st.mem[root])
                for key in list(m):
                    b = {}
                    if len(key) >= len(steps) and unify(steps, key[:len(steps)], vars_, b):
                        del m[key]
                self.st.mem[root] = m
            for rt in list(self.st.mem):
                if rt[0] == root[0] and rt != root and unify(root, rt, vars_, {}):
                    m = dict(self.st.mem[rt])
                    for key in list(m):
                        if len(key) >= len(steps) and unify(steps, key[:len(steps)], vars_, {}):
                            del m[key]
                    self.st.mem[rt] = m
            gid = T("after", lid, LOC(root, steps))
            if trip is not None and trip_inv:
                TRIP[k] = trip
            if vars_ == (k,) and trip is not None and trip_inv:
                vars_, steps, v = self.covered(s0, root, steps, v if ok else None, k, trip, lid)
            self.st.foralls = self.st.foralls + ((vars_, root, steps, v if ok else None, ok, gid),)
        # inner summaries that vary with this index
        if endst is not None:
            for fa in endst.foralls:
                if fa in s0.foralls or any(fa[1] == f[1] and fa[2] == f[2] for f in foralls):
                    continue
                if not outer(LOC(fa[1], ())):
                    continue
                if isinstance(fa[5], Term) and fa[5].op == "phi":
                    continue
                vs = fa[0]
                if mentions((fa[1], fa[2]), k) and k not in vs:
                    vs = vs + (k,)
                self.st.foralls = self.st.foralls + ((vs, fa[1], fa[2], fa[3] if full else None, fa[4] and full, fa[5]),)
        after = self.st
        after.pc = pc0
        res = []
        # returns from inside the loop
        for o, st, v in outs:
            if o == "ret":
                anyc = self.bindidx(self.pathcond(st.pc[len(pc0):], ct), k)
                c = T("any", trip if trip is not None else T("unknown"), anyc)
                st = after.copy()
                st.pc = pc0 + ((c, True),)
                if isinstance(v, Term) and (mentions(v, k) or v.op == "loc"):
                    v = T("after", lid, v)
                res.append(("ret", st, v))
        if any(o[0] == "ret" for o in res):
            after = after.copy()
            for o, st, v in res:
                after.pc = after.pc + ((st.pc[-1][0], False),)
                after.facts = add_fact(after.facts, st.pc[-1][0], False)
        res += [("throw", st, v) for o, st, v in outs if o == "throw"]
        if endst is None and ct is TRUE and not brk and rng is None:
            return res       # an infinite loop without exit
        if cond is not None and ct not in (TRUE, FALSE) and full and not post:
            pass
        return res + [("fall", after, None)]

    def set_elem_type(self, rng, rngelem):
        t = self.ltype.get(rng)
        if t is None:
            return
        et = self.elemtype(t)
        if et is not None:
            self.ltype.setdefault(rngelem, et)

    def elemtype(self, t):
        ty = self.p.ty(self.p.unref(t))
        if ty["k"] == "arr":
            return ty["to"]
        if ty["k"] == "rec":
            r = self.p.recs[ty["rec"]]
            if r["qual"] in ("std::vector", "std::array", "std::set", "std::deque"):
                a = r.get("targs", [])
                if a and isinstance(a[0], dict) and "t" in a[0]:
                    return a[0]["t"]
        return None

    def pathcond(self, pcs, ct):
        c = TRUE
        for x, pol in pcs:
            c = and_(c, x if pol else not_(x))
        return c

    def bindidx(self, t, k):
        n = 0
        for x in walk(t):
            if x.op == "bv":
                n = max(n, x.args[0] + 1)
        return subst(t, {k: T("bv", n)})

    def varies(self, loc, k, lid):
        """Whether a written location depends on the iteration (or an inner index)."""
        for x in walk(T("w", loc.args[0], loc.args[1])):
            if x.op == "idx" and (x is k or x.args[0] > lid):
                return True
            if x.op == "phi" and x.args[0] >= lid:
                return True
            if x.op in ("fresh",):
                return True
        return False

    def covered(self, s0, root, steps, v, k, trip, lid):
        """Turns 'iteration k writes element f(k)' into a summary over the element index."""
        pos = [i for i, x in enumerate(steps) if mentions(x, k)]
        if len(pos) != 1 or steps[pos[0]][0] != "e" or mentions(root, k):
            return (k,), steps, v
        pos = pos[0]
        ix = steps[pos][1]
        off = subst(ix, {k: ZERO})
        sl = sub(ix, off)
        if sl is k:
            j = k if off is ZERO else T("idx", lid, "j")
            ke = sub(j, off)
            up = True
            if off is ZERO:
                TRIP[j] = trip
        elif sl is neg(k):
            j = T("idx", lid, "j")
            ke = sub(off, j)
            up = False
            if off is sub(trip, ONE):
                TRIP[j] = trip
        else:
            return (k,), steps, v
        if mentions(off, k):
            return (k,), steps, v
        nsteps = steps[:pos] + (("e", j),) + steps[pos + 1:]
        if v is None:
            return (j,), nsteps, None
        v = subst(v, {k: ke}) if ke is not k else v
        cur = self.st
        self.st = s0
        base = LOC(root, steps[:pos])
        n = size(self.read(base, self.ltype.get(base), note=False))
        same = trip is n
        if not same:
            bt = self.ltype.get(base)
            ty = self.p.ty(bt) if bt is not None else None
            if ty is not None and ty["k"] == "arr" and is_num(trip) and ty.get("n") == int(trip.args[0]):
                same = True
        g = []
        if up and off is ZERO:
            pass
        elif not up and same and sub(n, off) is ONE:
            pass
        else:
            g.append(not_(lt(ke, ZERO)))
        if not (same and ((up and off is ZERO) or (not up and sub(n, off) is ONE))):
            g.append(lt(ke, trip))
        if g:
            old = self.read(LOC(root, nsteps), self.ltype.get(LOC(root, steps)), note=False)
            v = ite(and_(*g), v, old)
        self.st = cur
        return (j,), nsteps, v

    def pattern(self, loc):
        root, steps = loc.args
        vars_ = []
        for x in walk(T("w", root, steps)):
            if x.op in ("idx", "phi"):
                if x not in vars_ and not any(x is not y and mentions(y, x) for y in vars_):
                    vars_.append(x)
        return (tuple(sorted(vars_, key=lambda t: t.id)), root, steps)

    def canonpat(self, pat, k):
        """The pattern with the indices of inner loops renamed by position."""
        vars_, root, steps = pat
        m = {}
        for x in vars_:
            if x is not k and x.op == "idx":
                m[x] = T("idx", ("canon", len(m)))
        t = T("w", root, steps)
        return subst(t, m) if m else t

    def stride(self, ph, end):
        if end is ph:
            return None
        if end.op == "iter":
            return None
        if end.op in ("poly", "num") or ph.op == "phi":
            if end.op == "ptrop" or end.op == "get" or end.op == "addr":
                if end.op == "ptrop" and end.args[0] in "+-" and end.args[1] is ph and is_num(end.args[2]):
                    return end.args[2] if end.args[0] == "+" else neg(end.args[2])
                if end.op == "addr":
                    b = end.args[0]
                    if b.args[0] == ("D", ph) and len(b.args[1]) == 1 and b.args[1][0][0] == "e" and is_num(b.args[1][0][1]):
                        return b.args[1][0][1]
                return None
            if end.op in ("poly",):
                d = sub(end, ph)
                if is_num(d) and d.args[0].denominator == 1 and d is not ZERO:
                    return d
            if end.op == "itstep" and end.args[0] is ph:
                return end.args[1]
        return None

    def advance(self, lo, stp, n):
        if lo.op == "iter":
            return T("iter", lo.args[0], add(lo.args[1], mul(stp, n)), lo.args[2])
        if lo.op == "addr":
            root, st = lo.args[0].args
            if st and st[-1][0] == "e":
                return T("addr", LOC(root, st[:-1] + (("e", add(st[-1][1], mul(stp, n))),)))
            return T("addr", ext(lo.args[0], ("e", mul(stp, n))))
        if lo.op in ("null", "new", "init", "get") and stp is not None and lo.op != "init":
            return T("addr", ext(LOC(("D", lo)), ("e", mul(stp, n))))
        return add(lo, mul(stp, n))

    def trip(self, ct, k):
        """Number of iterations from the loop condition, index k counting from 0."""
        cands = ct.args if ct.op == "and" else (ct,)
        for c in cands:
            p = None
            if c.op == "lt0":
                p = c.args[0]
            elif c.op == "not" and c.args[0].op == "lt0":
                q = c.args[0].args[0]
                p = sub(neg(q), ONE)
            elif c.op == "not" and c.args[0].op == "eq0":
                p = c.args[0].args[0]
                co = dict(tm._poly(p)).get(((k, Fr(1)),), 0)
                if co == -1:
                    p = neg(p)
                elif co != 1:
                    continue
            elif c.op == "eq0" and c.args[0] is k:
                return ONE
            elif c.op == "eq0":
                # unsigned "n < 1" on a decreasing counter
                continue
            if p is None:
                continue
            d = tm._poly(p)
            co = d.get(((k, Fr(1)),), 0)
            if co <= 0 or any(m != ((k, Fr(1)),) and any(mentions(a, k) for a, _ in m) for m in d):
                continue
            rest = sub(p, mul(num(co), k))
            t = neg(rest)
            if len(cands) > 1:
                return None
            if co == 1:
                return t
            return T("fn", "ceil", div(t, num(co)))
        return None

    def reduction(self, ph, v0, v1, k, trip, phs):
        def free(t):
            return not any(mentions(t, p) for p in phs)
        if v1.op == "fn" and v1.args[0] in ("min", "max"):
            rest = [x for x in v1.args[1:] if x is not ph]
            if len(rest) == len(v1.args) - 2 and all(free(x) for x in rest):
                r = fn(v1.args[0], *rest)
                return fn(v1.args[0], v0, T("fold", v1.args[0], trip, self.bindidx(r, k)))
        if isbool(v1):
            if v1.op == "or" and T("truth", ph) in v1.args:
                rest = or_(*[x for x in v1.args if x is not T("truth", ph)])
                if free(rest):
                    if not mentions(rest, k):
                        return or_(truth(v0), and_(lt(ZERO, trip), rest))
                    return or_(truth(v0), T("any", trip, self.bindidx(rest, k)))
            if v1.op == "and" and T("truth", ph) in v1.args:
                rest = and_(*[x for x in v1.args if x is not T("truth", ph)])
                if free(rest):
                    if not mentions(rest, k):
                        return and_(truth(v0), or_(not_(lt(ZERO, trip)), rest))
                    return and_(truth(v0), T("all", trip, self.bindidx(rest, k)))
            return None
        r, c = dims(ph)
        if v1.op == "updm" and v1.args[0] is ph:
            val, (i, j, rr, cc) = v1.args[1], v1.args[2]
            axis = "c" if j is k and isinstance(i, int) and isinstance(rr, int) and cc == 1 else \
                   "r" if i is k and isinstance(j, int) and isinstance(cc, int) and rr == 1 else None
            if axis:
                m = {}
                for x in walk(val):
                    if x.op == "el" and x.args[0] is ph and x.args[2 if axis == "c" else 1] is k:
                        m[x] = tm.el(v0, x.args[1], x.args[2])
                    if x.op == "blk" and x.args[0] is ph and x.args[2 if axis == "c" else 1] is k and x.args[4 if axis == "c" else 3] == 1:
                        m[x] = block(v0, *x.args[1:])
                val = subst(val, m)
                if free(val):
                    n = 0
                    for x in walk(val):
                        if x.op == "bv":
                            n = max(n, x.args[0] + 1)
                    bv = T("bv", n)
                    return tm.tabm(v0, trip, subst(val, {k: bv}), axis, i if axis == "c" else j, rr if axis == "c" else cc, bv)
            return None
        if (r or c) or v1.op in ("mat", "cm"):
            if v1.op == "mat":
                d = madd(v1, mneg(ph))
                if free(d):
                    t = T("summ", trip, self.bindidx(d, k))
                    setdims(t, r, c)
                    return madd(v0, t)
            return None
        if v1.op in ("poly",):
            d = sub(v1, ph)
            if free(d):
                return add(v0, self.mksum(d, k, trip))
        if v1.op == "push" and v1.args[0] is ph and free(v1.args[1]):
            n = 0
            for x in walk(v1.args[1]):
                if x.op == "bv":
                    n = max(n, x.args[0] + 1)
            return tm.mapped(v0, trip, subst(v1.args[1], {k: T("bv", n)}), T("bv", n))
        if v1.op == "ite":
            r = pushes(v1, ph)
            if r is not None and free(r[0]) and free(r[1]):
                n = 0
                for x in walk(T("t", *r)):
                    if x.op == "bv":
                        n = max(n, x.args[0] + 1)
                c, e = (subst(x, {k: T("bv", n)}) for x in r)
                return tm.filt(v0, trip, e, c, T("bv", n))
        return None

    def mksum(self, d, k, trip):
        # factor out what does not depend on the index
        if not mentions(d, k):
            return mul(d, trip)
        out = ZERO
        groups = {}
        for m, c in tm._poly(d).items():
            inv = tuple((a, w) for a, w in m if not mentions(a, k))
            var = tuple((a, w) for a, w in m if mentions(a, k))
            if not var:
                out = add(out, mul(tm._mk({m: c}), trip))
            else:
                groups.setdefault(inv, {})[var] = c
        for inv, vs in groups.items():
            out = add(out, mul(tm._mk({inv: Fr(1)}), T("sum", trip, self.bindidx(tm._mk(vs), k))))
        return out

    def try_unroll(self, s, cond, body, inc, post, var, lid, s0):
        """Executes a loop whose trip count is a small constant; None if it is not."""
        if cond is None:
            return None
        saved = (self.loopn, self.unknown[:], self.out)
        # cheap test first: is the condition decided at entry and after one step?
        old_out = self.out
        self.out = []
        self.wlog.append(set())
        self.st = s0.copy()
        outs, brks = [], []
        ok = False
        self.cheap += 0
        try:
            for i in range(self.MAXUNROLL + 2):
                if not post or i > 0:
                    if var:
                        self.declare(var)
                    ct = assume(truth(self.rv(cond)), self.st.facts)
                    if ct is FALSE:
                        ok = True
                        break
                    if ct is not TRUE:
                        break
                if i > self.MAXUNROLL:
                    break
                if i == 0 and not post:
                    # the counter must be concrete, otherwise do not even try
                    pass
                rbox = []
                it = self.sub(lambda: rbox.extend(self.exec(body)))
                self.emit("scope", s.get("l"), of="continue", body=it)
                r = rbox
                nxt = [o for o in r if o[0] in ("fall", "cont")]
                brks += [o for o in r if o[0] == "brk"]
                outs += [o for o in r if o[0] in ("ret", "throw")]
                if not nxt:
                    ok = "noexit"
                    break
                if len(nxt) > 1:
                    self.st, _ = self.joinfalls([("fall", o[1], None) for o in nxt])
                else:
                    self.st = nxt[0][1]
                if inc is not None:
                    self.rv(inc)
                # give up early on big counters
                if i == 1 and not self.small_trip(cond):
                    break
        finally:
            nodes = self.out
            self.out = old_out
            w = self.wlog.pop()
        if not ok or (brks and ok is True and len(brks) > 8):
            self.loopn = saved[0]
            self.unknown = saved[1]
            return None
        self.wlog[-1] |= w
        if brks:
            self.emit("scope", s.get("l"), of="break", body=nodes)
        else:
            self.out.extend(nodes)
        falls = []
        for o in brks:
            falls.append(("fall", o[1], None))
        if ok is True:
            falls.append(("fall", self.st, None))
        if not falls:
            return outs
        if len(falls) > 1:
            st, _ = self.joinfalls(falls)
        else:
            st = falls[0][1]
        return outs + [("fall", st, None)]

    def small_trip(self, cond):
        """Bound test for unrolling: i < N with a literal N at most MAXUNROLL."""
        if cond["k"] == "bin" and cond["op"] in ("<", "<=", ">", ">=", "!="):
            vals = []
            for x in (cond["a"], cond["b"]):
                def g(x=x):
                    vals.append(self.rv(x))
                old = self.st
                self.st = old.copy()
                self.sub(g)
                self.st = old
            if all(is_num(v) for v in vals) and len(vals) == 2:
                return abs(vals[0].args[0] - vals[1].args[0]) <= self.MAXUNROLL
        return True

    def unroll_range(self, s, body, rng, n, s0):
        self.st = s0
        outs, brks = [], []
        live = [True]

        def g():
            for i in range(n):
                el_ = ext(rng, ("e", num(i)))
                self.set_elem_type(rng, el_)
                box = []
                it = self.sub(lambda: box.extend(self.bodyonce(s, None, body, None, False, None, el_)))
                self.emit("scope", s.get("l"), of="continue", body=it)
                ct, nxt, o, brk = box
                outs.extend(o)
                brks.extend(brk)
                if not nxt:
                    live[0] = False
                    return
                self.st = nxt[0]
        nodes = self.sub(g)
        if brks:
            self.emit("scope", s.get("l"), of="break", body=nodes)
        else:
            self.out.extend(nodes)
        falls = [("fall", x, None) for x in brks] + ([("fall", self.st, None)] if live[0] else [])
        if not falls:
            return outs
        st = self.joinfalls(falls)[0] if len(falls) > 1 else falls[0][1]
        return outs + [("fall", st, None)]

    # --------------------------------------------------------------- externals
    def external(self, f, obj, args, e, want):
        import ext as X
        return X.external(self, f, obj, args, e, want)

    # ----------------------------------------------------------------- entries
    def run(self, f, this="this", bind=None):
        """Evaluate function f as an entry: symbolic receiver and parameters."""
        self.trips = {}
        self.ranges()
        fr = Frame(f, None)
        if f.get("method") and not f.get("static"):
            fr.this = LOC(("O", this, f["rec"]))
            self.ltype[fr.this] = None
            for i, t in enumerate(self.p.types):
                if t["k"] == "rec" and t.get("rec") == f["rec"] and not t.get("const"):
                    self.ltype[fr.this] = i
                    break
        self.fr = fr
        args = []
        for i, p in enumerate(f["params"]):
            ty = self.p.ty(p["t"])
            nm = p["n"] or "arg%d" % i
            loc = LOC(("O", nm, f["id"]))
            self.ltype[loc] = self.p.unref(p["t"])
            self.st.bind[(fr.id, p["d"])] = loc
            args.append(loc)
            if bind and not callable(bind) and i in bind:
                self._put(loc, bind[i])
        self.args = args
        self.this = fr.this
        if callable(bind):
            bind(self)
        self.st0 = self.st.copy()
        self.stack.append(f["id"])
        box = []

        def g():
            if f.get("ctor"):
                self.stack.pop()
                self.ctor_entry(f, fr, box)
                self.stack.append(f["id"])
            else:
                box.extend(self.exec(f["body"]))
        nodes = self.sub(g)
        self.stack.pop()
        rets = [(s, v) for k, s, v in box if k in ("ret", "fall")]
        self.rets = rets
        self.nodes = nodes
        if not rets:
            self.st.dead = True
            self.ret = None
            return self
        s, v = self.joinrets(rets)
        self.st = s
        self.ret = v
        if isinstance(v, Term) and v.op == "loc":
            self.retloc = v
            self.ret = self.read(v, note=False)
        return self

    def ranges(self):
        global TRIP
        TRIP = self.trips

    def query(self, f, this, args=(), st=None):
        """Value f would return on this receiver in a state (the final one by default); leaves no trace."""
        save = (self.st, self.out, self.fr, self.stack, self.wlog, self.curl)
        self.ranges()
        self.st = (st or self.st).copy()
        self.out, self.stack, self.wlog = [], [], [set()]
        try:
            r = self.invoke(f, this, list(args), None)
            if isinstance(r, Term) and r.op == "loc":
                r = self.read(r, note=False)
            return r
        finally:
            self.st, self.out, self.fr, self.stack, self.wlog, self.curl = save

    def peek(self, loc, st):
        """Value at a location in a state."""
        self.ranges()
        save = self.st
        self.st = st
        try:
            return self.read(loc, note=False)
        finally:
            self.st = save

    def ctor_entry(self, f, fr, box):
        r = self.p.recs[f["rec"]]
        for fd in self.p.rec_fields(r):
            fl = ext(fr.this, ("f", fd["n"]))
            self.ltype.setdefault(fl, fd["t"])
            if self.p.ty(fd["t"])["k"] not in ("ref", "rref"):
                self.mark_undef(fl, fd["t"])
        argl = list(self.args)
        self.invoke(f, fr.this, [(l if self.p.ty(p["t"])["k"] in ("ref", "rref") else self.read(l, note=False))
                                 for l, p in zip(argl, f["params"])], None)
        box.append(("fall", self.st, None))

    def field_of(self, *names, base=None):
        """Final value of this->a.b..."""
        loc = base or self.this
        t = None
        for n in names:
            loc = ext(loc, ("f", n))
        return self.read(loc, note=False)

    def sub_loc(self, *names, base=None):
        loc = base or self.this
        for n in names:
            loc = ext(loc, ("f", n))
        return loc
