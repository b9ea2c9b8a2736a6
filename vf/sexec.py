"""Deductive verifier core: symbolic execution of LLVM IR, function by function, with
loops cut by invariants (every loop: establish / preserve / use), memory as typed objects
with bounds and frame obligations, and callees replaced by contracts or by their bodies."""
import z3, re, time, subprocess, tempfile, os
from . import ir
from .ir import Unsupported, Reg, Const, Ty, PTR, I1
from .val import *
from . import val as VM
from . import poly


class Restart(Exception):
    pass


def selects(x, name):
    """index terms of the reads of the array constant `name` in x"""
    out, seen, todo = [], set(), [x]
    while todo:
        t = todo.pop()
        if t.get_id() in seen or not z3.is_app(t):
            continue
        seen.add(t.get_id())
        if len(seen) > 200:
            break
        if t.decl().kind() == z3.Z3_OP_SELECT and z3.is_const(t.arg(0)) and t.arg(0).decl().name() == name:
            out.append(t.arg(1))
        todo.extend(t.children())
    return out


class PathEnd(Exception):
    pass


SCALE = 1.0  # factor on all solver time limits (see check.work: a refutation without failing input is confirmed with longer limits)


class Budget(Exception):
    pass


# ------------------------------------------------------------------ linear offsets
class Lin:
    __slots__ = ("c", "t")

    def __init__(self, c=0, t=None):
        self.c = c
        self.t = t or {}

    @staticmethod
    def of(x, coef=1):
        if isinstance(x, int):
            return Lin(x * coef)
        if z3.is_int_value(x):
            return Lin(x.as_long() * coef)
        if z3.is_app(x):
            k = x.decl().kind()
            if k == z3.Z3_OP_ADD:
                r = Lin()
                for ch in x.children():
                    r = r + Lin.of(ch, coef)
                return r
            if k == z3.Z3_OP_SUB:
                ch = x.children()
                r = Lin.of(ch[0], coef)
                for y in ch[1:]:
                    r = r + Lin.of(y, -coef)
                return r
            if k == z3.Z3_OP_UMINUS:
                return Lin.of(x.arg(0), -coef)
            if k == z3.Z3_OP_MUL and x.num_args() == 2 and z3.is_int_value(x.arg(0)):
                return Lin.of(x.arg(1), coef * x.arg(0).as_long())
            if k == z3.Z3_OP_MUL and x.num_args() == 2 and z3.is_int_value(x.arg(1)):
                return Lin.of(x.arg(0), coef * x.arg(1).as_long())
            if k == z3.Z3_OP_MUL and x.num_args() > 2 and z3.is_int_value(x.arg(0)):
                rest = x.arg(1)
                for y in x.children()[2:]:
                    rest = rest * y
                return Lin.of(rest, coef * x.arg(0).as_long())
        if coef == 0:
            return Lin()
        return Lin(0, {x.get_id(): (coef, x)})

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c + o, self.t)
        t = dict(self.t)
        for k, (c, x) in o.t.items():
            if k in t:
                n = t[k][0] + c
                if n == 0:
                    del t[k]
                else:
                    t[k] = (n, x)
            else:
                t[k] = (c, x)
        return Lin(self.c + o.c, t)

    def neg(self):
        return Lin(-self.c, {k: (-c, x) for k, (c, x) in self.t.items()})

    def __sub__(self, o):
        return self + o.neg()

    def scale(self, n):
        return Lin(self.c * n, {k: (c * n, x) for k, (c, x) in self.t.items()}) if n else Lin()

    def times(self, term):
        """multiply by an int term"""
        if isinstance(term, int):
            return self.scale(term)
        r = Lin.of(term, self.c) if self.c else Lin()
        for k, (c, x) in self.t.items():
            r = r + Lin.of(x * term, c)
        return r

    def div(self, n):
        if self.c % n or any(c % n for c, _ in self.t.values()):
            return None
        return Lin(self.c // n, {k: (c // n, x) for k, (c, x) in self.t.items()})

    def const(self):
        return None if self.t else self.c

    def term(self):
        r = None
        for c, x in self.t.values():
            y = x if c == 1 else c * x
            r = y if r is None else r + y
        if r is None:
            return z3.IntVal(self.c)
        return r if self.c == 0 else r + self.c


class Ptr:
    __slots__ = ("obj", "off")

    def __init__(self, obj, off):
        self.obj = obj  # Obj, FuncRef or None (null)
        self.off = off if isinstance(off, Lin) else Lin(off)

    def __repr__(self):
        return "Ptr(%s,%s)" % (self.obj and self.obj.name, self.off.term())


class FuncRef:
    def __init__(self, name):
        self.name = name


class Agg:
    """first-class struct value"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class Undef:
    def __repr__(self):
        return "undef"


UNDEF = Undef()


class PInt:
    """pointer converted to integer"""
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p


class Obj:
    """static description of a memory object"""

    def __init__(self, name, kind, ety=None, esize=None, length=None, writable=True, nonan=False, size=None):
        self.name, self.kind, self.ety, self.esize, self.length = name, kind, ety, esize, length
        self.writable, self.nonan, self.size = writable, nonan, size
        self.oncreate = None


class FArr:
    __slots__ = ("nan", "val")

    def __init__(self, nan, val):
        self.nan, self.val = nan, val

    def sel(self, i, nonan=False):
        return FV(False if nonan or self.nan is None else z3.Select(self.nan, i), z3.Select(self.val, i))

    def sto(self, i, v):
        nn = self.nan
        if nn is None:
            nn = z3.K(z3.IntSort(), z3.BoolVal(False))
        return FArr(z3.Store(nn, i, B(v.nan)), z3.Store(self.val, i, v.val))


class IArr:
    __slots__ = ("a",)

    def __init__(self, a):
        self.a = a


class PArr:
    """array of pointers to per-index objects is not modelled"""


class Frame:
    __slots__ = ("f", "regs", "blk", "idx", "ret", "loops", "unwind", "key", "allocas")

    def __init__(self, f, regs, blk, ret, unwind, key):
        self.f, self.regs, self.blk, self.idx, self.ret, self.loops, self.unwind, self.key = f, regs, blk, 0, ret, [], unwind, key

    def clone(self):
        n = Frame(self.f, dict(self.regs), self.blk, self.ret, self.unwind, self.key)
        n.idx = self.idx
        n.loops = list(self.loops)
        return n


class State:
    __slots__ = ("frames", "mem", "pc", "path", "events", "ghost", "foralls")

    def __init__(self):
        self.frames, self.mem, self.pc, self.path, self.events, self.ghost, self.foralls = [], {}, [], [], [], {}, []

    def clone(self):
        s = State()
        s.frames = [f.clone() for f in self.frames]
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.path = list(self.path)
        s.events = list(self.events)
        s.ghost = dict(self.ghost)
        s.foralls = list(self.foralls)
        return s


class MemPhi:
    """a scalar field of a memory object that the loop modifies, treated like a phi"""
    __slots__ = ("res", "ty", "obj", "off", "a", "op")

    def __init__(self, obj, off, ty):
        self.res, self.obj, self.off, self.ty, self.a, self.op = "mem:%s+%d" % (obj, off), obj, off, ty, [], "phi"


class LoopCtx:
    __slots__ = ("key", "header", "body", "k", "entry", "entry_phi")

    def __init__(self, key, header, body, k, entry, entry_phi):
        self.key, self.header, self.body, self.k, self.entry, self.entry_phi = key, header, body, k, entry, entry_phi


# ------------------------------------------------------------------ prover
class Prover:
    def __init__(self, timeout_ms=4000, use_cvc5=True):
        self.timeout = timeout_ms
        self.use_cvc5 = use_cvc5
        self.time = 0.0
        self.queries = 0
        self.by = {}
        self.axioms = []
        self.defs = []         # [(constant, expression)]: opaque first, unfolded when needed
        self.cache = {}
        self.memo = {}         # (kind, goal, facts) -> answer; expressions are kept alive so ids stay unique

    def _memo(self, kind, keep, g, fn):
        """the same query comes back in every Houdini round: answer it once"""
        key = (kind, g.get_id(), frozenset(x.get_id() for x in keep))
        r = self.memo.get(key)
        if r is None:
            r = (fn(), g, list(keep))
            self.memo[key] = r
        return r[0]

    def _vars(self, e):
        i = e.get_id()
        c = self.cache.get(i)
        if c is not None:
            return c[1]
        out = set()
        st = [e]
        seen = set()
        while st:
            x = st.pop()
            xi = x.get_id()
            if xi in seen:
                continue
            seen.add(xi)
            cc = self.cache.get(xi)
            if cc is not None:
                out |= cc[1]
                continue
            if z3.is_quantifier(x):
                st.append(x.body())
                continue
            if z3.is_app(x):
                if x.num_args() == 0:
                    if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        out.add(x.decl().name())
                else:
                    st.extend(x.children())
        self.cache[i] = (e, frozenset(out))
        return self.cache[i][1]

    def slice(self, pc, goal):
        vs = set(self._vars(goal))
        rest = [(c, self._vars(c)) for c in pc]
        keep = []
        ch = True
        while ch:
            ch = False
            nr = []
            for c, v in rest:
                if not v or v & vs:
                    keep.append(c)
                    if not v <= vs:
                        vs |= v
                        ch = True
                else:
                    nr.append((c, v))
            rest = nr
        return keep

    def feasible(self, pc, cond, timeout=1500):
        """may pc /\\ cond hold?"""
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_false(cond):
            return False
        keep = self.slice(pc, cond)

        def go():
            s = z3.Solver()
            s.set("timeout", int(SCALE * (timeout)))
            s.add(*keep)
            s.add(cond)
            t = time.time()
            r = s.check()
            self.time += time.time() - t
            self.queries += 1
            return r != z3.unsat
        return self._memo("f", keep, cond, go)

    def quick(self, pc, goal, timeout=400):
        if isinstance(goal, bool):
            return goal
        g = z3.simplify(goal)
        if z3.is_true(g):
            return True
        if z3.is_false(g):
            return False
        keep = self.slice(pc, g)

        def go():
            s = z3.Solver()
            s.set("timeout", int(SCALE * (timeout)))
            s.add(*keep)
            s.add(z3.Not(g))
            t = time.time()
            r = s.check()
            self.time += time.time() - t
            self.queries += 1
            return r == z3.unsat
        return self._memo("q", keep, g, go)

    def _find_if(self, e, budget=4000):
        """an If subterm whose condition contains no If, preferring the outermost"""
        st = [e]
        seen = set()
        while st:
            x = st.pop(0)
            if x.get_id() in seen or not z3.is_app(x):
                continue
            seen.add(x.get_id())
            if len(seen) > budget:
                return None
            if x.decl().kind() == z3.Z3_OP_ITE:
                c = x.arg(0)
                inner = self._find_if(c, 200)
                return inner if inner is not None else c
            if x.decl().kind() == z3.Z3_OP_SELECT and z3.is_app(x.arg(0)) and x.arg(0).decl().kind() == z3.Z3_OP_STORE:
                i, j = x.arg(1), x.arg(0).arg(1)
                if not (i.get_id(), j.get_id()) in self._noteq:
                    inner = self._find_if(i, 200)
                    return inner if inner is not None else (i == j)
            st.extend(x.children())
        return None

    _noteq = frozenset()

    def _selstore(self, g, i, j, truth):
        """rewrite select(store(a,j,v),i) under i==j / i!=j"""
        rep = []
        st = [g]
        seen = set()
        while st:
            x = st.pop()
            if x.get_id() in seen or not z3.is_app(x):
                continue
            seen.add(x.get_id())
            if x.decl().kind() == z3.Z3_OP_SELECT and z3.is_app(x.arg(0)) and x.arg(0).decl().kind() == z3.Z3_OP_STORE:
                a, b = x.arg(1), x.arg(0).arg(1)
                if (a.eq(i) and b.eq(j)) or (a.eq(j) and b.eq(i)):
                    rep.append((x, x.arg(0).arg(2) if truth else z3.Select(x.arg(0).arg(0), x.arg(1))))
            st.extend(x.children())
        return z3.substitute(g, *rep) if rep else g

    def _subst(self, pc, g, c, truth, defs):
        """assume c (or its negation): substitute it, and solve it for a variable if it is an equality"""
        pc = list(pc)
        if z3.is_eq(c) and z3.is_int(c.arg(0)):
            g = self._selstore(g, c.arg(0), c.arg(1), truth)
        g = z3.substitute(g, (c, z3.BoolVal(truth)))
        if truth and z3.is_eq(c):
            for a, b in ((c.arg(0), c.arg(1)), (c.arg(1), c.arg(0))):
                if z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED and not z3.is_array(a) and a.decl().name() not in self._vars(b) and (z3.is_int(a) or z3.is_real(a)):
                    pc = [z3.substitute(x, (a, b)) for x in pc]
                    g = z3.substitute(g, (a, b))
                    defs = [(x, z3.substitute(y, (a, b))) for x, y in defs]
                    return pc, z3.simplify(g, som=True), defs
        pc.append(c if truth else z3.Not(c))
        return pc, z3.simplify(g, som=True), defs

    def _split(self, pc, g, to, d, budget, defs):
        budget[0] -= 1
        if budget[0] < 0 or d > 40:
            return False
        g = z3.simplify(g, som=True)
        if z3.is_true(g):
            return True
        if z3.is_and(g):
            return all(self._split(pc, x, to, d + 1, budget, defs) for x in g.children())
        c = self._find_if(g)
        if c is not None:
            for truth in (True, False):
                p2, g2, d2 = self._subst(pc, g, c, truth, defs)
                if z3.is_true(g2):
                    continue
                s = z3.Solver()
                s.set("timeout", int(SCALE * (1000)))
                s.add(*p2)
                if s.check() == z3.unsat:
                    continue
                if not self._split(p2, g2, to, d + 1, budget, d2):
                    return False
            return True
        if z3.is_or(g) or z3.is_implies(g):
            ch = g.children() if z3.is_or(g) else [z3.Not(g.arg(0)), g.arg(1)]
            eqs = [x for x in ch if z3.is_eq(x) and z3.is_real(x.arg(0))]
            if len(eqs) == 1:
                rest = [z3.Not(x) for x in ch if not z3.eq(x, eqs[0])]
                return self._split(pc + rest, eqs[0], to, d + 1, budget, defs)
        if z3.is_eq(g) and z3.is_real(g.arg(0)):
            if poly.equal(g.arg(0), g.arg(1)):
                return True
        s = z3.Solver()
        s.set("timeout", int(SCALE * (to)))
        s.add(*self.slice(pc, g))
        s.add(z3.Not(g))
        if s.check() == z3.unsat:
            return True
        use = [(a, b) for a, b in defs if a.decl().name() in self._vars(g)]
        if use:
            return self._split(pc, z3.substitute(g, *use), to, d + 1, budget, [(a, b) for a, b in defs if not any(a.eq(u) for u, _ in use)])
        return False

    def _mixed(self, e):
        """contains both ToInt and non-linear real arithmetic?"""
        key = ("mix", e.get_id())
        c = self.cache.get(key)
        if c is not None:
            return c[1]
        ti = nl = False
        st, seen = [e], set()
        while st and not (ti and nl):
            x = st.pop()
            if x.get_id() in seen or not z3.is_app(x):
                continue
            seen.add(x.get_id())
            k = x.decl().kind()
            if k == z3.Z3_OP_TO_INT:
                ti = True
            elif k in (z3.Z3_OP_MUL, z3.Z3_OP_DIV) and z3.is_real(x):
                ch = x.children()
                if (k == z3.Z3_OP_MUL and sum(not z3.is_rational_value(y) for y in ch) > 1) or (k == z3.Z3_OP_DIV and not z3.is_rational_value(ch[1])):
                    nl = True
            st.extend(x.children())
        self.cache[key] = (e, (ti, nl))
        return (ti, nl)

    def _pure(self, fs):
        """non-linear real monomials become uninterpreted functions (a generalisation: unsat stays sound)"""
        rep, seen, alive = [], set(), []
        st = list(fs)
        while st:
            e = st.pop()
            if e.get_id() in seen or not z3.is_app(e):
                continue
            seen.add(e.get_id())
            alive.append(e)
            k = e.decl().kind()
            if z3.is_real(e) and k in (z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_POWER):
                ch = e.children()
                coef = [x for x in ch if z3.is_rational_value(x)] if k == z3.Z3_OP_MUL else []
                rest = [x for x in ch if not z3.is_rational_value(x)] if k == z3.Z3_OP_MUL else ch
                if k == z3.Z3_OP_POWER or (k == z3.Z3_OP_MUL and len(rest) > 1) or (k == z3.Z3_OP_DIV and not z3.is_rational_value(ch[1])):
                    if k == z3.Z3_OP_MUL:
                        rest = sorted(rest, key=lambda x: (x.decl().name(), x.sexpr()))
                    rest = self._pure(rest) or rest
                    r = z3.Function("pure!%d!%d" % (k, len(rest)), *([z3.RealSort()] * (len(rest) + 1)))(*rest)
                    for x in coef:
                        r = x * r
                    rep.append((e, r))
                    continue
            st.extend(e.children())
        return [z3.substitute(x, *rep) for x in fs] if rep else None

    def _pure_prove(self, keep, g, to):
        fs = self._pure([z3.simplify(x, som=True) for x in keep] + [z3.simplify(z3.Not(g), som=True)])
        if fs is None:
            return False
        s = z3.Solver()
        s.set("timeout", int(SCALE * (to)))
        s.add(*fs)
        return s.check() == z3.unsat

    def prove(self, pc, goal, want_model=True, timeout=None, depth=0):
        """-> (status, model|None, backend)"""
        if isinstance(goal, (bool, np.bool_)):
            if goal:
                return "proved", None, "simplifier"
            goal = z3.BoolVal(False)
        g = z3.simplify(goal, som=True)
        if z3.is_true(g):
            return "proved", None, "simplifier"
        to = timeout or self.timeout
        if depth == 0:
            return self._memo(("p", to), pc, g, lambda: self._prove(pc, g, to, depth))
        return self._prove(pc, g, to, depth)

    def _prove(self, pc, g, to, depth):
        t = time.time()
        self.queries += 1
        if self.defs:
            s = z3.Solver()
            s.set("timeout", int(SCALE * (min(to, 1500))))
            s.add(*self.slice(pc, g))
            s.add(z3.Not(g))
            if s.check() == z3.unsat:
                self.time += time.time() - t
                return "proved", None, "z3"
            if self._split(list(pc), g, min(to, 1500), 0, [120], list(self.defs)):
                self.time += time.time() - t
                return "proved", None, "z3-split"
            pc = list(pc) + [a == b for a, b in self.defs]
        keep = self.slice(pc, g)
        mix = [self._mixed(x) for x in keep + [g]]
        if any(a for a, b in mix) and any(b for a, b in mix):
            if self._pure_prove(keep, g, 1500):
                self.time += time.time() - t
                return "proved", None, "z3-linear"
        s = z3.Solver()
        s.set("timeout", int(SCALE * (to)))
        s.add(*keep)
        s.add(z3.Not(g))
        r = s.check()
        if r == z3.unsat:
            self.time += time.time() - t
            return "proved", None, "z3"
        if r == z3.sat:
            m = s.model()
            if len(keep) != len(pc):
                s2 = z3.Solver()
                s2.set("timeout", int(SCALE * (to)))
                s2.add(*pc)
                s2.add(z3.Not(g))
                r2 = s2.check()
                if r2 == z3.sat:
                    m = s2.model()
                elif r2 == z3.unsat:
                    self.time += time.time() - t
                    return "proved", None, "z3"
            self.time += time.time() - t
            return "refuted", m, "z3"
        # unknown: case splits + substitution + polynomial normal forms
        if depth == 0:
            try:
                if self._split(list(keep), g, to, 0, [400], []):
                    self.time += time.time() - t
                    return "proved", None, "z3-split"
            except z3.Z3Exception:
                pass
        # other tactics, other solver
        try:
            tac = z3.Then(z3.With("simplify", som=True), "propagate-values", "solve-eqs", "smt")
            s = tac.solver()
            s.set("timeout", int(SCALE * (to)))
            s.add(*keep)
            s.add(z3.Not(g))
            r = s.check()
            if r == z3.unsat:
                self.time += time.time() - t
                return "proved", None, "z3-tactic"
        except z3.Z3Exception:
            pass
        if self.use_cvc5:
            r = self._cvc5(keep, g, to)
            self.time += time.time() - t
            if r == "unsat":
                return "proved", None, "cvc5"
            if r == "sat":
                return "refuted", None, "cvc5"
        else:
            self.time += time.time() - t
        return "unknown", None, None

    def _cvc5(self, pc, g, to):
        s = z3.Solver()
        s.add(*pc)
        s.add(z3.Not(g))
        txt = "(set-logic ALL)\n" + s.to_smt2()
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as fh:
            fh.write(txt)
            fn = fh.name
        try:
            p = subprocess.run(["cvc5", "--tlimit=%d" % (to * 2), "--nl-ext-tplanes", fn], capture_output=True, text=True, timeout=to / 500 + 5)
            o = p.stdout.strip().split("\n")[0]
            return o
        except Exception:
            return "unknown"
        finally:
            os.unlink(fn)


STRLEN = z3.Function("strlen", z3.IntSort(), z3.IntSort())
LIBM1 = {n: n for n in UF}
for _n in list(UF):
    LIBM1[_n + "f"] = _n
LIBM2 = {"pow": "pow", "powf": "pow", "atan2": "atan2", "atan2f": "atan2", "fmod": "fmod", "fmodf": "fmod", "remainder": "remainder", "remainderf": "remainder", "hypot": "hypot"}

SIGNED_PRED = {"slt", "sle", "sgt", "sge"}


class Exec:
    def __init__(self, mod, prover, opts=None):
        self.mod = mod
        self.pr = prover
        self.o = opts or {}
        self.oblig = {}        # label -> dict(status, count, ...)
        self.failed = []       # failing obligations (label, status, model, path)
        self.unk_drops = set() # contract invariants the solver could neither prove nor refute
        self.dropped = {}      # loopkey -> set of dropped candidate ids
        self.nonaffine = set() # (loopkey, phi)
        self.modset = {}       # loopkey -> set of object names / (name, off)
        self.noreturn_cache = {}
        self.assumptions = set()
        self.live_candidates = []
        self.live_sel = {}
        self.inlined = set()
        self.callee_contracts = {}
        self.candidates = []   # [(id, fn(view, ks, loopctx) -> Bool|None)]
        self.phi_candidates = []  # [(id, fn(view, ks, value) -> Bool|None)]
        self.multi_candidates = []
        self.array_candidates = []   # [(id, selector, fn(view, ks, array, i))]
        self.strides = []
        self.ghost_index = None
        self.heap_objs = {}
        self.heap_sites = {}
        self.memraw = set()         # allocation site -> element type
        self.on_return = None
        self.on_throw = None
        self.deadline = None
        self.models = {}
        self.maxpaths = self.o.get("maxpaths", 3000)
        self.loops_seen = {}
        self.kept = {}

    # -------------------------------------------------------------- fresh
    def fresh_name(self, base):
        n = self.ctrs.get(base, 0)
        self.ctrs[base] = n + 1
        return "%s!%d" % (base, n)

    def fresh_int(self, base, w=64, st=None):
        v = z3.Int(self.fresh_name(base))
        if st is not None:
            st.pc.append(z3.And(v >= -(1 << (w - 1)), v < (1 << (w - 1))))
        return v

    def fresh_fv(self, base):
        n = self.fresh_name(base)
        return FV(z3.Bool(n + ".nan"), z3.Real(n))

    def fresh(self, base, ty, st):
        ty = self.mod.resolve(ty)
        if ty.k == "int":
            if ty.a == 1:
                return z3.Bool(self.fresh_name(base))
            return self.fresh_int(base, ty.a, st)
        if ty.k in ("float", "double"):
            return self.fresh_fv(base)
        if ty.k == "ptr":
            o = Obj(self.fresh_name("opaque." + base), "opaque")
            return Ptr(o, 0)
        if ty.k == "struct":
            return Agg([self.fresh(base, e, st) for e in ty.a])
        if ty.k == "void":
            return None
        raise Unsupported("fresh %r" % (ty,))

    # -------------------------------------------------------------- obligations
    def require(self, st, label, goal, kind="assert"):
        """prove goal on this path; record; then assume it"""
        if self.pending:
            if not isinstance(goal, (bool, np.bool_)):
                st.pc.append(goal)
            return True
        o = self.oblig.setdefault(label, {"n": 0, "proved": 0, "kind": kind, "by": {}})
        o["n"] += 1
        if isinstance(goal, (bool, np.bool_)) and goal:
            o["proved"] += 1
            o["by"]["simplifier"] = o["by"].get("simplifier", 0) + 1
            return True
        r, m, by = self.pr.prove(st.pc, goal)
        if r == "proved":
            o["proved"] += 1
            o["by"][by] = o["by"].get(by, 0) + 1
        else:
            self.failed.append({"label": label, "status": r, "model": m, "path": list(st.path), "kind": kind,
                                "goal": str(z3.simplify(B(goal)))[:2000], "state": st})
            if self.o.get("stop_first"):
                raise Budget("stop at first failure")
        if not isinstance(goal, (bool, np.bool_)):
            st.pc.append(goal)
        return r == "proved"

    # -------------------------------------------------------------- ints
    def norm(self, st, t, w):
        """reduce an unbounded Int term to the signed w-bit value"""
        if isinstance(t, int):
            m = 1 << w
            t &= m - 1
            return z3.IntVal(t - m if t >= m >> 1 else t)
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return self.norm(st, t.as_long(), w)
        lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        if self.pr.quick(st.pc, z3.And(t >= lo, t <= hi), timeout=800):
            return t
        M = 1 << w
        g = self.pow2_factor(t)
        if 1 < g < M >> 1:
            # the low bits stay: wrap only the factor above them
            k = g.bit_length() - 1
            l = Lin.of(t).div(g)
            if l is not None:
                return self.norm(st, l.term(), w - k) * g
        # wrap
        r = self.fresh_int("wrap", w, st)
        q = z3.Int(self.fresh_name("wrapq"))
        st.pc.append(t == r + q * M)
        return r

    def uns(self, st, t, w):
        """unsigned value of a signed-represented int"""
        if z3.is_int_value(t):
            v = t.as_long()
            return z3.IntVal(v if v >= 0 else v + (1 << w))
        if self.pr.quick(st.pc, t >= 0):
            return t
        return z3.If(t >= 0, t, t + (1 << w))

    # -------------------------------------------------------------- evaluation of operands
    def ev(self, st, fr, v, ty):
        if isinstance(v, Reg):
            try:
                return fr.regs[v.n]
            except KeyError:
                raise Unsupported("undefined reg %s in %s" % (v.n, fr.f.name))
        return self.const(st, v, ty)

    def const(self, st, v, ty):
        k = v.k
        if k == "int":
            if ty.a == 1:
                return bool(v.v)
            return self.norm(st, v.v, ty.a)
        if k == "fp":
            # folded products of the contract's physical constants differ from the exact value by rounding only
            for q in self.o.get("snap", ()):
                x = float(v.v)
                if x == x and abs(x) < 1e300 and x != 0:
                    for c in (q, -q, 1 / q, -1 / q):
                        if abs(x - float(c)) <= 4e-15 * abs(x):
                            self.assumptions.add("rounding of folded constants ignored (within 4e-15)")
                            return FV(False, z3.Q(c.numerator, c.denominator))
            return tofv(v.v)
        if k == "null":
            return Ptr(None, 0)
        if k in ("undef", "poison"):
            return self.undef(st, ty)
        if k == "zeroinitializer":
            return self.zero(ty)
        if k == "global":
            return self.global_ptr(st, v.v)
        if k == "gep":
            sty, ops = v.v
            return self.gep(st, None, sty, ops, const=True)
        if k == "agg":
            return Agg([self.const(st, x, t) for t, x in v.v])
        if k == "cast":
            op, t, x, t2 = v.v
            a = self.const(st, x, t)
            if op == "ptrtoint":
                return PInt(a)
            if op == "inttoptr":
                return a.p if isinstance(a, PInt) else Ptr(None, Lin.of(a))
            if op in ("bitcast", "addrspacecast"):
                return a
        raise Unsupported("const %r" % (v,))

    def undef(self, st, ty):
        ty = self.mod.resolve(ty)
        if ty.k == "struct":
            return Agg([self.undef(st, e) for e in ty.a])
        return self.fresh("undef", ty, st)

    def zero(self, ty):
        ty = self.mod.resolve(ty)
        if ty.k == "int":
            return False if ty.a == 1 else z3.IntVal(0)
        if ty.k in ("float", "double"):
            return tofv(0)
        if ty.k == "ptr":
            return Ptr(None, 0)
        if ty.k == "struct":
            return Agg([self.zero(e) for e in ty.a])
        if ty.k == "arr":
            return Agg([self.zero(ty.b) for _ in range(ty.a)])
        raise Unsupported("zero")

    def global_ptr(self, st, name):
        if name in self.mod.funcs or name not in self.mod.globals:
            return Ptr(FuncRef(name), 0)
        g = self.globs.get(name)
        if g is None:
            info = self.mod.global_init(name)
            if info is None:
                g = Obj("@" + name, "opaque")
            else:
                ty, init, isc = info
                g = Obj("@" + name, "fields", size=self.mod.size(ty), writable=not isc)
                g.bytes = None
                rt = self.mod.resolve(ty)
                if isc and rt.k == "arr" and init is not None and self.mod.resolve(rt.b).k in ("float", "double", "int"):
                    e = self.mod.resolve(rt.b)
                    g = Obj("@" + name, "array", e, self.mod.size(e), z3.IntVal(rt.a), writable=False)
                    if init.k == "bytes":
                        vals = list(init.v)
                        g.bytes = init.v
                    elif init.k == "agg":
                        vals = [x[1] for x in init.v]
                    else:
                        vals = [Const("int", 0, e) if e.k == "int" else Const("fp", 0.0, e)] * rt.a
                    g.cvals = vals
                    if e.k == "int":
                        arr = z3.Array("g." + name, z3.IntSort(), z3.IntSort())
                        g.init = IArr(arr)
                        g.ax = []
                        for i, x in enumerate(vals):
                            vv = x if isinstance(x, int) else (x.v if x.k == "int" else 0)
                            if isinstance(x, int) and vv > 127:
                                vv -= 256
                            g.ax.append(z3.Select(arr, i) == vv)
                    else:
                        arr = z3.Array("g." + name, z3.IntSort(), z3.RealSort())
                        g.init = FArr(None, arr)
                        g.ax = []
                        for i, x in enumerate(vals):
                            g.ax.append(z3.Select(arr, i) == tofv(x.v if x.k == "fp" else 0.0).val)
                else:
                    flds = {}
                    if isc and init is not None:
                        try:
                            self.flatten(st, ty, init, 0, flds)
                        except Unsupported:
                            flds = {}
                    g.init = flds
                    g.ax = []
            self.globs[name] = g
        if g.kind != "opaque" and g.name not in st.mem:
            st.mem[g.name] = g.init
            st.pc.extend(g.ax)
        return Ptr(g, 0)

    def flatten(self, st, ty, c, off, out):
        ty = self.mod.resolve(ty)
        if ty.k == "struct":
            offs = self.mod.layout(ty)[2]
            for i, e in enumerate(ty.a):
                x = c.v[i][1] if c.k == "agg" else Const("zeroinitializer", None, e)
                self.flatten(st, e, x, off + offs[i], out)
        elif ty.k == "arr":
            es = self.mod.size(ty.b)
            for i in range(ty.a):
                if c.k == "bytes":
                    out[off + i] = (z3.IntVal(c.v[i] - 256 if c.v[i] > 127 else c.v[i]), ir.I8)
                else:
                    x = c.v[i][1] if c.k == "agg" else Const("zeroinitializer", None, ty.b)
                    self.flatten(st, ty.b, x, off + es * i, out)
        else:
            if c.k == "global":
                out[off] = (Ptr(FuncRef(c.v), 0) if c.v not in self.mod.globals else self.global_ptr(st, c.v), ty)
            else:
                out[off] = (self.const(st, c, ty), ty)

    # -------------------------------------------------------------- gep
    def gep(self, st, fr, sty, ops, const=False):
        g = (lambda t, x: self.const(st, x, t)) if const else (lambda t, x: self.ev(st, fr, x, t))
        p = g(*ops[0])
        if not isinstance(p, Ptr):
            raise Unsupported("gep base")
        off = p.off
        t = sty
        for n, (ot, ox) in enumerate(ops[1:]):
            i = g(ot, ox)
            if isinstance(i, PInt):
                raise Unsupported("gep by pointer int")
            if n == 0:
                off = off + Lin.of(i).scale(self.mod.size(t))
                continue
            t = self.mod.resolve(t)
            if t.k == "struct":
                iv = i.as_long()
                off = off + self.mod.layout(t)[2][iv]
                t = t.a[iv]
            elif t.k == "arr":
                t = t.b
                off = off + Lin.of(i).scale(self.mod.size(t))
            else:
                raise Unsupported("gep type")
        return Ptr(p.obj, off)

    # -------------------------------------------------------------- memory
    def materialize(self, st, obj, ty):
        """lazily type an untyped heap block"""
        ty = self.mod.resolve(ty)
        es = self.mod.size(ty)
        obj.ety, obj.esize, obj.kind = ty, es, "array"
        site = getattr(obj, "site", None)
        if site is not None and site not in self.heap_sites:
            self.heap_sites[site] = ty
            if any(f2.loops for f2 in st.frames):
                raise Restart("type of heap block")
        L = obj.bytes_len.div(es)
        if L is None:
            ln = z3.Int(self.fresh_name("len"))
            st.pc.append(z3.And(ln >= 0, ln * es <= obj.bytes_len.term()))
            obj.length = ln
        else:
            obj.length = L.term()
        st.mem[obj.name] = self.new_content(obj.name, ty)
        if getattr(obj, "zeroed", False):
            st.mem[obj.name] = self.const_content(ty, self.zero(ty))

    def const_content(self, ty, v):
        if ty.k in ("float", "double"):
            return FArr(z3.K(z3.IntSort(), B(v.nan)), z3.K(z3.IntSort(), v.val))
        if ty.k == "int":
            return IArr(z3.K(z3.IntSort(), v if ty.a > 1 else (z3.IntVal(int(bool(v))))))
        raise Unsupported("const content")

    def new_content(self, base, ty):
        n = self.fresh_name(base)
        I = z3.IntSort()
        if ty.k in ("float", "double"):
            return FArr(z3.Array(n + ".n", I, z3.BoolSort()), z3.Array(n, I, z3.RealSort()))
        if ty.k == "int":
            return IArr(z3.Array(n, I, I))
        raise Unsupported("array of %r" % (ty,))

    def index(self, st, p, ty, what):
        o = p.obj
        idx = p.off.div(o.esize)
        if idx is None:
            raise Unsupported("misaligned access to %s" % o.name)
        i = z3.simplify(idx.term(), som=True)
        if not self.o.get("nobounds"):
            self.require(st, "memory: %s of %s stays inside its bounds" % (what, self.oname(o)), z3.And(i >= 0, i < o.length), "memory")
        return i

    def oname(self, o):
        n = o.name.split("!")[0]
        return n

    def load(self, st, p, ty):
        o = p.obj
        if o is None or isinstance(o, FuncRef):
            self.require(st, "memory: no null dereference", False, "memory")
            raise PathEnd()
        if o.name == "@__libc_single_threaded":
            self.assumptions.add("shared_ptr reference counts are not raced (single-threaded branch of libstdc++)")
            return z3.IntVal(1)
        if o.kind == "opaque":
            return self.fresh("load", ty, st)
        ty = self.mod.resolve(ty)
        if o.kind == "heap":
            if p.off.const() is not None and ty.k == "ptr":
                o.kind = "fields"
                st.mem[o.name] = {}
            else:
                self.materialize(st, o, ty)
        if o.kind == "array":
            if self.mod.size(ty) != o.esize or (ty.k != o.ety.k and not (ty.k in ("float", "double") and o.ety.k in ("float", "double"))):
                if ty.k == "int" and o.ety.k == "int" and p.off.const() is not None and getattr(o, "cvals", None) is not None:
                    pass
                raise Unsupported("type-punned load of %r from %s[%r]" % (ty, o.name, o.ety))
            i = self.index(st, p, ty, "read")
            for h in getattr(o, "onread", ()):
                g = h(i)
                if not any(g.eq(x) for x in st.pc[-60:]):
                    st.pc.append(g)
            self.instantiate(st, o, i)
            c = self.content(st, o)
            if isinstance(c, FArr):
                v = c.sel(i, o.nonan)
                vv = z3.simplify(v.val)
                self.copied_elem(st, o, vv)
                return FV(v.nan if isinstance(v.nan, bool) else self.simpb(v.nan), vv)
            x = z3.simplify(z3.Select(c.a, i))
            self.copied_elem(st, o, x)
            if ty.a == 1:
                return x != 0
            if not z3.is_int_value(x):
                w = ty.a
                st.pc.append(z3.And(x >= -(1 << (w - 1)), x < (1 << (w - 1))))
            return x
        # fields
        c = p.off.const()
        if c is None:
            c = self.concretize(st, p.off, o, ty)
        if o.size is not None and not self.o.get("nobounds"):
            if c < 0 or c + self.mod.size(ty) > o.size:
                self.require(st, "memory: read of %s stays inside its bounds" % self.oname(o), False, "memory")
                raise PathEnd()
        flds = st.mem[o.name]
        if flds is None:
            flds = st.mem[o.name] = {}
        if ty.k == "int" and ty.a >= 16 and (c not in flds or self.mod.resolve(flds[c][1]).k == "int" and self.mod.resolve(flds[c][1]).a != ty.a and self.mod.resolve(flds[c][1]).a > 1):
            v = self.punned_int(st, flds, c, ty.a)
            if v is not None:
                return v
        if c not in flds:
            if getattr(o, "symbolic_fields", False) or self.o.get("lazy_fields"):
                v = self.fresh(self.oname(o) + ".%d" % c, ty, st)
                flds = dict(flds)
                flds[c] = (v, ty)
                st.mem[o.name] = flds
                return v
            # partially initialised or uninitialised read
            for off, (vv, t2) in flds.items():
                if off < c < off + self.mod.size(t2) or c < off < c + self.mod.size(ty):
                    raise Unsupported("partial field load %s+%d" % (o.name, c))
            v = self.fresh("uninit", ty, st)
            return v
        v, t2 = flds[c]
        t2 = self.mod.resolve(t2)
        if t2.k != ty.k or (t2.k == "int" and t2.a != ty.a):
            if ty.k == "int" and t2.k == "int":
                if ty.a == 8 and t2.a == 1:
                    return z3.If(B(v), z3.IntVal(1), z3.IntVal(0))
                if ty.a == 1 and t2.a == 8:
                    return z3.simplify(v % 2 == 1)
            if ty.k == "int" and t2.k == "ptr" and ty.a == 64:
                return PInt(v)
            if ty.k == "ptr" and isinstance(v, PInt):
                return v.p
            raise Unsupported("type-punned field load %s+%d %r/%r" % (o.name, c, ty, t2))
        return v

    def punned_int(self, st, flds, c, w):
        """integer read that covers several smaller integer fields, or a part of a bigger constant one"""
        n = w // 8
        tot, pos = 0, 0
        while pos < n:
            if c + pos not in flds:
                tot = None
                break
            v, t = flds[c + pos]
            t = self.mod.resolve(t)
            if t.k != "int" or t.a < 8 or pos + t.a // 8 > n or isinstance(v, PInt):
                tot = None
                break
            tot = tot + self.uns(st, v, t.a) * (1 << (8 * pos))
            pos += t.a // 8
        if tot is not None:
            tot = z3.simplify(tot)
            if z3.is_int_value(tot):
                return self.norm(st, tot.as_long(), w)
            return z3.simplify(z3.If(tot >= (1 << (w - 1)), tot - (1 << w), tot))
        for off, (v, t) in flds.items():
            t = self.mod.resolve(t)
            if t.k == "int" and t.a > w and off <= c and c + n <= off + t.a // 8 and not isinstance(v, PInt):
                v = z3.simplify(v)
                if z3.is_int_value(v):
                    return self.norm(st, (v.as_long() >> (8 * (c - off))) & ((1 << w) - 1), w)
        return None

    def instantiate(self, st, o, i):
        """array invariants (all elements) assumed at the index that is read"""
        for nm, h in st.foralls:
            if nm == o.name:
                g = h(i)
                if g is not None and not isinstance(g, bool):
                    if not any(g.eq(x) for x in st.pc[-80:]):
                        st.pc.append(g)

    def arrays(self, st, sel):
        """arrays a selector refers to: a parameter name, or heap:<type> for every heap block of that element type"""
        from .spec import SymArr
        out = []
        if sel.startswith("heap:"):
            want = sel[5:]
            for nm, c in st.mem.items():
                o = self.heap_objs.get(nm)
                if o is None or o.kind != "array" or c is None or isinstance(c, dict):
                    continue
                k = {"float": o.ety.k == "float", "double": o.ety.k == "double"}.get(want)
                if k is None:
                    k = o.ety.k == "int" and o.ety.a == {"char": 8, "uchar": 8, "short": 16, "ushort": 16, "int": 32, "uint": 32, "long": 64, "size_t": 64}[want]
                if k:
                    out.append((nm, SymArr(c, False, want), o.length))
        else:
            o = self.contract_objs[sel]
            out.append((o.name, SymArr(st.mem[o.name], False, self.contract_ctype[sel]), o.length))
        return out

    def simpb(self, b):
        b = z3.simplify(b)
        if z3.is_true(b):
            return True
        if z3.is_false(b):
            return False
        return b

    def content(self, st, o):
        c = st.mem.get(o.name)
        if c is None:
            if o.name in st.mem and hasattr(o, "bytes_len"):
                if getattr(o, "zeroed", False):
                    c = self.const_content(o.ety, self.zero(o.ety))
                else:
                    c = self.new_content(o.name, o.ety)
                st.mem[o.name] = c
                return c
            raise Unsupported("dead object %s" % o.name)
        return c

    def concretize(self, st, off, o=None, ty=None):
        if o is not None and getattr(o, "site", None) is not None and ty.k in ("int", "float", "double") and o.site not in self.heap_sites:
            self.heap_sites[o.site] = ty
            raise Restart("heap block is an array")
        raise Unsupported("symbolic offset into struct")

    def note_write(self, st, o, off=None):
        for fr in st.frames:
            for lc in fr.loops:
                if o.name in lc.entry:
                    key = o.name if off is None else (o.name, off)
                    ms = self.modset.setdefault(lc.key, set())
                    if key not in ms:
                        ms.add(key)
                        self.pending = "modset %s %s" % (lc.key, key)

    def store(self, st, p, ty, v):
        o = p.obj
        if o is None or isinstance(o, FuncRef):
            self.require(st, "memory: no null dereference", False, "memory")
            raise PathEnd()
        if o.kind == "opaque":
            return
        ty = self.mod.resolve(ty)
        if not o.writable:
            self.require(st, "frame: %s is not modified" % self.oname(o), False, "frame")
            raise PathEnd()
        if ty.k == "struct":
            offs = self.mod.layout(ty)[2]
            for i, e in enumerate(ty.a):
                self.store(st, Ptr(o, p.off + offs[i]), e, v.v[i])
            return
        if o.kind == "heap":
            if ty.k == "ptr":
                o.kind = "fields"
                st.mem[o.name] = {}
            else:
                self.materialize(st, o, ty)
        if o.kind == "array":
            if self.mod.size(ty) != o.esize or (ty.k != o.ety.k):
                c = p.off.const()
                raise Unsupported("type-punned store of %r into %s[%r]" % (ty, o.name, o.ety))
            i = self.index(st, p, ty, "write")
            c = self.content(st, o)
            self.note_write(st, o)
            if isinstance(c, FArr):
                st.mem[o.name] = c.sto(i, v)
            else:
                if ty.a == 1:
                    v = z3.If(B(v), z3.IntVal(1), z3.IntVal(0))
                if isinstance(v, PInt):
                    raise Unsupported("pointer into int array")
                st.mem[o.name] = IArr(z3.Store(c.a, i, v))
            return
        c = p.off.const()
        if c is None:
            c = self.concretize(st, p.off, o, ty)
        if o.size is not None:
            sz = self.mod.size(ty)
            if c < 0 or c + sz > o.size:
                self.require(st, "memory: write of %s stays inside its bounds" % self.oname(o), False, "memory")
                raise PathEnd()
        self.note_write(st, o, (c, repr(ty)))
        flds = dict(st.mem[o.name] or {})
        sz = self.mod.size(ty)
        for off in [x for x, (vv, t2) in flds.items() if x != c and (x < c + sz and c < x + self.mod.size(t2))]:
            del flds[off]
        flds[c] = (v, ty)
        st.mem[o.name] = flds

    # -------------------------------------------------------------- CFG helpers
    def noreturn_blocks(self, f):
        """blocks from which no `ret` is reachable (they end in throw / abort)"""
        r = self.noreturn_cache.get(f.name)
        if r is None:
            can = set()
            ch = True
            for b in f.order:
                if f.blocks[b].insts[-1].op in ("ret",):
                    can.add(b)
            while ch:
                ch = False
                for b in f.order:
                    if b in can:
                        continue
                    t = f.blocks[b].insts[-1]
                    succ = f.blocks[b].succ
                    if t.op == "invoke":
                        succ = [t.a["normal"]]
                    if any(s in can for s in succ):
                        can.add(b)
                        ch = True
            # endless loops without ret are not "throw" blocks: require reaching unreachable/resume
            term = set()
            for b in f.order:
                if f.blocks[b].insts[-1].op in ("unreachable", "resume"):
                    term.add(b)
            ch = True
            while ch:
                ch = False
                for b in f.order:
                    if b not in term and any(s in term for s in f.blocks[b].succ):
                        term.add(b)
                        ch = True
            r = {b for b in f.order if b not in can and b in term}
            self.noreturn_cache[f.name] = r
        return r

    # -------------------------------------------------------------- pure evaluation (loop-condition slices)
    def pure_eval(self, st, fr, v, ty, env, loop, depth=0):
        if not isinstance(v, Reg):
            return self.const(st, v, ty)
        if v.n in env:
            return env[v.n]
        d = self.defs(fr.f).get(v.n)
        if d is None or d[0] not in loop:
            return fr.regs[v.n]
        if depth > 40:
            raise Unsupported("deep")
        blk, ins = d
        R = lambda x, t: self.pure_eval(st, fr, x, t, env, loop, depth + 1)
        op = ins.op
        if op == "bin":
            o, a, b, fl = ins.a
            r = self.binop(st, o, R(a, ins.ty), R(b, ins.ty), ins.ty, fl, pure=True)
        elif op == "icmp":
            p, a, b = ins.a
            r = self.icmp(st, p, R(a, ins.ty), R(b, ins.ty), ins.ty)
        elif op == "cast":
            o, t, x = ins.a
            if o not in ("zext", "sext", "trunc", "ptrtoint"):
                raise Unsupported("pure cast")
            r = self.cast(st, o, t, R(x, t), ins.ty)
        elif op == "select":
            c, a, b, ct = ins.a
            cc = R(c, ct)
            x, y = R(a, ins.ty), R(b, ins.ty)
            if isinstance(x, Ptr):
                raise Unsupported("pure")
            r = Ite(cc, x, y)
        elif op == "gep":
            sty, ops = ins.a
            env2 = dict(env)
            fr2 = fr.clone()
            for t, x in ops:
                if isinstance(x, Reg):
                    fr2.regs[x.n] = R(x, t)
            r = self.gep(st, fr2, sty, ops)
        elif op == "load":
            p = R(ins.a, PTR)
            if not isinstance(p, Ptr) or p.obj is None or p.obj.kind in ("opaque", "heap"):
                raise Unsupported("pure load")
            key = self.cur_loop_key
            ms = self.modset.get(key, ())
            if p.obj.kind == "array":
                if p.obj.name in ms:
                    raise Unsupported("pure load of modified")
                c = self.content(st, p.obj)
                idx = p.off.div(p.obj.esize)
                if idx is None or self.mod.resolve(ins.ty).k != p.obj.ety.k:
                    raise Unsupported("pure load")
                i = idx.term()
                if isinstance(c, FArr):
                    r = c.sel(i, p.obj.nonan)
                else:
                    r = z3.Select(c.a, i)
            else:
                c = p.off.const()
                if c is None or any(isinstance(m, tuple) and m[0] == p.obj.name and m[1][0] == c for m in ms):
                    raise Unsupported("pure load of modified")
                f = st.mem[p.obj.name].get(c)
                if f is None:
                    raise Unsupported("pure load")
                r = f[0]
        elif op == "fcmp":
            p, a, b = ins.a
            r = self.fcmp(p, R(a, ins.ty), R(b, ins.ty))
        else:
            raise Unsupported("pure " + op)
        env[v.n] = r
        return r

    def defs(self, f):
        d = getattr(f, "_defs", None)
        if d is None:
            d = {}
            for b in f.order:
                for i in f.blocks[b].insts:
                    if i.res is not None:
                        d[i.res] = (b, i)
            f._defs = d
        return d

    # -------------------------------------------------------------- loops
    def ks(self, st):
        return [lc.k for fr in st.frames for lc in fr.loops]

    def enter_loop(self, st, fr, header, prev):
        f = fr.f
        body = f.find_loops()[header]
        key = fr.key + "/" + f.name + ":" + header
        self.cur_loop_key = key
        self.loops_seen[key] = self.loops_seen.get(key, 0) + 1
        blk = f.blocks[header]
        phis = [i for i in blk.insts if i.op == "phi"]
        init = {}
        for ph in phis:
            for v, b in ph.a:
                if b == prev:
                    init[ph.res] = self.ev(st, fr, v, ph.ty)
        dropped = self.dropped.setdefault(key, set())
        entry_objs = set(st.mem)
        wild = {m[0] for m in self.modset.get(key, ()) if isinstance(m, tuple) and m[1][0] < 0}
        for m in sorted(self.modset.get(key, ()), key=str):
            if isinstance(m, tuple) and m[0] in st.mem and isinstance(st.mem[m[0]], dict) and m[0] not in wild:
                off = m[1][0]
                if off in st.mem[m[0]]:
                    vv, t2 = st.mem[m[0]][off]
                    if repr(t2) != m[1][1] or (m[0], off) in self.memraw or isinstance(vv, (PInt, Undef, Agg)):
                        continue
                    ph = MemPhi(m[0], off, t2)
                    if any(q.res == ph.res for q in phis):
                        continue
                    phis.append(ph)
                    init[ph.res] = vv
        # --- affine induction variables
        k = z3.Int(self.fresh_name("k"))
        steps = {}
        for ph in phis:
            t = self.mod.resolve(ph.ty)
            if (key, ph.res) in self.nonaffine or t.k not in ("int", "ptr") or (t.k == "int" and t.a == 1) or isinstance(ph, MemPhi):
                continue
            backs = [v for v, b in ph.a if b in body]
            s = None
            try:
                ss = []
                for bv in backs:
                    ss.append(self.affine_step(st, fr, ph, bv, body))
                if all(x is not None for x in ss) and (len(ss) == 1 or all(z3.eq(z3.simplify(x.term()), z3.simplify(ss[0].term())) for x in ss)):
                    s = ss[0]
            except (Unsupported, KeyError):
                s = None
            if s is not None and not isinstance(init[ph.res], PInt):
                steps[ph.res] = s
        if self.live_candidates:
            self.select_live(st, fr, key, body)
        # --- candidates at entry
        lc0 = LoopCtx(key, header, body, z3.IntVal(0), entry_objs, init)
        cands0 = self.eval_cands(st, fr, phis, init, lc0, steps)
        bad = False
        for cid, g in cands0:
            if cid in dropped:
                continue
            r = self.pr.prove(st.pc, g, timeout=self.o.get("inv_timeout", 3000))[0]
            if r != "proved":
                dropped.add(cid)
                bad = True
                if r == "unknown" and not cid.startswith("auto"):
                    self.unk_drops.add(cid)
                if self.o.get("debug"):
                    print("   drop(entry)", key, cid, r)
        if bad:
            raise Restart("inv")
        # --- havoc
        for ph in phis:
            if ph.res in steps:
                i0 = init[ph.res]
                if isinstance(i0, Ptr):
                    fr.regs[ph.res] = Ptr(i0.obj, i0.off + steps[ph.res].times(k))
                else:
                    fr.regs[ph.res] = z3.simplify(i0 + steps[ph.res].times(k).term())
            else:
                i0 = init[ph.res]
                if isinstance(i0, Ptr):
                    if i0.obj is None or isinstance(i0.obj, FuncRef):
                        if isinstance(ph, MemPhi):
                            fr.regs[ph.res] = i0
                            continue
                        raise Unsupported("pointer phi from null")
                    es = i0.obj.esize if i0.obj.kind == "array" else 1
                    if es > 1 and "auto.mod.%s" % ph.res not in dropped:
                        fr.regs[ph.res] = Ptr(i0.obj, i0.off + Lin.of(z3.Int(self.fresh_name("pidx"))).scale(es))
                    else:
                        fr.regs[ph.res] = Ptr(i0.obj, Lin.of(self.fresh_int("poff", 64, st)))
                else:
                    fr.regs[ph.res] = self.fresh("phi." + ph.res, ph.ty, st)
        for m in sorted(self.modset.get(key, ()), key=str):
            if isinstance(m, tuple):
                nm, (off, tr) = m
                if nm in st.mem:
                    flds = dict(st.mem[nm])
                    if off in flds:
                        vv, t2 = flds[off]
                        r_ = "mem:%s+%d" % (nm, off)
                        if r_ in init:
                            flds[off] = (fr.regs[r_], t2)
                        elif isinstance(vv, Ptr):
                            raise Unsupported("pointer field %s+%d modified in loop" % (nm, off))
                        else:
                            flds[off] = (self.fresh("fld", t2, st), t2)
                    elif off < 0:
                        flds = {}
                    st.mem[nm] = flds
            else:
                c = st.mem.get(m)
                if isinstance(c, FArr):
                    st.mem[m] = self.new_content(m, ir.DOUBLE)
                elif isinstance(c, IArr):
                    st.mem[m] = self.new_content(m, ir.I64)
        st.pc.append(k >= 0)
        lc = LoopCtx(key, header, body, k, entry_objs, init)
        fr.loops.append(lc)
        # --- continuation condition of the previous iteration
        self.prev_iter_fact(st, fr, lc, phis, init, steps, k)
        # --- assume candidates
        cur = {ph.res: fr.regs[ph.res] for ph in phis}
        ids = []
        for cid, g in self.eval_cands(st, fr, phis, cur, lc, steps):
            if cid in dropped:
                continue
            ids.append(cid)
            if not isinstance(g, bool):
                st.pc.append(g)
        self.kept[key] = ids
        ks = [l.k for f2 in st.frames for l in f2.loops]
        for cid, fn, inst in self.o.get("forall", []):
            if cid not in ids:
                continue
            view = self.make_view(st)
            for t in inst(view, ks):
                try:
                    g = fn(view, ks, t)
                except (IndexError, KeyError):
                    continue
                if g is not None and not isinstance(g, bool):
                    st.pc.append(g)
        if self.array_candidates:
            view = self.make_view(st)
            for cid, sel, fn in self.array_candidates:
                for nm, A, ln in self.arrays(st, sel):
                    if "%s@%s" % (cid, nm) not in ids:
                        continue

                    def h(i, fn=fn, view=view, ks=ks, A=A, ln=ln):
                        try:
                            g = fn(view, ks, A, i)
                        except (IndexError, KeyError, TypeError):
                            return None
                        return None if g is None else z3.Implies(z3.And(i >= 0, i < ln), B(g))
                    st.foralls.append((nm, h))
        for extra in self.o.get("loop_assume", []):
            for g in extra(self, st, fr, lc) or []:
                st.pc.append(g)
        lc_steps = steps
        self.loopinfo[key] = (phis, steps)
        if self.o.get("check_vacuity", True):
            s = z3.Solver()
            s.set("timeout", int(SCALE * (500)))
            s.add(*st.pc)
            if s.check() == z3.unsat:
                raise PathEnd()

    def select_live(self, st, fr, key, body):
        """integer values that the loop uses but does not change, as arguments of live_inv candidates"""
        import itertools
        f = fr.f
        live = f.__dict__.setdefault("_live", {}).get(key)
        if live is None:
            inside = {i.res for b in body for i in f.blocks[b].insts if i.res is not None}
            live = []

            def walk(x):
                if isinstance(x, Reg):
                    if x.n not in inside and x.n not in live:
                        live.append(x.n)
                elif isinstance(x, (list, tuple)):
                    for y in x:
                        walk(y)
                elif isinstance(x, dict):
                    for y in x.values():
                        walk(y)
            for b in sorted(body):
                for i in f.blocks[b].insts:
                    walk(i.a)
            f._live[key] = live
        vals, seen = [], set()
        for n in live:
            v = fr.regs.get(n)
            if v is None or not z3.is_expr(v) or not z3.is_int(v):
                continue
            v = z3.simplify(v)
            if z3.is_int_value(v) or v.get_id() in seen:
                continue
            seen.add(v.get_id())
            vals.append((n, v))
        view = self.make_view(st)
        for li, (cid, sel, filters, fn) in enumerate(self.live_candidates):
            sets = []
            for flt in filters:
                ok = []
                for n, v in vals[:12]:
                    try:
                        g = flt(view, v)
                    except (TypeError, AttributeError, z3.Z3Exception):
                        continue
                    if self.pr.prove(st.pc, B(g), timeout=1000)[0] == "proved":
                        ok.append(n)
                sets.append(ok)
            self.live_sel[(key, li)] = [t for t in itertools.product(*sets) if len(set(t)) == len(t)][:40]

    def const_trip(self, st, fr, header, prev):
        """loop whose continuation test is a constant on arrival: execute this iteration as it is (no cut)"""
        f = fr.f
        body = f.find_loops()[header]
        blk = f.blocks[header]
        t = blk.insts[-1]
        if t.op != "br" or t.a[0] is None or (t.a[1] in body) == (t.a[2] in body):
            return False
        cnt = ("unroll", fr.key, f.name, header)
        if st.ghost.get(cnt, 0) > self.o.get("max_unroll", 70):
            return False
        vals = {}
        for ph in blk.insts:
            if ph.op != "phi":
                break
            for v, b in ph.a:
                if b == prev:
                    vals[ph.res] = self.ev(st, fr, v, ph.ty)
        self.cur_loop_key = fr.key + "/" + f.name + ":" + header
        try:
            st2 = st.clone()
            c = self.pure_eval(st2, fr, t.a[0], I1, dict(vals), body)
        except (Unsupported, KeyError, AttributeError):
            return False
        if not isinstance(c, (bool, np.bool_)):
            c = z3.simplify(c)
            if not (z3.is_true(c) or z3.is_false(c)):
                return False
        if prev not in body:
            st.ghost[cnt] = 0
            # only loops whose trip count is really constant: the affine phis have constant start and step
            for ph in blk.insts:
                if ph.op != "phi":
                    break
        st.ghost[cnt] = st.ghost.get(cnt, 0) + 1
        fr.regs.update(vals)
        return True

    def affine_step(self, st, fr, ph, bv, body):
        """back-edge value == phi + step (loop invariant)?  -> Lin or None"""
        defs = self.defs(fr.f)

        def walk(v, depth=0):
            # returns Lin such that v == phi + Lin, or None
            if isinstance(v, Reg):
                if v.n == ph.res:
                    return Lin(0)
                d = defs.get(v.n)
                if d is None or d[0] not in body or depth > 8:
                    return None
                ins = d[1]
                if ins.op == "bin" and ins.a[0] in ("add", "sub"):
                    op, a, b, fl = ins.a
                    r = walk(a, depth + 1)
                    if r is not None:
                        x = self.pure_eval(st, fr, b, ins.ty, {}, body)
                        if isinstance(x, PInt):
                            return None
                        return r + (Lin.of(x) if op == "add" else Lin.of(x).neg())
                    if op == "add":
                        r = walk(b, depth + 1)
                        if r is not None:
                            x = self.pure_eval(st, fr, a, ins.ty, {}, body)
                            return r + Lin.of(x)
                    return None
                if ins.op == "gep":
                    sty, ops = ins.a
                    r = walk(ops[0][1], depth + 1)
                    if r is None:
                        return None
                    fr2 = fr.clone()
                    fr2.regs["%base"] = Ptr(Obj("tmp", "opaque"), 0)
                    ops2 = [(PTR, Reg("%base"))]
                    for t, x in ops[1:]:
                        if isinstance(x, Reg):
                            fr2.regs["%i" + x.n] = self.pure_eval(st, fr, x, t, {}, body)
                            ops2.append((t, Reg("%i" + x.n)))
                        else:
                            ops2.append((t, x))
                    return r + self.gep(st, fr2, sty, ops2).off
                if ins.op == "phi" and d[0] != None:
                    # join of several equal increments
                    rs = [walk(v2, depth + 1) for v2, b2 in ins.a]
                    if all(x is not None for x in rs) and rs and all(z3.eq(z3.simplify(x.term()), z3.simplify(rs[0].term())) for x in rs):
                        return rs[0]
                    return None
            return None

        # header phis must not be used in step computation: env is empty -> pure_eval of a header phi raises
        return walk(bv)

    def prev_iter_fact(self, st, fr, lc, phis, init, steps, k):
        f = fr.f
        # exit branches that every iteration passes: header terminator, or the single latch's terminator
        latches = [b for b in f.blocks[lc.header].preds if b in lc.body]
        cands = [lc.header] + (latches if len(latches) == 1 and latches[0] != lc.header else [])
        for b in cands:
            t = f.blocks[b].insts[-1]
            if t.op != "br" or t.a[0] is None:
                continue
            ins_t, ins_e = t.a[1] in lc.body, t.a[2] in lc.body
            if ins_t == ins_e:
                continue
            env = {}
            km = k - 1
            for ph in phis:
                if ph.res in steps:
                    i0 = init[ph.res]
                    if isinstance(i0, Ptr):
                        env[ph.res] = Ptr(i0.obj, i0.off + steps[ph.res].times(km))
                    else:
                        env[ph.res] = z3.simplify(i0 + steps[ph.res].times(km).term())
            try:
                fr2 = fr.clone()
                for ph in phis:
                    fr2.regs.pop(ph.res, None)
                st2 = st.clone()
                st2.pc.append(k >= 1)
                n0 = len(st2.pc)
                c = self.pure_eval(st2, fr2, t.a[0], I1, env, lc.body)
                # keep side facts introduced (ranges of fresh wraps etc.)
                side = st2.pc[n0:]
            except (Unsupported, KeyError, AttributeError):
                continue
            if not ins_t:
                c = bnot(c)
            if isinstance(c, bool):
                continue
            st.pc.append(z3.Implies(k >= 1, z3.And(*(side + [c])) if side else c))

    def eval_cands(self, st, fr, phis, vals, lc, steps):
        out = []
        ks = [l.k for f2 in st.frames for l in f2.loops]
        if not (fr.loops and fr.loops[-1] is lc):
            ks = ks + [lc.k]
        if ks and not z3.eq(ks[-1], lc.k):
            ks[-1] = lc.k
        view = self.make_view(st)
        view.entry_phi = lc.entry_phi
        for cid, fn in self.candidates:
            try:
                g = fn(view, ks)
            except (IndexError, KeyError, TypeError):
                continue
            if g is None:
                continue
            if isinstance(g, (list, tuple)):
                for n, x in enumerate(g):
                    if x is not None:
                        out.append(("%s.%d" % (cid, n), x))
            else:
                out.append((cid, g))
        for cid, sel, fn in self.array_candidates:
            for nm, A, ln in self.arrays(st, sel):
                try:
                    g = fn(view, ks, A, self.ghost_index)
                except (IndexError, KeyError, TypeError):
                    continue
                if g is not None:
                    out.append(("%s@%s" % (cid, nm), g))
        for li, (cid, sel, filters, fn) in enumerate(self.live_candidates):
            for names in self.live_sel.get((lc.key, li), ()):
                for nm, A, ln in self.arrays(st, sel):
                    try:
                        g = fn(view, ks, A, *[fr.regs[n] for n in names])
                    except (IndexError, KeyError, TypeError, AttributeError):
                        continue
                    if g is not None:
                        out.append(("%s@%s@%s" % (cid, nm, ",".join(names)), g))
        # loops that stop on equality: the running value never passes the end
        blks = [lc.header] + [b for b in fr.f.blocks[lc.header].preds if b in lc.body and b != lc.header]
        for b in blks:
            t = fr.f.blocks[b].insts[-1]
            if t.op != "br" or t.a[0] is None or not isinstance(t.a[0], Reg) or (t.a[1] in lc.body) == (t.a[2] in lc.body):
                continue
            d = self.defs(fr.f).get(t.a[0].n)
            if d is None or d[1].op != "icmp" or d[1].a[0] not in ("eq", "ne"):
                continue
            try:
                st2 = st.clone()
                fr2 = fr.clone()
                for ph in phis:
                    fr2.regs.pop(ph.res, None)
                env = {ph.res: vals[ph.res] for ph in phis}
                if b != lc.header:
                    # latch test on the incremented value: evaluate it for the previous iteration
                    continue
                x = self.pure_eval(st2, fr2, d[1].a[1], d[1].ty, env, lc.body)
                y = self.pure_eval(st2, fr2, d[1].a[2], d[1].ty, env, lc.body)
            except (Unsupported, KeyError, AttributeError):
                continue
            if isinstance(x, Ptr) and isinstance(y, Ptr) and x.obj is y.obj and x.obj is not None:
                x, y = x.off.term(), y.off.term()
            if isinstance(x, (Ptr, PInt)) or isinstance(y, (Ptr, PInt)) or not (z3.is_int(x) and z3.is_int(y)):
                continue
            out.append(("auto.stop.le", x <= y))
            out.append(("auto.stop.ge", x >= y))
        for ph in phis:
            if ph.res in steps:
                continue
            v = vals[ph.res]
            t = self.mod.resolve(ph.ty)
            if isinstance(v, Ptr) and (v.obj is None or isinstance(v.obj, FuncRef)):
                continue
            if t.k == "int" and t.a > 1 and not isinstance(v, PInt):
                i0 = lc.entry_phi[ph.res]
                out.append(("auto.ge.%s" % ph.res, v >= i0))
                out.append(("auto.le.%s" % ph.res, v <= i0))
                out.append(("auto.lek.%s" % ph.res, v <= i0 + lc.k))
                if t.a == 8:
                    out.append(("auto.bool.%s" % ph.res, z3.And(v >= 0, v <= 1)))
                out.append(("auto.first.%s" % ph.res, z3.Implies(lc.k == 0, v == i0)))
                for sn, sf in enumerate(self.strides):
                    gd, sv = sf(view)
                    out.append(("auto.stride%d.%s" % (sn, ph.res), z3.Implies(B(gd), v == i0 + lc.k * sv)))
            if isinstance(v, FV):
                out.append(("auto.defined.%s" % ph.res, bnot(v.nan)))
            if isinstance(v, Ptr):
                i0 = lc.entry_phi[ph.res]
                if v.obj is not i0.obj:
                    raise Unsupported("pointer phi changes object")
                es = v.obj.esize if v.obj is not None and v.obj.kind == "array" else 1
                out.append(("auto.ge.%s" % ph.res, v.off.term() >= i0.off.term()))
                out.append(("auto.mod.%s" % ph.res, (v.off - i0.off).term() % es == 0))
                for sn, sf in enumerate(self.strides):
                    gd, sv = sf(view)
                    out.append(("auto.stride%d.%s" % (sn, ph.res), z3.Implies(B(gd), v.off.term() == i0.off.term() + lc.k * sv * es)))
            for cid, fn in self.phi_candidates:
                if isinstance(v, (Ptr, PInt)):
                    continue
                try:
                    g = fn(view, ks, v, lc.entry_phi[ph.res])
                except (IndexError, KeyError, TypeError, z3.Z3Exception):
                    continue
                if g is None:
                    continue
                out.append(("%s@%s" % (cid, ph.res), g))
        if self.multi_candidates:
            import itertools
            ints = [ph.res for ph in phis if z3.is_expr(vals[ph.res]) and z3.is_int(vals[ph.res])]
            flts = [ph.res for ph in phis if isinstance(vals[ph.res], FV)]
            for cid, ar, fn in self.multi_candidates:
                if isinstance(ar, tuple):
                    # integers (pointers as element index) and floating point variables
                    ix = {n: vals[n] for n in ints}
                    for ph in phis:
                        w = vals[ph.res]
                        if isinstance(w, Ptr) and isinstance(w.obj, Obj) and w.obj.kind == "array":
                            ix[ph.res] = w.off.term() / w.obj.esize
                    if len(ix) > 6 or len(flts) > 4:
                        continue
                    for tup in itertools.permutations(list(ix), ar[0]):
                        for tuf in itertools.permutations(flts, ar[1]):
                            try:
                                g = fn(view, ks, *([ix[x] for x in tup] + [vals[x] for x in tuf]))
                            except (IndexError, KeyError, TypeError, AttributeError, z3.Z3Exception):
                                continue
                            if g is not None:
                                out.append(("%s@%s" % (cid, ",".join(tup + tuf)), g))
                    continue
                if ar < 0:
                    for tup in itertools.permutations(flts[:6], -ar):
                        try:
                            g = fn(view, ks, *[vals[x] for x in tup])
                        except (IndexError, KeyError, TypeError, AttributeError, z3.Z3Exception):
                            continue
                        if g is not None:
                            out.append(("%s@%s" % (cid, ",".join(tup)), g))
                    continue
                if len(ints) > 7:
                    continue
                for tup in itertools.permutations(ints, ar):
                    try:
                        g = fn(view, ks, *[vals[x] for x in tup])
                    except (IndexError, KeyError, TypeError, AttributeError, z3.Z3Exception):
                        continue
                    if g is not None:
                        out.append(("%s@%s" % (cid, ",".join(tup)), g))
        return out

    def back_edge(self, st, fr, lc, prev):
        if self.pending:
            raise Restart(self.pending)
        key = lc.key
        self.cur_loop_key = key
        phis, steps = self.loopinfo[key]
        nv = {}
        for ph in phis:
            if isinstance(ph, MemPhi):
                fl = st.mem.get(ph.obj)
                if not isinstance(fl, dict) or ph.off not in fl or repr(fl[ph.off][1]) != repr(ph.ty) or isinstance(fl[ph.off][0], PInt):
                    self.memraw.add((ph.obj, ph.off))
                    raise Restart("field is not a loop variable")
                nv[ph.res] = fl[ph.off][0]
                i0 = lc.entry_phi[ph.res]
                if isinstance(i0, Ptr) and not (isinstance(nv[ph.res], Ptr) and nv[ph.res].obj is i0.obj or (i0.obj is None and isinstance(nv[ph.res], Ptr) and nv[ph.res].obj is None)):
                    raise Unsupported("pointer field %s changes object in loop" % ph.res)
                continue
            for v, b in ph.a:
                if b == prev:
                    nv[ph.res] = self.ev(st, fr, v, ph.ty)
        k1 = z3.simplify(lc.k + 1)
        restart = False
        for ph in phis:
            if ph.res in steps:
                i0 = lc.entry_phi[ph.res]
                w = nv[ph.res]
                if isinstance(i0, Ptr):
                    ok = isinstance(w, Ptr) and w.obj is i0.obj and self.pr.quick(st.pc, w.off.term() == (i0.off + steps[ph.res].times(k1)).term(), 2000)
                else:
                    ok = not isinstance(w, PInt) and self.pr.quick(st.pc, w == i0 + steps[ph.res].times(k1).term(), 2000)
                if not ok:
                    self.nonaffine.add((key, ph.res))
                    restart = True
        if restart:
            raise Restart("affine")
        lc1 = LoopCtx(key, lc.header, lc.body, k1, lc.entry, lc.entry_phi)
        dropped = self.dropped.setdefault(key, set())
        saved = fr.loops[-1]
        fr.loops[-1] = lc1
        try:
            cands = self.eval_cands(st, fr, phis, nv, lc1, steps)
        finally:
            fr.loops[-1] = saved
        bad = False
        for cid, g in cands:
            if cid in dropped:
                continue
            o = self.oblig.setdefault("invariant preserved: " + re.sub(r"[.@].*", "", cid), {"n": 0, "proved": 0, "kind": "invariant", "by": {}})
            r, m, by = self.pr.prove(st.pc, g, timeout=self.o.get("inv_timeout", 3000))
            if r != "proved":
                dropped.add(cid)
                bad = True
                if r == "unknown" and not cid.startswith("auto"):
                    self.unk_drops.add(cid)
                if self.o.get("debug"):
                    print("   drop(preserve)", key, cid, r)
                    if self.o.get("debug") > 1:
                        print("     goal", z3.simplify(B(g)))
                        print("     model", m)
            else:
                o["n"] += 1
                o["proved"] += 1
                o["by"][by] = o["by"].get(by, 0) + 1
        if bad:
            raise Restart("inv")

    # -------------------------------------------------------------- main loop
    def run(self, setup):
        """setup(self) -> initial State.  Runs to a fixpoint of the invariant candidates."""
        t0 = time.time()
        n = 0
        while True:
            n += 1
            self.ctrs = {}
            self.pending = None
            self.globs = {}
            self.loopinfo = {}
            self.oblig = {}
            self.failed = []
            self.paths = {"return": 0, "throw": 0}
            self.kept = {}
            self.restarts = n - 1
            try:
                st = setup(self)
                self.explore(st)
                return
            except Restart as e:
                if self.o.get("debug"):
                    print("  restart:", e)
                if n > 400:
                    raise Unsupported("too many restarts")
                continue

    def explore(self, st):
        work = [st]
        np_ = 0
        while work:
            s = work.pop()
            np_ += 1
            if np_ > self.maxpaths:
                raise Budget("paths")
            try:
                self.step_until_end(s, work)
            except PathEnd:
                pass
            if self.pending:
                raise Restart(self.pending)
        self.npaths = np_

    def goto(self, st, fr, target, prev, work):
        """transfer control inside a frame; returns False if the path ends"""
        f = fr.f
        loops = f.find_loops()
        # leave loops
        while fr.loops and target not in fr.loops[-1].body:
            fr.loops.pop()
        if target in loops:
            if fr.loops and fr.loops[-1].header == target and prev in fr.loops[-1].body:
                self.back_edge(st, fr, fr.loops[-1], prev)
                raise PathEnd()
            if self.const_trip(st, fr, target, prev):
                fr.blk = target
                fr.idx = len([i for i in f.blocks[target].insts if i.op == "phi"])
                return
            self.enter_loop(st, fr, target, prev)
            fr.blk = target
            fr.idx = len([i for i in f.blocks[target].insts if i.op == "phi"])
            return
        # phis
        blk = f.blocks[target]
        vals = {}
        i = 0
        for ins in blk.insts:
            if ins.op != "phi":
                break
            i += 1
            for v, b in ins.a:
                if b == prev:
                    vals[ins.res] = self.ev(st, fr, v, ins.ty)
                    break
            else:
                raise Unsupported("phi without incoming %s" % prev)
        fr.regs.update(vals)
        fr.blk = target
        fr.idx = i

    def branch(self, st, cond, work):
        """fork on cond; returns list of (state, taken)"""
        if isinstance(cond, (bool, np.bool_)):
            return [(st, bool(cond))]
        c = z3.simplify(cond)
        if z3.is_true(c):
            return [(st, True)]
        if z3.is_false(c):
            return [(st, False)]
        out = []
        ft = self.pr.feasible(st.pc, c)
        ff = self.pr.feasible(st.pc, z3.Not(c)) if ft else True
        if ft and ff:
            s2 = st.clone()
            s2.pc.append(z3.Not(c))
            st.pc.append(c)
            return [(st, True), (s2, False)]
        if ft:
            return [(st, True)]
        return [(st, False)]

    def step_until_end(self, st, work):
        while True:
            if self.deadline and time.time() > self.deadline:
                raise Budget("time")
            fr = st.frames[-1]
            blk = fr.f.blocks[fr.blk]
            ins = blk.insts[fr.idx]
            op = ins.op
            if op == "br":
                if ins.a[0] is None:
                    if ins.a[1] in self.noreturn_blocks(fr.f):
                        if self.do_throw(st, work, fr, blk.name, ins.a[1]):
                            return
                        continue
                    self.goto(st, fr, ins.a[1], blk.name, work)
                    continue
                c = self.ev(st, fr, ins.a[0], I1)
                outs = self.branch(st, c, work)
                nr = self.noreturn_blocks(fr.f)
                todo = []
                for s, taken in outs:
                    tgt = ins.a[1] if taken else ins.a[2]
                    f2 = s.frames[-1]
                    s.path.append("%s:%s" % (blk.name, "T" if taken else "F"))
                    todo.append((s, f2, tgt))
                alive = []
                for s, f2, tgt in todo:
                    try:
                        if tgt in nr:
                            if not self.do_throw(s, work, f2, blk.name, tgt):
                                alive.append(s)
                        else:
                            self.goto(s, f2, tgt, blk.name, work)
                            alive.append(s)
                    except PathEnd:
                        pass
                if not alive:
                    return
                for s in alive[1:]:
                    work.append(s)
                st = alive[0]
                continue
            if op == "switch":
                v, d, cs = ins.a
                x = self.ev(st, fr, v, ins.ty)
                if isinstance(x, bool):
                    x = z3.IntVal(int(x))
                alive = []
                conds = []
                tgts = {}
                for cv, tg in cs:
                    w = ins.ty.a
                    if cv >= 1 << (w - 1):
                        cv -= 1 << w
                    tgts.setdefault(tg, []).append(x == cv)
                    conds.append(x != cv)
                opts = [(z3.Or(*c), tg) for tg, c in tgts.items()] + [(z3.And(*conds) if conds else z3.BoolVal(True), d)]
                nr = self.noreturn_blocks(fr.f)
                for c, tg in opts:
                    if self.pr.feasible(st.pc, c):
                        s = st.clone()
                        s.pc.append(c)
                        s.path.append("%s->%s" % (blk.name, tg))
                        try:
                            if tg in nr:
                                if not self.do_throw(s, work, s.frames[-1], blk.name, tg):
                                    alive.append(s)
                            else:
                                self.goto(s, s.frames[-1], tg, blk.name, work)
                                alive.append(s)
                        except PathEnd:
                            pass
                if not alive:
                    return
                for s in alive[1:]:
                    work.append(s)
                st = alive[0]
                continue
            if op == "ret":
                v = None if ins.a is None else self.ev(st, fr, ins.a, ins.ty)
                if len(st.frames) == 1:
                    self.paths["return"] += 1
                    self.on_return(self, st, v)
                    return
                st.frames.pop()
                up = st.frames[-1]
                self.finish_call(st, up, fr.ret, v, work)
                continue
            if op == "unreachable":
                # throw/abort reached outside of a noreturn block: dead end
                return
            if op == "resume":
                if self.unwind(st, work):
                    return
                continue
            if op in ("call", "invoke"):
                r = self.call(st, fr, ins, work)
                if r == "end":
                    return
                continue
            if op == "select" and self.mod.resolve(ins.ty).k in ("ptr", "struct"):
                c, a, b, ct = ins.a
                cc = self.ev(st, fr, c, ct)
                outs = self.branch(st, cc, work)
                for s, taken in outs:
                    f2 = s.frames[-1]
                    f2.regs[ins.res] = self.ev(s, f2, a if taken else b, ins.ty)
                    f2.idx += 1
                for s, _ in outs[1:]:
                    work.append(s)
                st = outs[0][0]
                continue
            self.simple(st, fr, ins)
            fr.idx += 1

    def finish_call(self, st, fr, ins, v, work):
        """resume the caller frame fr after call instruction ins"""
        if ins.res is not None:
            fr.regs[ins.res] = v
        if ins.op == "invoke":
            self.goto(st, fr, ins.a["normal"], fr.blk, work)
        else:
            fr.idx += 1

    def do_throw(self, st, work, fr, prev, tgt):
        """control enters a block that can only end in throw/abort.  Unwinds the frames.
        returns True if the path is finished."""
        st.frames.pop()
        return self.unwind(st, work)

    def unwind(self, st, work, popped=True):
        """an exception leaves the current callee; find a handler frame"""
        while st.frames:
            fr = st.frames[-1]
            ins = fr.f.blocks[fr.blk].insts[fr.idx]
            if ins.op == "invoke":
                tgt = ins.a["unwind"]
                if tgt in self.noreturn_blocks(fr.f):
                    st.frames.pop()
                    continue
                self.goto(st, fr, tgt, fr.blk, work)
                return False
            st.frames.pop()
        self.paths["throw"] += 1
        if self.on_throw:
            self.on_throw(self, st)
        return True

    # -------------------------------------------------------------- instructions
    def simple(self, st, fr, ins):
        op = ins.op
        if op == "bin":
            o, a, b, fl = ins.a
            fr.regs[ins.res] = self.binop(st, o, self.ev(st, fr, a, ins.ty), self.ev(st, fr, b, ins.ty), ins.ty, fl)
        elif op == "fbin":
            o, a, b = ins.a
            fr.regs[ins.res] = self.fbin(st, o, self.ev(st, fr, a, ins.ty), self.ev(st, fr, b, ins.ty), ins.ty)
        elif op == "fneg":
            fr.regs[ins.res] = -self.ev(st, fr, ins.a, ins.ty)
        elif op == "icmp":
            p, a, b = ins.a
            fr.regs[ins.res] = self.icmp(st, p, self.ev(st, fr, a, ins.ty), self.ev(st, fr, b, ins.ty), ins.ty)
        elif op == "fcmp":
            p, a, b = ins.a
            fr.regs[ins.res] = self.fcmp(p, self.ev(st, fr, a, ins.ty), self.ev(st, fr, b, ins.ty))
        elif op == "cast":
            o, t, v = ins.a
            fr.regs[ins.res] = self.cast(st, o, t, self.ev(st, fr, v, t), ins.ty)
        elif op == "select":
            c, a, b, ct = ins.a
            cc = self.ev(st, fr, c, ct)
            x, y = self.ev(st, fr, a, ins.ty), self.ev(st, fr, b, ins.ty)
            if isinstance(cc, bool):
                fr.regs[ins.res] = x if cc else y
            elif self.mod.resolve(ins.ty).k == "int" and ins.ty.a == 1:
                fr.regs[ins.res] = bor(band(cc, x), band(bnot(cc), y))
            else:
                fr.regs[ins.res] = Ite(cc, x, y)
        elif op == "freeze":
            fr.regs[ins.res] = self.ev(st, fr, ins.a, ins.ty)
        elif op == "alloca":
            ty, cnt = ins.a
            fr.regs[ins.res] = self.alloca(st, fr, ins, ty, cnt)
        elif op == "load":
            p = self.ev(st, fr, ins.a, PTR)
            fr.regs[ins.res] = self.load(st, p, ins.ty)
        elif op == "store":
            v, p = ins.a
            self.store(st, self.ev(st, fr, p, PTR), ins.ty, self.ev(st, fr, v, ins.ty))
        elif op == "atomicrmw":
            o, p, v = ins.a
            pp = self.ev(st, fr, p, PTR)
            old = self.load(st, pp, ins.ty)
            if o not in ("add", "sub"):
                raise Unsupported("atomicrmw " + str(o))
            self.store(st, pp, ins.ty, self.binop(st, o, old, self.ev(st, fr, v, ins.ty), ins.ty, ()))
            fr.regs[ins.res] = old
        elif op == "gep":
            fr.regs[ins.res] = self.gep(st, fr, *ins.a)
        elif op == "extractvalue":
            v, idx = ins.a
            x = self.ev(st, fr, v, ins.ty)
            for i in idx:
                x = x.v[i]
            fr.regs[ins.res] = x
        elif op == "insertvalue":
            v, v2, idx = ins.a
            x = self.ev(st, fr, v, ins.ty)
            t = ins.ty
            rt = self.mod.resolve(t)
            for i in idx[:-1]:
                rt = self.mod.resolve(rt.a[i] if rt.k == "struct" else rt.b)
            et = rt.a[idx[-1]] if rt.k == "struct" else rt.b
            y = self.ev(st, fr, v2, et)

            def ins_(ag, ix):
                n = list(ag.v)
                n[ix[0]] = y if len(ix) == 1 else ins_(n[ix[0]], ix[1:])
                return Agg(n)
            fr.regs[ins.res] = ins_(x, idx)
        elif op == "landingpad":
            fr.regs[ins.res] = Agg([Ptr(Obj("exc", "opaque"), 0), self.fresh_int("sel", 32, st)])
        elif op == "phi":
            raise Unsupported("stray phi")
        else:
            raise Unsupported("%s: %s" % (op, ins.txt[:100]))

    def alloca(self, st, fr, ins, ty, cnt):
        n = "%s.%s" % (fr.f.name[-24:], ins.res)
        name = self.fresh_name(n)
        rt = self.mod.resolve(ty)
        if cnt is not None and not (isinstance(cnt, Const) and cnt.v == 1):
            c = self.ev(st, fr, cnt, ir.I64)
            self.assumptions.add("enough stack for arrays of variable length")
            p = self.heap_alloc(st, fr, c * self.mod.size(ty), "heap", ins.res)
            if rt.k in ("float", "double", "int") and p.obj.kind == "heap":
                self.materialize(st, p.obj, rt)
            return p
        if rt.k == "arr" and self.mod.resolve(rt.b).k in ("int", "float", "double") and rt.a > 1 and not self.o.get("alloca_fields"):
            e = self.mod.resolve(rt.b)
            o = Obj(name, "array", e, self.mod.size(e), z3.IntVal(rt.a))
            st.mem[name] = self.new_content(name, e)
            return Ptr(o, 0)
        o = Obj(name, "fields", size=self.mod.size(ty))
        st.mem[name] = {}
        return Ptr(o, 0)

    def binop(self, st, op, a, b, ty, fl, pure=False):
        w = ty.a
        if w == 1:
            a, b = (x if isinstance(x, bool) or z3.is_bool(x) else x != 0 for x in (a, b))
            if op == "and":
                return band(a, b)
            if op == "or":
                return bor(a, b)
            if op in ("xor", "add", "sub"):
                if isinstance(a, bool):
                    a, b = b, a
                if isinstance(b, bool):
                    return bnot(a) if b else a
                return z3.Xor(a, b)
            raise Unsupported("i1 " + op)
        if isinstance(a, PInt) or isinstance(b, PInt):
            if op == "sub" and isinstance(a, PInt) and isinstance(b, PInt):
                if a.p.obj is not b.p.obj:
                    if a.p.obj is None and b.p.obj is None:
                        return z3.IntVal(0)
                    raise Unsupported("pointer difference across objects")
                return (a.p.off - b.p.off).term()
            if op in ("add", "sub") and isinstance(a, PInt):
                l = Lin.of(b)
                return PInt(Ptr(a.p.obj, a.p.off + (l if op == "add" else l.neg())))
            if op == "add":
                return PInt(Ptr(b.p.obj, b.p.off + Lin.of(a)))
            if op == "and" and isinstance(a, PInt) and z3.is_int_value(b):
                return z3.IntVal(0) if b.as_long() in (1, 3, 7) else self.fresh_int("pand", w, st)
            raise Unsupported("int op on pointer")
        if op in ("add", "sub", "mul"):
            t = a + b if op == "add" else a - b if op == "sub" else a * b
            if op == "mul" and not (z3.is_int_value(a) or z3.is_int_value(b)):
                t = z3.simplify(t, som=True)
            if "nsw" in fl and not self.o.get("check_overflow", True):
                return z3.simplify(t)
            if "nsw" in fl and not pure:
                t = z3.simplify(t)
                if not z3.is_int_value(t):
                    self.require(st, "arithmetic: no signed overflow", z3.And(t >= -(1 << (w - 1)), t < (1 << (w - 1))), "overflow")
                return t
            return self.norm(st, t, w)
        if op in ("sdiv", "udiv", "srem", "urem"):
            if op[0] == "u":
                a, b = self.uns(st, a, w), self.uns(st, b, w)
            if not pure:
                self.require(st, "arithmetic: no division by zero", b != 0, "div")
            if op[0] == "u":
                lb = z3.simplify(b)
                if z3.is_int_value(lb) and op == "udiv":
                    l = Lin.of(z3.simplify(a)).div(lb.as_long())
                    if l is not None:
                        return l.term()
                if not z3.is_int_value(lb) and not pure:
                    q, r = self.divmod_sym(st, a, b)
                    return q if op == "udiv" else r
                r = a / b if op == "udiv" else a % b
                return self.norm(st, r, w)
            lb = z3.simplify(b)
            if z3.is_int_value(lb) and op == "sdiv":
                l = Lin.of(z3.simplify(a)).div(lb.as_long())
                if l is not None:
                    return l.term()
            if self.pr.quick(st.pc, z3.And(a >= 0, b > 0)):
                return a / b if op == "sdiv" else a % b
            absb = z3.If(b >= 0, b, -b)
            q = z3.If(a >= 0, a / absb, -((-a) / absb))
            q = z3.If(b >= 0, q, -q)
            if op == "sdiv":
                return self.norm(st, q, w)
            return z3.If(a >= 0, a % absb, -((-a) % absb))
        if op in ("shl", "lshr", "ashr"):
            b = z3.simplify(b)
            if not z3.is_int_value(b):
                # case split on the amount (larger amounts are undefined behaviour)
                hi = 2 if self.pr.quick(st.pc, z3.And(b >= 0, b <= 1), 500) else w
                if hi > 16 and not self.pr.quick(st.pc, z3.And(b >= 0, b < w), 500):
                    raise Unsupported("variable shift")
                r = None
                for c in range(hi):
                    x = self.binop(st, op, a, z3.IntVal(c), ty, fl, pure)
                    r = x if r is None else z3.If(b == c, x, r)
                return r
            c = b.as_long()
            if op == "shl":
                return self.norm(st, a * (1 << c), w)
            if op == "ashr" or "exact" in fl:
                l = Lin.of(z3.simplify(a)).div(1 << c)
                if l is not None:
                    return l.term()
                if op == "ashr":
                    return a / (1 << c)
            return self.norm(st, self.uns(st, a, w) / (1 << c), w)
        if op in ("and", "or", "xor"):
            a, b = z3.simplify(a), z3.simplify(b)
            if z3.is_int_value(a):
                a, b = b, a
            if z3.is_int_value(b):
                if z3.is_int_value(a):
                    x, y = a.as_long(), b.as_long()
                    return self.norm(st, x & y if op == "and" else x | y if op == "or" else x ^ y, w)
                c = b.as_long()
                if op == "and":
                    if c >= 0 and (c & (c + 1)) == 0:
                        if c and not pure and not z3.is_int_value(a) and self.pr.quick(st.pc, z3.And(a >= 0, a <= c), 300):
                            return a
                        return a % (c + 1) if c else z3.IntVal(0)
                    if c < 0 and ((-c) & (-c - 1)) == 0:
                        return a - a % (-c)
                    if c > 0:
                        # contiguous mask  (2^m-1)<<s
                        s = (c & -c).bit_length() - 1
                        if ((c >> s) & ((c >> s) + 1)) == 0:
                            m = (c >> s) + 1
                            return ((a / (1 << s)) % m) * (1 << s)
                if op == "xor" and c == -1:
                    return -a - 1
                if op == "or" and c == 0 or op == "xor" and c == 0:
                    return a
            if op == "or" and "disjoint" in fl:
                return a + b
            if op == "or" and not pure:
                # multiples of a power of two joined with something smaller
                for x, y in ((a, b), (b, a)):
                    g = self.pow2_factor(x)
                    if g > 1 and self.pr.quick(st.pc, z3.And(y >= 0, y < g), 500):
                        return x + y
            # bit-precise fallback
            if w <= 64:
                x, y = z3.Int2BV(a, w), z3.Int2BV(b, w)
                r = x & y if op == "and" else x | y if op == "or" else x ^ y
                return z3.BV2Int(r, True)
        raise Unsupported("binop " + op)

    @staticmethod
    def pow2_factor(t):
        """largest known power of two dividing a term"""
        if z3.is_int_value(t):
            v = t.as_long()
            return v & -v if v else 1 << 64
        if z3.is_mul(t):
            g = 1
            for c in t.children():
                g *= Exec.pow2_factor(c)
            return min(g, 1 << 64)
        if z3.is_add(t) or z3.is_sub(t):
            return min(Exec.pow2_factor(c) for c in t.children())
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            return min(Exec.pow2_factor(c) for c in t.children()[1:])
        return 1

    def fbin(self, st, op, a, b, ty):
        if op == "fadd":
            return a + b
        if op == "fsub":
            return a - b
        if op == "fmul":
            return a * b
        if op == "frem":
            return self.fmod(st, "fmod", a, b)
        if op == "fdiv":
            if self.pr.quick(st.pc, b.val != 0, 300) or (isinstance(b.nan, bool) and b.nan):
                return FV(bor(a.nan, b.nan), a.val / b.val)
            n = z3.Bool(self.fresh_name("divnan"))
            r = self.o.get("div0")
            return FV(bor(a.nan, b.nan, z3.And(b.val == 0, n)), a.val / b.val)
        raise Unsupported(op)

    def icmp(self, st, p, a, b, ty):
        ty = self.mod.resolve(ty)
        if isinstance(a, PInt) or isinstance(b, PInt):
            if isinstance(a, PInt):
                a = a.p
            else:
                a = Ptr(None, Lin.of(a))
            if isinstance(b, PInt):
                b = b.p
            else:
                b = Ptr(None, Lin.of(b))
            return self.pcmp(st, p, a, b)
        if ty.k == "ptr":
            return self.pcmp(st, p, a, b)
        w = ty.a
        if w == 1:
            a, b = B(a), B(b)
            if p == "eq":
                return a == b
            if p == "ne":
                return a != b
            if p == "ult":
                return z3.And(z3.Not(a), b)
            if p == "ugt":
                return z3.And(a, z3.Not(b))
            if p == "ule":
                return z3.Implies(a, b)
            if p == "uge":
                return z3.Implies(b, a)
            raise Unsupported("i1 icmp")
        if p == "eq":
            return a == b
        if p == "ne":
            return a != b
        if p[0] == "u":
            a, b = self.uns(st, a, w), self.uns(st, b, w)
        q = p[1:]
        return {"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[q]

    def pcmp(self, st, p, a, b):
        if isinstance(a.obj, FuncRef) or isinstance(b.obj, FuncRef):
            an = a.obj.name if isinstance(a.obj, FuncRef) else None
            bn = b.obj.name if isinstance(b.obj, FuncRef) else None
            eq = an == bn
            return eq if p == "eq" else not eq
        if a.obj is b.obj:
            x, y = (a.off - b.off).term(), z3.IntVal(0)
            return {"eq": x == y, "ne": x != y}.get(p) if p in ("eq", "ne") else \
                {"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[p[1:]]
        if p in ("eq", "ne"):
            for q in (a, b):
                if q.obj is not None and q.obj.kind == "opaque":
                    return z3.Bool(self.fresh_name("pcmp"))
                if q.obj is not None and getattr(q.obj, "maybe_null", None) is not None:
                    o = a if q is b else b
                    if o.obj is None:
                        r = q.obj.maybe_null
                        return r if p == "eq" else z3.Not(r)
            # one-past-the-end coincidences between distinct objects are excluded
            return p == "ne"
        raise Unsupported("pointer order across objects")

    def fcmp(self, p, a, b):
        if p == "true":
            return True
        if p == "false":
            return False
        un = bor(a.nan, b.nan)
        if p == "uno":
            return un
        if p == "ord":
            return bnot(un)
        q = p[1:]
        x, y = a.val, b.val
        if x is y or (x.get_id() == y.get_id()):
            c = q in ("eq", "le", "ge")
        else:
            c = {"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[q]
        if p[0] == "o":
            return band(bnot(un), c)
        return bor(un, c)

    def cast(self, st, op, t, v, t2):
        t, t2 = self.mod.resolve(t), self.mod.resolve(t2)
        if op == "zext":
            if t.a == 1:
                if isinstance(v, bool):
                    return z3.IntVal(int(v))
                return z3.If(v, z3.IntVal(1), z3.IntVal(0))
            return self.uns(st, v, t.a)
        if op == "sext":
            if t.a == 1:
                if isinstance(v, bool):
                    return z3.IntVal(-int(v))
                return z3.If(v, z3.IntVal(-1), z3.IntVal(0))
            return v
        if op == "trunc":
            if isinstance(v, PInt):
                raise Unsupported("trunc ptr")
            if t2.a == 1:
                return self.simpb(v % 2 == 1)
            return self.norm(st, v, t2.a)
        if op in ("sitofp", "uitofp"):
            if t.a == 1:
                return Ite(v, tofv(1), tofv(0)) if not isinstance(v, bool) else tofv(int(v))
            if op == "uitofp":
                v = self.uns(st, v, t.a)
            return FV(False, z3.ToReal(v) if not z3.is_int_value(v) else z3.RealVal(v.as_long()))
        if op in ("fptosi", "fptoui"):
            return self.fptoi(st, v, t2.a, op == "fptoui")
        if op in ("fpext", "fptrunc"):
            return v
        if op == "ptrtoint":
            return PInt(v)
        if op == "inttoptr":
            if isinstance(v, PInt):
                return v.p
            return Ptr(None, Lin.of(v))
        if op == "bitcast" and t.k == t2.k:
            return v
        raise Unsupported("cast %s" % op)

    def fptoi(self, st, v, w, unsigned):
        """C conversion (truncation).  Out of range / undefined: x86-64 result (most negative value)."""
        tr = z3.If(v.val >= 0, z3.ToInt(v.val), -z3.ToInt(-v.val))
        tr = z3.simplify(tr)
        lo, hi = (0, (1 << w) - 1) if unsigned else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
        ok = band(bnot(v.nan), tr >= lo, tr <= hi)
        if self.o.get("strict_fptoi"):
            self.require(st, "arithmetic: float to integer conversion in range", ok, "convert")
            return self.norm(st, tr, w)
        if isinstance(ok, bool) or self.pr.quick(st.pc, ok):
            return self.norm(st, tr, w) if unsigned else tr
        self.assumptions.add("an out-of-range or undefined float-to-integer conversion yields the x86-64 'integer indefinite' value")
        if unsigned:
            r = self.fresh_int("fptoui", w, st)
            st.pc.append(z3.Implies(B(ok), r == self.norm(st, tr, w)))
            return r
        return z3.If(B(ok), tr, z3.IntVal(-(1 << (w - 1))))

    # -------------------------------------------------------------- calls
    def call(self, st, fr, ins, work):
        a = ins.a
        cal = a["callee"]
        if isinstance(cal, Const) and cal.k == "global":
            name = cal.v
        else:
            p = self.ev(st, fr, cal, PTR)
            if isinstance(p, Ptr) and isinstance(p.obj, FuncRef):
                name = p.obj.name
            else:
                h = getattr(p.obj, "callable", None) if isinstance(p, Ptr) else None
                if h is None:
                    raise Unsupported("indirect call: " + ins.txt[:120])
                args = [None if t.k == "metadata" else self.ev(st, fr, x, t) for t, x in a["args"]]
                r = h(self, st, args, ins)
                self.finish_call(st, st.frames[-1], ins, r, work)
                return
        if name.startswith("llvm."):
            r = self.intrinsic(st, fr, ins, name)
            self.finish_call(st, fr, ins, r, work)
            return
        args = [None if t.k == "metadata" else self.ev(st, fr, x, t) for t, x in a["args"]]
        h = self.callee_contracts.get(name)
        if h is None:
            for pat, hh in self.o.get("callee_patterns", []):
                if re.search(pat, name):
                    h = hh
                    break
        if h is not None:
            r = h(self, st, args, ins)
            if r is NotImplemented:
                pass
            elif isinstance(r, tuple) and r and r[0] == "throws?":
                # fork: normal return r[1], or exception
                s2 = st.clone()
                cond = r[2] if len(r) > 2 else None
                if cond is not None:
                    s2.pc.append(cond)
                    st.pc.append(z3.Not(cond))
                try:
                    if not self.unwind(s2, work):
                        work.append(s2)
                except PathEnd:
                    pass
                self.finish_call(st, fr, ins, r[1], work)
                return
            elif isinstance(r, tuple) and r and r[0] == "throw":
                return "end" if self.unwind(st, work) else None
            else:
                self.finish_call(st, fr, ins, r, work)
                return
        r = self.builtin(st, fr, ins, name, args, work)
        if r is not NotImplemented:
            if isinstance(r, str) and r == "THROW":
                return "end" if self.unwind(st, work) else None
            self.finish_call(st, fr, ins, r, work)
            return
        f = self.mod.func(name)
        if f is not None:
            if sum(1 for x in st.frames if x.f is f) > self.o.get("recursion", 0):
                raise Unsupported("recursion without contract: " + name)
            if len(st.frames) > 24:
                raise Unsupported("call depth")
            self.inlined.add(name)
            regs = {}
            for (t, n), v in zip(f.params, args):
                regs[n] = v
            nf = Frame(f, regs, f.order[0], ins, None, fr.key + "/" + fr.f.name + "#" + str(fr.blk) + "." + str(fr.idx))
            st.frames.append(nf)
            if f.order[0] in f.find_loops():
                raise Unsupported("entry loop")
            return
        for pat in self.o.get("benign", []):
            if re.search(pat, name):
                self.assumptions.add("external function does not touch the verified data: " + pat)
                r = self.fresh("ext", ins.ty, st)
                # it may write into local struct objects handed to it
                for v in args:
                    if isinstance(v, Ptr) and isinstance(v.obj, Obj) and v.obj.kind == "fields" and v.obj.writable:
                        self.note_write(st, v.obj, (-1, "*"))
                        st.mem[v.obj.name] = {}
                if ins.op == "invoke" and self.o.get("benign_throw", False):
                    s2 = st.clone()
                    try:
                        if not self.unwind(s2, work):
                            work.append(s2)
                    except PathEnd:
                        pass
                self.finish_call(st, fr, ins, r, work)
                return
        raise Unsupported("call to " + name)

    def heap_alloc(self, st, fr, size, tag, site=None):
        name = self.fresh_name("%s" % tag)
        if not isinstance(size, int):
            size = z3.simplify(size)
            while z3.is_app(size) and size.decl().kind() == z3.Z3_OP_ITE:
                if self.pr.quick(st.pc, size.arg(0)):
                    size = size.arg(1)
                elif self.pr.quick(st.pc, z3.Not(size.arg(0))):
                    size = size.arg(2)
                else:
                    break
        c = Lin.of(z3.simplify(size)).const() if not isinstance(size, int) else size
        o = Obj(name, "heap")
        o.bytes_len = Lin.of(z3.simplify(size)) if not isinstance(size, int) else Lin(size)
        o.size = None
        st.mem[name] = None
        self.heap_objs[name] = o
        o.site = (fr.key, fr.f.name, site)
        ty = self.heap_sites.get(o.site)
        if ty is not None:
            o.zeroed = tag == "calloc"
            self.materialize(st, o, ty)
        elif tag == "heap" and isinstance(c, int) and c <= 512 and self.o.get("const_heap_fields"):
            o.kind, o.size = "fields", c
            st.mem[name] = {}
        return Ptr(o, 0)

    def builtin(self, st, fr, ins, name, args, work):
        base = name
        if base in LIBM1:
            x = args[0]
            n = LIBM1[base]
            return self.libm1(st, n, x)
        if base in LIBM2:
            x, y = args
            n = LIBM2[base]
            if n in ("fmod", "remainder"):
                return self.fmod(st, n, x, y)
            self.assumptions.add("libm %s is an uninterpreted function" % n)
            return FV(bor(x.nan, y.nan), UF2[n](x.val, y.val))
        if base in ("floor", "floorf"):
            return FV(args[0].nan, z3.ToReal(z3.ToInt(args[0].val)))
        if base in ("ceil", "ceilf"):
            return FV(args[0].nan, -z3.ToReal(z3.ToInt(-args[0].val)))
        if base in ("round", "roundf"):
            x = args[0]
            return FV(x.nan, z3.ToReal(VM.lround(FV(False, x.val))))
        if base in ("lround", "lroundf", "llround", "llroundf"):
            x = args[0]
            r = VM.lround(FV(False, x.val))
            w = ins.ty.a
            lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
            ok = band(bnot(x.nan), r >= lo, r <= hi)
            if isinstance(ok, bool):
                ok = z3.BoolVal(ok)
            if self.pr.quick(st.pc, ok):
                return r
            self.assumptions.add("lround of an undefined or huge value yields the most negative long (x86-64 glibc)")
            return z3.If(ok, r, z3.IntVal(lo))
        if base in ("fabs", "fabsf"):
            return fabs(args[0])
        if base in ("nan", "nanf"):
            return FV(True, z3.RealVal(0))
        if base in ("malloc", "_Znwm", "_Znam", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t"):
            if base == "malloc" or base.endswith("nothrow_t"):
                self.assumptions.add("memory allocation succeeds")
            return self.heap_alloc(st, fr, args[0], "heap", ins.res)
        if base == "calloc":
            self.assumptions.add("memory allocation succeeds")
            p = self.heap_alloc(st, fr, args[0] * args[1], "calloc", ins.res)
            p.obj.zeroed = True
            return p
        if base in ("free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm"):
            return None
        if base in ("__cxa_throw", "__cxa_rethrow", "abort", "exit", "__assert_fail", "_ZSt9terminatev") or base.startswith("_ZSt20__throw_") or base.startswith("_ZSt19__throw_") or re.match(r"_ZSt\d+__throw_", base):
            return "THROW"
        if base == "_ZN10MetNoFimex6Logger12isEnabledForENS0_8LogLevelE":
            self.assumptions.add("log messages are switched off (writing one does not change results)")
            return False
        if base in ("__cxa_begin_catch",):
            return Ptr(Obj("exc", "opaque"), 0)
        if base in ("__cxa_end_catch", "__cxa_free_exception", "__clang_call_terminate"):
            return None
        if base == "__cxa_allocate_exception":
            return Ptr(Obj("exc", "opaque"), 0)
        if base in ("memcpy", "memmove"):
            self.memcpy(st, args[0], args[1], args[2])
            return args[0]
        if base == "memset":
            self.memset(st, args[0], args[1], args[2])
            return args[0]
        if base in ("strcmp",):
            return self.strcmp(st, args[0], args[1])
        if base == "strlen":
            sa = self.cstring(args[0])
            if sa is not None:
                return z3.IntVal(len(sa))
            sid = getattr(args[0].obj, "strid", None) if isinstance(args[0], Ptr) and args[0].obj is not None else None
            if sid is None:
                raise Unsupported("strlen")
            r = STRLEN(sid)
            st.pc.append(r >= 0)
            for t, n in self.LITS.items():
                st.pc.append(z3.Implies(sid == n, r == len(t)))
            return r
        if base in ("strncmp", "memcmp", "bcmp"):
            return self.strncmp(st, args[0], args[1], args[2])
        if base in ("abs",):
            x = args[0]
            return z3.If(x >= 0, x, -x)
        return NotImplemented

    def cstring(self, p):
        if isinstance(p, Ptr) and isinstance(p.obj, Obj):
            b = getattr(p.obj, "bytes", None)
            c = p.off.const()
            if b is not None and c is not None:
                return b[c:].split(b"\0")[0]
        return None

    def strcmp(self, st, a, b):
        """strings are abstract values; equality with a literal is an uninterpreted predicate sym==literal-id"""
        sa, sb = self.cstring(a), self.cstring(b)
        if sa is not None and sb is not None:
            return z3.IntVal((sa > sb) - (sa < sb))
        if sa is not None:
            a, b, sa, sb = b, a, sb, sa
        sid = getattr(a.obj, "strid", None) if isinstance(a, Ptr) and a.obj is not None else None
        if sid is None or sb is None:
            raise Unsupported("strcmp")
        r = self.fresh_int("strcmp", 32, st)
        st.pc.append((r == 0) == (sid == self.litid(sb)))
        return r

    def strncmp(self, st, a, b, n):
        sa, sb = self.cstring(a), self.cstring(b)
        if sa is not None:
            a, b, sa, sb = b, a, sb, sa
        sid = getattr(a.obj, "strid", None) if isinstance(a, Ptr) and a.obj is not None else None
        if sid is None or sb is None:
            raise Unsupported("strncmp")
        r = self.fresh_int("strncmp", 32, st)
        L = len(sb)
        st.pc.append(z3.Implies(sid == self.litid(sb), z3.And(STRLEN(sid) == L, r == 0)))
        st.pc.append(z3.Implies(z3.And(r == 0, n >= L, STRLEN(sid) == L), sid == self.litid(sb)))
        st.pc.append(z3.Implies(z3.And(r == 0, n > L), sid == self.litid(sb)))
        nc = z3.simplify(n)
        for t, i in list(self.LITS.items()):
            st.pc.append(z3.Implies(sid == i, STRLEN(sid) == len(t)))
            if z3.is_int_value(nc):
                k = nc.as_long()
                st.pc.append(z3.Implies(sid == i, (r == 0) == ((t + b"\0")[:k] == (sb + b"\0")[:k])))
        return r

    LITS = {}

    def litid(self, s):
        if s not in self.LITS:
            self.LITS[s] = len(self.LITS) + 1
        return self.LITS[s]

    def fmod(self, st, n, x, y):
        q = z3.Function("m_quot_" + n, z3.RealSort(), z3.RealSort(), z3.IntSort())(x.val, y.val)
        r = x.val - z3.ToReal(q) * y.val
        ab = lambda t: z3.If(t >= 0, t, -t)
        if n == "fmod":
            g = z3.Implies(y.val != 0, z3.And(ab(r) < ab(y.val), z3.Or(r == 0, (r > 0) == (x.val > 0))))
        else:
            g = z3.Implies(y.val != 0, 2 * ab(r) <= ab(y.val))
        st.pc.append(g)
        return FV(bor(x.nan, y.nan, y.val == 0), r)

    def libm1(self, st, n, x):
        if n == "sqrt":
            v = UF["sqrt"](x.val)
            st.pc.append(z3.Implies(x.val >= 0, z3.And(v >= 0, v * v == x.val)))
            return FV(bor(x.nan, x.val < 0), v)
        self.assumptions.add("libm %s is an uninterpreted function (equal arguments give equal results)" % n)
        nn = x.nan
        if n in ("log", "log10", "log2"):
            nn = bor(nn, x.val < 0)
        return FV(nn, UF[n](x.val))

    def elems(self, st, p, nbytes):
        """(start index, count) of a byte range of an array object"""
        o = p.obj
        i = p.off.div(o.esize)
        n = Lin.of(z3.simplify(nbytes)).div(o.esize)
        if i is None or n is None:
            raise Unsupported("block op not a multiple of the element size")
        return i.term(), n.term()

    def divmod_sym(self, st, a, b):
        """quotient and remainder of non-negative terms, defined by a == q*b + r, 0 <= r < b; the contract may name
        (quotient, remainder, divisor) triples for which uniqueness is instantiated"""
        a, b = z3.simplify(a), z3.simplify(b)
        key = (a.get_id(), b.get_id())
        memo = self.__dict__.setdefault("divmemo", {})
        if key not in memo:
            n = len(memo)
            memo[key] = (z3.Int("quo!%d" % n), z3.Int("rem!%d" % n), a, b)
        q, r = memo[key][:2]
        facts = [a == q * b + r, r >= 0, r < b, q >= 0, q <= a]
        for Q, R, D in self.o.get("div_hints", lambda: [])():
            facts.append(z3.Implies(z3.And(a == Q * D + R, b == D, R >= 0, R < D), z3.And(q == Q, r == R)))
        for g in facts:
            if not any(g.eq(x) for x in st.pc[-200:]):
                st.pc.append(g)
        return q, r

    def copied_elem(self, st, o, x):
        """element preconditions also hold for copies of elements of a parameter array"""
        for q in self.contract_objs.values():
            if q is o or not getattr(q, "onread", None):
                continue
            for i in selects(x, q.name):
                for h in q.onread:
                    g = h(i)
                    if not any(g.eq(y) for y in st.pc[-60:]):
                        st.pc.append(g)

    def memcpy(self, st, d, s, n):
        n = z3.simplify(n)
        if z3.is_int_value(n) and n.as_long() == 0:
            return
        for p in (d, s):
            if p.obj is None:
                if self.pr.quick(st.pc, n == 0):
                    return
                self.require(st, "memory: no null dereference", n == 0, "memory")
                return
            if isinstance(p.obj, Obj) and p.obj.kind == "opaque":
                raise Unsupported("memcpy with opaque object")
        if s.obj.kind == "fields" or d.obj.kind == "fields":
            if d.obj.kind == "heap":
                d.obj.kind = "fields"
                st.mem[d.obj.name] = {}
            if s.obj.kind == "heap":
                s.obj.kind = "fields"
                st.mem[s.obj.name] = {}
            if z3.is_int_value(n) and s.obj.kind != d.obj.kind and "array" in (s.obj.kind, d.obj.kind):
                e = s.obj.ety if s.obj.kind == "array" else d.obj.ety
                es = self.mod.size(e)
                if n.as_long() % es:
                    raise Unsupported("memcpy struct/array")
                vals = [self.load(st, Ptr(s.obj, s.off + q), e) for q in range(0, n.as_long(), es)]
                for q, v in enumerate(vals):
                    self.store(st, Ptr(d.obj, d.off + q * es), e, v)
                return
            if not z3.is_int_value(n) and s.obj.kind != d.obj.kind:
                fo, ao = (s.obj, d.obj) if s.obj.kind == "fields" else (d.obj, s.obj)
                if ao.kind == "array" and getattr(fo, "site", None) is not None and fo.site not in self.heap_sites:
                    self.heap_sites[fo.site] = ao.ety
                    raise Restart("heap block is an array")
            if not (s.obj.kind == d.obj.kind == "fields" and z3.is_int_value(n)):
                raise Unsupported("memcpy struct/array")
            nb = n.as_long()
            so, do = s.off.const(), d.off.const()
            if so is None or do is None:
                raise Unsupported("memcpy symbolic offset")
            flds = st.mem[s.obj.name]
            for off, (v, t) in sorted(flds.items()):
                if so <= off < so + nb:
                    self.store(st, Ptr(d.obj, do + off - so), t, v)
            return
        if s.obj.kind == "heap":
            if d.obj.kind == "heap":
                raise Unsupported("memcpy of untyped blocks")
            self.materialize(st, s.obj, d.obj.ety)
        if d.obj.kind == "heap":
            self.materialize(st, d.obj, s.obj.ety)
        if s.obj.esize != d.obj.esize or s.obj.ety.k != d.obj.ety.k:
            raise Unsupported("memcpy type mismatch")
        si, cnt = self.elems(st, s, n)
        di, _ = self.elems(st, d, n)
        if not d.obj.writable:
            self.require(st, "frame: %s is not modified" % self.oname(d.obj), cnt == 0, "frame")
        self.require(st, "memory: block copy from %s stays inside its bounds" % self.oname(s.obj), z3.Implies(cnt > 0, z3.And(si >= 0, si + cnt <= s.obj.length)), "memory")
        self.require(st, "memory: block copy to %s stays inside its bounds" % self.oname(d.obj), z3.Implies(cnt > 0, z3.And(di >= 0, di + cnt <= d.obj.length)), "memory")
        self.note_write(st, d.obj)
        cs, cd = self.content(st, s.obj), self.content(st, d.obj)
        i = z3.Int("lam_i")
        inr = z3.And(i >= di, i < di + cnt)
        if isinstance(cs, FArr):
            f = lambda arr1, arr2: z3.Lambda([i], z3.If(inr, z3.Select(arr1, i - di + si), z3.Select(arr2, i)))
            sn = cs.nan if cs.nan is not None else z3.K(z3.IntSort(), z3.BoolVal(False))
            dn = cd.nan if cd.nan is not None else z3.K(z3.IntSort(), z3.BoolVal(False))
            st.mem[d.obj.name] = FArr(f(sn, dn), f(cs.val, cd.val))
        else:
            st.mem[d.obj.name] = IArr(z3.Lambda([i], z3.If(inr, z3.Select(cs.a, i - di + si), z3.Select(cd.a, i))))

    def memset(self, st, d, c, n):
        n = z3.simplify(n)
        if z3.is_int_value(n) and n.as_long() == 0:
            return
        o = d.obj
        if o is None:
            self.require(st, "memory: no null dereference", n == 0, "memory")
            return
        c = z3.simplify(c)
        if o.kind == "fields":
            if not z3.is_int_value(n):
                raise Unsupported("memset struct")
            do = d.off.const()
            nb = n.as_long()
            if z3.is_int_value(c) and c.as_long() == 0:
                flds = dict(st.mem[o.name])
                for off, (v, t) in list(flds.items()):
                    if do <= off < do + nb:
                        flds[off] = (self.zero(t), t)
                # unknown field types: zero 8-byte words as ints/ptrs lazily
                for off in range(do, do + nb, 8):
                    if off not in flds and off + 8 <= do + nb:
                        flds[off] = (Ptr(None, 0), PTR)
                self.note_write(st, o, (do, "*"))
                st.mem[o.name] = flds
                return
            raise Unsupported("memset struct nonzero")
        if o.kind == "heap":
            if z3.is_int_value(c) and c.as_long() == 0 and d.off.const() == 0 and self.pr.quick(st.pc, n == o.bytes_len.term()):
                o.zeroed = True
                return
            self.materialize(st, o, ir.I8)
        di, cnt = self.elems(st, d, n)
        if o.ety.k == "int" and o.esize == 1:
            v = c
        elif z3.is_int_value(c) and c.as_long() == 0:
            v = self.zero(o.ety)
        else:
            raise Unsupported("memset value")
        if not o.writable:
            self.require(st, "frame: %s is not modified" % self.oname(o), cnt == 0, "frame")
        self.require(st, "memory: block set of %s stays inside its bounds" % self.oname(o), z3.Implies(cnt > 0, z3.And(di >= 0, di + cnt <= o.length)), "memory")
        self.note_write(st, o)
        cd = self.content(st, o)
        i = z3.Int("lam_i")
        inr = z3.And(i >= di, i < di + cnt)
        if isinstance(cd, FArr):
            dn = cd.nan if cd.nan is not None else z3.K(z3.IntSort(), z3.BoolVal(False))
            st.mem[o.name] = FArr(z3.Lambda([i], z3.And(z3.Not(inr), z3.Select(dn, i))), z3.Lambda([i], z3.If(inr, v.val, z3.Select(cd.val, i))))
        else:
            st.mem[o.name] = IArr(z3.Lambda([i], z3.If(inr, v, z3.Select(cd.a, i))))

    def intrinsic(self, st, fr, ins, name):
        a = ins.a["args"]
        A = lambda i: self.ev(st, fr, a[i][1], a[i][0])
        n = name[5:]
        if n.startswith(("lifetime", "dbg", "assume", "experimental.noalias", "prefetch", "invariant", "eh.", "donothing", "var.annotation")):
            if n.startswith("eh.typeid"):
                return self.fresh_int("typeid", 32, st)
            return None
        b = n.split(".")[0]
        if b == "stacksave":
            return Ptr(Obj("stack", "opaque"), 0)
        if b == "stackrestore":
            return None
        if b == "fabs":
            return fabs(A(0))
        if b == "floor":
            x = A(0)
            return FV(x.nan, z3.ToReal(z3.ToInt(x.val)))
        if b == "ceil":
            x = A(0)
            return FV(x.nan, -z3.ToReal(z3.ToInt(-x.val)))
        if b == "trunc":
            x = A(0)
            return FV(x.nan, z3.ToReal(z3.If(x.val >= 0, z3.ToInt(x.val), -z3.ToInt(-x.val))))
        if b == "round":
            x = A(0)
            return FV(x.nan, z3.ToReal(VM.lround(FV(False, x.val))))
        if b == "sqrt":
            return self.libm1(st, "sqrt", A(0))
        if b in UF:
            return self.libm1(st, b, A(0))
        if b == "pow":
            x, y = A(0), A(1)
            self.assumptions.add("libm pow is an uninterpreted function")
            return FV(bor(x.nan, y.nan), UF2["pow"](x.val, y.val))
        if b in ("fmuladd", "fma"):
            return A(0) * A(1) + A(2)
        if b in ("minnum", "maxnum"):
            x, y = A(0), A(1)
            c = x.val < y.val if b == "minnum" else x.val > y.val
            r = FV(band(x.nan, y.nan), z3.If(B(x.nan), y.val, z3.If(B(y.nan), x.val, z3.If(c, x.val, y.val))))
            return r
        if b in ("umax", "umin", "smax", "smin"):
            x, y = A(0), A(1)
            w = ins.ty.a
            c = self.icmp(st, ("ugt" if b == "umax" else "ult" if b == "umin" else "sgt" if b == "smax" else "slt"), x, y, ins.ty)
            return Ite(c, x, y) if not isinstance(c, bool) else (x if c else y)
        if b == "abs":
            x = A(0)
            return z3.If(x >= 0, x, -x)
        if b == "copysign":
            x, y = A(0), A(1)
            ax = z3.If(x.val >= 0, x.val, -x.val)
            return FV(x.nan, z3.If(y.val >= 0, ax, -ax))
        if n.startswith(("usub.sat", "uadd.sat")):
            x, y = A(0), A(1)
            w = ins.ty.a
            ux, uy = self.uns(st, x, w), self.uns(st, y, w)
            if n.startswith("usub"):
                return self.norm(st, z3.If(ux >= uy, ux - uy, z3.IntVal(0)), w)
            m = (1 << w) - 1
            return self.norm(st, z3.If(ux + uy <= m, ux + uy, z3.IntVal(m)), w)
        if ".with.overflow" in n:
            x, y = A(0), A(1)
            w = a[0][0].a
            u = n[0] == "u"
            if u:
                x, y = self.uns(st, x, w), self.uns(st, y, w)
            o = n[1:4]
            t = x + y if o == "add" else x - y if o == "sub" else x * y
            lo, hi = (0, (1 << w) - 1) if u else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
            ov = z3.simplify(z3.Or(t < lo, t > hi))
            if self.pr.quick(st.pc, z3.Not(ov)):
                return Agg([self.norm(st, t, w), False])
            return Agg([self.norm(st, t, w), ov])
        if n.startswith(("memcpy", "memmove")):
            self.memcpy(st, A(0), A(1), A(2))
            return None
        if n.startswith("memset"):
            self.memset(st, A(0), A(1), A(2))
            return None
        if n.startswith("expect"):
            return A(0)
        if n.startswith("is.fpclass"):
            x = A(0)
            m = A(1)
            m = z3.simplify(m).as_long()
            r = False
            fin = z3.And(x.val < INF, x.val > -INF)
            if m & 3:
                r = bor(r, x.nan)
            if m & 0x204:
                r = bor(r, band(bnot(x.nan), z3.Not(fin)))
            if (m & 0x1f8) == 0x1f8:
                r = bor(r, band(bnot(x.nan), fin))
            elif m & 0x1f8:
                raise Unsupported("is.fpclass mask")
            return r
        if n.startswith("trap"):
            raise PathEnd()
        if n.startswith("objectsize"):
            return self.fresh_int("objsize", 64, st)
        if n.startswith("threadlocal"):
            return A(0)
        if n.startswith("is.constant"):
            return False
        raise Unsupported("intrinsic " + name)
