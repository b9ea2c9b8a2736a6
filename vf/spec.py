"""Contracts.  One contract = one function of /repo (or an extern "C" shim that only calls it),
with requires / ensures / throws / frame, invariant candidates, and a generator of concrete
inputs.  The same lambdas are used symbolically (proof) and concretely (replay)."""
import z3, time, traceback, random, itertools
import numpy as np
from . import ir, sexec
from .val import *
from .sexec import Exec, Obj, Ptr, FArr, IArr, Frame, State, Prover, Unsupported, Budget, FuncRef, PathEnd

CT = {"float": (ir.FLOAT, 4), "double": (ir.DOUBLE, 8), "int": (ir.I32, 4), "char": (ir.I8, 1), "uchar": (ir.I8, 1), "short": (Ty := ir.Ty("int", 16), 2),
      "size_t": (ir.I64, 8), "long": (ir.I64, 8), "ushort": (ir.Ty("int", 16), 2), "uint": (ir.I32, 4), "bool": (ir.I8, 1)}
RANGE = {"int": (-(1 << 31), (1 << 31) - 1), "char": (-128, 127), "uchar": (0, 255), "short": (-32768, 32767), "ushort": (0, 65535),
         "uint": (0, (1 << 32) - 1), "size_t": (0, (1 << 63) - 1), "long": (-(1 << 63), (1 << 63) - 1), "bool": (0, 1)}


class SymArr:
    """symbolic view of an array's content"""

    def __init__(self, content, nonan, ctype):
        self.c, self.nonan, self.ctype = content, nonan, ctype

    def __getitem__(self, i):
        if isinstance(i, (int, np.integer)):
            i = z3.IntVal(int(i))
        if isinstance(self.c, FArr):
            return self.c.sel(i, self.nonan)
        x = z3.Select(self.c.a, i)
        if self.ctype in ("uchar", "ushort", "uint"):
            w = {"uchar": 8, "ushort": 16, "uint": 32}[self.ctype]
            x = z3.If(x < 0, x + (1 << w), x)
        return x


class ConArr:
    """concrete view; out-of-range spec reads give an arbitrary value (guarded by the contract)"""

    def __init__(self, a):
        self.a = a

    def __getitem__(self, i):
        i = int(i)
        if i < 0 or i >= len(self.a):
            return np.float64("nan") if self.a.dtype.kind == "f" else 0
        x = self.a[i]
        return np.float64(x) if self.a.dtype.kind == "f" else int(x)

    def __len__(self):
        return len(self.a)


class View:
    def __init__(self, d):
        self.__dict__.update(d)


class Param:
    def __init__(self, name, kind, ctype=None, **kw):
        self.name, self.kind, self.ctype = name, kind, ctype
        self.__dict__.update(kw)


class Contract:
    def __init__(self, fn, tu, what="", **opts):
        self.fn, self.tu, self.what, self.opts = fn, tu, what, opts
        self.params = []
        self.req = []
        self.req_elem = []
        self.ens = []
        self.ghosts = []
        self.defines = []
        self.invs = []
        self.phi_invs = []
        self.multi_invs = []
        self.foralls = []
        self.array_invs = []
        self.ghost_reals = []
        self.strides = []
        self.thr = None
        self.may_throw = False
        self.ret = opts.get("ret")          # 'int','double','float','size_t',None
        self.gen = None
        self.callees = {}
        self.assume = []
        self.axioms = []
        self.variant = opts.get("variant", "")
        self.bounded_only = False
        self.alias = {}
        self.exec_opts = {}
        self.div_hints = []
        self.live_invs = []
        self.label = fn + (("[" + self.variant + "]") if self.variant else "")
        self.tries = opts.get("tries", 400)

    # ---- declaration
    def int(self, name, ctype="int", lo=None, hi=None, **kw):
        self.params.append(Param(name, "int", ctype, lo=lo, hi=hi, **kw))
        return self

    def size(self, name, lo=0, hi=1 << 40, **kw):
        return self.int(name, "size_t", lo, hi, **kw)

    def flt(self, name, ctype="double", nonan=False, finite=True):
        self.params.append(Param(name, "flt", ctype, nonan=nonan, finite=finite))
        return self

    def arr(self, name, ctype, length, out=False, nonan=False, null=False, fill=None):
        self.params.append(Param(name, "arr", ctype, length=length, out=out, nonan=nonan, null=null, fill=fill))
        return self

    def cstr(self, name, lits=()):
        for x in lits:
            Exec.LITS.setdefault(x.encode(), len(Exec.LITS) + 1)
        self.params.append(Param(name, "str", "char*"))
        return self

    def fnptr(self, name, target):
        self.params.append(Param(name, "fn", "ptr", target=target))
        return self

    def null(self, name):
        self.params.append(Param(name, "null", "ptr"))
        return self

    def endp(self, name, of, length):
        """pointer to one past element `length(v)` of array `of`"""
        self.params.append(Param(name, "endp", "ptr", of=of, length=length))
        return self

    def requires_elem(self, arr, f):
        """precondition for every element index i of an array (0 <= i < length): f(v, i).
        Instantiated where the code reads the array."""
        self.req_elem.append((arr, f))
        return self

    def requires(self, f):
        self.req.append(f)
        return self

    def ensures(self, label, f):
        self.ens.append((label, f))
        return self

    def ghost(self, name, lo, hi):
        self.ghosts.append((name, lo, hi))
        return self

    def ghost_real(self, name, conc):
        """arbitrary real of the proof; in concrete runs the value conc(v)"""
        self.ghost_reals.append((name, conc))
        return self

    def define(self, name, f):
        """spec value (a function of the inputs and ghosts only) kept opaque until a proof needs its definition"""
        self.defines.append((name, f))
        return self

    def inv(self, cid, f):
        self.invs.append((cid, f))
        return self

    def phi_inv(self, cid, f):
        self.phi_invs.append((cid, f))
        return self

    def multi_inv(self, cid, arity, f):
        """f(v, ks, *values): candidate over every ordered tuple of integer (arity > 0) or floating point (arity < 0) loop variables;
        arity (i, f): every combination of i integers (or element indices) and f floating point variables"""
        self.multi_invs.append((cid, arity, f))
        return self

    def forall(self, cid, f, inst):
        """f(v, ks, i): holds for every index i; asserted at the ghost index j, assumed at inst(v, ks)"""
        self.foralls.append((cid, f, inst))
        return self

    def array_inv(self, cid, sel, f):
        """f(v, ks, A, i): candidate for every element i of the array(s) selected by sel (parameter name, or
        heap:<type>); proved at the arbitrary ghost index (the first ghost), assumed wherever the code reads"""
        self.array_invs.append((cid, sel, f))
        return self

    def stride(self, guard, f):
        """candidate: a loop variable advances by f(v) elements per iteration, if guard(v)"""
        self.strides.append(lambda v: (guard(v), f(v)))
        return self

    def live_inv(self, cid, sel, filters, f):
        """f(v, ks, A, *t): array candidate with loop-constant integers t; each t is any value the loop uses without
        changing it for which the corresponding filter(v, t) is proved on entry"""
        self.live_invs.append((cid, sel, filters, f))
        return self

    def div_hint(self, f):
        """f(v) = (quotient, remainder, divisor): where the code divides, uniqueness of division is instantiated for it"""
        self.div_hints.append(f)
        return self

    def throws(self, f):
        self.thr = f
        return self

    # ---- symbolic run
    def setup(self, ex):
        st = State()
        mod = ex.mod
        f = mod.func(self.symbol(mod))
        if f is None:
            raise Unsupported("function %s not found" % self.fn)
        d = {}
        self.objs = {}
        regs = {}
        if len(f.params) != len([p for p in self.params if not getattr(p, "ghostparam", False)]):
            raise Unsupported("signature of %s changed" % self.fn)
        it = iter(f.params)
        post = []
        for p in self.params:
            ty, rn = (None, None) if getattr(p, "ghostparam", False) else next(it)
            if p.kind == "int":
                v = z3.Int(p.name)
                lo, hi = RANGE[p.ctype]
                lo = p.lo if p.lo is not None else lo
                hi = p.hi if p.hi is not None else hi
                st.pc.append(z3.And(v >= lo, v <= hi))
                d[p.name] = v
                if rn is not None:
                    if ty.k == "int" and ty.a == 1:
                        regs[rn] = v != 0
                    else:
                        w = ty.a
                        if hi >= (1 << (w - 1)):
                            regs[rn] = z3.If(v >= (1 << (w - 1)), v - (1 << w), v)
                        else:
                            regs[rn] = v
            elif p.kind == "flt":
                v = FV(False if p.nonan else z3.Bool(p.name + ".nan"), z3.Real(p.name))
                if p.finite:
                    st.pc.append(z3.And(v.val < INF, v.val > -INF))
                d[p.name] = v
                if rn is not None:
                    regs[rn] = v
            elif p.kind == "str":
                o = Obj(p.name, "opaque")
                o.strid = z3.Int(p.name)
                d[p.name] = o.strid
                regs[rn] = Ptr(o, 0)
            elif p.kind == "fn":
                regs[rn] = Ptr(FuncRef(p.target), 0)
                d[p.name] = None
            elif p.kind == "null":
                regs[rn] = Ptr(None, 0)
                d[p.name] = None
            else:
                post.append((p, rn))
        st.pc.append(INF > z3.RealVal("1" + "0" * 40))
        v0 = View(d)
        for p, rn in post:
            if p.kind == "endp":
                continue
            al = self.alias.get(p.name)
            if al:
                self.objs[p.name] = self.objs[al]
                d[p.name] = d[al]
                setattr(v0, p.name, d[p.name])
                if rn is not None:
                    regs[rn] = Ptr(self.objs[p.name], 0)
                continue
            ety, es = CT[p.ctype]
            ln = p.length(v0)
            if isinstance(ln, int):
                ln = z3.IntVal(ln)
            o = Obj(p.name, "array", ety, es, ln, writable=p.out, nonan=p.nonan and not p.out)
            I = z3.IntSort()
            if ety.k == "int":
                c = IArr(z3.Array(p.name, I, I))
            else:
                c = FArr(None if p.nonan else z3.Array(p.name + ".nan", I, z3.BoolSort()), z3.Array(p.name, I, z3.RealSort()))
            st.mem[o.name] = c
            st.pc.append(ln >= 0)
            self.objs[p.name] = o
            d[p.name] = SymArr(c, p.nonan, p.ctype)
            setattr(v0, p.name, d[p.name])
            if rn is not None:
                regs[rn] = Ptr(o, 0)
        for p, rn in post:
            if p.kind == "endp":
                o = self.objs[p.of]
                regs[rn] = Ptr(o, sexec.Lin.of(p.length(v0)).scale(o.esize))
        for n, lo, hi in self.ghosts:
            g = z3.Int(n)
            d[n] = g
            setattr(v0, n, g)
            a, b = lo(v0), hi(v0)
            st.pc.append(z3.And(g >= a, g < b))
        for n, cf in self.ghost_reals:
            d[n] = FV(False, z3.Real(n))
            setattr(v0, n, d[n])
        for n, df in self.defines:
            x = df(View(d))
            if isinstance(x, FV):
                sy = FV(x.nan if isinstance(x.nan, bool) else z3.Bool("def." + n + ".nan"), z3.Real("def." + n))
                ex.pr.defs = [q for q in ex.pr.defs if q[0].decl().name() not in ("def." + n, "def." + n + ".nan")] + [(sy.val, x.val)]
                if not isinstance(x.nan, bool):
                    ex.pr.defs.append((sy.nan, B(x.nan)))
            elif z3.is_bool(B(x)):
                sy = z3.Bool("def." + n)
                ex.pr.defs = [q for q in ex.pr.defs if q[0].decl().name() != "def." + n] + [(sy, B(x))]
            else:
                sy = z3.Int("def." + n)
                ex.pr.defs = [q for q in ex.pr.defs if q[0].decl().name() != "def." + n] + [(sy, x)]
            d[n] = sy
            setattr(v0, n, sy)
        self.base = d
        for an, ef in self.req_elem:
            o = self.objs[an]
            v1 = View(d)
            if not hasattr(o, "onread"):
                o.onread = []
            o.onread.append((lambda v1, ef, o: lambda i: z3.Implies(z3.And(i >= 0, i < o.length), B(ef(v1, i))))(v1, ef, o))
        for r in self.req:
            g = r(View(d))
            if isinstance(g, (list, tuple)):
                st.pc.extend(B(x) for x in g)
            else:
                st.pc.append(B(g))
        for a in self.axioms:
            g = a(View(d))
            st.pc.extend(g if isinstance(g, (list, tuple)) else [g])
        self.pre_pc = list(st.pc)
        ex.contract_objs = self.objs
        ex.ghost_index = d[self.ghosts[0][0]] if self.ghosts else None
        fr = Frame(f, regs, f.order[0], None, None, "")
        fr.idx = 0
        st.frames.append(fr)
        return st

    def symbol(self, mod):
        if self.fn in mod.funcs:
            return self.fn
        m = [n for n in mod.funcs if self.opts.get("match") and self.opts["match"](n)]
        if len(m) == 1:
            return m[0]
        raise Unsupported("function %s not found in the translation unit" % self.fn)

    def view(self, st, ret=None):
        d = dict(self.base)
        for p in self.params:
            if p.kind == "arr" and p.name in self.objs:
                o = self.objs[p.name]
                d[p.name + "_"] = SymArr(st.mem[o.name], False if p.out else p.nonan, p.ctype)
        d["ret"] = ret
        d["st"] = st
        d["heap"] = st.mem
        return View(d)

    def verify(self, mod, timeout_ms=4000, budget=240, debug=0, cvc5=True):
        pr = Prover(timeout_ms, cvc5)
        ex = Exec(mod, pr, dict(self.exec_opts))
        ex.o["div_hints"] = lambda: [f(View(self.base)) for f in self.div_hints]
        ex.o["debug"] = debug
        ex.o.setdefault("const_heap_fields", self.tu.endswith(".cc"))
        ex.deadline = time.time() + budget
        ex.make_view = lambda st: self.view(st)
        ex.candidates = list(self.invs)
        ex.phi_candidates = list(self.phi_invs)
        ex.multi_candidates = list(self.multi_invs)
        fa = []
        for cid, f, inst in self.foralls:
            g0 = self.ghosts[0][0]
            ex.candidates.append((cid, (lambda f: lambda v, ks: f(v, ks, getattr(v, g0)))(f)))
            fa.append((cid, f, inst))
        ex.o["forall"] = fa
        ex.callee_contracts = dict(self.callees)
        ex.array_candidates = list(self.array_invs)
        ex.strides = list(self.strides)
        ex.live_candidates = list(self.live_invs)
        ex.contract_ctype = {p.name: p.ctype for p in self.params}
        con = self

        def on_return(ex, st, v):
            fr_ret = v
            if v is not None and con.ret in ("size_t", "uint", "uchar", "ushort") and z3.is_int(v):
                w = {"size_t": 64, "uint": 32, "uchar": 8, "ushort": 16}[con.ret]
                fr_ret = ex.uns(st, v, w)
            if v is not None and con.ret == "bool" and not isinstance(v, bool) and z3.is_int(v):
                fr_ret = v != 0
            vw = con.view(st, fr_ret)
            if con.thr is not None:
                ex.require(st, "throws: no normal return when the request must be rejected", bnot(con.thr(vw)), "throws")
            for lab, fn in con.ens:
                g = fn(vw)
                if g is None:
                    continue
                ex.require(st, "ensures: " + lab, g, "ensures")

        def on_throw(ex, st):
            vw = con.view(st)
            if con.thr is not None:
                ex.require(st, "throws: only rejected requests throw", con.thr(vw), "throws")
            elif not con.may_throw:
                ex.require(st, "throws: never throws", False, "throws")

        ex.on_return = on_return
        ex.on_throw = on_throw
        res = {"fn": self.label, "status": None, "detail": ""}
        t0 = time.time()
        try:
            for nm in self.opts.get("noinline") or ():
                if nm in self.callees and ex.mod.func(nm) is None:
                    raise Unsupported("function under contract not found: " + nm)
            ex.run(self.setup)
            # vacuity: some normal (or throwing) exit must be reachable, precondition satisfiable
            s = z3.Solver()
            s.set("timeout", 4000)
            s.add(*self.pre_pc)
            sat = s.check()
            exits = ex.paths["return"] + ex.paths["throw"]
            if sat == z3.unsat:
                res["status"] = "vacuous"
                res["detail"] = "precondition unsatisfiable"
            elif exits == 0 or (self.ens and not any(k.startswith("ensures") for k in ex.oblig)):
                res["status"] = "vacuous"
                res["detail"] = "no exit reached"
            elif ex.failed:
                res["status"] = "refuted" if any(f["status"] == "refuted" for f in ex.failed) else "unknown"
                if res["status"] == "refuted" and ex.unk_drops:
                    res["status"] = "unknown"       # the counterexample only exists because an invariant is missing
                    res["detail"] = "loop invariant undecided: " + ", ".join(sorted(ex.unk_drops))[:200]
            else:
                res["status"] = "proved"
        except Unsupported as e:
            res["status"] = "unsupported"
            res["detail"] = str(e)
        except Budget as e:
            res["status"] = "unknown"
            res["detail"] = "budget: %s" % e
        except (RecursionError, z3.Z3Exception, AttributeError, TypeError, KeyError, IndexError, AssertionError, ValueError) as e:
            res["status"] = "unsupported"
            res["detail"] = "internal: %r" % e
            res["tb"] = traceback.format_exc()
        res["wall"] = time.time() - t0
        res["solver_s"] = pr.time
        res["queries"] = pr.queries
        res["oblig"] = {k: {"n": o["n"], "proved": o["proved"], "kind": o["kind"], "by": o["by"]} for k, o in ex.oblig.items()}
        res["assumptions"] = sorted(ex.assumptions)
        res["inlined"] = sorted(ex.inlined)
        res["paths"] = getattr(ex, "paths", {})
        res["restarts"] = getattr(ex, "restarts", 0)
        res["loops"] = len(ex.loops_seen)
        res["kept"] = {k: v for k, v in ex.kept.items()}
        res["failed"] = []
        seen = set()
        for f in ex.failed:
            inp = None
            if f["model"] is not None:
                try:
                    inp = self.model_input(f["model"])
                except Exception as e:
                    inp = None
            key = (f["label"], repr(inp))
            if key in seen:
                continue
            seen.add(key)
            res["failed"].append({"label": f["label"], "status": f["status"], "kind": f["kind"], "goal": f["goal"][:600], "path": f["path"][-40:],
                                  "model": str(f["model"])[:3000] if f["model"] is not None else None, "input": inp})
        return res

    # ---- counterexample -> concrete input
    def model_input(self, m):
        def ival(t):
            return m.eval(t, model_completion=True).as_long()

        def rval(t):
            x = m.eval(t, model_completion=True)
            if z3.is_rational_value(x):
                return float(x.numerator_as_long()) / float(x.denominator_as_long())
            if z3.is_algebraic_value(x):
                a = x.approx(20)
                return float(a.numerator_as_long()) / float(a.denominator_as_long())
            return 0.0

        out = {}
        cvals = {}
        for p in self.params:
            if p.kind == "int":
                out[p.name] = ival(z3.Int(p.name))
            elif p.kind == "flt":
                nan = (not p.nonan) and z3.is_true(m.eval(z3.Bool(p.name + ".nan"), model_completion=True))
                out[p.name] = float("nan") if nan else rval(z3.Real(p.name))
            elif p.kind == "str":
                k = ival(z3.Int(p.name))
                inv = {v: s for s, v in Exec.LITS.items()}
                out[p.name] = inv.get(k, b"?unknown?").decode()
        v = View(dict(out))
        for p in self.params:
            if p.kind == "arr":
                if self.alias.get(p.name):
                    continue
                n = int(p.length(v))
                if n < 0 or n > 200000:
                    return None
                I = z3.IntSort()
                vals = []
                if CT[p.ctype][0].k == "int":
                    a = z3.Array(p.name, I, I)
                    for i in range(n):
                        vals.append(ival(z3.Select(a, i)))
                else:
                    a = z3.Array(p.name, I, z3.RealSort())
                    b = z3.Array(p.name + ".nan", I, z3.BoolSort())
                    for i in range(n):
                        if not p.nonan and z3.is_true(m.eval(z3.Select(b, i), model_completion=True)):
                            vals.append(float("nan"))
                        else:
                            vals.append(rval(z3.Select(a, i)))
                out[p.name] = vals
                setattr(v, p.name, None)
        return out

    def symbol_native(self):
        return self.opts.get("native", self.fn)

    def irkey(self):
        return (self.tu, tuple(self.opts.get("public") or ([self.fn] if self.tu.startswith("shim:") else ())), tuple(self.opts.get("noinline") or ()), self.opts.get("rounds", 0))


class Bounded:
    """bounded stand-in: a function of (rng, native library) judged by an executable oracle; never counted as proved"""

    def __init__(self, label, bound, run, tus=(), link=False, n=1, extra=()):
        self.label, self.bound, self.run, self.tus, self.link, self.n, self.extra = label, bound, run, list(tus), link, n, list(extra)
        self.prepared = None

    def prepare(self):
        from . import build
        if not self.tus:
            return None
        import re
        return build.make_so(self.tus, "b_" + re.sub(r"\W", "_", self.label), self.link, self.extra)

    def execute(self, seed, tier):
        if isinstance(self.prepared, Exception):
            raise self.prepared
        rng = random.Random("%s/%s" % (seed, self.label))
        return self.run(rng, self.prepared, self.n * (10 if tier == "thorough" else 1))


class Program(Bounded):
    """bounded stand-in written as a C++ program against the public interface of libfimex (built from the
    current tree): prints 'RUNS <n> <distinct>' and exits 0, or prints 'FAIL <text>' and exits 1"""

    def __init__(self, label, bound, src, n=1, timeout=300, defines=(), plugins=(), libs=()):
        Bounded.__init__(self, label, bound, None, [src], True, n)
        self.src, self.timeout, self.defines, self.plugins, self.libs = src, timeout, list(defines), list(plugins), list(libs)

    def prepare(self):
        from . import build
        return build.make_exe(self.src, self.defines, self.plugins, self.libs)

    def execute(self, seed, tier):
        import subprocess, tempfile, re, os
        from . import build
        if isinstance(self.prepared, Exception):
            raise self.prepared
        n = self.n * (10 if tier == "thorough" else 1)
        with tempfile.TemporaryDirectory() as d:
            try:
                p = subprocess.run([self.prepared, str(seed), str(n), d], capture_output=True, text=True, timeout=self.timeout, cwd=d, errors="replace",
                                   env=dict(os.environ, OMP_NUM_THREADS="1", FIMEX_IO_PLUGINS_PATH=build.plugin_path(self.plugins) or d))
            except subprocess.TimeoutExpired:
                return {"n": 0, "distinct": 0, "failure": None, "error": "timeout"}
        m = re.search(r"RUNS (\d+) (\d+)", p.stdout)
        r = {"n": int(m.group(1)) if m else 0, "distinct": int(m.group(2)) if m else 0, "failure": None}
        if p.returncode == 1 and "FAIL" in p.stdout:
            r["failure"] = {"command": "%s %s %s <scratch>" % (self.src, seed, n), "text": p.stdout[-3000:]}
        elif p.returncode != 0:
            r["failure"] = {"command": "%s %s %s <scratch>" % (self.src, seed, n), "text": "ended with status %d\n%s\n%s" % (p.returncode, p.stdout[-2000:], p.stderr[-1500:])}
        return r
