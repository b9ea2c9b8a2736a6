"""Concrete execution of a contract against the real compiled code: the verifier's counterexamples
and a seeded set of generated inputs are run natively (forked child, guard pages next to every
array), and the executable reading of the same contract judges the outcome."""
import ctypes, mmap, os, pickle, random, signal, struct, sys, itertools, math, time
import numpy as np
from . import val
from .spec import View, ConArr, RANGE

NP = {"float": np.float32, "double": np.float64, "int": np.int32, "char": np.int8, "uchar": np.uint8, "short": np.int16, "ushort": np.uint16,
      "uint": np.uint32, "size_t": np.uint64, "long": np.int64, "bool": np.uint8}
CTY = {"float": ctypes.c_float, "double": ctypes.c_double, "int": ctypes.c_int, "char": ctypes.c_byte, "uchar": ctypes.c_ubyte, "short": ctypes.c_short,
       "ushort": ctypes.c_ushort, "uint": ctypes.c_uint, "size_t": ctypes.c_size_t, "long": ctypes.c_long, "bool": ctypes.c_bool}
PAGE = 4096
libc = ctypes.CDLL(None, use_errno=True)
libc.mmap.restype = ctypes.c_void_p
libc.mmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long]
libc.mprotect.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]
libc.munmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t]


class Guarded:
    """array placed against an inaccessible page: after its end (side=1) or before its start (side=0)"""

    def __init__(self, data, side):
        self.n = data.nbytes
        pages = max(1, (self.n + PAGE - 1) // PAGE)
        self.tot = (pages + 2) * PAGE
        self.base = libc.mmap(None, self.tot, 3, 0x22, -1, 0)
        libc.mprotect(self.base, PAGE, 0)
        libc.mprotect(self.base + (pages + 1) * PAGE, PAGE, 0)
        self.addr = self.base + PAGE + (pages * PAGE - self.n if side else 0)
        ctypes.memmove(self.addr, data.ctypes.data, self.n)
        self.dt = data.dtype
        self.len = len(data)

    def get(self):
        b = ctypes.string_at(self.addr, self.n)
        return np.frombuffer(b, dtype=self.dt).copy()

    def free(self):
        libc.munmap(self.base, self.tot)


def to_np(p, vals):
    dt = NP[p.ctype]
    if np.dtype(dt).kind == "f":
        return np.array(vals, dtype=dt)
    return np.array([int(x) for x in vals], dtype=np.object_).astype(dt) if len(vals) else np.array([], dtype=dt)


class Caller:
    def __init__(self, so):
        self.lib = ctypes.CDLL(so)

    def call(self, con, inp, side):
        """one call; returns dict(ret, out arrays, threw)"""
        fn = getattr(self.lib, con.symbol_native())
        args, guards, argt = [], {}, []
        for p in con.params:
            if p.kind == "arr" and not con.alias.get(p.name):
                guards[p.name] = Guarded(to_np(p, inp[p.name]), side)
        for p in con.params:
            if getattr(p, "ghostparam", False):
                continue
            if p.kind == "int":
                argt.append(CTY[p.ctype])
                args.append(int(inp[p.name]))
            elif p.kind == "flt":
                argt.append(CTY[p.ctype])
                args.append(float(inp[p.name]))
            elif p.kind == "str":
                argt.append(ctypes.c_char_p)
                args.append(str(inp[p.name]).encode())
            elif p.kind == "fn":
                argt.append(ctypes.c_void_p)
                args.append(ctypes.cast(getattr(self.lib, p.target), ctypes.c_void_p).value)
            elif p.kind == "null":
                argt.append(ctypes.c_void_p)
                args.append(None)
            elif p.kind == "endp":
                g = guards[con.alias.get(p.of, p.of)]
                argt.append(ctypes.c_void_p)
                args.append(g.addr + int(p.length(View(inp))) * g.dt.itemsize)
            else:
                argt.append(ctypes.c_void_p)
                args.append(guards[con.alias.get(p.name, p.name)].addr)
        fn.argtypes = argt
        fn.restype = CTY[con.ret] if con.ret else None
        try:
            thr = ctypes.c_int.in_dll(self.lib, "verif_threw")
            thr.value = 0
        except ValueError:
            thr = None
        r = fn(*args)
        out = {n: g.get() for n, g in guards.items()}
        for g in guards.values():
            g.free()
        return {"ret": r, "out": out, "threw": bool(thr.value) if thr is not None else False}


def run_batch(so, con, inputs, timeout=20):
    """run inputs natively in forked children; -> list of result dicts ({'crash':...} on a fatal signal)"""
    res = []
    i = 0
    while i < len(inputs):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                dn = os.open(os.devnull, os.O_WRONLY)
                os.dup2(dn, 1)
                os.dup2(dn, 2)
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                f = os.fdopen(w, "wb")
                c = Caller(so)
                for k in range(i, len(inputs)):
                    signal.alarm(timeout)
                    o = c.call(con, inputs[k][0], inputs[k][1])
                    signal.alarm(0)
                    b = pickle.dumps(o)
                    f.write(struct.pack("<Q", len(b)) + b)
                    f.flush()
                os._exit(0)
            except BaseException as e:
                try:
                    b = pickle.dumps({"pyerr": repr(e)})
                    f.write(struct.pack("<Q", len(b)) + b)
                    f.flush()
                except BaseException:
                    pass
                os._exit(3)
        os.close(w)
        f = os.fdopen(r, "rb")
        while True:
            h = f.read(8)
            if len(h) < 8:
                break
            n = struct.unpack("<Q", h)[0]
            b = f.read(n)
            if len(b) < n:
                break
            res.append(pickle.loads(b))
            i += 1
        f.close()
        _, stt = os.waitpid(pid, 0)
        if i < len(inputs):
            if os.WIFSIGNALED(stt):
                s = os.WTERMSIG(stt)
                res.append({"crash": "did not return within %d s" % timeout if s == signal.SIGALRM else "killed by signal %d (%s)" % (s, signal.Signals(s).name)})
                i += 1
            elif res and "pyerr" in res[-1]:
                raise RuntimeError("replay: " + res[-1]["pyerr"])
            else:
                res.append({"crash": "process ended"})
                i += 1
    return res


def con_view(con, inp, res=None):
    d = {}
    for p in con.params:
        if p.kind == "int":
            d[p.name] = int(inp[p.name])
        elif p.kind == "flt":
            d[p.name] = np.float64(NP[p.ctype](inp[p.name]))
        elif p.kind == "str":
            d[p.name] = inp[p.name]
        elif p.kind == "arr":
            src = con.alias.get(p.name, p.name)
            sp = [q for q in con.params if q.name == src][0]
            d[p.name] = ConArr(to_np(sp, inp[src]))
            if res is not None and "out" in res:
                d[p.name + "_"] = ConArr(res["out"][src])
    if res is not None:
        r = res.get("ret")
        if con.ret in ("float", "double"):
            r = np.float64(r)
        d["ret"] = r
    return View(d)


def valid(con, inp):
    """precondition in the executable reading"""
    for p in con.params:
        if p.kind == "int":
            lo, hi = RANGE[p.ctype]
            lo = p.lo if p.lo is not None else lo
            hi = p.hi if p.hi is not None else hi
            if not (lo <= inp[p.name] <= hi):
                return False
        if p.kind == "flt" and p.nonan and math.isnan(inp[p.name]):
            return False
    v = con_view(con, inp)
    for p in con.params:
        if p.kind == "arr" and not con.alias.get(p.name):
            if len(inp[p.name]) != int(p.length(v)):
                return False
            if p.nonan and any(math.isnan(x) for x in inp[p.name]):
                return False
    # preconditions indexed by ghosts must hold for every ghost value
    for gv in ghosts(con, v):
        for an, ef in con.req_elem:
            if not all(bool(ef(gv, i)) for i in range(len(getattr(v, an)))):
                return False
        for r in con.req:
            x = r(gv)
            if isinstance(x, (list, tuple)):
                if not all(bool(y) for y in x):
                    return False
            elif not bool(x):
                return False
    return True


def ghosts(con, v, limit=4000):
    """every assignment of the ghost indices (bounded)"""
    def rec(i, w):
        if i == len(con.ghosts):
            for n, cf in con.ghost_reals:
                setattr(w, n, cf(w))
            for n, f in con.defines:
                setattr(w, n, f(w))
            yield w
            return
        n, lo, hi = con.ghosts[i]
        for g in range(int(lo(w)), int(hi(w))):
            w2 = View(dict(w.__dict__))
            setattr(w2, n, g)
            yield from rec(i + 1, w2)
    c = 0
    for w in rec(0, v):
        yield w
        c += 1
        if c > limit:
            return


def judge(con, inp, res):
    """None if the outcome satisfies the contract, else a description"""
    if "crash" in res:
        return {"label": "memory: runs without a fatal signal", "detail": res["crash"]}
    m = [abs(float(x)) for p in con.params if p.kind == "arr" and not con.alias.get(p.name) and np.dtype(NP[p.ctype]).kind == "f" and not p.out
         for x in inp[p.name] if math.isfinite(x)]
    val.Tol.abs = 1e-6 * max([1.0] + m) if con.opts.get("abstol") is None else con.opts["abstol"]
    val.Tol.rel = con.opts.get("rel", 2e-5)
    v = con_view(con, inp, res)
    for p in con.params:
        if p.kind == "arr" and not p.out and not con.alias.get(p.name):
            a, b = to_np(p, inp[p.name]), res["out"][p.name]
            if a.tobytes() != b.tobytes():
                return {"label": "frame: %s is not modified" % p.name, "detail": "changed from %s to %s" % (a.tolist(), b.tolist())}
    v0 = v
    if con.thr is not None:
        gv = next(iter(ghosts(con, v0)), v0)
        t = bool(con.thr(gv))
        if t and not res["threw"]:
            return {"label": "throws: no normal return when the request must be rejected", "detail": "returned %r" % (res["ret"],)}
        if not t and res["threw"]:
            return {"label": "throws: only rejected requests throw", "detail": "threw"}
    elif res["threw"] and not con.may_throw:
        return {"label": "throws: never throws", "detail": "threw"}
    if res["threw"]:
        return None
    for w in ghosts(con, v0):
        for lab, f in con.ens:
            x = f(w)
            if x is None:
                continue
            if not bool(x):
                g = {n: getattr(w, n) for n, _, _ in con.ghosts}
                return {"label": "ensures: " + lab, "detail": "fails at %s; returned %r, out %s" % (g, res["ret"], {k: a.tolist()[:64] for k, a in res["out"].items()})}
    return None


# ------------------------------------------------------------------ input generation
NICE = [0.0, 1.0, -1.0, 0.5, 2.0, 3.0, -2.5, 4.25, 7.0, 10.0, -0.75, 100.0]


def rnd_float(rng, nan=0.0):
    if rng.random() < nan:
        return float("nan")
    k = rng.random()
    if k < 0.35:
        return rng.choice(NICE)
    return rng.randint(-64, 64) / 8.0


def default_gen(con, rng, sizes=6):
    inp = {}
    for p in con.params:
        if p.kind == "int":
            lo, hi = RANGE[p.ctype]
            lo = p.lo if p.lo is not None else lo
            hi = p.hi if p.hi is not None else hi
            inp[p.name] = max(lo, min(hi, rng.randint(max(lo, -2), max(lo, min(hi, sizes)))))
        elif p.kind == "flt":
            inp[p.name] = rnd_float(rng, 0.0 if p.nonan else 0.1)
        elif p.kind == "str":
            inp[p.name] = rng.choice(con.opts.get("strings", ["x"]))
    v = View(dict(inp))
    nanp = rng.choice([0.0, 0.0, 0.2, 0.6])
    for p in con.params:
        if p.kind == "arr" and not con.alias.get(p.name):
            n = int(p.length(v))
            if np.dtype(NP[p.ctype]).kind == "f":
                inp[p.name] = [rnd_float(rng, 0.0 if p.nonan else nanp) for _ in range(n)]
            else:
                lo, hi = RANGE[p.ctype]
                inp[p.name] = [rng.randint(max(lo, -9), min(hi, 9)) for _ in range(n)]
            setattr(v, p.name, ConArr(to_np(p, inp[p.name])))
    return inp


def fuzz(con, so, seed, tries, deadline=None):
    """bounded concrete run of the contract; -> (n_run, n_distinct, failure|None)"""
    rng = random.Random("%s/%s" % (seed, con.label))
    gen = con.gen or default_gen
    batch, seen, n = [], set(), 0
    rejected = 0
    while n + len(batch) < tries and rejected < 20 * tries:
        inp = gen(con, rng) if gen is default_gen else gen(rng)
        if inp is None or not valid(con, inp):
            rejected += 1
            continue
        seen.add(repr(inp))
        batch.append((inp, rng.randint(0, 1)))
        if len(batch) == 100:
            f = judge_batch(con, so, batch)
            n += len(batch)
            batch = []
            if f:
                return n, len(seen), f
            if deadline and time.time() > deadline:
                return n, len(seen), None
    if batch:
        f = judge_batch(con, so, batch)
        n += len(batch)
        if f:
            return n, len(seen), f
    return n, len(seen), None


def judge_batch(con, so, batch):
    for (inp, side), res in zip(batch, run_batch(so, con, batch)):
        j = judge(con, inp, res)
        if j:
            return {"input": inp, "side": side, **j}
    return None


def confirm(con, so, inputs):
    """try the verifier's counterexamples on the real code"""
    for inp in inputs:
        if inp is None:
            continue
        try:
            for q in con.params:
                if q.kind == "arr" and q.out and not con.alias.get(q.name) and q.name not in inp:
                    return None
            if not valid(con, inp):
                continue
            f = judge_batch(con, so, [(inp, 1), (inp, 0)])
            if f:
                f["from"] = "verifier counterexample"
                return f
        except Exception:
            continue
    return None
