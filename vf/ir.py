"""Parser for the textual LLVM IR (LLVM 18, opaque pointers) that clang emits for the
sources in /repo.  Only the constructs that occur there are supported; anything else
raises Unsupported, which the checks report as "outside the verifier's reach"."""
import re, struct


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "a", "b")

    def __init__(self, k, a=None, b=None):
        self.k, self.a, self.b = k, a, b

    def __repr__(self):
        if self.k == "int":
            return "i%d" % self.a
        if self.k == "arr":
            return "[%d x %r]" % (self.a, self.b)
        if self.k == "struct":
            return "{%s}" % ", ".join(map(repr, self.a))
        if self.k == "named":
            return "%%%s" % self.a
        return self.k


I1 = Ty("int", 1)
I8 = Ty("int", 8)
I32 = Ty("int", 32)
I64 = Ty("int", 64)
PTR = Ty("ptr")
VOID = Ty("void")
FLOAT = Ty("float")
DOUBLE = Ty("double")

TOK = re.compile(
    r'\s*(?:'
    r'(?P<str>c?"(?:[^"])*")|'
    r'(?P<id>[%@](?:"[^"]*"|[-a-zA-Z$._0-9]+))|'
    r'(?P<meta>![-a-zA-Z$._0-9]*)|'
    r'(?P<attr>#\d+)|'
    r'(?P<hex>0x[KMLHR]?[0-9A-Fa-f]+)|'
    r'(?P<num>-?\d+(?:\.\d*(?:[eE][-+]?\d+)?)?)|'
    r'(?P<word>[a-zA-Z_.$][-a-zA-Z_.$0-9]*)|'
    r'(?P<p>\.\.\.|[(){}\[\]<>,=*|:])'
    r')')


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == "":
                break
            if s[i:].lstrip().startswith(";"):
                break
            raise Unsupported("token at: " + s[i:i + 60])
        i = m.end()
        k = m.lastgroup
        out.append((k, m.group(k)))
    return out


class TS:
    """token stream"""

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self, k=0):
        return self.t[self.i + k][1] if self.i + k < len(self.t) else None

    def kind(self, k=0):
        return self.t[self.i + k][0] if self.i + k < len(self.t) else None

    def next(self):
        v = self.t[self.i][1]
        self.i += 1
        return v

    def accept(self, v):
        if self.peek() == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        x = self.next() if self.i < len(self.t) else None
        if x != v:
            raise Unsupported("expected %s got %s in %s" % (v, x, " ".join(t[1] for t in self.t)))

    def end(self):
        return self.i >= len(self.t)


PARAM_ATTRS = set("""noundef nonnull noalias nocapture readonly writeonly readnone returned zeroext signext
immarg nofree nest swiftself noinline allocptr allocalign dead_on_unwind writable inreg nosync""".split())


def parse_type(ts):
    t = ts.next()
    k = ts.t[ts.i - 1][0]
    if t == "ptr":
        r = PTR
    elif t == "void":
        r = VOID
    elif t in ("float", "double", "x86_fp80", "half", "fp128"):
        r = {"float": FLOAT, "double": DOUBLE}.get(t) or Ty(t)
    elif re.fullmatch(r"i\d+", t):
        r = Ty("int", int(t[1:]))
    elif t in ("label", "metadata", "token", "opaque"):
        r = Ty(t)
    elif t == "[":
        n = int(ts.next())
        ts.expect("x")
        e = parse_type(ts)
        ts.expect("]")
        r = Ty("arr", n, e)
    elif t == "<":
        if ts.peek() == "{":
            ts.next()
            r = _struct_body(ts, True)
            ts.expect(">")
        else:
            n = int(ts.next())
            ts.expect("x")
            e = parse_type(ts)
            ts.expect(">")
            r = Ty("vec", n, e)
    elif t == "{":
        r = _struct_body(ts, False)
    elif k == "id" and t[0] == "%":
        r = Ty("named", t[1:])
    else:
        raise Unsupported("type " + t)
    # function type: ret (args)
    return r


def _struct_body(ts, packed):
    els = []
    if ts.accept("}"):
        return Ty("struct", [], packed)
    while True:
        els.append(parse_type(ts))
        if ts.accept("}"):
            break
        ts.expect(",")
    return Ty("struct", els, packed)


# ---------------------------------------------------------------- values
class Const:
    __slots__ = ("k", "v", "ty")

    def __init__(self, k, v, ty=None):
        self.k, self.v, self.ty = k, v, ty

    def __repr__(self):
        return "<%s %r>" % (self.k, self.v)


class Reg:
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return "%" + self.n


def unq(n):
    n = n[1:]
    if n.startswith('"'):
        n = n[1:-1]
    return n


def parse_value(ts, ty):
    k, v = ts.kind(), ts.next()
    if k == "id":
        if v[0] == "%":
            return Reg(unq(v))
        return Const("global", unq(v), ty)
    if k == "num":
        if ty.k in ("float", "double"):
            return Const("fp", float(v), ty)
        return Const("int", int(v), ty)
    if k == "hex":
        h = v[2:]
        if h[0] in "KMLHR":
            return Const("fp80", v, ty)
        d = struct.unpack(">d", bytes.fromhex(h.rjust(16, "0")))[0]
        return Const("fp", d, ty)
    if v == "true":
        return Const("int", 1, ty)
    if v == "false":
        return Const("int", 0, ty)
    if v in ("null", "undef", "poison", "zeroinitializer", "none"):
        return Const(v, None, ty)
    if k == "str" and v[0] == "c":
        return Const("bytes", _cstr(v[2:-1]), ty)
    if v in ("{", "["):
        close = {"{": "}", "[": "]"}[v]
        els = []
        if not ts.accept(close):
            while True:
                t = parse_type(ts)
                els.append((t, parse_value(ts, t)))
                if ts.accept(close):
                    break
                ts.expect(",")
        return Const("agg", els, ty)
    if v == "<":
        # packed struct constant or vector constant
        if ts.peek() == "{":
            ts.next()
            els = []
            if not ts.accept("}"):
                while True:
                    t = parse_type(ts)
                    els.append((t, parse_value(ts, t)))
                    if ts.accept("}"):
                        break
                    ts.expect(",")
            ts.expect(">")
            return Const("agg", els, ty)
        els = []
        while True:
            t = parse_type(ts)
            els.append((t, parse_value(ts, t)))
            if ts.accept(">"):
                break
            ts.expect(",")
        return Const("vec", els, ty)
    if v == "getelementptr":
        inb = ts.accept("inbounds")
        while ts.kind() == "word" and ts.peek() in ("inrange", "nuw", "nusw"):
            ts.next()
        ts.expect("(")
        sty = parse_type(ts)
        ts.expect(",")
        ops = []
        while True:
            if ts.accept("inrange"):
                pass
            t = parse_type(ts)
            ops.append((t, parse_value(ts, t)))
            if ts.accept(")"):
                break
            ts.expect(",")
        return Const("gep", (sty, ops), ty)
    if v in ("bitcast", "ptrtoint", "inttoptr", "trunc", "zext", "sext", "addrspacecast"):
        ts.expect("(")
        t = parse_type(ts)
        val = parse_value(ts, t)
        ts.expect("to")
        t2 = parse_type(ts)
        ts.expect(")")
        return Const("cast", (v, t, val, t2), ty)
    if v in ("sub", "add", "mul"):
        while ts.peek() in ("nsw", "nuw"):
            ts.next()
        ts.expect("(")
        t = parse_type(ts)
        a = parse_value(ts, t)
        ts.expect(",")
        t2 = parse_type(ts)
        b = parse_value(ts, t2)
        ts.expect(")")
        return Const("binop", (v, t, a, b), ty)
    if v in ("dso_local_equivalent", "no_cfi"):
        return parse_value(ts, ty)
    raise Unsupported("value " + v)


def _cstr(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "\\":
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


# ---------------------------------------------------------------- module
class Inst:
    __slots__ = ("op", "res", "ty", "a", "txt")

    def __init__(self, op, res, ty, a, txt):
        self.op, self.res, self.ty, self.a, self.txt = op, res, ty, a, txt

    def __repr__(self):
        return self.txt


class Block:
    __slots__ = ("name", "insts", "succ", "preds", "lines")

    def __init__(self, name):
        self.name = name
        self.insts = []
        self.succ = []
        self.preds = []
        self.lines = []


class Func:
    def __init__(self, name, ret, params):
        self.name, self.ret, self.params = name, ret, params  # params [(ty, regname)]
        self.blocks = {}
        self.order = []
        self.parsed = False
        self.vararg = False
        self.loops = None

    # natural loops: header -> set of blocks
    def find_loops(self):
        if self.loops is not None:
            return self.loops
        dom = self._dominators()
        loops = {}
        for b in self.order:
            if b not in dom:
                continue
            for s in self.blocks[b].succ:
                if s in dom.get(b, ()):  # back edge b->s
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        st.extend(p for p in self.blocks[x].preds if p in dom)
        self.loops = loops
        return loops

    def _dominators(self):
        entry = self.order[0]
        # reachable order
        seen = []
        st = [entry]
        mark = set()
        while st:
            x = st.pop()
            if x in mark:
                continue
            mark.add(x)
            seen.append(x)
            st.extend(self.blocks[x].succ)
        dom = {b: set(mark) for b in mark}
        dom[entry] = {entry}
        ch = True
        order = [b for b in self.order if b in mark]
        while ch:
            ch = False
            for b in order:
                if b == entry:
                    continue
                ps = [dom[p] for p in self.blocks[b].preds if p in mark]
                nd = set.intersection(*ps) | {b} if ps else {b}
                if nd != dom[b]:
                    dom[b] = nd
                    ch = True
        return dom


class Module:
    def __init__(self, text):
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.aliases = {}
        self._parse(text)
        self._lay = {}

    def _parse(self, text):
        lines = text.split("\n")
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith("define "):
                body = []
                j = i + 1
                while lines[j] != "}":
                    body.append(lines[j])
                    j += 1
                self._func(l, body)
                i = j + 1
                continue
            if l.startswith("declare "):
                pass
            elif l.startswith("%") and " = type " in l:
                nm, rest = l.split(" = type ", 1)
                ts = TS(tokenize(rest), self)
                nm = nm.strip()[1:]
                self.types[nm] = Ty("opaque") if ts.peek() == "opaque" else parse_type(ts)
            elif l.startswith("@"):
                m = re.match(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = (.*)$', l)
                if m:
                    self.globals[unq(m.group(1))] = m.group(2)
            i += 1

    def _func(self, head, body):
        m = re.match(r'define (.*?)(@(?:"[^"]*"|[-a-zA-Z$._0-9]+))\(', head)
        name = unq(m.group(2))
        pre = m.group(1)
        toks = tokenize(pre)
        # return type: last type in pre
        ts = TS(toks, self)
        ret = None
        while not ts.end():
            w = ts.peek()
            if w in ("dso_local", "internal", "linkonce_odr", "weak_odr", "private", "noundef", "zeroext", "signext", "hidden", "protected",
                     "local_unnamed_addr", "unnamed_addr", "noalias", "nonnull", "available_externally", "fastcc", "linkonce", "weak", "external", "coldcc",
                     "default", "preallocated"):
                ts.next()
                continue
            if w in ("align",):
                ts.next(); ts.next(); continue
            if w in ("dereferenceable", "dereferenceable_or_null", "range"):
                ts.next()
                skip_paren(ts)
                continue
            ret = parse_type(ts)
        rest = head[m.end():]
        ts = TS(tokenize(rest), self)
        params = []
        vararg = False
        idx = 0
        if not ts.accept(")"):
            while True:
                if ts.accept("..."):
                    vararg = True
                    ts.expect(")")
                    break
                t = parse_type(ts)
                skip_param_attrs(ts)
                nm = None
                if ts.kind() == "id":
                    nm = unq(ts.next())
                else:
                    nm = str(idx)
                idx += 1
                params.append((t, nm))
                if ts.accept(")"):
                    break
                ts.expect(",")
        f = Func(name, ret, params)
        f.vararg = vararg
        f.body = body
        self.funcs[name] = f

    # ---- lazily parse the body
    def func(self, name):
        f = self.funcs.get(name)
        if f is None:
            return None
        if not f.parsed:
            self._body(f)
            f.parsed = True
        return f

    def _body(self, f):
        first = str(len([1 for p in f.params])) if True else None
        cur = None
        buf = None
        entry = None
        lines = []
        for l in f.body:
            s = l.strip()
            if not s:
                continue
            lines.append(l)
        # join multi-line switch / landingpad / invoke
        joined = []
        k = 0
        while k < len(lines):
            l = lines[k]
            s = l.strip()
            if re.search(r"\bswitch\b.*\[$", s):
                while not lines[k].strip().startswith("]"):
                    k += 1
                    s += " " + lines[k].strip()
            elif re.match(r"(%\S+ = )?(tail |musttail |notail )?invoke ", s):
                while " unwind label" not in s:
                    k += 1
                    s += " " + lines[k].strip()
            elif re.match(r"(%\S+ = )?landingpad", s):
                while k + 1 < len(lines) and re.match(r"\s+(cleanup|catch|filter)\b", lines[k + 1]):
                    k += 1
                    s += " " + lines[k].strip()
            joined.append((l, s))
            k += 1
        for l, s in joined:
            m = re.match(r'^((?:"[^"]*"|[-a-zA-Z$._0-9]+)):', l)
            if m and not l.startswith(" "):
                nm = m.group(1)
                if nm.startswith('"'):
                    nm = nm[1:-1]
                cur = Block(nm)
                f.blocks[nm] = cur
                f.order.append(nm)
                continue
            if cur is None:
                # entry block implicit number = number of unnamed args
                nm = str(sum(1 for _, q in f.params if q.isdigit()))
                cur = Block(nm)
                f.blocks[nm] = cur
                f.order.append(nm)
            cur.insts.append(self._inst(s))
        for b in f.order:
            blk = f.blocks[b]
            t = blk.insts[-1]
            if t.op == "br":
                blk.succ = [t.a[1]] if t.a[0] is None else [t.a[1], t.a[2]]
            elif t.op == "switch":
                blk.succ = [t.a[1]] + [x[1] for x in t.a[2]]
            elif t.op == "invoke":
                blk.succ = [t.a["normal"], t.a["unwind"]]
            else:
                blk.succ = []
            for s_ in set(blk.succ):
                f.blocks[s_].preds.append(b)

    def _inst(self, s):
        txt = s
        res = None
        ts = TS(tokenize(s), self)
        if ts.kind() == "id" and ts.peek(1) == "=":
            res = unq(ts.next())
            ts.next()
        op = ts.next()
        if op in ("tail", "musttail", "notail"):
            op = ts.next()
        if op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor"):
            flags = set()
            while ts.peek() in ("nsw", "nuw", "exact", "disjoint"):
                flags.add(ts.next())
            ty = parse_type(ts)
            a = parse_value(ts, ty)
            ts.expect(",")
            b = parse_value(ts, ty)
            return Inst("bin", res, ty, (op, a, b, flags), txt)
        if op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            skip_fmf(ts)
            ty = parse_type(ts)
            a = parse_value(ts, ty)
            ts.expect(",")
            b = parse_value(ts, ty)
            return Inst("fbin", res, ty, (op, a, b), txt)
        if op == "fneg":
            skip_fmf(ts)
            ty = parse_type(ts)
            return Inst("fneg", res, ty, parse_value(ts, ty), txt)
        if op in ("icmp", "fcmp"):
            if op == "fcmp":
                skip_fmf(ts)
            pred = ts.next()
            ty = parse_type(ts)
            a = parse_value(ts, ty)
            ts.expect(",")
            b = parse_value(ts, ty)
            return Inst(op, res, ty, (pred, a, b), txt)
        if op == "phi":
            skip_fmf(ts)
            ty = parse_type(ts)
            inc = []
            while True:
                ts.expect("[")
                v = parse_value(ts, ty)
                ts.expect(",")
                b = unq(ts.next())
                ts.expect("]")
                inc.append((v, b))
                if not (ts.peek() == "," and ts.peek(1) == "["):
                    break
                ts.next()
            return Inst("phi", res, ty, inc, txt)
        if op == "br":
            if ts.peek() == "label":
                ts.next()
                return Inst("br", None, None, (None, unq(ts.next())), txt)
            parse_type(ts)
            c = parse_value(ts, I1)
            ts.expect(",")
            ts.expect("label")
            t = unq(ts.next())
            ts.expect(",")
            ts.expect("label")
            e = unq(ts.next())
            return Inst("br", None, None, (c, t, e), txt)
        if op == "switch":
            ty = parse_type(ts)
            v = parse_value(ts, ty)
            ts.expect(",")
            ts.expect("label")
            d = unq(ts.next())
            ts.expect("[")
            cs = []
            while not ts.accept("]"):
                t = parse_type(ts)
                cv = parse_value(ts, t)
                ts.expect(",")
                ts.expect("label")
                cs.append((cv.v, unq(ts.next())))
            return Inst("switch", None, ty, (v, d, cs), txt)
        if op == "ret":
            if ts.peek() == "void":
                return Inst("ret", None, VOID, None, txt)
            ty = parse_type(ts)
            return Inst("ret", None, ty, parse_value(ts, ty), txt)
        if op == "unreachable":
            return Inst("unreachable", None, None, None, txt)
        if op == "alloca":
            ts.accept("inalloca")
            ty = parse_type(ts)
            cnt = None
            if ts.accept(","):
                if ts.peek() not in ("align", "addrspace"):
                    t = parse_type(ts)
                    cnt = parse_value(ts, t)
            return Inst("alloca", res, PTR, (ty, cnt), txt)
        if op == "load":
            ts.accept("atomic")
            ts.accept("volatile")
            ty = parse_type(ts)
            ts.expect(",")
            pt = parse_type(ts)
            return Inst("load", res, ty, parse_value(ts, pt), txt)
        if op == "store":
            ts.accept("atomic")
            ts.accept("volatile")
            ty = parse_type(ts)
            v = parse_value(ts, ty)
            ts.expect(",")
            pt = parse_type(ts)
            p = parse_value(ts, pt)
            return Inst("store", None, ty, (v, p), txt)
        if op == "atomicrmw":
            ts.accept("volatile")
            o = ts.next()
            if isinstance(o, tuple):
                o = o[1]
            pt = parse_type(ts)
            p = parse_value(ts, pt)
            ts.expect(",")
            ty = parse_type(ts)
            v = parse_value(ts, ty)
            return Inst("atomicrmw", res, ty, (o, p, v), txt)
        if op == "getelementptr":
            while ts.peek() in ("inbounds", "nuw", "nusw"):
                ts.next()
            sty = parse_type(ts)
            ops = []
            while ts.accept(","):
                if ts.kind() == "meta":
                    break
                t = parse_type(ts)
                ops.append((t, parse_value(ts, t)))
            return Inst("gep", res, PTR, (sty, ops), txt)
        if op in ("zext", "sext", "trunc", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc", "bitcast", "ptrtoint", "inttoptr", "addrspacecast"):
            while ts.peek() in ("nneg", "nuw", "nsw"):
                ts.next()
            t = parse_type(ts)
            v = parse_value(ts, t)
            ts.expect("to")
            t2 = parse_type(ts)
            return Inst("cast", res, t2, (op, t, v), txt)
        if op == "select":
            skip_fmf(ts)
            ct = parse_type(ts)
            c = parse_value(ts, ct)
            ts.expect(",")
            t = parse_type(ts)
            a = parse_value(ts, t)
            ts.expect(",")
            t2 = parse_type(ts)
            b = parse_value(ts, t2)
            return Inst("select", res, t, (c, a, b, ct), txt)
        if op == "freeze":
            t = parse_type(ts)
            return Inst("freeze", res, t, parse_value(ts, t), txt)
        if op in ("call", "invoke"):
            return self._call(op, res, ts, txt)
        if op == "landingpad":
            ty = parse_type(ts)
            return Inst("landingpad", res, ty, None, txt)
        if op == "resume":
            return Inst("resume", None, None, None, txt)
        if op == "extractvalue":
            t = parse_type(ts)
            v = parse_value(ts, t)
            idx = []
            while ts.accept(","):
                if ts.kind() != "num":
                    break
                idx.append(int(ts.next()))
            return Inst("extractvalue", res, t, (v, idx), txt)
        if op == "insertvalue":
            t = parse_type(ts)
            v = parse_value(ts, t)
            ts.expect(",")
            t2 = parse_type(ts)
            v2 = parse_value(ts, t2)
            idx = []
            while ts.accept(","):
                if ts.kind() != "num":
                    break
                idx.append(int(ts.next()))
            return Inst("insertvalue", res, t, (v, v2, idx), txt)
        return Inst("unsupported", res, None, op, txt)

    def _call(self, op, res, ts, txt):
        skip_fmf(ts)
        while ts.peek() in ("fastcc", "ccc", "coldcc", "noundef", "zeroext", "signext", "noalias", "nonnull", "dereferenceable", "align", "range", "dereferenceable_or_null"):
            w = ts.next()
            if w == "align":
                ts.next()
            if ts.peek() == "(" and w in ("dereferenceable", "range", "dereferenceable_or_null"):
                skip_paren(ts)
        ty = parse_type(ts)
        if ts.peek() == "(":  # function type
            skip_paren(ts)
        callee = parse_value(ts, PTR)
        ts.expect("(")
        args = []
        if not ts.accept(")"):
            while True:
                if ts.peek() == "metadata":
                    depth = 0
                    while not (depth == 0 and ts.peek() in (",", ")")):
                        x = ts.next()
                        if x in "([{<":
                            depth += 1
                        elif x in ")]}>":
                            depth -= 1
                    args.append((Ty("metadata"), None))
                else:
                    t = parse_type(ts)
                    skip_param_attrs(ts)
                    args.append((t, parse_value(ts, t)))
                if ts.accept(")"):
                    break
                ts.expect(",")
        a = {"callee": callee, "args": args}
        if op == "invoke":
            while ts.peek() != "to":
                ts.next()
            ts.next()
            ts.expect("label")
            a["normal"] = unq(ts.next())
            ts.expect("unwind")
            ts.expect("label")
            a["unwind"] = unq(ts.next())
        return Inst(op, res, ty, a, txt)

    # ---- layout
    def size(self, t):
        return self.layout(t)[0]

    def layout(self, t):
        """(size, align, field offsets or None)"""
        if t.k == "int":
            s = (t.a + 7) // 8
            p = 1
            while p < s:
                p *= 2
            return (p, min(p, 16), None)
        if t.k == "float":
            return (4, 4, None)
        if t.k in ("double", "ptr"):
            return (8, 8, None)
        if t.k == "x86_fp80":
            return (16, 16, None)
        if t.k == "arr":
            s, a, _ = self.layout(t.b)
            return (s * t.a, a, None)
        if t.k == "vec":
            s, a, _ = self.layout(t.b)
            return (s * t.a, s * t.a, None)
        if t.k == "named":
            return self.layout(self.types[t.a])
        if t.k == "struct":
            off = 0
            al = 1
            offs = []
            for e in t.a:
                s, a, _ = self.layout(e)
                if t.b:
                    a = 1
                off = (off + a - 1) // a * a
                offs.append(off)
                off += s
                al = max(al, a)
            off = (off + al - 1) // al * al
            return (off, al, offs)
        raise Unsupported("layout of %r" % (t,))

    def resolve(self, t):
        while t.k == "named":
            t = self.types[t.a]
        return t

    def global_init(self, name):
        """(type, Const or None, is_constant)"""
        txt = self.globals.get(name)
        if txt is None:
            return None
        ts = TS(tokenize(txt), self)
        isconst = False
        while True:
            w = ts.peek()
            if w in ("constant", "global"):
                isconst = w == "constant"
                ts.next()
                break
            if w == "alias":
                return None
            if w is None:
                return None
            ts.next()
            if ts.peek() == "(":
                skip_paren(ts)
        ty = parse_type(ts)
        ext = " external " in " " + txt or txt.startswith("external")
        v = None
        if not ext and not ts.end() and ts.peek() != ",":
            v = parse_value(ts, ty)
        return ty, v, isconst


def skip_fmf(ts):
    while ts.peek() in ("fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"):
        ts.next()


def skip_paren(ts):
    ts.expect("(")
    d = 1
    while d:
        x = ts.next()
        if x == "(":
            d += 1
        elif x == ")":
            d -= 1


def skip_param_attrs(ts):
    while True:
        w = ts.peek()
        if w in PARAM_ATTRS:
            ts.next()
        elif w in ("align",):
            ts.next()
            if ts.peek() == "(":
                skip_paren(ts)
            else:
                ts.next()
        elif w in ("dereferenceable", "dereferenceable_or_null", "byval", "sret", "byref", "elementtype", "range", "preallocated", "inalloca", "memory", "initializes"):
            ts.next()
            skip_paren(ts)
        else:
            return
