"""Value domain shared by the verifier (symbolic) and the executable contracts (concrete).

ints    symbolic: z3 Int terms (signed value of the machine word); concrete: python int
floats  symbolic: FV (nan flag + real value); concrete: numpy.float64
bools   symbolic: z3 Bool; concrete: python bool
"""
import z3, math
import numpy as np

np.seterr(all="ignore")


def is_sym(x):
    return isinstance(x, (z3.ExprRef, FV))


def B(x):
    """to z3 Bool"""
    if isinstance(x, (bool, np.bool_)):
        return z3.BoolVal(bool(x))
    return x


class FV:
    __slots__ = ("nan", "val")
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, nan, val):
        self.nan = nan  # python bool or z3 Bool
        self.val = val  # z3 Real

    def __repr__(self):
        return "FV(%s,%s)" % (self.nan, self.val)

    def _bin(self, o, f):
        o = tofv(o)
        return FV(bor(self.nan, o.nan), f(self.val, o.val))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return tofv(o) - self

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._bin(o, lambda a, b: a / b)

    def __rtruediv__(self, o):
        return tofv(o) / self

    def __neg__(self):
        return FV(self.nan, -self.val)

    def _cmp(self, o, f):
        o = tofv(o)
        return band(bnot(self.nan), bnot(o.nan), f(self.val, o.val))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return bnot(self == o)

    __hash__ = None


INF = z3.Real("__inf")  # +infinity / largest magnitudes: every finite input is strictly below


def realval(d):
    if isinstance(d, (int, np.integer)):
        return z3.RealVal(int(d))
    n, m = float(d).as_integer_ratio()
    return z3.RealVal(n) / z3.RealVal(m) if m != 1 else z3.RealVal(n)


def rconst(d):
    d = float(d)
    n, m = d.as_integer_ratio()
    return z3.Q(n, m)


def tofv(x):
    if isinstance(x, FV):
        return x
    if isinstance(x, (bool, np.bool_)):
        return FV(False, z3.RealVal(int(x)))
    if isinstance(x, (int, np.integer)):
        return FV(False, z3.RealVal(int(x)))
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if math.isnan(x):
            return FV(True, z3.RealVal(0))
        if math.isinf(x):
            return FV(False, INF if x > 0 else -INF)
        return FV(False, rconst(x))
    if z3.is_int(x):
        return FV(False, z3.ToReal(x))
    if z3.is_real(x):
        return FV(False, x)
    raise TypeError(x)


def _simpb(x):
    return x


def band(*xs):
    out = []
    for x in xs:
        if isinstance(x, (bool, np.bool_)):
            if not x:
                return False
            continue
        if z3.is_true(x):
            continue
        if z3.is_false(x):
            return False
        out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def bor(*xs):
    out = []
    for x in xs:
        if isinstance(x, (bool, np.bool_)):
            if x:
                return True
            continue
        if z3.is_true(x):
            return True
        if z3.is_false(x):
            continue
        out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def bnot(x):
    if isinstance(x, (bool, np.bool_)):
        return not x
    if z3.is_true(x):
        return False
    if z3.is_false(x):
        return True
    return z3.Not(x)


# ------------------------------------------------------------ spec helpers (both modes)
def And(*xs):
    return band(*xs)


def Or(*xs):
    return bor(*xs)


def Not(x):
    return bnot(x)


def Implies(a, b):
    return bor(bnot(a), b)


def isnan(x):
    if isinstance(x, FV):
        return x.nan
    if is_sym(x):
        return False
    return bool(np.isnan(x))


def Ite(c, a, b):
    if isinstance(c, (bool, np.bool_)):
        return a if c else b
    if isinstance(a, FV) or isinstance(b, FV) or isinstance(a, float) or isinstance(b, float):
        a, b = tofv(a), tofv(b)
        if a.nan is b.nan or (isinstance(a.nan, bool) and isinstance(b.nan, bool) and a.nan == b.nan):
            nn = a.nan
        else:
            nn = z3.If(c, B(a.nan), B(b.nan))
        return FV(nn, z3.If(c, a.val, b.val))
    if isinstance(a, bool) or isinstance(b, bool) or z3.is_bool(a):
        return z3.If(c, B(a), B(b))
    return z3.If(c, a, b)


NAN_SYM = FV(True, z3.RealVal(0))


class Tol:
    """tolerance for concrete comparisons"""
    rel = 2e-5
    abs = 1e-9


def feq(a, b, scale=None, rel=None):
    """float equality: both undefined, or equal (concrete: within rounding).
    scale: extra magnitudes that bound the rounding error of the concrete computation."""
    if isinstance(a, FV) or isinstance(b, FV):
        a, b = tofv(a), tofv(b)
        na, nb = a.nan, b.nan
        if isinstance(na, bool) and isinstance(nb, bool):
            if na != nb:
                return False
            if na:
                return True
            return a.val == b.val
        if na is nb or (not isinstance(na, bool) and not isinstance(nb, bool) and na.eq(nb)):
            return bor(na, a.val == b.val)
        return z3.And(B(na) == B(nb), z3.Or(B(na), a.val == b.val))
    a = float(a)
    b = float(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if a == b:
        return True
    if math.isinf(a) or math.isinf(b):
        return abs(a) > 3e38 and abs(b) > 3e38 and (a > 0) == (b > 0)
    m = max(abs(a), abs(b))
    if scale is not None:
        m = max([m] + [abs(float(s)) for s in scale if not math.isnan(float(s))])
    return abs(a - b) <= (rel or Tol.rel) * m + Tol.abs


def ieq(a, b):
    if is_sym(a) or is_sym(b):
        return a == b
    return int(a) == int(b)


def fsame(a, b):
    """exact equality of floats incl. undefined"""
    if isinstance(a, FV) or isinstance(b, FV):
        return feq(a, b)
    a = float(a); b = float(b)
    return a == b or (math.isnan(a) and math.isnan(b))


def same(a, b):
    if isinstance(a, FV) or isinstance(b, FV):
        return feq(a, b)
    if is_sym(a) or is_sym(b):
        return a == b
    if isinstance(a, (float, np.floating)) or isinstance(b, (float, np.floating)):
        return fsame(a, b)
    return a == b


def floor(x):
    if isinstance(x, FV):
        return z3.ToInt(x.val)
    return int(math.floor(x)) if math.isfinite(x) else -(1 << 62)


def lround(x):
    """round half away from zero, as an integer"""
    if isinstance(x, FV):
        h = z3.Q(1, 2)
        return z3.If(x.val >= 0, z3.ToInt(x.val + h), -z3.ToInt(-x.val + h))
    if not math.isfinite(x):
        return -(1 << 62)
    return int(math.floor(abs(x) + 0.5)) * (1 if x >= 0 else -1)


def toreal(i):
    if is_sym(i):
        return tofv(i)
    return np.float64(i)


def fabs(x):
    if isinstance(x, FV):
        return FV(x.nan, z3.If(x.val >= 0, x.val, -x.val))
    return np.abs(x)


def fmin(a, b):
    return Ite(a < b, a, b)


def isfinite(x):
    if isinstance(x, FV):
        return band(bnot(x.nan), x.val < INF, x.val > -INF)
    return bool(np.isfinite(x))


_R = z3.RealSort()
UF = {n: z3.Function("m_" + n, _R, _R) for n in
      ("exp", "log", "sin", "cos", "tan", "asin", "acos", "atan", "sqrt", "log10", "sinh", "cosh", "tanh", "exp2", "log2", "cbrt", "expm1", "log1p")}
UF2 = {n: z3.Function("m_" + n, _R, _R, _R) for n in ("pow", "atan2", "fmod", "hypot")}


def mkfun(n):
    npf = {"pow": np.power, "atan2": np.arctan2, "asin": np.arcsin, "acos": np.arccos, "atan": np.arctan, "fmod": np.fmod}.get(n) or getattr(np, n)

    if n in UF:
        def g(x):
            if isinstance(x, FV):
                nn = x.nan
                if n in ("log", "sqrt", "log10", "log2"):
                    nn = bor(nn, x.val < 0)
                return FV(nn, UF[n](x.val))
            return npf(np.float64(x))
    else:
        def g(x, y):
            if isinstance(x, FV) or isinstance(y, FV):
                x, y = tofv(x), tofv(y)
                return FV(bor(x.nan, y.nan), UF2[n](x.val, y.val))
            return npf(np.float64(x), np.float64(y))
    return g


exp, log, sin, cos, sqrt, pow_, atan2 = map(mkfun, ("exp", "log", "sin", "cos", "sqrt", "pow", "atan2"))


_fa = [0]


def Forall(lo, hi, f, name="q"):
    """for all lo <= i < hi: f(i)   (symbolic: a quantified formula)"""
    if is_sym(lo) or is_sym(hi) or True in (isinstance(x, z3.ExprRef) for x in (lo, hi)):
        _fa[0] += 1
        i = z3.Int("%s?%d" % (name, _fa[0]))
        return z3.ForAll([i], z3.Implies(z3.And(i >= lo, i < hi), B(f(i))))
    return all(bool(f(i)) for i in range(int(lo), int(hi)))


def ForallPairs(n, f):
    """for all 0 <= i < j < n: f(i, j)"""
    if is_sym(n):
        _fa[0] += 1
        i, j = z3.Ints("qi?%d qj?%d" % (_fa[0], _fa[0]))
        return z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < n), B(f(i, j))))
    return all(bool(f(i, j)) for j in range(int(n)) for i in range(j))


def streq(s, lit):
    """string parameter equals the literal"""
    if isinstance(s, z3.ExprRef):
        from .sexec import Exec
        b = lit.encode()
        if b not in Exec.LITS:
            Exec.LITS[b] = len(Exec.LITS) + 1
        return s == Exec.LITS[b]
    return (s.decode() if isinstance(s, bytes) else s) == lit
