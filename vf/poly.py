"""polynomial normal form of z3 real terms (exact identity check for algebraic specs)"""
import z3
from fractions import Fraction


class TooBig(Exception):
    pass


def poly(e, memo=None, limit=6000):
    memo = {} if memo is None else memo
    r = memo.get(e.get_id())
    if r is not None:
        return r[1]
    r = _poly(e, memo, limit)
    if len(r) > limit:
        raise TooBig()
    memo[e.get_id()] = (e, r)
    return r


def _add(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        n = r.get(m, 0) + s * c
        if n == 0:
            r.pop(m, None)
        else:
            r[m] = n
    return r


def _mul(a, b, limit):
    if len(a) * len(b) > 40 * limit:
        raise TooBig()
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = tuple(sorted(m1 + m2))
            n = r.get(m, 0) + c1 * c2
            if n == 0:
                r.pop(m, None)
            else:
                r[m] = n
    # x * inv(x) = 1 is only valid for x != 0: not used
    return r


ATOMS = {}


def atom(key, e):
    ATOMS[key] = e
    return {(key,): Fraction(1)}


def canon(e):
    """string key of a term, arguments normalised as polynomials"""
    if z3.is_app(e) and e.num_args() and e.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT, z3.Z3_OP_TO_INT, z3.Z3_OP_TO_REAL):
        ks = []
        for c in e.children():
            if z3.is_int(c) or z3.is_real(c):
                ks.append(pkey(poly(c)))
            else:
                ks.append("#%d" % c.get_id())
                ATOMS["#%d" % c.get_id()] = c
        return "%s(%s)" % (e.decl().name(), ",".join(ks))
    k = "#%d" % e.get_id()
    ATOMS[k] = e
    return k


def pkey(p):
    return "+".join("%s*%s" % (c, "".join("[%s]" % a for a in m)) for m, c in sorted(p.items()))


def _poly(e, memo, limit):
    P = lambda x: poly(x, memo, limit)
    if z3.is_rational_value(e) or z3.is_int_value(e):
        f = e.as_fraction() if z3.is_rational_value(e) else Fraction(e.as_long())
        return {(): Fraction(f)} if f else {}
    k = e.decl().kind()
    ch = e.children()
    if k == z3.Z3_OP_ADD:
        r = {}
        for c in ch:
            r = _add(r, P(c))
        return r
    if k == z3.Z3_OP_SUB:
        r = P(ch[0])
        for c in ch[1:]:
            r = _add(r, P(c), -1)
        return r
    if k == z3.Z3_OP_UMINUS:
        return _add({}, P(ch[0]), -1)
    if k == z3.Z3_OP_MUL:
        r = {(): Fraction(1)}
        for c in ch:
            r = _mul(r, P(c), limit)
        return r
    if k == z3.Z3_OP_POWER and z3.is_int_value(ch[1]) or (k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and ch[1].denominator_as_long() == 1):
        n = int(ch[1].as_long() if z3.is_int_value(ch[1]) else ch[1].numerator_as_long())
        if 0 <= n <= 12:
            r = {(): Fraction(1)}
            for _ in range(n):
                r = _mul(r, P(ch[0]), limit)
            return r
    if k == z3.Z3_OP_DIV:
        d = P(ch[1])
        if list(d.keys()) == [()]:
            return {m: c / d[()] for m, c in P(ch[0]).items()}
        if len(d) == 1:
            (m, c), = d.items()
            inv = {tuple(sorted("inv(%s)" % a for a in m)): 1 / c}
        else:
            inv = {("inv(%s)" % pkey(d),): Fraction(1)}
        return _mul(P(ch[0]), inv, limit)
    if k == z3.Z3_OP_TO_REAL:
        # distribute over integer sums and products
        p = P(ch[0])
        return p
    return atom(canon(e), e)


def equal(a, b):
    try:
        return not _add(poly(a), poly(b), -1)
    except (TooBig, RecursionError):
        return False
