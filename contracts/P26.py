"""Quality extraction: extreme of the defined flags of a slice (contract); configuration, flags and masking (bounded runs)."""
from vf.spec import *

TU = "shim:quality.cc"
CONTRACTS = []


def defined(v):
    return [x for x in (v.a[i] for i in range(v.n)) if x == x]


for hi in (True, False):
    c = Contract("extreme_high" if hi else "extreme_low", TU, "%s defined flag of a slice" % ("highest" if hi else "lowest"), ret="double")
    c.arr("a", "double", lambda v: v.n).size("n", 1, 1 << 30)
    c.ghost("j", lambda v: 0, lambda v: v.n)
    c.ghost_real("b", (lambda hi: lambda v: (max if hi else min)(defined(v) or [0.0]))(hi))
    ge = (lambda x, y: x >= y) if hi else (lambda x, y: x <= y)
    # b is an arbitrary bound of all defined flags
    c.requires_elem("a", (lambda ge: lambda v, i: Or(isnan(v.a[i]), ge(v.b, v.a[i])))(ge))
    c.ensures("undefined only if all are", lambda v: Implies(isnan(v.ret), isnan(v.a[v.j])))
    c.ensures("no defined flag beyond it", (lambda ge: lambda v: Or(isnan(v.a[v.j]), ge(v.ret, v.a[v.j])))(ge))
    c.ensures("within every bound of the flags", (lambda ge: lambda v: Or(isnan(v.ret), ge(v.b, v.ret)))(ge))
    c.inv("undefined before", lambda v, ks: Implies(v.j < ks[-1], isnan(v.a[v.j])))
    c.multi_inv("extreme before", (1, 1), (lambda ge: lambda v, ks, p, e: And(Not(isnan(e)), ge(v.b, e), Implies(v.j < p, Or(isnan(v.a[v.j]), ge(e, v.a[v.j])))))(ge))
    c.multi_inv("extreme before if any", (1, 1), (lambda ge: lambda v, ks, p, e: And(Or(isnan(e), ge(v.b, e)), Implies(v.j < p, Or(isnan(v.a[v.j]), And(Not(isnan(e)), ge(e, v.a[v.j]))))))(ge))
    CONTRACTS.append(c)
BOUNDED = [Program("quality", "fields up to 4x3x3x3 with flags in own, other, shared or external variables, all kinds of allowed values, 4000 random cases", "quality.cc", 4000)]
NATIVE = {TU: {"link": True}}
TRUSTED = ["libxml2, std::regex and the configuration"]
