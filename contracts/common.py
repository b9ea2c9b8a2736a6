"""Contracts of functions proved under one property and used by callers under others."""
import z3
from vf.spec import *
from vf.sexec import FArr


def nan_of(A):
    return A.nan if A.nan is not None else z3.K(z3.IntSort(), z3.BoolVal(False))


def nan2bad(ctype):
    """mifi_nan{f,d}2bad (proved under P05): undefined elements of [pos,end) become the bad value, everything else stays"""
    def f(ex, st, args, ins):
        from vf import ir
        p, e, bad = args
        if p.obj is None:
            return z3.Int(ex.fresh_name("nbad"))
        ex.require(st, "callee: one range", z3.BoolVal(e.obj is p.obj), "call")
        o = p.obj
        if o.kind == "heap":
            ex.materialize(st, o, {"double": ir.DOUBLE, "float": ir.FLOAT}[ctype])
        lo, hi = p.off.div(o.esize).term(), e.off.div(o.esize).term()
        ex.require(st, "callee: the range is inside the array", z3.And(lo >= 0, z3.Or(hi <= o.length, hi == lo), lo <= hi), "call")
        ex.note_write(st, o)
        A = ex.content(st, o)
        i = z3.Int("lam_b")
        hit = z3.And(i >= lo, i < hi, z3.Select(nan_of(A), i))
        nb = bad.nan if not isinstance(bad.nan, bool) else z3.BoolVal(bad.nan)
        st.mem[o.name] = FArr(z3.Lambda([i], z3.If(hit, nb, z3.Select(nan_of(A), i))), z3.Lambda([i], z3.If(z3.And(hit, z3.Not(nb)), bad.val, z3.Select(A.val, i))))
        return z3.Int(ex.fresh_name("nbad"))
    return f


def bad2nan(ctype):
    """mifi_bad2nan{f,} (proved under P05): elements of [pos,end) equal to the bad value become undefined, everything else stays"""
    def f(ex, st, args, ins):
        from vf import ir
        p, e, bad = args
        if p.obj is None:
            return z3.Int(ex.fresh_name("nbad"))
        ex.require(st, "callee: one range", z3.BoolVal(e.obj is p.obj), "call")
        o = p.obj
        if o.kind == "heap":
            ex.materialize(st, o, {"double": ir.DOUBLE, "float": ir.FLOAT}[ctype])
        lo, hi = p.off.div(o.esize).term(), e.off.div(o.esize).term()
        ex.require(st, "callee: the range is inside the array", z3.And(lo >= 0, z3.Or(hi <= o.length, hi == lo), lo <= hi), "call")
        ex.note_write(st, o)
        A = ex.content(st, o)
        i = z3.Int("lam_b")
        nb = bad.nan if not isinstance(bad.nan, bool) else z3.BoolVal(bad.nan)
        hit = z3.And(i >= lo, i < hi, z3.Not(nb), z3.Select(A.val, i) == bad.val)
        st.mem[o.name] = FArr(z3.Lambda([i], z3.Or(hit, z3.Select(nan_of(A), i))), A.val)
        return z3.Int(ex.fresh_name("nbad"))
    return f
