"""The sequence-of-rows reading of collections and blocks, and of the ranges passed to them."""
from spec import *


class C:
    """a collection argument: bells, stage, number of rows, cell(q, p)"""

    def __init__(self, v, ty, term):
        v, ty = deref(v), dty(ty)
        self.v, self.ty, self.term = v, ty, term
        b, s = LY.ssv_fields(ty)
        self.bi, self.si = b, s
        self.bells, self.st = deref(v.args[1][b]), v.args[1][s]
        self.n = LY.nrows(term) if term is not None else None

    def rows(self, lo, hi):
        """the bells of rows lo..hi"""
        B, st = self.bells, self.st
        return seq_of(pmul(psub(hi, lo), st), lambda i: at(B, padd(pmul(lo, st), i)))

    def row(self, q):
        return self.rows(q, padd(q, ONE))

    def make(self, bells, st=None):
        f = list(self.v.args[1])
        f[self.bi] = ref(bells) if f[self.bi].tag == "ref" else bells
        if st is not None:
            f[self.si] = st
        return agg(self.v.args[0], f)


def coll(S, k):
    return C(arg(S, k), argty(S, k), S.inputs[k].sym)


def ssv_parts(v, ty):
    v, ty = deref(v), dty(ty)
    b, s = LY.ssv_fields(ty)
    return deref(v.args[1][b]), v.args[1][s]


class B:
    """a block argument"""

    def __init__(self, v, ty, term):
        v, ty = deref(v), dty(ty)
        self.v, self.ty = v, ty
        self.ri, self.ai = LY.block_fields(ty)
        fs = adt_fields(ty)
        rt = V.t_fld(term, self.ri, fs[self.ri][1]) if term is not None else None
        self.rows = C(v.args[1][self.ri], fs[self.ri][1], rt)
        self.annots = deref(v.args[1][self.ai])
        self.len = slen(self.annots)
        self.st = self.rows.st

    def leftover(self):
        return self.rows.row(self.len)


def block(S, k):
    return B(arg(S, k), argty(S, k), S.inputs[k].sym)


def block_out(v, ty):
    """(bells, stage, annots) of a block value"""
    v, ty = deref(v), dty(ty)
    ri, ai = LY.block_fields(ty)
    fs = adt_fields(ty)
    b, s = ssv_parts(v.args[1][ri], fs[ri][1])
    return b, s, deref(v.args[1][ai])


def make_block(like, bells, st, annots, ty=None):
    ri, ai = like.ri, like.ai
    f = list(like.v.args[1])
    f[ri] = like.rows.make(bells, st)
    f[ai] = annots
    return agg(like.v.args[0], f)


def range_of(S, k, n):
    """(lo, hi) of a range argument over n items, as value numbers"""
    v = arg(S, k)
    if v.tag == "agg":
        r = core.summ.MO.range_bounds(S.interp, S.exits[0].st, v, n)
        return r
    bt = ("adt", "std::ops::Bound", (("ref", False, V.USIZE),))
    out = []
    for which, dflt in (("start", ZERO), ("end", n)):
        t = V.typed(mk("uf", "bound:" + which, True, v), bt)
        b = symv(t, bt)
        MO = core.summ.MO
        inc = MO.deref(MO.payload(b, 0))
        exc = MO.deref(MO.payload(b, 1))
        a = inc if which == "start" else padd(inc, ONE)
        c = padd(exc, ONE) if which == "start" else exc
        out.append(core.summ.IP.named(ite(MO.isvar(b, 0), a, ite(MO.isvar(b, 1), c, dflt))))
    return tuple(out)


def bad_range(lo, hi, n):
    return bor(lt(hi, lo), lt(n, hi))


def prod_rows(a, c, lo, hi):
    """rows lo..hi of c pre-multiplied by the row a"""
    return seq_of(pmul(psub(hi, lo), c.st), lambda i: at(a, at(c.bells, padd(pmul(lo, c.st), i))))


def out_rows(S, e, F, v, ty, bells, st, what):
    b, s = ssv_parts(v, ty)
    yield expect_equal(S, e, F, b, bells, what)
    yield expect_equal(S, e, F, s, st, "the stage is as specified")


def pointed(S, e, v):
    """what a (mutable) reference result points at, at the exit"""
    if isinstance(v, N) and v.tag == "mref":
        return deref(core.summ.MO.rd(S.interp, e.st, v))
    return deref(v)
