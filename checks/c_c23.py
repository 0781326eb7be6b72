"""C23: blocks keep rows and annotations in step through extension, splitting, repetition and mapping."""
from colls import *
import c_c18 as G


def same_block(S, e, F, v, ty, bells, st, annots, what):
    b, s, a = block_out(v, ty)
    yield expect_equal(S, e, F, b, bells, what + ": the rows")
    yield expect_equal(S, e, F, s, st, what + ": the stage")
    yield expect_equal(S, e, F, a, annots, what + ": the annotations")


def sub(s, lo, hi):
    return slice_seq(s, lo, hi) if s.tag == "seq" else None


def cat2(a, b):
    return seq(list(a.args[0]) + list(b.args[0]))


def called(S, k, rt, *args):
    """the value of calling the closure argument k"""
    return mk_value(V.typed(mk("uf", "call", True, S.inputs[k].sym, *args), rt), rt)


def annot_ty(ty):
    ty = dty(ty)
    return elem_ty(adt_fields(ty)[LY.block_fields(ty)[1]][1])


# ---------------------------------------------------------------- construction
def ssv_arg(S, k):
    return coll(S, k)


def with_default(S):
    c = coll(S, 0)

    def chk(S, e, F, v):
        b, s, a = block_out(v, outty(S))
        yield expect_equal(S, e, F, b, c.bells, "the block has exactly the given rows")
        yield expect_equal(S, e, F, s, c.st, "the stage is that of the rows")
        yield expect_true(S, e, F, eqp(slen(a), psub(c.n, ONE)), "one annotation per row but the leftover one")
    return Spec(check=chk, panic=eqp(c.n, ZERO))


def empty(S):
    st = arg(S, 0)

    def chk(S, e, F, v):
        yield from same_block(S, e, F, v, outty(S), seq_of(st, lambda i: i), st, EMPTYSEQ, "an empty block is rounds left over")
    return Spec(check=chk, panic=False)


def from_indices(S):
    c = coll(S, 0)

    def chk(S, e, F, v):
        rt = annot_ty(payload_ty(S))
        w = seq_of(psub(c.n, ONE), lambda i: called(S, 1, rt, i))
        yield from same_block(S, e, F, v, payload_ty(S), c.bells, c.st, w, "annotations are made from indices")
    return Spec(check=chk, fail=eqp(c.n, ZERO), panic=False)


def payload_ty(S):
    """type inside Option / Result of the output"""
    o = outty(S)
    return strip(o)[2][0]


# ---------------------------------------------------------------- getters
def getter(f):
    def mk_(S):
        return Spec(ret=f(block(S, 0)), panic=False)
    return mk_


def opt_row(idx):
    def mk_(S):
        b = block(S, 0)
        i = idx(S, b)

        def chk(S, e, F, v):
            yield expect_equal(S, e, F, pointed(S, e, v), b.rows.row(i), "the row handed out is the documented one")
        return Spec(check=chk, fail=lt(b.len, i), panic=False)
    return mk_


def opt_annot(mut):
    def mk_(S):
        b = block(S, 0)
        i = arg(S, 1)

        def chk(S, e, F, v):
            yield expect_equal(S, e, F, pointed(S, e, v), seq_at(b.annots, i), "the annotation handed out is the one at the index")
            if mut:
                yield expect_equal(S, e, F, e.finals[0], S.inputs[0].init, "looking up does not change the block")
        return Spec(check=chk, fail=le(b.len, i), panic=False)
    return mk_


def annot_row_parts(v, ty):
    v, ty = deref(v), dty(ty)
    fs = adt_fields(ty)
    r = [i for i, (n, t) in enumerate(fs) if LY.is_row_ty(dty(t))]
    a = [i for i in range(len(fs)) if i not in r]
    return deref(v.args[1][r[0]]), deref(v.args[1][a[0]])


def opt_annot_row(idx):
    def mk_(S):
        b = block(S, 0)
        i = idx(S)

        def chk(S, e, F, v):
            r, a = annot_row_parts(v, payload_ty(S))
            yield expect_equal(S, e, F, r, b.rows.row(i), "the row is the one at the index")
            yield expect_equal(S, e, F, a, seq_at(b.annots, i), "the annotation is the one at the index")
        return Spec(check=chk, fail=le(b.len, i), panic=False)
    return mk_


def row_ref(idx):
    def mk_(S):
        b = block(S, 0)

        def chk(S, e, F, v):
            yield expect_equal(S, e, F, deref(v), b.rows.row(idx(b)), "the row handed out is the documented one")
        return Spec(check=chk, panic=False)
    return mk_


def annot_row_new(S):
    def chk(S, e, F, v):
        r, a = annot_row_parts(v, outty(S))
        yield expect_equal(S, e, F, r, arg(S, 0), "the row is the given one")
        yield expect_equal(S, e, F, a, arg(S, 1), "the annotation is the given one")
    return Spec(check=chk, panic=False)


def annot_row_get(k):
    def mk_(S):
        return Spec(ret=annot_row_parts(S.inputs[0].init, S.inputs[0].ty)[k], panic=False)
    return mk_


# ---------------------------------------------------------------- iteration
def left(v):
    """the items an iterator value has left, as a sequence"""
    if v.tag == "it" and v.args[0] == "seq":
        X, lo, hi = v.args[1:]
        return slice_seq(X, lo, hi)
    return v if v.tag == "seq" else None


def iter_rows(all_):
    def mk_(S):
        b = block(S, 0)
        n = padd(b.len, ONE) if all_ else b.len

        def chk(S, e, F, v):
            if v.tag != "agg":
                yield Ob(S.name, "iterator form", UNDECIDED, v.tag)
                return
            yield from out_rows(S, e, F, v, outty(S), b.rows.rows(ZERO, n), b.st, "the iterator starts with exactly the block's rows")
        return Spec(check=chk, panic=False)
    return mk_


def iter_annots(S):
    b = block(S, 0)

    def chk(S, e, F, v):
        X = left(v)
        if X is None:
            yield Ob(S.name, "iterator form", UNDECIDED, v.tag)
            return
        yield expect_equal(S, e, F, map_seq(X, lambda i, x: deref(x)), b.annots, "the annotations in order")
    return Spec(check=chk, panic=False)


def iter_annot_rows(S):
    b = block(S, 0)

    def chk(S, e, F, v):
        X = left(v)
        if X is None:
            yield Ob(S.name, "iterator form", UNDECIDED, v.tag)
            return
        yield expect_true(S, e, F, eqp(slen(X), b.len), "one item per annotated row")
        q = fresh()
        x = deref(seq_at(X, atom(q), decider(F, 2)))
        if x is None or x.tag != "agg":
            yield Ob(S.name, "iterator items", UNDECIDED, "form")
            return
        r = [deref(y) for y in x.args[1]]
        rows = [y for y in r if y.tag == "seq"]
        ans = [y for y in r if y.tag != "seq"]
        Fq = F.add(ge(atom(q)), lt(atom(q), b.len))
        if len(rows) != 1 or len(ans) != 1:
            yield Ob(S.name, "iterator items", UNDECIDED, "form")
            return
        yield expect_equal(S, e, Fq, rows[0], b.rows.row(atom(q)), "item q has row q")
        yield expect_equal(S, e, Fq, ans[0], deref(seq_at(b.annots, atom(q))), "item q has annotation q")
    return Spec(check=chk, panic=False)


def path(full):
    def mk_(S):
        b, x = block(S, 0), arg(S, 1)

        def places(S, e, F, v, n):
            yield expect_true(S, e, F, eqp(slen(v), n), "one place per row")
            q = fresh()
            Fq = F.add(ge(atom(q)), lt(atom(q), n))
            yield from place(S, e, Fq, at(v, atom(q), Fq), atom(q))

        def place(S, e, F, p, q):
            yield expect_true(S, e, F, band(ge(p), lt(p, b.st)), "each place lies in the row")
            yield expect_true(S, e, F, eqp(at(b.rows.bells, padd(pmul(q, b.st), p), F), x), "the bell is at that place of that row")

        def chk(S, e, F, v):
            if full:
                yield from places(S, e, F, deref(v), padd(b.len, ONE))
                return
            ps, l = v.args[1]
            yield from places(S, e, F, deref(ps), b.len)
            yield from place(S, e, F, l, b.len)
        return Spec(check=chk, fail=ge(psub(x, b.st)), panic=False)
    return mk_


# ---------------------------------------------------------------- repetition
class Rep:
    def __init__(self, v, ty):
        v, ty = deref(v), dty(ty)
        self.v = v
        fs = adt_fields(ty)
        self.head = self.it = self.block = None
        for x, (n, t) in zip(v.args[1], fs):
            if LY.is_row_ty(t):
                self.head = x
            elif x.tag == "it":
                self.it = x
            elif LY.is_ty(dty(t), "AnnotBlock"):
                self.block = B(x, t, None)
                self.bv = x
        self.pos = self.it.args[2]


def repeat_new(S):
    b, a = block(S, 0), arg(S, 1)

    def chk(S, e, F, v):
        r = Rep(v, payload_ty(S))
        yield expect_equal(S, e, F, r.head, a, "repetition starts from the given row")
        yield expect_equal(S, e, F, r.bv, S.inputs[0].value, "the block is repeated as it is")
        yield expect_equal(S, e, F, r.pos, ZERO, "repetition starts at the block's first row")
    return Spec(check=chk, fail=bnot(eqp(slen(a), b.st)), panic=False)


def repeat_next(into):
    def mk_(S):
        ty = argty(S, 0)
        r = Rep(S.inputs[0].init, ty)
        b = r.block
        more = lt(r.pos, b.len)

        def one(S, e, F, v, head, q):
            """the item is row q of the block from the given block head"""
            row = seq_of(b.st, lambda i: at(head, at(b.rows.bells, padd(pmul(q, b.st), i))))
            if into:
                gi, ga = v.args[1]
                got = e.finals[1]
            else:
                got, gi, ga = v.args[1]
            yield expect_equal(S, e, F, got, row, "the row continues the repetition")
            yield expect_equal(S, e, F, gi, q, "the index is that of the block's row")
            yield expect_equal(S, e, F, deref(ga), deref(seq_at(b.annots, q)), "the annotation is that of the block's row")
            z = Rep(e.finals[0], ty)
            yield expect_equal(S, e, F, z.head, head, "the block head is that of the current repetition")
            yield expect_equal(S, e, F, z.pos, padd(q, ONE), "the next item is the following row")
            yield expect_equal(S, e, F, z.bv, r.bv, "the repeated block stays")

        def chk(S, e, F, v):
            F1 = F.add(more)
            if not infeasible(F1, 2):
                yield from one(S, e, F1, v, r.head, r.pos)
            F2 = F.add(bnot(more))
            if not infeasible(F2, 2):
                h2 = seq_of(b.st, lambda i: at(r.head, at(b.rows.bells, padd(pmul(b.len, b.st), i))))
                yield from one(S, e, F2, v, h2, ZERO)
        return Spec(check=chk, fail=eqp(b.len, ZERO), panic=False)
    return mk_


# ---------------------------------------------------------------- changing
def pre_multiply(S):
    b, a = block(S, 0), arg(S, 1)
    w = make_block(b, prod_rows(a, b.rows, ZERO, padd(b.len, ONE)), b.st, b.annots)
    return Spec(finals={0: w}, fail=bnot(eqp(slen(a), b.st)), panic=False)


def continued(a, o, q, lo, hi):
    """rows lo..hi of the block o, transposed so that its row q becomes the row a"""
    R = LY.row_sym(q_bells(o), q, o.st)
    return seq_of(pmul(psub(hi, lo), o.st), lambda i: at(a, V.t_pos(R, at(o.rows.bells, padd(pmul(lo, o.st), i)))))


def q_bells(o):
    """the term of the stored bells"""
    x = as_atom(at(o.rows.bells, atom(fresh())))
    return x.args[0]


def extend_range(S):
    b, o = block(S, 0), block(S, 1)
    lo, hi = range_of(S, 2, o.len) if len(S.inputs) > 2 else (ZERO, o.len)
    ok = bnot(bad_range(lo, hi, o.len))
    rows = cat2(b.rows.rows(ZERO, b.len), continued(b.leftover(), o, lo, lo, padd(hi, ONE)))
    w = make_block(b, rows, b.st, cat2(b.annots, sub(o.annots, lo, hi)))
    return Spec(finals={0: w}, fail=bnot(eqp(b.st, o.st)), pre=ok, panic=False)


def extend_within(S):
    b = block(S, 0)
    lo, hi = range_of(S, 1, b.len)
    ok = bnot(bad_range(lo, hi, b.len))
    rows = cat2(b.rows.rows(ZERO, padd(b.len, ONE)), continued(b.leftover(), b, lo, padd(lo, ONE), padd(hi, ONE)))
    w = make_block(b, rows, b.st, cat2(b.annots, sub(b.annots, lo, hi)))
    return Spec(finals={0: w}, pre=ok, panic=False)


def whole_rows(S):
    b = block(S, 0)

    def chk(S, e, F, v):
        yield from out_rows(S, e, F, v, outty(S), b.rows.rows(ZERO, padd(b.len, ONE)), b.st, "exactly the block's rows, with the leftover one")
    return Spec(check=chk, panic=False)


def map_annots(args):
    def mk_(S):
        b = block(S, 0)

        def chk(S, e, F, v):
            rt = annot_ty(outty(S))
            w = seq_of(b.len, lambda i: called(S, 1, rt, *args(i, seq_at(b.annots, i))))
            yield from same_block(S, e, F, v, outty(S), b.rows.rows(ZERO, padd(b.len, ONE)), b.st, w, "mapping annotations changes only them")
        return Spec(check=chk, panic=False)
    return mk_


def split(S):
    b, i = block(S, 0), arg(S, 1)
    n = b.len

    def chk(S, e, F, v):
        x, y = v.args[1]
        ty = strip(payload_ty(S))[1][0]
        yield from same_block(S, e, F, x, ty, b.rows.rows(ZERO, padd(i, ONE)), b.st, sub(b.annots, ZERO, i), "the first half ends with the shared row left over")
        yield from same_block(S, e, F, y, ty, b.rows.rows(i, padd(n, ONE)), b.st, sub(b.annots, i, n), "the second half starts with the shared row")
    return Spec(check=chk, fail=lt(n, i), panic=False)


A = "AnnotBlock"
TABLE = [
    (A, "with_default_annots", None, with_default), (A, "empty", None, empty), (A, "with_annots_from_indices", None, from_indices),
    (A, "stage", None, getter(lambda b: b.st)), (A, "len", None, getter(lambda b: b.len)), (A, "is_empty", None, getter(lambda b: eqp(b.len, ZERO))),
    (A, "get_row", None, opt_row(lambda S, b: arg(S, 1))), (A, "get_annot", None, opt_annot(False)), (A, "get_annot_mut", None, opt_annot(True)),
    (A, "get_annot_row", None, opt_annot_row(lambda S: arg(S, 1))), (A, "first_annot_row", None, opt_annot_row(lambda S: ZERO)),
    (A, "first_row", None, row_ref(lambda b: ZERO)), (A, "leftover_row", None, row_ref(lambda b: b.len)),
    ("AnnotRow", "new", None, annot_row_new), ("AnnotRow", "row", None, annot_row_get(0)), ("AnnotRow", "annot", None, annot_row_get(1)),
    (A, "rows", None, iter_rows(False)), (A, "all_rows", None, iter_rows(True)), (A, "annots", None, iter_annots), (A, "annot_rows", None, iter_annot_rows),
    (A, "path_of", None, path(False)), (A, "full_path_of", None, path(True)),
    (A, "repeat_iter", None, repeat_new), ("RepeatIter", "next", "Iterator", repeat_next(False)), ("RepeatIter", "next_into", None, repeat_next(True)),
    (A, "permute", None, pre_multiply), (A, "pre_multiply", None, pre_multiply),
    (A, "extend", None, extend_range), (A, "extend_range", None, extend_range), (A, "extend_from_within", None, extend_within),
    (A, "into_row_vec", None, whole_rows), (A, "row_vec", None, whole_rows),
    (A, "map_annots", None, map_annots(lambda i, a: (a,))), (A, "map_annots_with_index", None, map_annots(lambda i, a: (i, a))),
    (A, "clone_map_annots_with_index", None, map_annots(lambda i, a: (i, ref(a)))),
    (A, "split", None, split),
]

RULE = ("every constructor, accessor, iterator and mutator of a symbolic valid block is summarised; the rows, stage and annotations it hands out or leaves "
        "behind and its refusal condition are compared, as value numbers, with the formula of its documentation over the same argument symbols")


def check(prop):
    jobs, missing = jobs_of(TABLE, {(A, "permute")})
    return jobs, RULE, missing
