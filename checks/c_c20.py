"""C20: row collections return and build exactly the rows documented, in order."""
from colls import *


def new(S):
    def chk(S, e, F, v):
        yield from out_rows(S, e, F, v, outty(S), EMPTYSEQ, arg(S, 0), "the new collection has no rows")
    return Spec(check=chk, panic=True)


def from_row_buf(S):
    a = arg(S, 0)

    def chk(S, e, F, v):
        yield from out_rows(S, e, F, v, outty(S), a, slen(a), "the collection is exactly the given row")
    return Spec(check=chk, panic=False)


def from_unchecked(S):
    def chk(S, e, F, v):
        yield from out_rows(S, e, F, v, outty(S), arg(S, 0), arg(S, 1), "the bells and stage are as given")
    return Spec(check=chk, panic=False)


def getter(f):
    def mk_(S):
        return Spec(ret=f(coll(S, 0)), panic=False)
    return mk_


def opt_row(idx, absent, mut=False):
    """Some(row idx) unless absent"""
    def mk_(S):
        c = coll(S, 0)
        i = idx(S, c)

        def chk(S, e, F, v):
            yield expect_equal(S, e, F, pointed(S, e, v), c.row(i), "the row handed out is the documented one")
            if mut:
                yield expect_equal(S, e, F, e.finals[0], S.inputs[0].init, "looking up does not change the collection")
        return Spec(fail=absent(S, c), check=chk, panic=False)
    return mk_


IDX = lambda S, c: arg(S, 1)
IDX_OUT = lambda S, c: ge(psub(arg(S, 1), c.n))
EMPTY = lambda S, c: eqp(c.n, ZERO)
LAST = lambda S, c: psub(c.n, ONE)


def index(S):
    c = coll(S, 0)
    i = arg(S, 1)
    return Spec(ret=c.row(i), panic=ge(psub(i, c.n)))


def it_same(S):
    c = coll(S, 0)

    def chk(S, e, F, v):
        if v.tag == "seq":
            yield Ob(S.name, "iterator form", UNDECIDED, "sequence")
            return
        yield from out_rows(S, e, F, v, outty(S), c.bells, c.st, "the iterator starts with exactly the collection's rows")
    return Spec(check=chk, panic=False)


def it_next(back):
    def mk_(S):
        c = coll(S, 0)
        n = c.n

        def chk(S, e, F, v):
            q = psub(n, ONE) if back else ZERO
            yield expect_equal(S, e, F, v, c.row(q), "the row yielded is the %s one left" % ("last" if back else "first"))
            w = c.rows(ZERO, psub(n, ONE)) if back else c.rows(ONE, n)
            yield from out_rows(S, e, F, e.finals[0], argty(S, 0), w, c.st, "exactly the other rows are left")
        return Spec(fail=eqp(n, ZERO), check=chk, panic=False)
    return mk_


def path_of(S):
    c, b = coll(S, 0), arg(S, 1)

    def chk(S, e, F, v):
        yield expect_true(S, e, F, eqp(slen(v), c.n), "one place per row")
        q = fresh()
        Fq = F.add(ge(atom(q)), lt(atom(q), c.n))
        x = at(v, atom(q), Fq)
        yield expect_true(S, e, Fq, band(ge(x), lt(x, c.st)), "each place lies in the row")
        yield expect_true(S, e, Fq, eqp(at(c.bells, padd(pmul(atom(q), c.st), x), Fq), b), "the bell is at that place of that row")
    return Spec(fail=ge(psub(b, c.st)), check=chk, panic=False)


def push(S):
    c, a = coll(S, 0), arg(S, 1)
    return Spec(finals={0: c.make(concat(c.bells, a))}, fail=bnot(eqp(c.st, slen(a))), panic=False)


def pop(S):
    c = coll(S, 0)
    return Spec(ret=c.row(psub(c.n, ONE)), finals={0: c.make(c.rows(ZERO, psub(c.n, ONE)))}, fail=eqp(c.n, ZERO), panic=False)


def as_ref_row(S, x):
    """the row an opaque `T: AsRef<Row>` item stands for"""
    if x.tag == "ref":
        x = x.args[0]
    if x.tag == "seq":
        return x
    rt = ("adt", LY.NAMES["Row"], ())
    return mk_value(V.typed(mk("uf", "as_ref", True, x), rt), rt)


def extend(S):
    c = coll(S, 0)
    MO = core.summ.MO
    it = MO.opaque_it(S.interp, None, S.inputs[1].sym, S.inputs[1].ty, False)
    X = it.args[1]
    n = slen(X)
    k = fresh()
    row = as_ref_row(S, seq_at(X, atom(k)))
    w = seq(list(c.bells.args[0]) + [mk("cat", n, lam(k, row))])
    k2 = fresh()
    bad = exists_(n, lam(k2, bnot(eqp(slen(as_ref_row(S, seq_at(X, atom(k2)))), c.st))))
    return Spec(finals={0: c.make(w)}, fail=bad, panic=False)


def extend_from_buf(S):
    c, d = coll(S, 0), coll(S, 1)
    return Spec(finals={0: c.make(concat(c.bells, d.bells))}, fail=bnot(eqp(c.st, d.st)), panic=False)


def extend_transposed(S):
    c, a, d = coll(S, 0), arg(S, 1), coll(S, 2)
    if len(S.inputs) > 3:
        lo, hi = range_of(S, 3, d.n)
    else:
        lo, hi = ZERO, d.n
    fail = bor(bnot(eqp(c.st, slen(a))), bnot(eqp(c.st, d.st)))
    return Spec(finals={0: c.make(concat(c.bells, prod_rows(a, d, lo, hi)))}, fail=fail, pre=bnot(bad_range(lo, hi, d.n)), panic=False)


def extend_within(S):
    c, a = coll(S, 0), arg(S, 2)
    lo, hi = range_of(S, 1, c.n)
    return Spec(finals={0: c.make(concat(c.bells, prod_rows(a, c, lo, hi)))}, fail=bnot(eqp(c.st, slen(a))), pre=bnot(bad_range(lo, hi, c.n)), panic=False)


def pre_multiply(S):
    c, a = coll(S, 0), arg(S, 1)
    return Spec(finals={0: c.make(prod_rows(a, c, ZERO, c.n))}, fail=bnot(eqp(c.st, slen(a))), panic=False)


def pre_multiplied(S):
    c, a = coll(S, 0), arg(S, 1)
    return Spec(ret=c.make(prod_rows(a, c, ZERO, c.n)), fail=bnot(eqp(c.st, slen(a))), panic=False)


def split(S):
    c, i = coll(S, 0), arg(S, 1)
    return Spec(ret=tup(c.make(c.rows(ZERO, i)), c.make(c.rows(i, c.n))), fail=lt(c.n, i), panic=False)


TABLE = [
    ("SameStageVec", "new", None, new), ("SameStageVec", "with_capacity", None, new), ("SameStageVec", "from_row_buf", None, from_row_buf),
    ("SameStageVec", "from_bell_vec_unchecked", None, from_unchecked),
    ("SameStageVec", "stage", None, getter(lambda c: c.st)), ("SameStageVec", "len", None, getter(lambda c: c.n)),
    ("SameStageVec", "is_empty", None, getter(lambda c: eqp(c.n, ZERO))),
    ("SameStageVec", "get", None, opt_row(IDX, IDX_OUT)), ("SameStageVec", "get_mut", None, opt_row(IDX, IDX_OUT, True)),
    ("SameStageVec", "first", None, opt_row(lambda S, c: ZERO, EMPTY)), ("SameStageVec", "first_mut", None, opt_row(lambda S, c: ZERO, EMPTY, True)),
    ("SameStageVec", "last", None, opt_row(LAST, EMPTY)), ("SameStageVec", "last_mut", None, opt_row(LAST, EMPTY, True)),
    ("SameStageVec", "index", "Index", index),
    ("SameStageVec", "iter", None, it_same), ("SameStageVec", "into_iter", "IntoIterator", it_same),
    ("Iter", "next", "Iterator", it_next(False)), ("Iter", "next_back", "DoubleEndedIterator", it_next(True)),
    ("Iter", "len", "ExactSizeIterator", getter(lambda c: c.n)),
    ("SameStageVec", "path_of", None, path_of), ("SameStageVec", "push", None, push), ("SameStageVec", "pop", None, pop),
    ("SameStageVec", "extend", None, extend), ("SameStageVec", "extend_from_buf", None, extend_from_buf),
    ("SameStageVec", "extend_transposed", None, extend_transposed), ("SameStageVec", "extend_range_transposed", None, extend_transposed),
    ("SameStageVec", "extend_transposed_from_within", None, extend_within),
    ("SameStageVec", "permute", None, pre_multiply), ("SameStageVec", "pre_multiply", None, pre_multiply),
    ("SameStageVec", "pre_multiplied", None, pre_multiplied), ("SameStageVec", "split", None, split),
]

RULE = ("every accessor and mutator of a symbolic valid row collection is summarised; the row handed out, the collection left behind and the refusal "
        "condition are compared, as value numbers, with the sequence-of-rows formula of its documentation")


def check(prop):
    jobs, missing = jobs_of(TABLE, {("SameStageVec", "permute")})
    return jobs, RULE, missing
