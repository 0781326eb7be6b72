"""C21: standard rows and row predicates."""
from spec import *


def std_row(f):
    def mk_(S):
        n = arg(S, 0)
        return Spec(ret=f(n), panic=False)
    return mk_


def queens(n):
    two = const(2)
    return seq([comp_of(pdivc(padd(n, ONE), two), lambda i: pscale(i, 2)), comp_of(pdivc(n, two), lambda i: padd(pscale(i, 2), ONE))])


def forall_row(f):
    def mk_(S):
        a = arg(S, 0)
        n = slen(a)
        k = fresh()
        return Spec(ret=forall_(n, lam(k, eqp(at(a, atom(k)), f(atom(k), n)))), panic=False)
    return mk_


def place_of(S):
    a, b = arg(S, 0), arg(S, 1)
    n = slen(a)

    def chk(S, e, F, v):
        yield expect_true(S, e, F, band(ge(v), lt(v, n)), "the place lies inside the row")
        yield expect_true(S, e, F, eqp(at(a, v, F), b), "the bell at that place is the bell looked up")
    return Spec(fail=ge(psub(b, n)), check=chk, panic=False)


def extend_to_stage(S):
    a, s = arg(S, 0), arg(S, 1)
    n = slen(a)
    w = concat(a, seq_of(psub(s, n), lambda i: padd(n, i)))
    return Spec(finals={0: w}, panic=lt(s, n))


def effective(S):
    a = arg(S, 0)
    n = slen(a)

    def chk(S, e, F, v):
        yield expect_true(S, e, F, band(ge(psub(v, ONE)), le(v, n)), "the effective stage is between one and the stage")
        k = fresh()
        Fk = F.add(ge(psub(atom(k), v)), lt(atom(k), n))
        yield expect_true(S, e, Fk, eqp(at(a, atom(k), Fk), atom(k)), "every bell from the effective stage on is in its place")
        yield expect_true(S, e, F, bor(eqp(v, ONE), bnot(eqp(at(a, psub(v, ONE), F), psub(v, ONE)))), "the last bell of the effective stage is not in its place")
    return Spec(check=chk, panic=False)


def fixed(S):
    a = arg(S, 0)
    n = slen(a)
    k = fresh()
    w = seq([mk("cat", n, lam(k, ite(eqp(at(a, atom(k)), atom(k)), seq_of(ONE, lambda i: atom(k)), EMPTYSEQ)))])
    return Spec(ret=w, what="the fixed bells are those in their own place")


def stage(S):
    return Spec(ret=slen(arg(S, 0)), panic=False)


def same_row(S):
    return Spec(ret=arg(S, 0), panic=False)


def index(S):
    a, i = arg(S, 0), arg(S, 1)
    if not isinstance(i, N) or i.tag != "poly":
        return None
    return Spec(ret=at(a, i), panic=ge(psub(i, slen(a))))


def swap(S):
    a, i, j = arg(S, 0), arg(S, 1), arg(S, 2)
    n = slen(a)

    def chk(S, e, F, v):
        o = e.finals[0]
        yield expect_true(S, e, F, eqp(slen(o), n), "swapping keeps the stage")
        k = fresh()
        Fk = F.add(ge(atom(k)), lt(atom(k), n))
        w = ite(eqp(atom(k), i), at(a, j, F), ite(eqp(atom(k), j), at(a, i, F), at(a, atom(k))))
        yield expect_equal(S, e, Fk, at(o, atom(k), Fk), w, "swapping exchanges exactly the two places")
    return Spec(check=chk, panic=bor(ge(psub(i, n)), ge(psub(j, n))))


TABLE = [
    ("RowBuf", "rounds", None, std_row(lambda n: seq_of(n, lambda i: i))),
    ("RowBuf", "backrounds", None, std_row(lambda n: seq_of(n, lambda i: psub(psub(n, ONE), i)))),
    ("RowBuf", "queens", None, std_row(queens)),
    ("Row", "is_rounds", None, forall_row(lambda i, n: i)),
    ("Row", "is_backrounds", None, forall_row(lambda i, n: psub(psub(n, ONE), i))),
    ("Row", "place_of", None, place_of), ("Row", "effective_stage", None, effective), ("Row", "fixed_bells", None, fixed),
    ("Row", "stage", None, stage), ("Row", "bell_iter", None, same_row), ("Row", "slice", None, same_row), ("Row", "index", "Index", index),
    ("Row", "swap", None, swap), ("RowBuf", "extend_to_stage", None, extend_to_stage), ("RowBuf", "overwrite_from", None, lambda S: Spec(finals={0: arg(S, 1)}, panic=False)),
    ("Row", "copy_into", None, lambda S: Spec(finals={1: arg(S, 0)}, panic=False)),
    ("Row", "to_owned", "ToOwned", same_row), ("RowBuf", "deref", "Deref", same_row), ("RowBuf", "as_row", None, same_row),
    ("RowBuf", "borrow", "Borrow", same_row), ("RowBuf", "as_ref", "AsRef", same_row), ("RowBuf", "into_bell_vec", None, same_row),
    ("Row", "to_rc", None, same_row), ("Row", "to_arc", None, same_row), ("RowBuf", "clone", "Clone", same_row),
    ("Row", "get_bell_unchecked", None, lambda S: Spec(ret=at(arg(S, 0), arg(S, 1)), pre=lt(arg(S, 1), slen(arg(S, 0))), panic=False)),
]

RULE = ("results and written operands of the standard-row constructors, row predicates and row accessors are compared, as value numbers, with their "
        "defining formulas for a symbolic row of symbolic stage; predicates are decided in both directions")


def check(prop):
    jobs, missing = jobs_of(TABLE)
    return jobs, RULE, missing
