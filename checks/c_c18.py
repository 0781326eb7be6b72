"""C18: products, inverses and solutions of rows."""
from spec import *


def prod(a, b):
    return seq_of(slen(b), lambda i: at(a, at(b, i)))


def pos_in(a, b):
    """the place of bell b in the row a"""
    return t_pos_of(a, b)


def t_pos_of(a, b):
    a = deref(a)
    s = eta_term(a)
    return V.t_pos(s if s is not None else a, b)


def eta_term(a):
    """the symbol a row value expands, if it does"""
    r = INV.eta(a)
    return r[0] if r is not None else None


def inv(a):
    return seq_of(slen(a), lambda i: pos_in(a, i))


def ne(a, b):
    return bnot(eqp(slen(a), slen(b)))


def two(f, dest=None):
    def mk_(S):
        a, b = arg(S, 0), arg(S, 1)
        w = f(a, b)
        return Spec(ret=w, fail=ne(a, b), panic=False)
    return mk_


def op(S):
    if not LY.is_row_ty(argty(S, 1)) or not LY.is_row_ty(argty(S, 0)):
        return None
    a, b = arg(S, 0), arg(S, 1)
    return Spec(ret=prod(a, b), panic=ne(a, b))


def unchecked(f):
    def mk_(S):
        a, b = arg(S, 0), arg(S, 1)
        return Spec(ret=f(a, b), pre=eqp(slen(a), slen(b)), panic=False)
    return mk_


def into(S):
    a, b = arg(S, 0), arg(S, 1)
    return Spec(finals={2: prod(a, b)}, fail=ne(a, b), panic=False)


def into_unchecked(S):
    a, b = arg(S, 0), arg(S, 1)
    return Spec(finals={2: prod(a, b)}, pre=eqp(slen(a), slen(b)), panic=False)


def into_row(S):
    a, b, o = arg(S, 0), arg(S, 1), arg(S, 2)
    return Spec(finals={2: prod(a, b)}, fail=bor(ne(a, b), ne(a, o)), panic=False)


def into_row_unchecked(S):
    a, b, o = arg(S, 0), arg(S, 1), arg(S, 2)
    return Spec(finals={2: prod(a, b)}, pre=band(eqp(slen(a), slen(b)), eqp(slen(a), slen(o))), panic=False)


def inverse(S):
    return Spec(ret=inv(arg(S, 0)), panic=False)


def inv_into(S):
    a, o = arg(S, 0), arg(S, 1)
    return Spec(finals={1: inv(a)}, fail=ne(a, o), panic=False)


def inv_into_buf(S):
    return Spec(finals={1: inv(arg(S, 0))}, panic=False)


def acc(left):
    def mk_(S):
        a, b = acc_row(arg(S, 0), argty(S, 0)), arg(S, 1)
        w = prod(a, b) if left else prod(b, a)

        def chk(S, e, F, v):
            yield expect_equal(S, e, F, acc_row(e.finals[0], argty(S, 0)), w, "the accumulated row is the product")
        o = outty(S)
        if is_result(o):
            return Spec(fail=ne(a, b), check=chk, panic=False)
        return Spec(check=chk, panic=ne(a, b))
    return mk_


def acc_new(S):
    o = outty(S)
    a = arg(S, 0)
    w = seq_of(a, lambda i: i) if LY.is_ty(argty(S, 0), "Stage") else a

    def chk(S, e, F, v):
        yield expect_equal(S, e, F, acc_row(v, o), w, "the accumulator starts from the given row")
    return Spec(check=chk, panic=False)


def acc_total(S):
    return Spec(ret=acc_row(arg(S, 0), argty(S, 0)), panic=False)


def acc_set(S):
    a, b = arg(S, 0), arg(S, 1)

    def chk(S, e, F, v):
        yield expect_equal(S, e, F, acc_row(e.finals[0], argty(S, 0)), b, "the accumulated row is the given row")
    return Spec(check=chk)


xa = lambda a, b: prod(b, inv(a))
ax = lambda a, b: prod(inv(a), b)

TABLE = [
    ("Row", "mul_result", None, two(prod)), ("Row", "mul_unchecked", None, unchecked(prod)),
    ("Row", "mul", "Mul", op), ("RowBuf", "mul", "Mul", op),
    ("Row", "mul_into", None, into), ("Row", "mul_into_unchecked", None, into_unchecked),
    ("Row", "mul_into_row", None, into_row), ("Row", "mul_into_row_unchecked", None, into_row_unchecked),
    ("Row", "inv", None, inverse), ("Row", "not", "Not", inverse), ("RowBuf", "not", "Not", inverse),
    ("Row", "inv_into", None, inv_into), ("Row", "inv_into_buf", None, inv_into_buf),
    ("Row", "solve_ax_equals_b", None, two(ax)), ("Row", "solve_xa_equals_b", None, two(xa)),
    ("Row", "tranposition_to", None, two(xa)), ("Row", "tranposition_to_unchecked", None, unchecked(xa)),
    ("RowAccumulator", "accumulate", None, acc(True)), ("RowAccumulator", "pre_accumulate", None, acc(False)),
    ("RowAccumulator", "mul_assign", "MulAssign", acc(True)),
    ("RowAccumulator", "new", None, acc_new), ("RowAccumulator", "rounds", None, acc_new),
    ("RowAccumulator", "total", None, acc_total), ("RowAccumulator", "into_total", None, acc_total), ("RowAccumulator", "set", None, acc_set),
]

RULE = ("the value number of the result (or of the written operand) of every spelling of the product, inverse and equation solvers is compared with the "
        "documented element formula; refusals must be exactly the stage mismatches, and nothing else panics")


def check(prop):
    # unchecked spellings are unsafe: judged under their documented precondition
    jobs, missing = jobs_of(TABLE)
    return jobs, RULE, missing
