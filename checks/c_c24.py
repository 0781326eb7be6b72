"""C24: masks follow the place-by-place definition."""
from colls import *

MO = core.summ.MO


def some(x):
    return MO.isvar(x, 1)


def bell(x):
    return deref(MO.payload(x, 1))


class M:
    """a mask argument: what place i requires"""

    def __init__(self, v):
        self.v = deref(v)
        self.n = slen(self.v)

    def at(self, i):
        return seq_at(self.v, i)

    def some(self, i):
        return some(self.at(i))

    def is_(self, i, b):
        """place i is fixed to the bell b"""
        x = self.at(i)
        return band(some(x), eqp(bell(x), b))

    def each(self, f, n=None):
        i = fresh()
        return forall_(n or self.n, lam(i, f(atom(i))))

    def any(self, f):
        i = fresh()
        return exists_(self.n, lam(i, f(atom(i))))

    def wellformed(self):
        """no bell is fixed twice, none lies outside the stage"""
        dup = self.each(lambda i: self.each(lambda j: bnot(band(self.some(i), self.is_(j, bell(self.at(i))))), i))
        return band(ge(psub(self.n, ONE)), dup, self.each(lambda i: bor(bnot(self.some(i)), lt(bell(self.at(i)), self.n))))


def mask(S, k):
    return M(arg(S, k))


def none():
    return en(OPT, 0)


def just(b):
    return en(OPT, 1, b)


def opt(c, b, other=None):
    return ite(c, just(b), other if other is not None else none())


def mask_out(S):
    return outty(S)


def full_row(S):
    a = arg(S, 0)
    return Spec(ret=seq_of(slen(a), lambda i: just(at(a, i))), panic=False)


def empty(S):
    return Spec(ret=seq_of(arg(S, 0), lambda i: none()), panic=False)


def fix_bells(S):
    st = arg(S, 0)
    it = MO.opaque_it(S.interp, None, S.inputs[1].sym, S.inputs[1].ty, False)
    X = it.args[1]
    n = slen(X)

    def there(b):
        q = fresh()
        return exists_(n, lam(q, eqp(seq_at(X, atom(q)), b)))
    q = fresh()
    bad = exists_(n, lam(q, le(st, seq_at(X, atom(q)))))
    return Spec(ret=seq_of(st, lambda i: opt(there(i), i)), panic=bad)


def setter(place, checked):
    def mk_(S):
        m, b = mask(S, 0), arg(S, 1)
        p = place(S)
        w = store_seq(m.v, p, just(b), decider(FX.Facts().add(lt(p, m.n)), 1))
        fail = m.any(lambda j: band(bnot(eqp(j, p)), m.is_(j, b))) if checked else None

        def chk(S, e, F, v):
            yield expect_equal(S, e, F.add(lt(p, m.n)), e.finals[0], w, "exactly the given place is fixed to the given bell")
        return Spec(fail=fail, pre=m.wellformed() if checked else True, panic=le(m.n, p), check=chk)
    return mk_


def refused_unchanged(make):
    """a refused call leaves the mask as it was"""
    return make


def unspecified(S):
    m = mask(S, 0)
    i = fresh()
    w = seq([mk("cat", m.n, lam(i, ite(m.some(atom(i)), EMPTYSEQ, seq_of(ONE, lambda j: atom(i)))))])

    def chk(S, e, F, v):
        if v.tag == "it" and v.args[0] == "seq":
            v = slice_seq(v.args[1], v.args[2], v.args[3])
        yield expect_equal(S, e, F, v, w, "exactly the unspecified places, in order")
    return Spec(check=chk, panic=False)


def stage(S):
    m = mask(S, 0)
    return Spec(ret=m.n, panic=eqp(m.n, ZERO))


def matches(S):
    m, a = mask(S, 0), arg(S, 1)
    w = band(eqp(m.n, slen(a)), m.each(lambda i: bor(bnot(m.some(i)), eqp(bell(m.at(i)), at(a, i)))))
    return Spec(ret=w, pre=ge(psub(m.n, ONE)), panic=False)


def place_of(S):
    m, b = mask(S, 0), arg(S, 1)

    def chk(S, e, F, v):
        yield expect_true(S, e, F, band(ge(v), lt(v, m.n), m.is_(v, b)), "the place returned is fixed to that bell")
    return Spec(fail=bnot(m.any(lambda i: m.is_(i, b))), check=chk, panic=False)


def is_empty(S):
    m = mask(S, 0)
    return Spec(ret=m.each(lambda i: bnot(m.some(i))), panic=False)


def as_row(S):
    m = mask(S, 0)
    w = seq_of(m.n, lambda i: bell(m.at(i)))
    return Spec(ret=w, fail=m.any(lambda i: bnot(m.some(i))), pre=m.wellformed(), panic=False)


def subset(S):
    a, b = mask(S, 0), mask(S, 1)
    w = band(eqp(a.n, b.n), a.each(lambda i: bor(bnot(b.some(i)), a.is_(i, bell(b.at(i))))))
    return Spec(ret=w, pre=band(ge(psub(a.n, ONE)), ge(psub(b.n, ONE))), panic=False)


def compatible_cond(a, b):
    """each place fixed by b is free in a or fixed to the same bell, which a fixes nowhere else"""
    def place(i):
        x = bell(b.at(i))
        return bor(bnot(b.some(i)), band(bor(bnot(a.some(i)), a.is_(i, x)), a.each(lambda j: bor(eqp(i, j), bnot(a.is_(j, x))))))
    return band(eqp(a.n, b.n), b.each(place))


def compatible(S):
    a, b = mask(S, 0), mask(S, 1)
    return Spec(ret=compatible_cond(a, b), pre=band(a.wellformed(), b.wellformed()), panic=False)


def combine(S):
    a, b = mask(S, 0), mask(S, 1)
    w = seq_of(a.n, lambda i: ite(a.some(i), a.at(i), b.at(i)))
    return Spec(ret=w, fail=bnot(compatible_cond(a, b)), pre=band(a.wellformed(), b.wellformed()), panic=False)


def mul(S):
    x, y = arg(S, 0), arg(S, 1)
    if LY.is_ty(argty(S, 0), "Mask"):
        m, a = M(x), y
        w = seq_of(slen(a), lambda i: m.at(at(a, i)))
        return Spec(ret=w, pre=ge(psub(m.n, ONE)), panic=bnot(eqp(m.n, slen(a))))
    a, m = x, M(y)
    w = seq_of(m.n, lambda i: opt(m.some(i), at(a, bell(m.at(i)))))
    return Spec(ret=w, pre=m.wellformed(), panic=bnot(eqp(m.n, slen(a))))


K = "Mask"
TABLE = [
    (K, "full_row", None, full_row), (K, "empty", None, empty), (K, "fix_bells", None, fix_bells),
    (K, "fix", None, setter(lambda S: arg(S, 1), True)), (K, "set_bell", None, setter(lambda S: arg(S, 2), True)),
    (K, "fix_unchecked", None, setter(lambda S: arg(S, 1), False)), (K, "set_bell_unchecked", None, setter(lambda S: arg(S, 2), False)),
    (K, "unspecified_places", None, unspecified), (K, "stage", None, stage), (K, "matches", None, matches), (K, "place_of", None, place_of),
    (K, "is_empty", None, is_empty), (K, "as_row", None, as_row), (K, "is_subset_of", None, subset),
    (K, "is_compatible_with", None, compatible), (K, "combine", None, combine), (K, "mul", "Mul", mul), ("Row", "mul", "Mul", None),
]

RULE = ("every mask operation is summarised over symbolic masks and rows; its result, the mask left behind and its refusal are compared, as value numbers "
        "and quantified conditions over places, with the place-by-place definition")


def check(prop):
    rows = [r for r in TABLE if r[3] is not None]
    jobs, missing = jobs_of(rows)
    for f in api("Row", "mul", "Mul"):
        if any(LY.is_ty(dty(core.P.ty(t)), "Mask") for t in f["inputs"]):
            jobs.append((f["name"], f["id"], simple_job(judge_spec(mul))))
    return jobs, RULE, missing
