"""Specifications as terms: what an operation returns, leaves behind and refuses, as value-number formulas over its arguments."""
from views import *
import core


class Spec:
    """ret: wanted value (term) of a returning call, or of the payload of Ok/Some (None: not specified)
    finals: {argument: wanted final value} on success
    fail: condition (term) for Err/None; when None any refusal is left unjudged
    pre: the specification speaks only under this condition
    panic: condition under which the call may panic (True: whenever, False: never)
    check: callable(S, e, F, payload) -> obligations, for specifications that are not a single equation"""

    def __init__(self, ret=None, finals=None, fail=None, pre=True, panic=True, check=None, what=None):
        self.ret, self.finals, self.fail, self.pre, self.panic, self.check, self.what = ret, finals or {}, fail, pre, panic, check, what


def arg(S, k):
    return deref(S.inputs[k].init)


def argty(S, k):
    return dty(S.inputs[k].ty)


def judge_spec(make):
    def j(S, e):
        try:
            sp = make(S)
        except (AttributeError, IndexError, TypeError, KeyError) as x:
            sp = None
            yield Ob(S.name, "specification applies", UNDECIDED, "%s: %s" % (type(x).__name__, x))
        if sp is None:
            return
        F0 = e.st.facts if sp.pre is True else e.st.facts.add(sp.pre)
        if e.tag == "panic":
            if sp.panic is True:
                return
            yield refute_reach(S, e, F0, sp.panic, "no panic (%s)" % str(e.value)[:80])
            return
        o = outty(S)
        payload = []
        if is_result(o) or is_option(o):
            good = OK if is_result(o) else SOME
            for F, v in cases(F0, e.value):
                if v.tag != "en":
                    if v.tag in ("symv",):
                        yield Ob(S.name, "result form", UNDECIDED, v.tag)
                    else:
                        yield Ob(S.name, "result form", UNDECIDED, v.tag)
                elif v.args[1] == good:
                    if sp.fail is not None:
                        yield expect_true(S, e, F, bnot(sp.fail) if not isinstance(sp.fail, bool) else not sp.fail, "the call succeeds only when it should")
                    payload.append((F, deref(v.args[2][0]) if v.args[2] else None))
                elif sp.fail is not None:
                    yield expect_true(S, e, F, sp.fail, "the call refuses only when it should")
        else:
            payload.append((F0, deref(e.value) if isinstance(e.value, N) else e.value))
        for F, v in payload:
            if sp.ret is not None:
                yield from equation(S, e, F, v, sp.ret, sp.what or "the result is the specified one", o)
            for k, w in sp.finals.items():
                yield expect_equal(S, e, F, e.finals[k], w, "argument %d is left as specified" % (k + 1))
            if sp.check:
                yield from sp.check(S, e, F, v)
    return j


def equation(S, e, F, v, want, what, o):
    if isinstance(want, bool) or isinstance(v, bool) or (isinstance(want, N) and is_bool(want)):
        # a boolean: both directions
        if v is not False:
            yield expect_true(S, e, F if v is True else F.add(v), want, what + " (holds when the call says so)")
        if v is not True:
            yield expect_true(S, e, F if v is False else F.add(bnot(v)), bnot(want) if not isinstance(want, bool) else not want, what + " (fails when the call says so)")
        return
    yield expect_equal(S, e, F, v, want, what)


def refute_reach(S, e, F, allowed, what):
    """obligation: the exit is only taken when `allowed`"""
    if allowed is False:
        return _unreach(S, e, F, what)
    return expect_true(S, e, F, allowed, what + ": only when documented")


def _unreach(S, e, F, what):
    return expect_none(S, e, F, what)


def jobs_of(table, optional=()):
    """table rows: (owner, method, trait, make[, nargs])"""
    jobs, missing = [], []
    for row in table:
        own, m, tr, mk_ = row[:4]
        fs = api(own, m, tr)
        if not fs and tr is None and (own, m) not in optional:
            missing.append("%s::%s" % (own, m))
        for f in fs:
            jobs.append((f["name"], f["id"], simple_job(judge_spec(mk_))))
    return jobs, missing
