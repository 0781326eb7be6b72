"""C04: operands of different stages are never combined."""
from views import *
import core

# (owner, method, trait, operands whose stages must agree on a successful exit)
TABLE = [
    ("AnnotBlock", "repeat_iter", None, (0, 1)), ("AnnotBlock", "permute", None, (0, 1)), ("AnnotBlock", "pre_multiply", None, (0, 1)),
    ("AnnotBlock", "extend", None, (0, 1)), ("AnnotBlock", "extend_range", None, (0, 1)),
    ("Mask", "matches", None, (0, 1)), ("Mask", "is_subset_of", None, (0, 1)), ("Mask", "is_compatible_with", None, (0, 1)),
    ("Mask", "combine", None, (0, 1)), ("Mask", "mul", "Mul", (0, 1)),
    ("PlaceNot", "pn_between", None, (0, 1)), ("PlaceNot", "permute", None, (0, 1)), ("PlaceNot", "permute_new", None, (0, 1)),
    ("PnBlock", "to_rows", None, (0, 1)), ("PnBlock", "to_block", None, (0, 1)),
    ("RowAccumulator", "accumulate", None, (0, 1)), ("RowAccumulator", "pre_accumulate", None, (0, 1)),
    ("RowAccumulator", "mul_assign", "MulAssign", (0, 1)),
    ("Row", "mul_result", None, (0, 1)), ("Row", "mul_into", None, (0, 1)), ("Row", "mul_into_row", None, (0, 1, 2)),
    ("Row", "inv_into", None, (0, 1)), ("Row", "solve_ax_equals_b", None, (0, 1)), ("Row", "solve_xa_equals_b", None, (0, 1)),
    ("Row", "tranposition_to", None, (0, 1)), ("Row", "mul", "Mul", (0, 1)), ("RowBuf", "mul", "Mul", (0, 1)),
    ("SameStageVec", "push", None, (0, 1)), ("SameStageVec", "extend_from_buf", None, (0, 1)),
    ("SameStageVec", "extend_transposed", None, (0, 1, 2)), ("SameStageVec", "extend_range_transposed", None, (0, 1, 2)),
    ("SameStageVec", "extend_transposed_from_within", None, (0, 2)), ("SameStageVec", "permute", None, (0, 1)),
    ("SameStageVec", "pre_multiply", None, (0, 1)), ("SameStageVec", "pre_multiplied", None, (0, 1)),
    ("IncompatibleStages", "test_err", None, (0, 1)),
    ("Row", "eq", "PartialEq", (0, 1)), ("RowBuf", "eq", "PartialEq", (0, 1)), ("SameStageVec", "eq", "PartialEq", (0, 1)),
    ("Mask", "eq", "PartialEq", (0, 1)), ("PlaceNot", "eq", "PartialEq", (0, 1)), ("AnnotBlock", "eq", "PartialEq", (0, 1)),
]


def judge(ops):
    def j(S, e):
        if e.tag != "ret":
            return
        o = outty(S)
        try:
            sts = [stage_of(S.inputs[k].init, S.inputs[k].ty) for k in ops]
        except (IndexError, TypeError):
            sts = [None]
        if any(s is None for s in sts):
            yield Ob(S.name, "stages of the operands", UNDECIDED, "no stage view")
            return
        goal = band(*[eqp(sts[0], s) for s in sts[1:]])
        what = "the call combines its operands only when their stages agree"
        if o == ("prim", "bool"):
            v = e.value
            if v is False:
                return
            F = e.st.facts if v is True else e.st.facts.add(v)
            yield expect_true(S, e, F, goal, what)
            return
        if is_result(o) or is_option(o):
            good = OK if is_result(o) else SOME
            for F, v in cases(e.st.facts, e.value):
                if v.tag != "en":
                    yield Ob(S.name, "result form", UNDECIDED, v.tag)
                elif v.args[1] == good:
                    yield expect_true(S, e, F, goal, what)
            return
        yield expect_true(S, e, e.st.facts, goal, what)
    return j


def as_ref_row(x):
    """the row an opaque `T: AsRef<Row>` item stands for"""
    x = deref(x)
    if x.tag == "seq":
        return x
    rt = ("adt", LY.NAMES["Row"], ())
    return mk_value(V.typed(mk("uf", "as_ref", True, x), rt), rt)


def each_row(S):
    """an iterator of rows added to a collection: every row has the collection's stage"""
    X = core.summ.MO.opaque_it(S.interp, None, S.inputs[1].sym, S.inputs[1].ty, False).args[1]
    return slen(X), stage_of(S.inputs[0].init, S.inputs[0].ty), lambda k: slen(as_ref_row(seq_at(X, k)))


def each_pn(S):
    """notations put together: every one has the first one's stage"""
    X = deref(S.inputs[0].value)
    t = elem_ty(dty(S.inputs[0].ty))
    if X.tag != "seq":
        X = core.summ.MO.opaque_it(S.interp, None, S.inputs[0].sym, S.inputs[0].ty, False).args[1]
        t = ("adt", LY.NAMES["PlaceNot"], ())
    st = lambda k: stage_of(seq_at(X, k), t)
    return psub(slen(X), ONE), st(ZERO), lambda k: st(padd(k, ONE))


# operations that combine however many items an argument holds
MANY = [("SameStageVec", "extend", each_row), ("PnBlock", "from_vec", each_pn), ("PnBlock", "from_iter", each_pn)]


def judge_many(items):
    def j(S, e):
        if e.tag != "ret":
            return
        try:
            n, st, of = items(S)
            k = atom(fresh())
            goal = eqp(of(k), st)
        except (IndexError, TypeError, AttributeError):
            yield Ob(S.name, "stages of the items", UNDECIDED, "no stage view")
            return
        o = outty(S)
        for F, v in cases(e.st.facts, e.value):
            if is_result(o) and v.tag != "en":
                yield Ob(S.name, "result form", UNDECIDED, v.tag)
            elif not is_result(o) or v.args[1] == OK:
                yield expect_true(S, e, F.add(ge(k), lt(k, n)), goal, "the call takes items only when their stages agree")
    return j


RULE = ("for every public operation of the table (operators, products, permutations, pushes, extensions, masks, notations) each successful exit's "
        "facts must entail that the stages of the operands it combines are equal")


def check(prop):
    jobs, missing = [], []
    for own, m, tr, ops in TABLE:
        fs = [f for f in api(own, m, tr) if not f["unsafe"]]
        if not fs and tr is None:
            missing.append("%s::%s" % (own, m))
        for f in fs:
            if len(f["inputs"]) > max(ops):
                jobs.append((f["name"], f["id"], simple_job(judge(ops))))
    for own, m, items in MANY:
        fs = [f for f in api(own, m, None) if not f["unsafe"]]
        if not fs:
            missing.append("%s::%s" % (own, m))
        for f in fs:
            jobs.append((f["name"], f["id"], simple_job(judge_many(items))))
    return jobs, RULE, missing
