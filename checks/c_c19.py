"""C19: what is written to an output buffer is independent of the buffer's previous contents (two-run dependence, decided on value numbers)."""
from views import *
from spec import arg, argty, eqp, slen
import core
import interp as IP

# (owner, method, trait, index of the overwritten operand)
TABLE = [
    ("Row", "mul_into", None, 2), ("Row", "mul_into_unchecked", None, 2), ("Row", "mul_into_row", None, 2), ("Row", "mul_into_row_unchecked", None, 2),
    ("Row", "inv_into", None, 1), ("Row", "inv_into_buf", None, 1), ("Row", "copy_into", None, 1),
    ("RowBuf", "overwrite_from", None, 0), ("RowBuf", "clone_from", "Clone", 0), ("RowAccumulator", "set", None, 0), ("RepeatIter", "next_into", None, 1),
]
OPTIONAL = {("RowBuf", "clone_from")}


def succ(S, e):
    """the exits on which the output counts as written: [(facts, shape of the result)]"""
    o = outty(S)
    if is_result(o) or is_option(o):
        good = OK if is_result(o) else SOME
        for F, v in cases(e.st.facts, e.value):
            if v.tag != "en":
                yield F, None
            elif v.args[1] == good:
                yield F, good
    else:
        yield e.st.facts, 0


def job(k):
    def run(f):
        S = summarise(f)
        if S.error and not S.exits:
            return dict(obs=[], error=S.error, stats=stats(S))
        obs = []
        ip = S.inputs[k]
        other = V.sym("other previous contents", ip.sym.args[1] if False else V.TY.get(ip.sym), V.is_valid(ip.sym))
        m = {ip.sym: other}
        ex = []
        # unchecked spellings are judged under their documented precondition: the rows are of one stage
        pre = []
        if f["unsafe"]:
            for i, x in enumerate(S.inputs):
                if i and LY.is_row_ty(argty(S, i)):
                    if i != k or not LY.is_ty(argty(S, i), "RowBuf"):
                        pre.append(eqp(slen(arg(S, 0)), slen(arg(S, i))))
        for e in S.exits:
            if e.tag != "ret":
                continue
            for F, s in succ(S, e):
                if s is None:
                    obs.append(Ob(S.name, "result form", UNDECIDED, "unsplit result"))
                else:
                    ex.append((e, F))
        what = "the value left in argument %d does not depend on what it held" % (k + 1)
        for e, F in ex:
            for e2, F2 in ex[:12]:
                G = F.add(*[IP.resubst(x, m) for x in F2.items if isinstance(x, N)]).add(*pre, *[IP.resubst(x, m) for x in pre])
                with_budget(limits()["tl"])
                try:
                    if infeasible(G, 2):
                        continue
                except FX.Incomplete:
                    pass
                a, b = e.finals[k], e2.finals[k]
                o = view(ip.ty[2], a, b, m)
                if o is None:
                    obs.append(Ob(S.name, what, UNDECIDED, "value form"))
                    continue
                ob = expect_equal(S, e, G, o[0], o[1], what)
                if ob.status == REFUTED and not exit_exact(e2):
                    ob.status = UNDECIDED
                obs.append(ob)
        # whether the call completes must not depend on it either (the unsafe spellings have preconditions on the output)
        if not f["unsafe"]:
            what2 = "whether the call completes does not depend on what argument %d held" % (k + 1)
            for e in S.exits:
                if e.tag != "panic":
                    continue
                for e2, F2 in ex[:12]:
                    G = e.st.facts.add(*[IP.resubst(x, m) for x in F2.items if isinstance(x, N)])
                    with_budget(limits()["tl"])
                    try:
                        if infeasible(G, 2):
                            obs.append(Ob(S.name, what2, PROVED))
                            continue
                    except FX.Incomplete:
                        pass
                    if not exit_exact(e) or not exit_exact(e2):
                        obs.append(Ob(S.name, what2, UNDECIDED, "over-approximated exit"))
                        continue
                    w, reason = witness(S, e, lambda ev: what2 + ": " + str(e.value)[:80], [x for x in G.items if x not in e.st.facts.items])
                    if w is None:
                        obs.append(Ob(S.name, what2, UNDECIDED, "not excluded [%s]" % reason))
                    else:
                        obs.append(Ob(S.name, what2, REFUTED, w[0], w[1], where(S.f)))
        if not ex and not S.error:
            obs.append(Ob(S.name, "a successful exit exists", UNDECIDED, "none found"))
        return dict(obs=obs, error=S.error, stats=stats(S))
    return run


def view(ty, a, b, m):
    if LY.is_ty(ty, "RowAccumulator"):
        # the scratch buffer is not part of the value
        return acc_row(a, ty), IP.resubst(acc_row(b, ty), m)
    return a, IP.resubst(b, m)


RULE = ("for every function documented to overwrite an operand, each pair of successful exits taken with equal other arguments and two independent "
        "previous contents of the operand must leave equal values (two-run dependence on value numbers)")


def check(prop):
    jobs, missing = [], []
    for own, m, tr, k in TABLE:
        fs = api(own, m, tr)
        if not fs and (own, m) not in OPTIONAL:
            missing.append("%s::%s" % (own, m))
        for f in fs:
            if len(f["inputs"]) > k:
                jobs.append((f["name"], f["id"], job(k)))
    return jobs, RULE, missing
