"""C05: an error (or refusal) exit leaves every mutable operand as it was."""
from core import *
import core


def muts(f):
    out = []
    for k, t in enumerate(f["inputs"]):
        t = core.P.ty(t)
        if t[0] == "ref" and t[1]:
            out.append(k)
    return out


def sel(f):
    if not public(f) or f["output"] is None or not muts(f):
        return False
    o = core.P.ty(f["output"])
    if not (is_result(o) or is_option(o)):
        return False
    if is_option(o) and f.get("impl_self") is not None and is_iterator(core.P.ty(f["impl_self"])):
        return False        # an iterator that ends has not refused anything
    for k in muts(f):
        t = core.P.ty(f["inputs"][k])[2]
        if t[0] == "adt" and t[1].startswith("std::fmt"):
            return False
    return True


def is_iterator(t):
    return any(im["trait"] == "std::iter::Iterator" and core.P.ty(im["self"])[:2] == t[:2] for im in core.P.impls)


def judge(S, e):
    if e.tag != "ret":
        return
    o = outty(S)
    bad = ERR if is_result(o) else NONE
    for F, v in cases(e.st.facts, e.value):
        if v.tag != "en":
            yield Ob(S.name, "result form", UNDECIDED, v.tag)
            continue
        if v.args[1] != bad:
            continue
        for k, w in e.finals.items():
            yield expect_equal(S, e, F, w, S.inputs[k].init, "argument %d is unchanged when the call reports %s" % (k + 1, "an error" if bad == ERR else "absence"))


RULE = ("for every exported safe function with a mutable operand and a Result/Option result: on every exit returning Err/None the final "
        "value of each mutable operand is proved equal to its initial value")


def check(prop):
    return [(f["name"], f["id"], simple_job(judge)) for f in fns(sel)], RULE, []
