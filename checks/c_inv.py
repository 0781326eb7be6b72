"""C01 C02 C03 C11 C12 C13: invariants of every value handed out or left behind by safe public functions."""
from core import *
import core

KEYS = {
    "C01": ("Row", "RowBuf", "RowAccumulator"),
    "C02": ("SameStageVec", "Iter"),
    "C03": ("AnnotBlock",),
    "C11": ("Stage",),
    "C12": ("PlaceNot", "PnBlock"),
    "C13": ("Regex",),
}


def relevant(f, keys):
    outs = [core.fn_out(f)]
    for t in f["inputs"]:
        t = core.P.ty(t)
        if t[0] == "ref" and t[1]:
            outs.append(t[2])
    return any(INV.has_inv(t, frozenset(), keys) for t in outs)


def delivers(f):
    """a method of a serde visitor: the format library calls it, with whatever the input holds, to make the value"""
    return f["kind"] == "AssocFn" and f.get("body") and f["trait"] and f["trait"].rsplit("::", 1)[-1] == "Visitor" and not f["unsafe"]


def job(keys):
    def run(f):
        S = summarise(f)
        obs = []
        oty = outty(S)
        if S.error and not S.exits:
            return dict(obs=[], error=S.error, stats=st_(S))
        for n, e in enumerate(S.exits):
            if e.tag != "ret":
                continue
            todo = []
            if INV.has_inv(oty, frozenset(), keys):
                todo.append(("result", e.value, oty))
            for k, v in e.finals.items():
                t = S.inputs[k].ty[2]
                if INV.has_inv(t, frozenset(), keys) and v is not S.inputs[k].init:
                    todo.append(("argument %d after the call" % (k + 1), v, t))
            for what, v, t in todo:
                obs.append(check_value(S, e, v, t, what, keys))
        return dict(obs=obs, error=S.error, stats=st_(S))
    return run


def st_(S):
    s = S.stats
    if s is None:
        return None
    return dict(inlined=list(getattr(s, "get", lambda k, d: d)("inlined", ())) if isinstance(s, dict) else (), blocks=s.get("blocks", 0) if isinstance(s, dict) else 0)


def check_value(S, e, v, t, what, keys):
    if isinstance(v, N) and v.tag == "it" and v.args[0] == "seq" and t[0] == "slice":
        S_, lo, hi = v.args[1:]
        v = slice_seq(S_, lo, hi, decider(e.st.facts, 2)) or v
    cx = ctx_keys(set(keys))
    with_budget(limits()["tl"])
    try:
        INV.prove_inv(e.st.facts, v, t, cx, what)
        why = "; ".join("%s: %s" % x for x in cx.fails[:3])
    except FX.Incomplete as x:
        cx.fails.append((what, "proof budget"))
        why = "proof budget: %s" % x
    if not cx.fails:
        return Ob(S.name, what, PROVED)
    if not exit_exact(e, v):
        return Ob(S.name, what, UNDECIDED, why + " [the exit is over-approximated: %s]" % (e.st.notes,))

    def goal(ev):
        return EV.bad_inv(ev.ev(v), t, what, 0, keys)
    w, reason = witness(S, e, goal)
    if w is None:
        return Ob(S.name, what, UNDECIDED, why + " [%s]" % reason)
    return Ob(S.name, what, REFUTED, w[0], w[1], where(S.f))


RULE = ("every exit of every exported safe function, and of every serde visitor method (which the format library calls with whatever the input holds), whose result or mutable operand can carry the invariant is summarised by abstract "
        "interpretation of its MIR (inputs assumed valid); the invariant is proved for the value at each returning exit. An obligation is "
        "reported only when the exit's summary is exact and a valuation of the summary terms violates the invariant")


def check(prop):
    keys = KEYS[prop]
    jobs = [(f["name"], f["id"], job(keys)) for f in fns(lambda f: (public(f) or delivers(f)) and relevant(f, keys))]
    return jobs, RULE, []
