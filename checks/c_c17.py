"""C17: owned and borrowed rows agree on equality, order and hash; bells and stages compare by number."""
from views import *
import core


def fn_of(trait, method, owner, arg=None):
    """the implementation of trait for a type (arg: its parameter type, for a mixed comparison)"""
    out = []
    for f in core.P.fns.values():
        if f["kind"] != "AssocFn" or not f.get("body") or f["method"] != method or not f["trait"]:
            continue
        if f["trait"].split("<")[0].split("::")[-1] != trait or f.get("impl_self") is None:
            continue
        t = dty(core.P.ty(f["impl_self"]))
        if not named(t, owner):
            continue
        if len(f["inputs"]) > 1 and trait in ("PartialEq", "PartialOrd", "Ord"):
            if not named(dty(core.P.ty(f["inputs"][1])), arg or owner):
                continue
        out.append(f)
    return out[0] if len(out) == 1 else None


def named(t, n):
    return t[0] == "adt" and t[1].split("::")[-1] == n


def content(S, k, target):
    """what the k-th operand dereferences to"""
    ip = S.inputs[k]
    t = dty(ip.ty)
    if named(t, target):
        return deref(ip.init)
    d = fn_of("Deref", "deref", t[1].split("::")[-1])
    if d is None:
        return None

    def setup(I, st, S2, args):
        args[0] = ref(deref(ip.init))
    D = summarise(d, setup=setup)
    r = [e for e in D.exits if e.tag == "ret"]
    if D.error or len(r) != 1 or len(D.exits) != 1 or [q for q in r[0].st.facts.items if q not in IP.DEFS]:
        return None
    v = deref(r[0].value)
    return v


def feed(v, kind, ev, out):
    x = ev.ev(v)
    if kind.startswith("seq:") or kind.startswith("slice:"):
        if kind.startswith("seq:"):
            out.append(("usize", len(x)))
        w = kind.split("'")[-2] if "'" in kind else kind
        out += [(w, q) for q in flatten(x)]
    else:
        out.append((kind, x))


def flatten(x):
    if isinstance(x, (list, tuple)):
        for y in x:
            yield from flatten(y)
    else:
        yield x


def history(v, ev, start):
    """what has been fed to the hasher, first to last"""
    v = deref(v)
    if v.tag == "symv":
        v = v.args[0]
    if v is start or isinstance(v, N) and v.tag == "sym":
        return []
    if v.tag != "uf" or not v.args[0].startswith("hashed:"):
        raise EV.GiveUp("hasher state")
    out = history(v.args[3], ev, start)
    feed(v.args[2], v.args[0][7:], ev, out)
    return out


def pure_history(v):
    v = deref(v)
    if v.tag == "symv":
        v = v.args[0]
    if not isinstance(v, N):
        return False
    if v.tag == "sym":
        return True
    return v.tag == "uf" and v.args[0].startswith("hashed:") and not IP.approx(v.args[2]) and pure_history(v.args[3])


def fed(v):
    """(state it started from, what was fed to it), with sequences as their length and their elements"""
    v = deref(v)
    if v.tag == "symv":
        v = v.args[0]
    if isinstance(v, N) and v.tag == "uf" and v.args[0].startswith("hashed:"):
        k, x = v.args[0][7:], v.args[2]
        s, r = fed(v.args[3])
        if k.startswith("seq:"):
            return s, r + [("usize", slen(x)), ("slice:" + k[4:], x)]
        return s, r + [(k, x)]
    return v, []


def alike(F, a, b):
    """proved the same history of what was fed to the hasher"""
    if same(F, a, b):
        return True
    (a, p), (b, q) = fed(a), fed(b)
    return same(F, a, b) is True and len(p) == len(q) and all(k == l and same(F, x, y) is True for (k, x), (l, y) in zip(p, q))


def iff(S, e, F, got, want, what, extra=()):
    with_budget(limits()["tl"])
    try:
        if got is want or (prove(F.add(got), want, 4) and prove(F.add(want), got, 4)):
            return Ob(S.name, what, PROVED)
    except FX.Incomplete:
        pass
    if not exit_exact(e, got, want):
        return Ob(S.name, what, UNDECIDED, "not proved equivalent [over-approximated]")

    def goal(ev):
        a, b = ev.ev(got), ev.ev(want)
        if bool(a) != bool(b):
            return "%s: %s instead of %s" % (what, a, b)
    w, reason = witness(S, e, goal, extra)
    if w is None:
        return Ob(S.name, what, UNDECIDED, "not proved equivalent [%s]" % reason)
    return Ob(S.name, what, REFUTED, w[0], w[1], where(S.f))


def agree(g, target):
    """f agrees with g (an implementation for the type it dereferences to)"""
    def run(f):
        S = summarise(f)
        if S.error:
            return dict(obs=[], error=S.error, stats=stats(S))
        n = len(S.inputs) if f["method"] != "hash" else 1
        cs = [content(S, k, target) for k in range(n)]
        if any(c is None for c in cs):
            return dict(obs=[], error="what the operands dereference to", stats=stats(S))

        def setup(I, st, S2, args):
            for k, c in enumerate(cs):
                args[k] = ref(c)
        G = summarise(g, setup=setup)
        if G.error:
            return dict(obs=[], error=G.error, stats=stats(S))
        obs = []
        if f["method"] == "hash":
            m = {G.inputs[1].sym: S.inputs[1].sym} if G.inputs[1].sym is not S.inputs[1].sym else {}
        for e in S.exits:
            for x in G.exits:
                F = e.st.facts.add(*x.st.facts.items)
                try:
                    with_budget(limits()["tl"])
                    if FX.infeasible(F):
                        continue
                except FX.Incomplete:
                    pass
                exact = exit_exact(e) and exit_exact(x)
                extra = [q for q in x.st.facts.items if q not in e.st.facts.items]
                what = "%s agrees with the borrowed form" % f["method"]
                if e.tag != "ret" or x.tag != "ret":
                    if e.tag != x.tag:
                        obs.append(Ob(S.name, what, UNDECIDED, "one panics"))
                    continue
                if f["method"] == "hash":
                    a = e.finals[1]
                    b = IP.resubst(x.finals[1], m) if m else x.finals[1]
                    if alike(F, a, b):
                        obs.append(Ob(S.name, what, PROVED))
                        continue
                    st0 = deref(S.inputs[1].init)
                    w = None
                    if exact and pure_history(a) and pure_history(b):
                        def goal(ev):
                            p, q = history(a, ev, st0), history(b, ev, st0)
                            if p != q:
                                return "owned feeds %s to the hasher, borrowed %s" % (p, q)
                        w, why = witness(S, e, goal, extra)
                    obs.append(Ob(S.name, what, REFUTED, w[0], w[1], where(f)) if w else Ob(S.name, what, UNDECIDED, "not proved equal"))
                elif fn_out(f) == ("prim", "bool"):
                    o = iff(S, e, F, e.value, x.value, what, extra)
                    if o.status == REFUTED and not exact:
                        o = Ob(S.name, what, UNDECIDED, "over-approximated")
                    obs.append(o)
                else:
                    o = expect_equal(S, e, F, e.value, x.value, what)
                    if o.status == REFUTED and not exact:
                        o = Ob(S.name, what, UNDECIDED, "over-approximated")
                    obs.append(o)
        return dict(obs=obs, error=None, stats=stats(S))
    return run


def borrows(target):
    """borrow / as_ref give the row that deref gives"""
    def run(f):
        S = summarise(f)
        if S.error:
            return dict(obs=[], error=S.error, stats=stats(S))
        c = content(S, 0, target)
        if c is None:
            return dict(obs=[], error="what the operand dereferences to", stats=stats(S))
        obs = []
        for e in S.exits:
            if e.tag == "ret":
                v = e.value
                if v.tag == "mref":
                    v = S.interp.read(e.st, ("mem", v.args[0], v.args[1]))
                obs.append(expect_equal(S, e, e.st.facts, deref(v), c, "row given by %s" % f["method"]))
            else:
                obs.append(expect_unreachable(S, e, "%s panics" % f["method"]))
        return dict(obs=obs, error=None, stats=stats(S))
    return run


def total(cmp_f):
    """partial_cmp is Some of cmp"""
    def run(f):
        S = summarise(f)

        def setup(I, st, S2, args):
            for k, ip in enumerate(S.inputs):
                args[k] = ref(deref(ip.init))
        G = summarise(cmp_f, setup=setup)
        if S.error or G.error:
            return dict(obs=[], error=S.error or G.error, stats=stats(S))
        obs = []
        for e in S.exits:
            for x in G.exits:
                F = e.st.facts.add(*x.st.facts.items)
                with_budget(limits()["tl"])
                try:
                    if FX.infeasible(F):
                        continue
                except FX.Incomplete:
                    pass
                if e.tag == "ret" and x.tag == "ret":
                    o = expect_equal(S, e, F, e.value, en("std::option::Option", SOME, x.value), "partial_cmp is Some(cmp)")
                    if o.status == REFUTED and not exit_exact(x):
                        o = Ob(S.name, o.what, UNDECIDED, "over-approximated")
                    obs.append(o)
        return dict(obs=obs, error=None, stats=stats(S))
    return run


def number(S, k, getter):
    ip = S.inputs[k]

    def setup(I, st, S2, args):
        v = deref(ip.init)
        args[0] = ref(v) if core.P.ty(getter["inputs"][0])[0] == "ref" else v
    D = summarise(getter, setup=setup)
    r = [e for e in D.exits if e.tag == "ret"]
    if D.error or len(r) != 1:
        return None
    v = deref(r[0].value)
    return v if v.tag == "poly" else None


def by_number(getter):
    def run(f):
        S = summarise(f)
        if S.error:
            return dict(obs=[], error=S.error, stats=stats(S))
        obs = []
        if f["method"] == "hash":
            # equal numbers feed the hasher the same
            G = summarise(f)
            m = {S.inputs[0].sym: sym("other", TY[S.inputs[0].sym], True)}
            na = number(S, 0, getter)
            if na is None:
                return dict(obs=[], error="number", stats=stats(S))
            nb = IP.resubst(na, m)
            for e in S.exits:
                if e.tag != "ret":
                    continue
                F = e.st.facts.add(eqp(na, nb), *[IP.resubst(q, m) for q in e.st.facts.items if isinstance(q, N)])
                obs.append(Ob(S.name, "equal values hash alike", PROVED if alike(F, e.finals[1], IP.resubst(e.finals[1], m)) else UNDECIDED, "not proved"))
            return dict(obs=obs, error=None, stats=stats(S))
        a, b = number(S, 0, getter), number(S, 1, getter)
        if a is None or b is None:
            return dict(obs=[], error="number", stats=stats(S))
        O = "std::cmp::Ordering"
        want = ite(lt(a, b), en(O, 0), ite(eqp(a, b), en(O, 1), en(O, 2)))
        W = {"eq": eqp(a, b), "ne": bnot(eqp(a, b)), "cmp": want, "partial_cmp": en("std::option::Option", SOME, want),
             "lt": lt(a, b), "le": le(a, b), "gt": lt(b, a), "ge": le(b, a)}[f["method"]]
        for e in S.exits:
            if e.tag != "ret":
                obs.append(expect_unreachable(S, e, "comparison panics"))
            elif fn_out(f) == ("prim", "bool"):
                obs.append(iff(S, e, e.st.facts, e.value, W, "%s is that of the numbers" % f["method"]))
            else:
                obs.append(expect_equal(S, e, e.st.facts, e.value, W, "%s is that of the numbers" % f["method"]))
        return dict(obs=obs, error=None, stats=stats(S))
    return run


RULE = ("each comparison and hash of an owned row is interpreted next to the borrowed row's, on what the operands dereference to: the results (for hash, what the hasher was fed) are one value "
        "number; borrow and as_ref give the row deref gives; comparisons of bells and stages equal those of their numbers")
CMP = [("PartialEq", "eq"), ("PartialEq", "ne"), ("PartialOrd", "partial_cmp"), ("PartialOrd", "lt"), ("PartialOrd", "le"), ("PartialOrd", "gt"), ("PartialOrd", "ge"), ("Ord", "cmp"), ("Hash", "hash")]
MUST = {"eq", "partial_cmp", "cmp", "hash"}


def check(prop):
    jobs, missing = [], []
    for tr, m in CMP:
        g = fn_of(tr, m, "Row")
        f = fn_of(tr, m, "RowBuf")
        if m in MUST and (f is None or g is None):
            missing.append("%s for Row and RowBuf" % tr)
        if g is not None and f is not None:
            jobs.append((f["name"], f["id"], agree(g, "Row")))
        if g is not None and tr in ("PartialEq", "PartialOrd"):
            for o, a in (("RowBuf", "Row"), ("Row", "RowBuf")):
                f = fn_of(tr, m, o, a)
                if f is not None:
                    jobs.append((f["name"], f["id"], agree(g, "Row")))
        gt = {"Bell": "number", "Stage": "num_bells"}
        for t in gt:
            f = fn_of(tr, m, t)
            n = api(t, gt[t])
            if m in MUST and (f is None or len(n) != 1):
                missing.append("%s for %s" % (tr, t))
            elif f is not None:
                jobs.append((f["name"], f["id"], by_number(n[0])))
    for t in ("Row", "RowBuf", "Bell", "Stage"):
        f, g = fn_of("PartialOrd", "partial_cmp", t), fn_of("Ord", "cmp", t)
        if f is not None and g is not None:
            jobs.append((f["name"] + " / cmp", f["id"], total(g)))
    for tr, m in (("Borrow", "borrow"), ("AsRef", "as_ref"), ("BorrowMut", "borrow_mut"), ("DerefMut", "deref_mut")):
        f = fn_of(tr, m, "RowBuf")
        if f is not None:
            jobs.append((f["name"], f["id"], borrows("Row")))
        elif tr == "Borrow":
            missing.append("Borrow<Row> for RowBuf")
    return jobs, RULE, missing
