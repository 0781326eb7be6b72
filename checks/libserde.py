"""The library file format: the writer's output is fed to the reader, symbolically, for an arbitrary library."""
from views import *
import core


def last(n):
    return n.split("<")[0].split("::")[-1] if n else None


def pair():
    """(writer, reader): From<&Library> for a plain record and the conversion of that record back"""
    P = core.P
    fs = [f for f in P.fns.values() if f["kind"] == "AssocFn" and f.get("body") and f["trait"] and last(f["trait"]) in ("From", "TryFrom") and len(f["inputs"]) == 1]
    out = []
    for w in fs:
        t = P.ty(w["inputs"][0])
        o = P.ty(w["output"])
        if t[0] != "ref" or t[1] or t[2][0] != "adt" or o[0] != "adt" or o[1] not in P.adts:
            continue
        for r in fs:
            if P.ty(r["inputs"][0]) == o:
                ro = P.ty(r["output"])
                if ro == t[2] or is_result(ro) and ro[2][0] == t[2]:
                    out.append((w, r))
    return out


def subterms(v):
    seen = set()
    q = [v]
    while q:
        x = q.pop()
        if isinstance(x, tuple):
            q += list(x)
        elif isinstance(x, N) and x not in seen:
            seen.add(x)
            yield x
            q += list(x.args)


def leading_seq(v):
    """the sequence a record is made of"""
    v = deref(v)
    if v.tag == "seq":
        return v
    if v.tag == "agg":
        c = [x for x in v.args[1] if isinstance(x, N) and deref(x).tag == "seq"]
        if len(c) == 1:
            return deref(c[0])
    return None


def abstract(v):
    """(the writer's value with the sequence of groups it runs over replaced by an arbitrary one, that sequence)"""
    s = leading_seq(v)
    if s is None or len(s.args[0]) != 1 or s.args[0][0].tag != "comp":
        return None
    n = as_atom(s.args[0][0].args[0])
    if n is None or n.tag != "len" or TY.get(n.args[0]) is None:
        return None
    X = n.args[0]
    ty = TY[X]
    lib = sym("groups", ty, True)
    v2 = subst_any(v, {X: lib, n: as_atom(tlen(lib))} if False else {X: lib})
    return v2, lib, ty


class Event:
    """one call of HashMap::insert while reading"""
    __slots__ = ("st", "slot", "key", "val")


def events(f):
    """run the reader on the writer's output; yield (groups symbol, its type, events, reader summary)"""
    pr = [p for p in pair() if p[0]["id"] == f["id"]]
    w, r = pr[0]
    S = summarise(w)
    if S.error or not S.exits:
        return None, "writer: " + str(S.error), S
    runs = []
    for e in S.exits:
        if e.tag != "ret":
            continue
        a = abstract(e.value)
        if a is None:
            return None, "shape of the writer's result", S
        v, lib, ty = a
        if any(x[1] is v for x in runs):
            continue
        evs = []

        def setup(I, st, S2, args, v=v):
            args[0] = v

        def hook(I, st, vals, info, evs=evs):
            if isinstance(vals[2], N) and deref(vals[2]).tag == "agg" and isinstance(deref(vals[2]).args[0], str) and deref(vals[2]).args[0] in core.P.adts:
                x = Event()
                x.st, x.key, x.val = st, vals[1], deref(vals[2])
                x.slot = I.slot_keys.get(vals[0].args[0]) if vals[0].tag == "mref" else None
                evs.append(x)
        T = summarise(r, setup=setup, hooks={"HashMap::insert": hook})
        runs.append((lib, v, ty, evs, T))
    return runs, None, S


def sources(lib, x):
    """(group, method) terms an inserted record is made from"""
    E, C = set(), set()
    for t in subterms(x.val):
        if t.tag == "at" and t.args[0] is lib:
            E.add(t)
    for t in subterms(x.val):
        ty = TY.get(t)
        if ty is not None and LY.unbox(ty) == ("adt", x.val.args[0], ()) and t.tag == "fld" and t.args[1] == "*":
            C.add(t)
    return E, C


def closed(x, lib, *vals):
    """does the event depend on nothing but the library?  (no value a loop left approximated)"""
    for v in list(x.st.facts.items) + list(vals):
        for t in subterms(v):
            if t.tag == "sv" or t.tag == "sym" and t is not lib:
                return False
    return True


def excluded(F, t, k, n):
    """do the facts exclude that t is its k-th variant?"""
    m = {mk("isv", t, j): j == k for j in range(n)}
    return any(isinstance(q, N) and subst_any(q, m) is False for q in F.items)


def normal(F, got, want):
    """facts and values with fieldless enum values and strings replaced by what this path says they are"""
    m = {}
    ts = set(t.args[0] for q in F.items if isinstance(q, N) for t in subterms(q) if t.tag == "isv" and not EV.n_has_bv(t.args[0]))
    for t in ts:
        vs = variants(strip(TY[t])) if TY.get(t) is not None else None
        if vs and not any(vs):
            ks = [k for k in range(len(vs)) if not excluded(F, t, k, len(vs))]
            if len(ks) == 1:
                m[symv(t, strip(TY[t]))] = en(strip(TY[t])[1], ks[0])
    fs = [subst_any(q, m) if isinstance(q, N) and q.tag == "veq" else q for q in F.items]
    got, want = subst_any(got, m), subst_any(want, m)
    m = {}
    for q in fs:
        if isinstance(q, N) and q.tag == "veq":
            a, b = [y.args[0] if y.tag == "symv" else y for y in q.args[:2]]
            if a.tag == "fld" and b.tag == "uf":
                m[a] = b
            elif b.tag == "fld" and a.tag == "uf":
                m[b] = a
    if m:
        fs = [subst_any(q, m) if isinstance(q, N) else q for q in fs]
        got, want = subst_any(got, m), subst_any(want, m)
    return fs, got, want


def judge(root, lib, ty, x, want):
    """want(E, C) -> [(what, got, wanted)]: obligations on one insertion"""
    E, C = sources(lib, x)
    if len(E) != 1 or len(C) != 1:
        return [Ob(root, "insertion", UNDECIDED, "not made from one method of one group")]
    E, C = E.pop(), C.pop()
    out = []
    F = x.st.facts
    for what, got, w in want(E, C, x):
        if got is None:
            out.append(Ob(root, what, UNDECIDED, "form of the value"))
            continue
        with_budget(limits()["tl"])
        fs, got, w = normal(F, got, w)
        if same(F, got, w):
            out.append(Ob(root, what, PROVED))
            continue
        why = "not proved equal"
        if closed(x, lib, got, w):
            g2, w2 = got, w

            def goal(ev):
                a, b = ev.ev(g2), ev.ev(w2)
                if not conc_eq(a, b):
                    return "%s: %s instead of %s" % (what, str(a)[:200], str(b)[:200])
            FX.DEADLINE[0] = time.process_time() + 60
            try:
                d, ins, n = EV.find_witness([q for q in fs if isinstance(q, N)], goal, seed=1, tries=limits()["tries"], discr=discr, budget=limits()["wit"])
            except EV.GiveUp as g:
                d, why = None, "no valuation: %s" % g
            if d:
                out.append(Ob(root, what, REFUTED, d, {k: repr(v)[:600] for k, v in ins.items()}, root))
                continue
        out.append(Ob(root, what, UNDECIDED, why))
    return out


def role(ty, pred):
    fs = adt_fields(ty) or []
    return [k for k, (n, t) in enumerate(fs) if pred(n, t)]
