"""C15: titles of a library: what is written, what is read back, and under which key it is found."""
from libserde import *
import libserde as LS


def lowered(v):
    """x of a value to_lowercase(x), else None"""
    v = deref(v)
    if v.tag == "symv":
        v = v.args[0]
    if isinstance(v, N) and v.tag == "uf" and v.args[0].endswith("::to_lowercase"):
        return deref(v.args[2])
    return None


def lower(v):
    ty = ("adt", "std::string::String", ())
    return symv(typed(mk("uf", "std::str::to_lowercase", True, ref(v)), ty), ty)


def fullclass(P):
    return [a for a in P.adts if a.split("::")[-1] == "FullClass"]


def wants(fields):
    """fields(name, type) -> judged?"""
    def want(E, C, x):
        cty = TY[C]
        ety = TY[E]
        src = mk_value(C, cty)
        ev = mk_value(E, ety)
        key = ev.args[1][0]
        fcs = fullclass(core.P)
        kt = ety[1][0]
        for k, (n, t) in enumerate(adt_fields(cty)):
            if not fields(n, t):
                continue
            w = src.args[1][k]
            if t[0] == "adt" and t[1] in fcs and kt[0] == "tuple":
                j = [i for i, q in enumerate(kt[1]) if q == t]
                if len(j) == 1:
                    w = deref(key).args[1][j[0]]
            yield "%s read back" % n, x.val.args[1][k], w
        if fields("slot", ("prim", "usize")):
            j = [i for i, q in enumerate(kt[1]) if LY.is_ty(q, "Stage")] if kt[0] == "tuple" else []
            if len(j) == 1:
                yield "stage of the map the method is put in", x.slot, deref(key).args[1][j[0]]
        if fields("key", ("prim", "str")):
            # the key is the lower-case form of the title the stored record reports
            j = [i for i, (n, t) in enumerate(adt_fields(cty)) if n == "title"]
            if len(j) == 1:
                yield "key the method is stored under", x.key, lower(x.val.args[1][j[0]])
    return want


def round_trip(fields):
    def run(f):
        runs, err_, S = events(f)
        if runs is None:
            return dict(obs=[], error=err_, stats=stats(S))
        obs, errs, seen = [], [], set()
        for lib, v, ty, evs, T in runs:
            if T.error:
                errs.append(T.error)
            if not evs:
                errs.append("no insertion seen")
            for x in evs:
                for o in judge(T.name, lib, ty, x, wants(fields)):
                    k = (o.what, o.status, o.why)
                    if k in seen and o.status == PROVED:
                        continue
                    seen.add(k)
                    obs.append(o)
        return dict(obs=obs, error="; ".join(errs) or None, stats=stats(S))
    return run


def grouping(f):
    """every method is grouped under the stage of the map it is found in and its own class"""
    obs, evs = [], []

    def hook(I, st, vals, info):
        import models
        if vals[0].tag != "mref":
            return None
        v = deref(models.rd(I, st, vals[1]))
        k = I.slot_keys.get(vals[0].args[0])
        if k is not None and v.tag == "agg" and v.args[0] in core.P.adts:
            evs.append((st, k, v))
    S = summarise(f, hooks={"Vec::push": hook})
    fcs = fullclass(core.P)
    for st, k, v in evs:
        k = deref(k)
        if k.tag != "agg" or k.args[0] != "tuple":
            continue
        src = [t for t in subterms(v) if t.tag == "fld" and t.args[1] == "*" and TY.get(t) == ("adt", v.args[0], ())]
        fs = adt_fields(("adt", v.args[0], ()))
        j = [i for i, (n, t) in enumerate(fs) if t[0] == "adt" and t[1] in fcs]
        kk = [q for q in k.args[1] if isinstance(deref(q), N) and deref(q).tag == "agg" and deref(q).args[0] in fcs]
        if len(src) < 1 or len(j) != 1 or len(kk) != 1:
            continue
        with_budget(limits()["tl"])
        obs.append(Ob(S.name, "class of the group a method is put in", PROVED if same(st.facts, deref(kk[0]), v.args[1][j[0]]) else UNDECIDED, "not proved equal"))
        # the stage of the group and the map searched belong to one entry of the library
        owners = set()
        for t in subterms(v):
            if t.tag == "uf" and t.args[0].startswith("entries:") and TY.get(t) is not None:
                for q in subterms(t.args[2]):
                    if q.tag == "at":
                        owners.add(q)
        mine = set(q for p in k.args[1] for q in subterms(p) if q.tag == "at" and isinstance(TY.get(q), tuple) and TY[q][0] == "tuple")
        stages = [deref(p) for p in k.args[1] if deref(p).tag == "poly"]
        if len(owners) == 1 and len(stages) == 1:
            o = owners.pop()
            ot = TY.get(o)
            if ot is not None and ot[0] == "tuple":
                w = deref(mk_value(o, ot).args[1][0])
                obs.append(Ob(S.name, "stage of the group a method is put in", PROVED if same(st.facts, stages[0], w) else UNDECIDED, "not proved equal"))
    err_ = S.error or (None if obs else "no grouping seen")
    return dict(obs=obs, error=err_, stats=stats(S))


def stage_present(q, S):
    """the fact that an input map has, or does not have, a key"""
    if q.tag == "not":
        q = q.args[0]
    if not isinstance(q, N) or q.tag != "isv":
        return False
    u = q.args[0]
    if u.tag != "uf" or not u.args[0].endswith("HashMap::get"):
        return False
    x = deref(u.args[2])
    while isinstance(x, N) and x.tag in ("symv", "fld", "ref"):
        x = x.args[0]
    return any(x is ip.sym or x is deref(ip.value) for ip in S.inputs)


def lookup(f):
    """the key looked up is the lower-case form of the title asked for"""
    evs = []

    def hook(I, st, vals, info):
        evs.append((st, deref(vals[1])))
    S = summarise(f, hooks={"HashMap::get": hook})
    obs = []
    ts = [ip for ip in S.inputs if dty(ip.ty) == ("prim", "str")]
    if len(ts) != 1:
        return dict(obs=[], error="title argument", stats=stats(S))
    title = ts[0].value
    for st, k in evs:
        if k.tag != "symv":
            continue
        x = k
        n = 0
        while lowered(x) is not None and n < 5:
            x = lowered(x)
            n += 1
        ok = n > 0 and (x is deref(title) or same(st.facts, x, deref(title)))
        if ok:
            obs.append(Ob(S.name, "key looked up", PROVED))
        else:
            def goal(ev, k=k):
                a, b = ev.ev(k), ev.ev(lower(deref(title)))
                if not conc_eq(a, b):
                    return "key looked up: %r instead of %r" % (a, b)
            # a library may or may not have methods of a stage
            fs = [q for q in st.facts.items if isinstance(q, N) and not stage_present(q, S)]
            d = None
            if st.exact and not any(IP.approx(q) for q in fs if q not in IP.DEFS) and not IP.approx(k):
                try:
                    d, ins, c = EV.find_witness(fs, goal, seed=1, tries=limits()["tries"], discr=discr, budget=limits()["wit"])
                except EV.GiveUp:
                    d = None
            obs.append(Ob(S.name, "key looked up", REFUTED, d, {a: repr(b)[:300] for a, b in ins.items()}, where(S.f)) if d else Ob(S.name, "key looked up", UNDECIDED, "not the lower-case form of the title"))
    return dict(obs=obs, error=S.error or (None if obs else "no lookup seen"), stats=stats(S))


RULE = ("the writer of the library format is interpreted for an arbitrary library, its result is given to the reader, and at each insertion into the library's maps the "
        "stored key, the reported title, name and notation and the stage of the map are compared with the method that was written; a method is grouped under its own class "
        "and stage; every map lookup by title uses the lower-case form of the title asked for")


def check(prop):
    jobs, missing = [], []
    ps = pair()
    for w, r in ps:
        jobs.append((w["name"] + " then reader", w["id"], round_trip(lambda n, t: not (t[0] == "adt" and t[1] in fullclass(core.P)))))
        jobs.append((w["name"], w["id"], grouping))
    for m in ("get_by_title", "get_by_title_with_suggestions"):
        fs = api("MethodLib", m)
        if not fs:
            missing.append("MethodLib::" + m)
        for f in fs:
            jobs.append((f["name"], f["id"], lookup))
    return jobs, RULE, missing
