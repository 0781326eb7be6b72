"""C08: numbers, class identifiers and record fields read back as what was written."""
from libserde import *
import c_c15

INTW = ["i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64"]


def impls(trait):
    """hand-written implementations of a serde trait for local types: {type: function}"""
    out = {}
    for f in core.P.fns.values():
        if f["kind"] == "AssocFn" and f.get("body") and f["trait"] and f["trait"].split("<")[0] == trait and f["method"] == trait.split("::")[-1].lower() and f.get("impl_self") is not None:
            t = core.P.ty(f["impl_self"])
            if t[0] == "adt":
                out[t] = f
    return out


def uf_of(v):
    v = deref(v)
    if v.tag == "symv":
        v = v.args[0]
    return v if isinstance(v, N) and v.tag == "uf" else None


def numbers(ser, de):
    def run(f):
        S = summarise(ser)
        D = summarise(de)
        nm = S.name
        if S.error or D.error:
            return dict(obs=[], error=S.error or D.error, stats=stats(S))
        obs = []
        # what is written
        writes = []
        for e in S.exits:
            if e.tag != "ret":
                continue
            u = uf_of(e.value)
            x = None
            if u is not None and u.args[0].startswith("serde::Serializer::serialize_") and len(u.args) == 4:
                x = u.args[0].split("serialize_")[1], u.args[3]
            if x is None or x[0] not in INTW or not (isinstance(x[1], N) and x[1].tag == "poly"):
                return dict(obs=[], error="form of what is written", stats=stats(S))
            writes.append((e, x[0], x[1]))
        # what is asked for
        asked = set()
        vis = None
        for e in D.exits:
            if e.tag != "ret":
                continue
            u = uf_of(e.value)
            if u is None or not u.args[0].startswith("serde::Deserializer::deserialize_") or len(u.args) < 4:
                return dict(obs=[], error="form of what is read", stats=stats(D))
            asked.add(u.args[0].split("deserialize_")[1])
            v = deref(u.args[-1])
            if v.tag == "agg":
                vis = v.args[0]
        if vis is None:
            return dict(obs=[], error="visitor", stats=stats(D))
        vs = {}
        for g in core.P.fns.values():
            if g["kind"] == "AssocFn" and g.get("body") and g["trait"] and last(g["trait"]) == "Visitor" and g.get("impl_self") is not None and core.P.ty(g["impl_self"])[1] == vis:
                vs[g["method"]] = g
        for e, w, _ in writes:
            for a in asked:
                if a in INTW and a != w:
                    obs.append(Ob(nm, "width asked for", REFUTED, "written as %s, read as %s: a format that is not self-describing reads other bytes" % (w, a), None, where(de)))
                elif a in INTW:
                    obs.append(Ob(nm, "width asked for", PROVED))
        for w in ("i64", "u64"):
            obs.append(Ob(nm, "reader accepts %s" % w, PROVED if "visit_" + w in vs else REFUTED, "no visit_%s: formats that deliver this width are refused" % w, None, where(de)))
        self_t = S.inputs[0].sym
        me = sym("self", TY[self_t], True)
        for w in INTW + ["i128", "u128"]:
            g = vs.get("visit_" + w)
            if g is None:
                continue
            T = summarise(g)
            if T.error:
                obs.append(Ob(T.name, "summary", UNDECIDED, T.error))
                continue
            for es, _, val in writes:
                n = subst_any(val, {self_t: me})
                for e in T.exits:
                    p = T.inputs[1].value
                    e.st.facts = e.st.facts.add(eqp(p, n), *[subst_any(q, {self_t: me}) for q in es.st.facts.items])
                    if e.tag != "ret":
                        obs.append(expect_unreachable(T, e, "reading what was written panics"))
                        continue
                    v = deref(e.value)
                    if v.tag != "en":
                        obs.append(Ob(T.name, "value read", UNDECIDED, "form of the result"))
                    elif v.args[1] != OK:
                        obs.append(expect_unreachable(T, e, "reading the number that was written fails"))
                    else:
                        obs.append(expect_equal(T, e, e.st.facts, v.args[2][0], mk_value(me, TY[self_t]), "value read from the number that was written (%s)" % w))
        return dict(obs=obs, error=None, stats=stats(S))
    return run


# ---------------------------------------------------------------- records
def lit(v):
    v = deref(v)
    if v.tag == "symv":
        v = v.args[0]
    return v.args[0] if isinstance(v, N) and v.tag == "strlit" else None


def chain(u):
    """the calls that made a SerializeStruct value, first to last: [(method, key, value)]; None if of another form"""
    out = []
    while True:
        x = deref(u)
        if x.tag == "symv":
            x = x.args[0]
        if x.tag == "pl":
            x = x.args[0]
        if x.tag == "symv":
            x = x.args[0]
        if x.tag != "uf":
            return None
        n = x.args[0]
        if n == "serde::Serializer::serialize_struct":
            return out[::-1]
        if n == "serde::ser::SerializeStruct::serialize_field.out0":
            out.append(("write", lit(x.args[3]), x.args[4]))
        elif n == "serde::ser::SerializeStruct::skip_field.out0":
            out.append(("skip", lit(x.args[3]), None))
        else:
            return None
        u = x.args[2]


def record(ty, ser):
    def run(f):
        S = summarise(ser)
        nm = S.name
        if S.error:
            return dict(obs=[], error=S.error, stats=stats(S))
        pre = [g for g in core.P.fns.values() if g["kind"] == "AssocFn" and g.get("body") and g["trait"] and last(g["trait"]) == "Visitor"
               and g.get("output") is not None]
        rd = None
        fv = None
        for g in pre:
            if g["method"] == "visit_map" and core.resolve(g, core.P.ty(g["output"])[2][0]) == ty:
                rd = g
        if rd is None:
            return dict(obs=[], error="reader of the record", stats=stats(S))
        # the field visitor of the same impl
        base = rd["name"].split("::__Visitor")[0].lstrip("<")
        for g in pre:
            if g["method"] == "visit_str" and g["name"].lstrip("<").startswith(base + "::__FieldVisitor"):
                fv = g
        if fv is None:
            return dict(obs=[], error="field visitor", stats=stats(S))
        R, K = summarise(rd), summarise(fv)
        if K.error:
            return dict(obs=[], error=K.error, stats=stats(K))
        fields = adt_fields(ty)
        single = fields is None or erased(ty) is not None
        nvar = len(core.P.adts[core.resolve(fv, core.P.ty(fv["output"])[2][0])[1]]["variants"])
        # what a field is when its key is absent: the value the reader puts in when the loop left it unset
        absent = {}
        if not R.error:
            for e in R.exits:
                if e.tag == "ret" and deref(e.value).tag == "en" and deref(e.value).args[1] == OK:
                    v = deref(e.value).args[2][0]
                    vals = list(v.args[1]) if not single and v.tag == "agg" else [v]
                    for k, x in enumerate(vals):
                        u = x
                        if isinstance(u, N) and deref(u).tag in ("symv", "b", "poly", "seq"):
                            mf = [t for t in subterms(u) if t.tag == "uf" and t.args[0].endswith("::missing_field")]
                            if mf and lit(mf[0].args[2]) is not None:
                                absent.setdefault(k, ("missing", lit(mf[0].args[2])))
                                continue
                        if u is True or u is False or isinstance(u, N) and not any(t.tag in ("sv", "sym", "uf") for t in subterms(u)):
                            absent.setdefault(k, ("default", u))
        obs = []
        nf = 1 if single else len(fields)

        def variant_of(key):
            """index of the field the reader selects for a key"""
            p = K.inputs[1].value
            a = deref(p)
            hit = []
            for e in K.exits:
                m = {}
                for q in e.st.facts.items:
                    for t in subterms(q):
                        if t.tag == "veq":
                            l = lit(t.args[0]) if lit(t.args[0]) is not None else lit(t.args[1])
                            if l is None:
                                return None
                            m[t] = l == key
                fs = [subst_any(q, m) if isinstance(q, N) and m else q for q in e.st.facts.items]
                if any(q is False for q in fs):
                    continue
                if not all(q is True for q in fs):
                    return None
                v = deref(e.value)
                if e.tag != "ret" or v.tag != "en" or v.args[1] != OK or deref(v.args[2][0]).tag != "en":
                    return None
                hit.append(deref(v.args[2][0]).args[1])
            return hit[0] if len(hit) == 1 else None
        for e in S.exits:
            u = uf_of(e.value) if e.tag == "ret" else None
            if u is None or u.args[0] != "serde::ser::SerializeStruct::end":
                continue
            c = chain(u.args[2])
            if c is None:
                obs.append(Ob(nm, "what is written", UNDECIDED, "form of the calls"))
                continue
            init = S.inputs[0].init
            mine = list(init.args[1]) if not single and init.tag == "agg" else [init]
            keys = [k for _, k, _ in c]
            if len(set(keys)) != len(keys):
                obs.append(Ob(nm, "keys are distinct", REFUTED, "keys %s" % keys, None, where(ser)))
            done = set()
            for op, key, val in c:
                if key is None:
                    obs.append(Ob(nm, "key", UNDECIDED, "not a literal"))
                    continue
                i = variant_of(key)
                if i is None:
                    obs.append(Ob(nm, "key '%s'" % key, UNDECIDED, "form of the field visitor"))
                    continue
                if i >= nvar - 1:
                    obs.append(Ob(nm, "key '%s' is read" % key, REFUTED, "the reader ignores this key", None, where(ser)))
                    continue
                if nvar - 1 != nf:
                    obs.append(Ob(nm, "key '%s'" % key, UNDECIDED, "the reader knows %d fields of %d" % (nvar - 1, nf)))
                    continue
                if i in done:
                    obs.append(Ob(nm, "each field has its own key", REFUTED, "two keys for one field", None, where(ser)))
                done.add(i)
                fn = "field %s" % (fields[i][0] if not single else "0")
                if op == "write":
                    obs.append(expect_equal(S, e, e.st.facts, deref(val), deref(mine[i]), "%s is written under the key it is read from" % fn))
                else:
                    a = absent.get(i)
                    ft = strip(fields[i][1]) if not single else None
                    if a is None:
                        obs.append(Ob(nm, "%s is left out only when its absence reads as its value" % fn, UNDECIDED, R.error or "value of an absent field"))
                    elif a[0] == "missing" and ft is not None and is_option(ft):
                        t = deref(mine[i])
                        g = isv(t.args[0], NONE_) if t.tag == "symv" else t.tag == "en" and t.args[1] == NONE_
                        obs.append(definite(S, e, g, "%s is left out only when its absence reads as its value" % fn))
                    elif a[0] == "missing":
                        obs.append(definite(S, e, False, "%s is left out only when its absence can be read" % fn))
                    else:
                        obs.append(definite(S, e, same_bool(mine[i], a[1]), "%s is left out only when its absence reads as its value" % fn))
            for i in range(nf):
                if i not in done and nvar - 1 == nf:
                    obs.append(Ob(nm, "every field is written", REFUTED, "field %s is read but never written" % (fields[i][0] if not single else "0"), None, where(ser)))
        return dict(obs=obs, error=None if obs else "no completed write seen", stats=stats(S))
    return run


NONE_ = 0


def same_bool(x, c):
    if c is True:
        return x
    if c is False:
        return bnot(x)
    if isinstance(x, N) and x.tag == "poly" and isinstance(c, N) and c.tag == "poly":
        return eqp(x, c)
    return None


def definite(S, e, g, what):
    """g must hold on this exit; the exit's facts speak of the record's own fields only (calls on the serializer are free)"""
    if g is None:
        return Ob(S.name, what, UNDECIDED, "form of the value")
    with_budget(limits()["tl"])
    try:
        if g is True or prove(e.st.facts, g, 3):
            return Ob(S.name, what, PROVED)
    except FX.Incomplete:
        return Ob(S.name, what, UNDECIDED, "proof budget")
    # facts on the outcome of serializer calls only say that earlier calls succeeded: any outcome is possible
    fs = [q for q in e.st.facts.items if isinstance(q, N) and not any(t.tag == "uf" and t.args[0].startswith("serde::") for t in subterms(q))]
    try:
        d, ins, n = EV.find_witness(fs, lambda ev: what + " fails" if g is False or not ev.ev(g) else None, seed=1, tries=limits()["tries"], discr=discr, budget=limits()["wit"])
    except EV.GiveUp as x:
        return Ob(S.name, what, UNDECIDED, "no valuation: %s" % x)
    if d:
        return Ob(S.name, what, REFUTED, d, fmt_inputs(S, ins), where(S.f))
    return Ob(S.name, what, UNDECIDED, "not proved")


RULE = ("the number each hand-written Serialize implementation gives to the serializer is substituted into every integer entry point of the visitor its Deserialize "
        "implementation uses: each exit must be Ok of the same value; each record field must be written under the key literal the record's field visitor maps back to it, and "
        "left out only when the reader's value for an absent key is its value; the class written by the library writer is the class the library reader stores")


def check(prop):
    P = core.P
    jobs, missing = [], []
    S, D = impls("serde::Serialize"), impls("serde::Deserialize")
    for t, f in sorted(S.items(), key=lambda x: x[1]["name"]):
        if t not in D:
            continue
        if f["derived"]:
            if not D[t]["derived"]:
                continue
            jobs.append((f["name"], f["id"], record(t, f)))
        else:
            jobs.append((f["name"], f["id"], numbers(f, D[t])))
    have = [t[1].split("::")[-1] for t in S if not S[t]["derived"]]
    for n in ("Bell", "Stage"):
        if not [t for t in S if t[1].split("::")[-1] == n and t in D]:
            missing.append("serde for " + n)
    for w, r in pair():
        jobs.append((w["name"] + " then reader", w["id"], c_c15.round_trip(lambda n, t: t[0] == "adt" and t[1] in c_c15.fullclass(P))))
    return jobs, RULE, missing
