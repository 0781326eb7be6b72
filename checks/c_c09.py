"""C09: the tables of names: every entry of the abstract function summaries is read off and the tables are compared."""
from views import *
import core

BELLS = 256
STAGES = 256
RESERVED = "xX-. +,*"
CONSTS = dict(ONE=1, TWO=2, SINGLES=3, MINIMUS=4, DOUBLES=5, MINOR=6, TRIPLES=7, MAJOR=8, CATERS=9, ROYAL=10, CINQUES=11, MAXIMUS=12,
              SEXTUPLES=13, FOURTEEN=14, SEPTUPLES=15, SIXTEEN=16, OCTUPLES=17, EIGHTEEN=18, NONUPLES=19, TWENTY=20, DECUPLES=21)


class Unknown(Exception):
    pass


def entry(S, *vals):
    """the entry of a summarised function's table for the given arguments: (tag, value)"""
    if S.error:
        raise Unknown("%s: %s" % (S.name, S.error))
    m = EV.Model(1)
    for ip, v in zip(S.inputs, vals):
        if ip.sym is None:
            raise Unknown("argument of " + S.name)
        m.base[ip.sym] = v
    ev = EV.Ev(m, discr)
    hit = []
    for e in S.exits:
        try:
            ok = True
            for q in sorted((q for q in e.st.facts.items if isinstance(q, N)), key=EV.cost):
                try:
                    if not ev.ev(q):
                        ok = False
                        break
                except (EV.Bad, IndexError):
                    ok = False
                    break
            if not ok:
                continue
            if not e.st.exact or any(IP.approx(q) for q in e.st.facts.items if q not in IP.DEFS) or isinstance(e.value, N) and IP.approx(e.value):
                raise Unknown("%s: over-approximated" % S.name)
            hit.append((e.tag, ev.ev(e.value) if e.tag == "ret" else None))
        except EV.GiveUp as g:
            raise Unknown("%s: %s" % (S.name, g))
    if len(hit) != 1:
        raise Unknown("%s: %d entries apply" % (S.name, len(hit)))
    if hit[0][0] != "ret":
        return "panic", None
    return hit[0]


def get(S, *vals):
    t, v = entry(S, *vals)
    if t != "ret":
        raise Unknown("%s panics" % S.name)
    return v


def opt(v):
    """Some(x) -> (x,), None -> None"""
    return None if v[0] == NONE else (v[1][0],)


def one(owner, name, trait=None):
    fs = api(owner, name, trait)
    return summarise(fs[0]) if len(fs) == 1 else None


def const_value(f):
    S = summarise(f)
    return get(S)


def bell_table():
    fi, tc = one("Bell", "from_index"), one("Bell", "to_char")
    out = []
    for i in range(BELLS):
        b = get(fi, i)
        out.append((b, opt(get(tc, b))))
    return out, tc


def bells(f):
    obs = []
    fn, nm = one("Bell", "from_name"), one("Bell", "name")
    st = stats(fn)
    try:
        T, tc = bell_table()
    except Unknown as u:
        return dict(obs=[], error=str(u), stats=st)
    site = where(f)
    seen = {}
    for i, (b, c) in enumerate(T):
        if c is None:
            continue
        c = c[0]
        try:
            r = opt(get(fn, c))
            obs.append(Ob(fn.name, "name read back", PROVED) if r == (b,) else
                       Ob(fn.name, "name read back", REFUTED, "bell %d is named %r, which reads as %s" % (i + 1, chr(c), "no bell" if r is None else "bell %s" % (r[0] + 1 if isinstance(r[0], int) else r[0])), None, site))
        except Unknown as u:
            obs.append(Ob(fn.name, "name read back", UNDECIDED, str(u)))
        if c in seen:
            obs.append(Ob(tc.name, "names unique", REFUTED, "bells %d and %d are both named %r" % (seen[c] + 1, i + 1, chr(c)), None, site))
        else:
            obs.append(Ob(tc.name, "names unique", PROVED))
        seen[c] = i
        try:
            s = get(nm, b)
            obs.append(Ob(nm.name, "written name", PROVED) if s == chr(c) else Ob(nm.name, "written name", REFUTED, "bell %d is written %r but its name is %r" % (i + 1, s, chr(c)), None, where(nm.f)))
        except Unknown as u:
            obs.append(Ob(nm.name, "written name", UNDECIDED, str(u)))
        obs.append(Ob(tc.name, "reserved symbol", REFUTED, "bell %d is named %r, which notations reserve" % (i + 1, chr(c)), None, site) if chr(c) in RESERVED or chr(c).isspace() else
                   Ob(tc.name, "reserved symbol", PROVED))
    for r in RESERVED + "\n\t\r":
        try:
            v = opt(get(fn, ord(r)))
            obs.append(Ob(fn.name, "reserved symbol", PROVED) if v is None else Ob(fn.name, "reserved symbol", REFUTED, "%r reads as a bell" % r, None, site))
        except Unknown as u:
            obs.append(Ob(fn.name, "reserved symbol", UNDECIDED, str(u)))
    obs += beyond(tc, BELLS)
    return dict(obs=obs, error=None, stats=st)


def beyond(S, n):
    """no entry of the table lies past the ones looked at"""
    out = []
    for e in S.exits:
        if e.tag != "ret":
            continue
        v = deref(e.value)
        p = deref(S.inputs[0].value)
        if v.tag == "en" and v.args[1] == SOME and p.tag == "poly":
            e.st.facts = e.st.facts.add(ge(psub(p, const(n))))
            try:
                with_budget(limits()["tl"])
                ok = FX.infeasible(e.st.facts)
            except FX.Incomplete:
                ok = False
            out.append(Ob(S.name, "entries past %d" % n, PROVED if ok else UNDECIDED, "not excluded"))
    return out


def leaf_bells(v, ty, out):
    """bells inside an evaluated value of the type"""
    if LY.is_ty(ty, "Bell"):
        out.append(v)
        return
    vs = variants(ty)
    if vs and isinstance(v, tuple) and isinstance(v[0], int):
        for x, t in zip(v[1], vs[v[0]]):
            leaf_bells(x, t, out)


def has_bell(ty, d=0):
    if LY.is_ty(ty, "Bell"):
        return True
    if d > 4 or ty[0] != "adt":
        return False
    vs = variants(ty)
    return bool(vs) and any(has_bell(t, d + 1) for p in vs for t in p)


def classifiers():
    """functions and closures of the notations that read one character as a bell or a symbol"""
    P = core.P
    out = []
    for f in P.fns.values():
        if not f.get("body") or f["kind"] not in ("Fn", "AssocFn", "Closure") or f["file"].endswith("bell.rs"):
            continue
        b = f["body"]
        tys = [P.ty(b["locals"][k]) for k in range(b["argc"] + 1)]
        ins = tys[1:]
        if f["kind"] == "Closure" and ins and dty(ins[0])[0] == "closure":
            if dty(ins[0])[2]:
                continue            # captures something
            ins = ins[1:]
        if ins == [("prim", "char")] and has_bell(tys[0]):
            out.append((f, tys[0]))
    return out


def classes(out_ty):
    def run(f):
        S = summarise(f)
        fn = one("Bell", "from_name")
        obs = []
        try:
            T, tc = bell_table()
        except Unknown as u:
            return dict(obs=[], error=str(u), stats=stats(S))

        def rd(c):
            args = [c] if len(S.inputs) == 1 else [()] * (len(S.inputs) - 1) + [c]
            t, v = entry(S, *args)
            if t != "ret":
                raise Unknown("panic")
            ls = []
            leaf_bells(v, out_ty, ls)
            return ls
        for b, c in T:
            if c is None:
                continue
            c = c[0]
            try:
                ls = rd(c)
                obs.append(Ob(S.name, "bell name", PROVED) if ls == [b] else
                           Ob(S.name, "bell name", REFUTED, "%r names a bell, but is read as %s" % (chr(c), "another bell" if ls else "a symbol"), None, where(f)))
            except Unknown as u:
                obs.append(Ob(S.name, "bell name", UNDECIDED, str(u)))
        for r in RESERVED:
            try:
                obs.append(Ob(S.name, "symbol", PROVED) if not rd(ord(r)) else Ob(S.name, "symbol", REFUTED, "%r is read as a bell" % r, None, where(f)))
            except Unknown as u:
                obs.append(Ob(S.name, "symbol", UNDECIDED, str(u)))
        return dict(obs=obs, error=S.error, stats=stats(S))
    return run


def new_stage():
    for n, tr in (("new", None), ("try_from", "TryFrom")):
        for f in api("Stage", n, tr):
            if len(f["inputs"]) == 1 and core.P.ty(f["inputs"][0]) == ("prim", "usize"):
                return summarise(f), tr is not None
    return None, False


def stage_at(n):
    S, res = new_stage()
    if S is None:
        raise Unknown("no way to make a stage")
    v = get(S, n)
    return v[1][0] if res else v


def stages(f):
    nm, lk = summarise(f), one("Stage", "from_lower_case_name")
    obs, seen = [], {}
    try:
        for n in range(1, STAGES):
            s = stage_at(n)
            v = opt(get(nm, s))
            if v is None:
                continue
            w = v[0]
            if not isinstance(w, str):
                raise Unknown("name of a stage")
            r = opt(get(lk, w.lower()))
            obs.append(Ob(nm.name, "name looked up", PROVED) if r == (s,) else
                       Ob(nm.name, "name looked up", REFUTED, "stage %d is named %r; %r looks up %s" % (n, w, w.lower(), "nothing" if r is None else "stage %s" % (r[0],)), None, where(lk.f)))
            obs.append(Ob(nm.name, "names unique", PROVED) if w not in seen else
                       Ob(nm.name, "names unique", REFUTED, "stages %d and %d are both named %r" % (seen[w], n, w), None, where(f)))
            seen[w] = n
    except Unknown as u:
        return dict(obs=obs, error=str(u), stats=stats(nm))
    obs += beyond(nm, STAGES)
    return dict(obs=obs, error=None if obs else "no named stage", stats=stats(nm))


def consts(f):
    obs = []
    P = core.P
    nm = one("Stage", "name")
    S0 = None
    for c in P.fns.values():
        if c["kind"] not in ("AssocConst", "Const") or not c.get("body") or not c["exported"]:
            continue
        ty = P.ty(c["body"]["locals"][0])
        k = c["name"].split("::")[-1]
        S = summarise(c)
        S0 = S0 or S
        try:
            if LY.is_ty(ty, "Stage"):
                v = get(S)
                if k in CONSTS:
                    w = stage_at(CONSTS[k])
                    obs.append(Ob(c["name"], "size", PROVED) if v == w else Ob(c["name"], "size", REFUTED, "%s is stage %s instead of %s" % (k, v, w), None, where(c)))
                s = opt(get(nm, v))
                if s is not None and isinstance(s[0], str):
                    want = s[0].upper().replace("-", "_").replace(" ", "_")
                    obs.append(Ob(c["name"], "name", PROVED) if want == k or k not in CONSTS else Ob(c["name"], "name", REFUTED, "%s is the stage named %r" % (k, s[0]), None, where(c)))
            elif LY.is_ty(ty, "Bell") and k == "TREBLE":
                v, w = get(S), get(one("Bell", "from_index"), 0)
                obs.append(Ob(c["name"], "treble", PROVED) if v == w else Ob(c["name"], "treble", REFUTED, "TREBLE is %s instead of %s" % (v, w), None, where(c)))
        except Unknown as u:
            obs.append(Ob(c["name"], "value", UNDECIDED, str(u)))
    return dict(obs=obs, error=None, stats=stats(S0 or nm))


RULE = ("the summaries of the name functions are finite tables once their argument is fixed; every entry for the first %d bells and %d stages is read off (and no entry lies past them), "
        "and the tables written by one function and read by the other are compared, as are reserved symbols, the character classifiers of the notations and the named constants" % (BELLS, STAGES))


def check(prop):
    jobs, missing = [], []
    for o, m in (("Bell", "from_name"), ("Bell", "to_char"), ("Bell", "name"), ("Bell", "from_index"), ("Stage", "name"), ("Stage", "from_lower_case_name")):
        if not api(o, m):
            missing.append("%s::%s" % (o, m))
    if missing:
        return jobs, RULE, missing
    f = api("Bell", "to_char")[0]
    jobs.append((f["name"], f["id"], bells))
    for g, t in classifiers():
        jobs.append((g["name"], g["id"], classes(t)))
    g = api("Stage", "name")[0]
    jobs.append((g["name"], g["id"], stages))
    jobs.append(("constants", g["id"], consts))
    return jobs, RULE, missing
