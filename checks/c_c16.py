"""C16: the cache of the method library: what is written had been parsed, is read where it is written, and failures are absence."""
from views import *
import json
import re
import core
from libserde import subterms
from interp import strip_generics

SINKS = ("std::fs::write", "std::fs::File::create", "std::fs::File::create_new", "std::fs::OpenOptions::open", "std::fs::rename", "std::fs::copy", "std::fs::hard_link",
         "std::io::Write::write_all", "std::io::Write::write", "std::io::copy", "std::io::Write::write_fmt")
SOURCES = ("std::fs::read_to_string", "std::fs::read", "std::fs::File::open", "std::io::read_to_string", "std::io::Read::read_to_string", "std::io::Read::read_to_end",
           "serde_json::from_reader")
ENV = ("std::fs::", "std::io::", "std::env::", "reqwest::", "dirs::", "serde_json::", "std::path::", "std::process::")


def external(f):
    """names of the functions outside the crate that a body mentions"""
    return [n for n in re_names(json.dumps(f["body"])) if n.startswith(("std::fs::", "std::io::", "reqwest::", "dirs::"))]


def re_names(s):
    return set(re.findall(r'"(?:name|rname)": "([^"]+)"', s))


def reaching(pred):
    """ids of the local functions from which one satisfying pred is reached"""
    P = core.P
    cl = {}
    for f in P.fns.values():
        if f.get("body"):
            cl[f["id"]] = callees(f["body"])
    good = {i for i in cl if pred(P.fns[i])}
    while True:
        more = {i for i in cl if i not in good and cl[i] & good}
        if not more:
            return good
        good |= more


def callees(x):
    """every local function or closure id that a body mentions"""
    out = set()
    todo = [x]
    fns_ = core.P.fns
    while todo:
        y = todo.pop()
        if isinstance(y, dict):
            todo += list(y.values())
        elif isinstance(y, (list, tuple)):
            todo += list(y)
        elif isinstance(y, str) and y in fns_:
            out.add(y)
    return out


def bare(v):
    while isinstance(v, N):
        if v.tag == "ref":
            v = v.args[0]
        elif v.tag == "symv":
            v = v.args[0]
        elif v.tag == "seq" and INV.eta(v):
            v = INV.eta(v)[0]
        elif v.tag == "uf" and v.args[0].split("::")[-1] in ("bytes", "as_bytes", "into_bytes", "clone", "to_owned", "as_str", "to_string", "as_path", "to_path_buf", "as_ref", "as_os_str", "from", "into",
                                                           "as_mut", "by_ref", "to_vec", "into_boxed_str", "into_string", "deref", "borrow") and len(v.args) >= 3:
            v = v.args[2]
        else:
            return v
    return v


def path_of(v):
    """(where it starts, path segments) of a path"""
    v = bare(v)
    if not isinstance(v, N):
        return None
    if v.tag == "strlit":
        return None, tuple(x for x in v.args[0].split("/") if x)
    if v.tag == "uf":
        n = v.args[0]
        if n.split("::")[-1] in ("push.out0", "join") and len(v.args) == 4:
            a, b = path_of(v.args[2]), path_of(v.args[3])
            if a is None or b is None or b[0] is not None:
                return None
            return a[0], a[1] + b[1]
        if n.split("::")[-1] in ("new", "from", "from_str") and len(v.args) == 3:
            return path_of(v.args[2])
        if n.split("::")[-1] in ("with_extension", "with_file_name", "set_extension.out0", "set_file_name.out0") and len(v.args) == 4:
            a, b = path_of(v.args[2]), bare(v.args[3])
            if a is None or not a[1] or not isinstance(b, N) or b.tag != "strlit":
                return None
            last = b.args[0]
            if "ext" in n.split("::")[-1]:
                stem = a[1][-1].rsplit(".", 1)[0] if "." in a[1][-1][1:] else a[1][-1]
                last = stem + "." + b.args[0] if b.args[0] else stem
            return a[0], a[1][:-1] + (last,)
        if n == "std::env::temp_dir":
            return v, ()
    if v.tag == "pl" and isinstance(v.args[0], N) and v.args[0].tag == "uf" and v.args[0].args[0].startswith("dirs::"):
        return v.args[0], ()
    return None


def show_path(p):
    return "%s/%s" % (p[0].args[0] + "()" if p[0] is not None else "", "/".join(p[1]))


def handle_path(v):
    """the path a file handle was opened with, and the name of the opening function"""
    for x in subterms(v):
        if x.tag == "uf" and x.args[0] in ("std::fs::File::create", "std::fs::File::create_new", "std::fs::File::open"):
            return x.args[2], x.args[0]
        if x.tag == "uf" and x.args[0] == "std::fs::OpenOptions::open":
            return x.args[3], x.args[0]
    return None, None


class Ev_:
    def __init__(self, kind, name, path, data, st, root):
        self.kind, self.name, self.path, self.data, self.st, self.root = kind, name, path, data, st, root


def watch(parsers, out):
    def setup(I, st, S, args):
        I.opaque_fns |= parsers
        orig = I.opaque_call

        def call(st, name, vals, dty_, argtys=()):
            n = strip_generics(name)
            if n.startswith("<") and " as " in n and n.rsplit(">::", 1)[-1] in ("write_all", "write", "write_fmt", "read_to_string", "read_to_end"):
                n = "std::io::" + ("Write::" if "write" in n.rsplit("::", 1)[-1] else "Read::") + n.rsplit("::", 1)[-1]
            if n in SINKS or n in SOURCES:
                fz = [I.freeze(st, v) for v in vals]
                k = "write" if n in SINKS else "read"
                if n in ("std::fs::write",):
                    out.append(Ev_(k, n, fz[0], fz[1], st, S))
                elif n in ("std::fs::rename", "std::fs::copy", "std::fs::hard_link"):
                    out.append(Ev_("move", n, fz[1], fz[0], st, S))
                elif n.startswith("std::fs::File::create"):
                    out.append(Ev_("create", n, fz[0], None, st, S))
                elif n == "std::fs::OpenOptions::open":
                    out.append(Ev_("open", n, fz[1], None, st, S))
                elif k == "write":
                    p, o = handle_path(fz[0])
                    if p is not None:
                        out.append(Ev_(k, n, p, fz[1] if len(fz) > 1 else None, st, S))
                elif n in ("std::fs::read_to_string", "std::fs::read", "std::fs::File::open"):
                    out.append(Ev_(k, n, fz[0], None, st, S))
            return orig(st, name, vals, dty_, argtys)
        I.opaque_call = call
    return setup


def deserialised(x, names):
    """what a term deserialises: the text given to one of the parsing functions"""
    if x.tag == "uf" and x.args[0] in names and len(x.args) >= 3:
        return bare(x.args[2])
    return None


def parsed(F, d, names, chain):
    """proved / refuted / undecided that the facts say d was parsed successfully"""
    d = bare(d)
    ufs = {x for q in F.items if isinstance(q, N) for x in subterms(q) if x.tag == "uf"}
    seen = False
    for x in ufs:
        y = deserialised(x, names)
        if y is None:
            continue
        if y is d:
            seen = True
            if prove(F, isv(x, 0), 3):
                return PROVED, "parsed by " + x.args[0]
            if prove(F, isv(x, 1), 3):
                return REFUTED, "its parsing has failed"
    for x in ufs:
        # the steps of the parsing, one by one
        if x.args[0] in chain and len(x.args) >= 3:
            z = bare(x.args[2])
            if z.tag == "pl" and isinstance(z.args[0], N) and z.args[0].tag == "uf" and z.args[0].args[0] == "serde_json::from_str" and bare(z.args[0].args[2]) is d:
                if prove(F, isv(x, 0), 3):
                    return PROVED, "parsed by " + x.args[0]
    if seen:
        return REFUTED, "whether its parsing succeeded is not known there"
    if any(bare(x.args[2]) is d for x in ufs if x.args[0].startswith("serde_json::") and len(x.args) >= 3):
        return REFUTED, "it was read as JSON, but not turned into a library"
    return REFUTED if raw(d) else UNDECIDED, "it was not parsed"


def raw(d):
    """text that came from outside as it is"""
    return isinstance(d, N) and (d.tag == "pl" and isinstance(d.args[0], N) and d.args[0].tag == "uf" and d.args[0].args[0].startswith(("reqwest::", "std::fs::", "std::io::"))
                                 or d.tag == "uf" and d.args[0].startswith(("reqwest::", "std::fs::", "std::io::")) or d.tag == "strlit")


def env_term(x):
    """an outcome the environment decides"""
    return isinstance(x, N) and (x.tag == "uf" and x.args[0].startswith(ENV) or x.tag == "uf" and x.args[0] in PARSERS)


PARSERS = set()


def environment_only(F):
    """a choice of outcomes of file, network and parsing operations under which the facts hold, when they are about nothing else"""
    items = [q for q in F.items if q not in IP.DEFS]
    atoms = set()
    for q in items:
        if q is True:
            continue
        if not isinstance(q, N):
            return None
        for x in leaves(q):
            if x.tag != "isv" or not env_term(bare(x.args[0])):
                return None
            atoms.add(x)
    terms = sorted({x.args[0] for x in atoms}, key=repr)
    if len(terms) > 8:
        return None
    for bits in range(1 << len(terms)):
        pick = {t: bits >> i & 1 for i, t in enumerate(terms)}
        m = {x: pick[x.args[0]] == x.args[1] for x in atoms}
        if all(q is True or subst_any(q, m) is True for q in items):
            return ["%s %s" % (bare(t).args[0], outcome(t, k)) for t, k in pick.items()]
    return None


def outcome(t, k):
    ty = TY.get(t)
    if ty is not None and ty[0] == "adt" and ty[1].endswith("Option"):
        return ("gives None", "gives Some")[k]
    return ("succeeds", "fails")[k]


def leaves(q):
    if q.tag in ("and", "or"):
        for x in q.args[0]:
            if isinstance(x, N):
                yield from leaves(x)
    elif q.tag == "not":
        yield from leaves(q.args[0])
    else:
        yield q


def libs(v):
    """the library values an optional result may hold"""
    v = deref(v)
    if v.tag == "ite":
        yield from libs(v.args[1])
        yield from libs(v.args[2])
    elif v.tag == "en":
        if v.args[1] == SOME:
            yield v.args[2][0]
    else:
        yield None


def cache(roots, names, chain):
    def run(f0):
        PARSERS.update(names)
        evs, obs, errs, runs = [], [], [], []
        st = None
        for f in roots:
            S = summarise(f, setup=watch(names | chain, evs))
            runs.append(S)
            st = stats(S) if st is None else st
            if S.error:
                errs.append("%s: %s" % (f["name"], S.error))
        # 1. nothing unparsed is written
        moved = [bare(x.data) for x in evs if x.kind == "move"]
        for x in evs:
            if x.kind not in ("write", "create", "open", "move"):
                continue
            with_budget(limits()["tl"])
            try:
                if infeasible(x.st.facts):
                    continue
            except FX.Incomplete:
                pass
            site = where(x.root.f)
            if x.kind == "write":
                what = "data given to %s was parsed before" % x.name
                s, why = parsed(x.st.facts, x.data, names, chain) if x.data is not None else (UNDECIDED, "unknown data")
                w = environment_only(x.st.facts) if s == REFUTED else None
                if s == REFUTED and w is None:
                    s = UNDECIDED
                obs.append(Ob(x.root.name, what, s, "%s is called on a path where %s" % (x.name, why) if s != PROVED else "", w, site))
            elif x.kind == "create" and not any(bare(x.path) is m for m in moved):
                ok = any(y.tag == "uf" and y.args[0] in names | chain and prove(x.st.facts, isv(y, 0), 3) for q in x.st.facts.items if isinstance(q, N) for y in subterms(q))
                w = environment_only(x.st.facts) if not ok else None
                obs.append(Ob(x.root.name, "the cache file is created after parsing", PROVED if ok else REFUTED if w is not None else UNDECIDED,
                              "" if ok else "%s empties the file before anything was parsed" % x.name, w, site))
        # 2. read where it is written
        W = [x for x in evs if x.kind in ("write", "move", "create") and not any(bare(x.path) is m for m in moved)]
        R = [x for x in evs if x.kind == "read"]
        if W and R:
            for x in W:
                p = path_of(x.path)
                what = "what %s stores is read back" % x.name
                if any(bare(x.path) is bare(y.path) or (p is not None and p == path_of(y.path)) for y in R):
                    obs.append(Ob(x.root.name, what, PROVED))
                elif p is None or any(path_of(y.path) is None for y in R):
                    obs.append(Ob(x.root.name, what, UNDECIDED, "path not understood"))
                else:
                    obs.append(Ob(x.root.name, what, REFUTED, "written to %s, read from %s" % (show_path(p), ", ".join(sorted({show_path(path_of(y.path)) for y in R}))), None, where(x.root.f)))
        elif not errs:
            obs.append(Ob("cache", "the cache is written and read", UNDECIDED, "%d writes, %d reads seen" % (len(W), len(R))))
        # 3. failures are absence
        for S in runs:
            for e in S.exits:
                with_budget(limits()["tl"])
                if e.tag == "panic":
                    try:
                        dead = infeasible(e.st.facts)
                    except FX.Incomplete:
                        dead = False
                    w = None if dead else environment_only(e.st.facts)
                    obs.append(Ob(S.name, "no outcome of the environment panics", PROVED if dead else REFUTED if w is not None else UNDECIDED, "" if dead else "panics (%s)" % (e.value,), w, where(S.f)))
                    continue
                ty = fn_out(S.f)
                if not (ty[0] == "adt" and ty[1].endswith("Option")):
                    continue
                for v in libs(e.value):
                    what = "a library returned was parsed"
                    if v is None:
                        t = bare(e.value)
                        ok = isinstance(t, N) and t.tag == "uf" and t.args[0].split("::")[-1] == "ok" and bare(t.args[2]).args[0] in names
                        obs.append(Ob(S.name, what, PROVED if ok else UNDECIDED, "result not understood"))
                        continue
                    t = bare(v)
                    src = t.args[0] if t.tag == "pl" else None
                    src = bare(src) if src is not None else None
                    if isinstance(src, N) and src.tag == "uf" and src.args[0] in names | chain and prove(e.st.facts, isv(src, 0), 3):
                        obs.append(Ob(S.name, what, PROVED))
                    elif not any(x.tag == "uf" and (x.args[0] in names | chain or x.args[0].startswith("serde_json::")) for x in subterms(v)):
                        w = environment_only(e.st.facts)
                        obs.append(Ob(S.name, what, REFUTED if w is not None else UNDECIDED, "returns a library that does not come from parsed data", w, where(S.f)))
                    else:
                        obs.append(Ob(S.name, what, UNDECIDED, "origin of the library"))
        return dict(obs=obs, error="; ".join(errs) or None, stats=st)
    return run


RULE = ("the exported functions that reach file operations are interpreted with every outcome of file, network and parsing operations left open: at each write the path facts must say that the same data was parsed; "
        "the path term written equals the one read; no panic exit is feasible; a returned library is the payload of a successful parse")


def check(prop):
    P = core.P
    near = reaching(lambda f: any(n.startswith("std::fs::") or n.startswith("reqwest::") for n in external(f)))
    roots = [P.fns[i] for i in sorted(near) if P.fns[i]["kind"] in ("Fn", "AssocFn") and P.fns[i]["exported"]]
    names = {f["name"] for f in api("MethodLib", "from_json")}
    chain = {f["name"] for f in P.fns.values() if f["kind"] == "AssocFn" and f.get("body") and f["trait"] and f["method"] in ("try_from", "from") and self_key(f) == "MethodLib"}
    missing = []
    if not names:
        missing.append("MethodLib::from_json")
    if not roots:
        missing.append("MethodLib::cc_lib")
    return [("cache", None, cache(roots, names, chain))] if roots and names else [], RULE, missing
