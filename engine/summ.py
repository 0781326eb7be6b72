"""Summaries of the crate's functions: symbolic inputs, every exit with its facts, result and final &mut operands."""
import sys, time, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from terms import *
from values import *
import values as V
import facts as FX
import layout as LY
import interp as IP
import models as MO
import evalm as EVM
from interp import Interp, State, Incomplete, CFG
from prog import Prog, tstr


def load(path=None):
    import build
    P = Prog(path or build.dump())
    LY.setup(P)
    return P


# ---------------------------------------------------------------- predicates of generic parameters
def parse_type(P, s, gens):
    s = s.strip()
    if s in gens:
        return ("param", s)
    if s.startswith("&"):
        s = s[1:].strip()
        if s.startswith("'"):
            i = 1
            while i < len(s) and (s[i].isalnum() or s[i] == "_"):
                i += 1
            s = s[i:].strip()
        mut = False
        if s.startswith("mut "):
            mut, s = True, s[4:]
        t = parse_type(P, s, gens)
        return ("ref", mut, t) if t else None
    if s in V.INTS or s in ("bool", "char", "str"):
        return ("prim", s)
    if s.startswith("(") and s.endswith(")"):
        inner = split_top(s[1:-1])
        ts = [parse_type(P, x, gens) for x in inner if x.strip()]
        return ("tuple", tuple(ts)) if all(ts) else None
    if s.startswith("[") and s.endswith("]"):
        t = parse_type(P, s[1:-1], gens)
        return ("slice", t) if t else None
    base, args = s, []
    if s.endswith(">") and "<" in s and not s.startswith("<"):
        i = s.index("<")
        base = s[:i]
        args = [x for x in split_top(s[i + 1:-1]) if not x.strip().startswith("'")]
    if base in P.adts:
        ts = [parse_type(P, x, gens) for x in args]
        return ("adt", base, tuple(ts)) if all(ts) else None
    if base in ("std::vec::Vec", "std::option::Option", "std::result::Result", "std::string::String", "std::ops::Range"):
        ts = [parse_type(P, x, gens) for x in args]
        return ("adt", base, tuple(ts)) if all(ts) else None
    return None


def split_top(s):
    out, d, cur = [], 0, ""
    for i, c in enumerate(s):
        if c in "<([":
            d += 1
        elif c in ")]" or (c == ">" and not (i and s[i - 1] == "-")):
            d -= 1
        if c == "," and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur)
    return out


def param_info(P, f):
    info = {}
    gens = set(f.get("generics") or [])
    for p in f.get("preds") or []:
        if " == " not in p:
            continue
        lhs, rhs = p.split(" == ", 1)
        if not lhs.startswith("<"):
            continue
        rt = parse_type(P, rhs, gens)
        if rt is None:
            continue
        # <X as Trait>::Name
        k = lhs.rfind(" as std::")
        subj = lhs[1:k]
        st = parse_type(P, subj, gens)
        name = lhs.rsplit("::", 1)[1]
        info[("alias", lhs)] = rt
        if st is None:
            continue
        if name == "Item":
            info[("item", st)] = rt
            info[("item", ("alias", "<%s as std::iter::IntoIterator>::IntoIter" % subj))] = rt
        elif name == "Output":
            info[("ret", st)] = rt
    return info


class Inp:
    __slots__ = ("name", "ty", "value", "alloc", "init", "sym", "kind")


class Exit:
    __slots__ = ("st", "tag", "value", "finals")


class Summary:
    def __init__(self, f):
        self.f = f
        self.inputs = []
        self.exits = []
        self.error = None
        self.time = 0
        self.stats = None

    @property
    def name(self):
        return self.f["name"]


def string_fns(P):
    """functions that build a string from shared operands: their result is an unknown string determined by the operands"""
    out = set()
    for f in P.fns.values():
        if f["kind"] in ("Fn", "AssocFn") and f.get("output") is not None and f.get("body") and P.ty(f["output"]) == ("adt", "std::string::String", ()):
            tys = [P.ty(t) for t in f["inputs"]]
            if not f["generics"] and tys and not any(t[0] == "ref" and t[1] or t[0] not in ("ref", "adt", "prim") for t in tys):
                out.add(f["name"])
    return out


def contract_fns(P):
    """fallible parsers of text into rows and notations: every check that judges them has them as roots"""
    if not hasattr(P, "contracts"):
        P.contracts = frozenset(string_fns(P)) | frozenset(f["name"] for f in P.fns.values() if f["exported"] and f.get("output") is not None and f["name"].split("::")[-1] == "parse"
                                and [LY.is_ty(P.ty(f["output"])[2][0], x) for x in ("RowBuf", "PnBlock") if P.ty(f["output"])[0] == "adt" and P.ty(f["output"])[2]].count(True)) | {f["name"] for f in P.fns.values() if f["name"].endswith("PnBlock::to_block_from_rounds")}
    return P.contracts


def sub_self(P, f):
    return {}


def norm(info):
    def g(t):
        if t[0] == "alias":
            r = info.get(("alias", t[1]))
            if r is not None:
                return r
        return t
    return g


def summarise(P, f, time_limit=40.0, overflow=False, valid=True, hooks=None, opaque=(), models=MO, setup=None, max_paths=3000, contracts=True):
    S = Summary(f)
    t0 = time.time()
    I = Interp(P, models, overflow=overflow, time_limit=time_limit, max_paths=max_paths)
    I.param_info = param_info(P, f)
    EVM.PARAMS = I.param_info
    if hooks:
        I.hooks.update(hooks)
    I.opaque_fns |= set(opaque)
    I.root_name = f["name"]
    if contracts:
        I.contracts = contract_fns(P)
    S.interp = I
    st = State()
    args = []
    body = f["body"]
    nm = {}
    try:
        tids = list(f["inputs"] or ())
        if f["kind"] == "Closure" and body is not None and not tids:
            tids = body["locals"][1:body["argc"] + 1]
        for k, tid in enumerate(tids):
            ty = P.ty(tid)
            ip = make_input(I, st, "p%d" % k, ty, valid)
            S.inputs.append(ip)
            args.append(ip.value)
            if ip.sym is not None and ty[0] == "prim" and ty[1] in ("usize", "u64", "isize", "i64", "u128"):
                IP.UNBOUNDED.add(ip.sym)
        if setup:
            setup(I, st, S, args)
        st0 = st
        if f["kind"] == "const" or body is None:
            raise Incomplete("no body")
        outs = I.run_fn(f, args, {g: ("param", g) for g in f["generics"]}, st)
        for s, tag, v in drain(I, outs):
            e = Exit()
            e.st, e.tag, e.value = s, tag, v
            e.finals = {}
            for k, ip in enumerate(S.inputs):
                if ip.alloc:
                    e.finals[k] = s.mem.get(ip.alloc)
            S.exits.append(e)
    except Incomplete as e:
        S.error = "incomplete: %s" % e
    except RecursionError:
        S.error = "recursion limit"
    S.stats = I.stats
    S.time = time.time() - t0
    return S


def drain(I, outs):
    """a returned iterator stands for the sequence it yields"""
    for s, tag, v in outs:
        if tag == "ret" and isinstance(v, N) and v.tag == "it":
            try:
                r = MO.collect_seq(I, s, v)
            except (Incomplete, RecursionError):
                r = None
            if r is not None and r:
                for s2, t2, v2 in r:
                    yield s2, t2, v2
                continue
        yield s, tag, v


def make_input(I, st, name, ty, valid=True):
    ip = Inp()
    ip.name, ip.ty = name, ty
    ip.alloc = None
    ip.sym = None
    t = ty[2] if ty[0] == "ref" else ty
    if t[0] == "closure" and not t[2]:
        ip.kind, ip.sym = "val", sym(name, ("tuple", ()), valid)
        ip.value = ip.init = ref(I.zst(t)) if ty[0] == "ref" else I.zst(t)
        return ip
    if ty[0] == "ref":
        inner = ty[2]
        ip.sym = sym(name, inner, valid)
        v = repeat_state(I, st, name, inner) if LY.is_ty(inner, "RepeatIter") and valid else mk_value(ip.sym, inner)
        ip.init = v
        if ty[1]:
            a = "in:" + name
            st.mem[a] = v
            I.alloc_ty[a] = inner
            ip.alloc = a
            ip.value = mref(a)
            ip.kind = "mut"
        else:
            ip.value = ref(v)
            ip.kind = "ref"
    else:
        ip.sym = sym(name, ty, valid)
        ip.value = ip.init = mk_value(ip.sym, ty)
        ip.kind = "val"
    return ip


def repeat_state(I, st, name, ty):
    """an arbitrary reachable state of the repeating iterator: what its constructor returns, with any head row of the
    block's stage and any position in the block (that `next` keeps this shape is judged on its final state)"""
    P = I.P
    cs = [f for f in P.fns.values() if f["exported"] and f["name"].split("::")[-1] == "repeat_iter" and f.get("body")]
    if len(cs) != 1:
        raise Incomplete("constructor of the repeating iterator")
    f = cs[0]
    a = {}
    for k, tid in enumerate(f["inputs"]):
        t = P.ty(tid)
        if t[0] == "ref":
            b = sym(name + ".block", t[2], True)
            a[k] = ref(mk_value(b, t[2]))
        else:
            h = sym(name + ".head", t, True)
            a[k] = mk_value(h, t)
    outs = I.run_fn(f, [a[k] for k in range(len(a))], {g: ("param", g) for g in f["generics"]}, st.fork())
    good = [(s, v) for s, tag, v in outs if tag == "ret" and v.tag == "en" and v.args[1] == 0]
    if len(good) != 1 or good[0][1].args[2][0].tag != "agg":
        raise Incomplete("constructor of the repeating iterator")
    s, v = good[0]
    v = v.args[2][0]
    pos = atom(sym(name + ".pos", ("prim", "usize"), True))
    fs = []
    n = []
    for x in v.args[1]:
        if x.tag == "it" and x.args[0] == "seq":
            S_, lo, hi = x.args[1:]
            fs += [ge(psub(pos, lo)), le(pos, hi)]
            x = mk("it", "seq", S_, pos, hi)
        elif x.tag == "it":
            raise Incomplete("position of the repeating iterator")
        n.append(x)
    st.facts = s.facts.add(*fs)
    return agg(v.args[0], n)


def describe(S, out=sys.stdout, facts=True):
    p = lambda *a: print(*a, file=out)
    p("==", S.name, "(%.1fs)" % S.time, S.error or "")
    for e in S.exits:
        p("  [%s]%s" % (e.tag, "" if IP.exact_state(e.st) else " inexact %s" % (e.st.notes,)), e.value if e.tag == "ret" else e.value)
        if facts:
            for f in e.st.facts.items:
                p("      |", f)
        for k, v in e.finals.items():
            if v is not S.inputs[k].init:
                p("      final p%d =" % k, v)


if __name__ == "__main__":
    P = load()
    import traceback
    import loops
    if "-d" in sys.argv:
        loops.DEBUG[0] = True
    for pat in [a for a in sys.argv[1:] if a[0] != "-"]:
        for f in P.fns.values():
            if pat in f["name"] and f["kind"] in ("fn","Fn","AssocFn") and f.get("body") and (f["exported"] or "-a" in sys.argv):
                try:
                    S = summarise(P, f)
                    describe(S)
                except Exception:
                    print("==", f["name"])
                    traceback.print_exc()
