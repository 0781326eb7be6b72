"""Abstract interpreter over the compiler's MIR: every local callee is inlined, values are the terms of
terms.py, loops are summarised (loops.py) instead of being unrolled."""
import time
import re
from terms import *
from values import *
import values as V
import terms as T
import facts as FX
from facts import Facts, prove, infeasible, decider
import layout as LY


from facts import Incomplete
from evalm import STRFN


class State:
    __slots__ = ("mem", "facts", "exact", "events", "notes")

    def __init__(self, mem=None, facts=None, exact=True, events=(), notes=()):
        self.mem = mem if mem is not None else {}
        self.facts = facts if facts is not None else Facts()
        self.exact = exact
        self.events = events
        self.notes = notes

    def fork(self):
        return State(dict(self.mem), self.facts, self.exact, self.events, self.notes)

    def assume(self, *fs):
        s = self.fork()
        s.facts = self.facts.add(*fs)
        return s

    def inexact(self, why):
        self.exact = False
        if why not in self.notes:
            self.notes = self.notes + (why,)


class Frame:
    __slots__ = ("fn", "body", "id", "sub", "depth", "cfg", "name")


class CFG:
    """successors, loop heads and natural loops, liveness at loop heads"""

    def __init__(self, body):
        n = len(body["blocks"])
        self.succ = [[] for _ in range(n)]
        for k, b in enumerate(body["blocks"]):
            self.succ[k] = succs(b["t"])
        pred = [[] for _ in range(n)]
        for k in range(n):
            for s in self.succ[k]:
                pred[s].append(k)
        self.pred = pred
        # dominators (simple iterative)
        order = []
        seen = set()
        stack = [(0, iter(self.succ[0]))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(b)
                stack.pop()
        order.reverse()
        idx = {b: i for i, b in enumerate(order)}
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                new = None
                for p in pred[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while idx[x] > idx[y]:
                                    x = idom[x]
                                while idx[y] > idx[x]:
                                    y = idom[y]
                            new = x
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    ch = True
        self.idom = idom
        self.order = idx

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]
        self.loops = {}
        for b in order:
            for s in self.succ[b]:
                if s in idx and dom(s, b):
                    body_ = self.loops.setdefault(s, {s})
                    work = [b]
                    while work:
                        x = work.pop()
                        if x in body_:
                            continue
                        body_.add(x)
                        work += [p for p in pred[x] if p in idx]
        self.live = None
        self.body = body

    def live_in(self, bb):
        if self.live is None:
            self.compute_live()
        return self.live[bb]

    def compute_live(self):
        blocks = self.body["blocks"]
        n = len(blocks)
        use, dfn = [set() for _ in range(n)], [set() for _ in range(n)]
        borrowed = set()

        def u(k, l):
            if l not in dfn[k]:
                use[k].add(l)

        def place_use(k, p):
            u(k, p["l"])
            for e in p["p"]:
                if e[0] == "index":
                    u(k, e[2])

        def op(k, o):
            if o[0] in ("copy", "move"):
                place_use(k, o[1])

        def dst(k, p):
            if p["p"]:
                place_use(k, p)
            else:
                dfn[k].add(p["l"])
        for k, b in enumerate(blocks):
            for s in b["s"]:
                if s[0] == "assign":
                    r = s[2]
                    if r[0] in ("use", "repeat"):
                        op(k, r[1])
                    elif r[0] in ("ref", "rawptr"):
                        place_use(k, r[2])
                        if not any(e[0] == "deref" for e in r[2]["p"]):
                            borrowed.add(r[2]["l"])
                    elif r[0] == "cast":
                        op(k, r[2])
                    elif r[0] == "bin":
                        op(k, r[2])
                        op(k, r[3])
                    elif r[0] == "un":
                        op(k, r[2])
                    elif r[0] == "discr":
                        place_use(k, r[1])
                    elif r[0] == "agg":
                        for o in r[2]:
                            op(k, o)
                    dst(k, s[1])
                elif s[0] == "setdiscr":
                    place_use(k, s[1])
                elif s[0] == "dead":
                    dfn[k].add(s[1])
            t = b["t"]
            if t[0] == "switch":
                op(k, t[1])
            elif t[0] == "assert":
                op(k, t[1])
            elif t[0] == "drop":
                pass
            elif t[0] == "call":
                if isinstance(t[1], list):
                    op(k, t[1])
                for o in t[2]:
                    op(k, o)
                dst(k, t[3])
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for k in range(n - 1, -1, -1):
                out = set()
                for s in self.succ[k]:
                    out |= live[s]
                # borrowed locals stay live until their storage is dead
                inn = use[k] | (out - dfn[k])
                if inn != live[k]:
                    live[k] = inn
                    ch = True
        # a borrowed local is treated as live wherever it may be initialised and some later use of any reference exists:
        # conservatively: live at a block when its address was taken and it is assigned before and mentioned after
        self.live = live
        self.borrowed = borrowed


def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [b for _, b in t[2]] + ([t[3]] if t[3] is not None else [])
    if k == "drop":
        return [t[2]] if t[2] is not None else []
    if k == "assert":
        return [t[4]] if t[4] is not None else []
    if k == "call":
        return [t[4]] if t[4] is not None else []
    return []


_cfgs = {}


# trait functions that return Self
SELF_RET = {"serde::de::Error": ("custom",), "serde::ser::Error": ("custom",), "std::convert::From": ("from",), "std::default::Default": ("default",)}


class Interp:
    def __init__(self, prog, models, overflow=False, time_limit=60.0, max_paths=3000):
        self.P = prog
        self.M = models
        self.nframe = 0
        self.nalloc = 0
        self.alloc_ty = {}
        self.deadline = time.process_time() + time_limit
        FX.DEADLINE[0] = self.deadline
        self.max_paths = max_paths
        self.npaths = 0
        self.callstack = []
        self.speculating = set()
        self.in_loop = 0        # loops whose iteration is being worked out
        self.overflow = overflow
        self.subs = {}
        self.subs_rev = {}
        self.fnitems = {}
        self.fnlist = []
        self.stats = {"calls": 0, "inlined": set(), "models": set(), "opaque": set(), "blocks": 0, "loops": 0}
        self.opaque_fns = set()       # names of local functions to treat as opaque
        self.param_info = {}
        self.contracts = frozenset()
        self.root_name = None
        self.slot_keys = {}           # allocation of a map slot -> its key
        self.hooks = {}               # name -> fn(I, st, args, info) for events

    # ------------------------------------------------------------ helpers
    def tick(self):
        if time.process_time() > self.deadline:
            raise Incomplete("time limit")
        if self.npaths > self.max_paths:
            raise Incomplete("too many paths")

    def new_alloc(self, st, v, ty=None):
        self.nalloc += 1
        a = "a%d" % self.nalloc
        st.mem[a] = v
        self.alloc_ty[a] = ty
        return a

    def split(self, st, c):
        """[(state, truth)] for the feasible outcomes of boolean c"""
        if c is True:
            return [(st, True)]
        if c is False:
            return [(st, False)]
        c2 = simp_bool(c, st.facts)
        if c2 is True:
            return [(st, True)]
        if c2 is False:
            return [(st, False)]
        out = []
        t = prove(st.facts, c2, 3)
        f = False if t else prove(st.facts, bnot(c2), 3)
        if not f:
            s = st if t else st.assume(c2)
            if t or not (s.facts.false()):
                out.append((s, True))
        if not t:
            s = st if f else st.assume(bnot(c2))
            out.append((s, False))
        return out

    def decide(self, st):
        return decider(st.facts, 2)

    # ------------------------------------------------------------ types
    def ty(self, k, sub):
        t = self.P.ty(k)
        return self.norm_ty(subst_ty(t, sub) if sub else t)

    def norm_ty(self, t):
        return t

    def sub_id(self, sub):
        key = tuple(sorted(sub.items()))
        if key not in self.subs_rev:
            self.subs_rev[key] = len(self.subs_rev)
            self.subs[self.subs_rev[key]] = dict(sub)
        return self.subs_rev[key]

    # ------------------------------------------------------------ places
    def local_alloc(self, fr, l):
        return "%d:%d" % (fr.id, l)

    def resolve(self, fr, st, place):
        """('mem', alloc, path) or ('val', value)"""
        cur = ("mem", self.local_alloc(fr, place["l"]), ())
        for e in place["p"]:
            k = e[0]
            bt = self.ty(e[1], fr.sub)
            if k == "deref":
                if bt[0] == "adt":        # Box
                    continue
                v = self.read(st, cur)
                cur = self.deref_value(st, v)
            elif k == "field":
                if bt[0] == "adt" and bt[1] == "std::boxed::Box":
                    continue
                if bt[0] == "adt" and bt[1] in ("std::ptr::Unique", "std::ptr::NonNull"):
                    continue
                er = erased(bt)
                if er and er[0] == e[2]:
                    continue
                cur = self.proj(st, cur, ("f", e[2]))
            elif k == "downcast":
                cur = self.proj(st, cur, ("v", e[2]))
            elif k == "index":
                i = st.mem.get(self.local_alloc(fr, e[2]))
                cur = self.proj(st, cur, ("i", i))
            elif k == "cindex":
                off = const(e[2])
                if e[4]:
                    v = self.read(st, cur)
                    off = psub(slen(v), const(e[2]))
                cur = self.proj(st, cur, ("i", off))
            elif k == "subslice":
                v = self.read(st, cur)
                n = slen(v)
                lo = const(e[2])
                hi = psub(n, const(e[3])) if e[4] else const(e[3])
                cur = self.proj(st, cur, ("r", lo, hi))
            else:
                raise Incomplete("projection " + k)
        return cur

    def deref_value(self, st, v):
        if v.tag == "ref":
            return ("val", v.args[0])
        if v.tag == "mref":
            return ("mem", v.args[0], v.args[1])
        if v.tag == "symv":
            t, ty = v.args
            if ty[0] in ("ref", "ptr"):
                return ("val", mk_value(typed(mk("fld", t, "*"), ty[2]), ty[2]))
            return ("val", v)
        if v.tag == "ite":
            a, b = v.args[1], v.args[2]
            if a.tag != "mref" and b.tag != "mref":
                x = self.deref_value(st, a)
                y = self.deref_value(st, b)
                if x[0] == "val" and y[0] == "val":
                    return ("val", ite(v.args[0], x[1], y[1]))
            raise Incomplete("deref of conditional reference")
        if v.tag in ("seq", "agg", "en", "poly", "it"):
            return ("val", v)
        raise Incomplete("deref of " + v.tag)

    def proj(self, st, cur, e):
        if cur[0] == "mem":
            return ("mem", cur[1], cur[2] + (e,))
        return ("val", self.sel(st, cur[1], e))

    def read(self, st, cur):
        if cur[0] == "val":
            return cur[1]
        v = st.mem.get(cur[1])
        if v is None:
            raise Incomplete("read of undefined " + str(cur))
        for e in cur[2]:
            v = self.sel(st, v, e)
        return v

    def sel(self, st, v, e):
        if isinstance(v, bool):
            raise Incomplete("projection of bool")
        if v.tag == "ite":
            c, a, b = v.args
            if e[0] == "v":
                # only the branches that can be this variant
                pa, pb = self.can_be(a, e[1]), self.can_be(b, e[1])
                if pa and not pb:
                    return self.sel(st, a, e)
                if pb and not pa:
                    return self.sel(st, b, e)
            return ite(c, self.sel(st, a, e), self.sel(st, b, e))
        k = e[0]
        if k == "f":
            if v.tag == "agg":
                return v.args[1][e[1]]
            if v.tag == "vsel":
                if len(v.args[1]) <= e[1]:
                    raise Incomplete("variant field")
                return v.args[1][e[1]]
            if v.tag == "symv":
                t, ty = v.args
                ft = field_ty(ty, e[1])
                if ft is None:
                    raise Incomplete("field of opaque")
                return mk_value(V.t_fld(t, e[1], ft), ft)
            raise Incomplete("field of " + v.tag)
        if k == "v":
            if v.tag == "en":
                if v.args[1] != e[1]:
                    raise Incomplete("downcast mismatch")
                return mk("vsel", v.args[0], v.args[2])
            if v.tag == "symv":
                t, ty = v.args
                vs = variants(strip(ty))
                if vs is None:
                    raise Incomplete("downcast of opaque")
                return mk("vsel", "sym", tuple(mk_value(typed(mk("pl", t, e[1], j), ft), ft) for j, ft in enumerate(vs[e[1]])))
            raise Incomplete("downcast of " + v.tag)
        if k == "i":
            if v.tag == "seq":
                r = seq_at(v, e[1], self.decide(st))
                if r is None:
                    return self.opaque_at(v, e[1])
                return r
            raise Incomplete("index of " + v.tag)
        if k == "r":
            r = slice_seq(v, e[1], e[2], self.decide(st)) if v.tag == "seq" else None
            if r is None:
                r = self.opaque_slice(v, e[1], e[2])
            return r
        raise Incomplete("sel")

    def can_be(self, v, k):
        if v.tag == "en":
            return v.args[1] == k
        if v.tag == "ite":
            return self.can_be(v.args[1], k) or self.can_be(v.args[2], k)
        return True

    def elem_guess(self, v):
        """type of the elements of a sequence value"""
        for p in v.args[0]:
            b = p.args[1].args[0]
            t = self.guess(b)
            if t is not None:
                return t
        return None

    def guess(self, b):
        if isinstance(b, bool) or is_bool(b):
            return ("prim", "bool")
        if b.tag == "poly":
            return USIZE
        if b.tag == "symv":
            return b.args[1]
        if b.tag == "ref":
            t = self.guess(b.args[0])
            return ("ref", False, t) if t else None
        if b.tag == "ite":
            return self.guess(b.args[1]) or self.guess(b.args[2])
        if b.tag == "seq":
            t = self.elem_guess(b)
            return ("adt", "std::vec::Vec", (t,)) if t else None
        if b.tag == "agg" and b.args[0] == "tuple":
            ts = [self.guess(x) for x in b.args[1]]
            return ("tuple", tuple(ts)) if all(ts) else None
        if b.tag == "agg":
            return ("adt", b.args[0], ()) if b.args[0] in self.P.adts else None
        return None

    def opaque_at(self, v, i):
        t = self.elem_guess(v)
        if t is None:
            raise Incomplete("element of an irregular sequence")
        return mk_value(typed(mk("at", v, i), t), t)

    def opaque_slice(self, v, lo, hi):
        if v.tag != "seq":
            raise Incomplete("slice of " + v.tag)
        t = self.elem_guess(v)
        if t is None:
            raise Incomplete("slice of an irregular sequence")
        k = fresh()
        return seq((comp(psub(hi, lo), lam(k, mk_value(typed(mk("at", v, padd(lo, atom(k))), t), t))),))

    def write(self, st, cur, val):
        if cur[0] != "mem":
            raise Incomplete("write through a shared reference")
        if not cur[2]:
            st.mem[cur[1]] = val
            return
        old = st.mem.get(cur[1])
        if old is None or old is UNDEF:
            old = UNDEF
        st.mem[cur[1]] = self.upd(st, old, cur[2], val)

    def upd(self, st, v, path, val):
        if not path:
            return val
        e = path[0]
        if v.tag == "ite":
            c, a, b = v.args
            if e[0] == "v":
                pa, pb = self.can_be(a, e[1]), self.can_be(b, e[1])
                if pa and not pb:
                    return self.upd(st, a, path, val)
                if pb and not pa:
                    return self.upd(st, b, path, val)
            return ite(c, self.upd(st, a, path, val), self.upd(st, b, path, val))
        k = e[0]
        if k == "f":
            if v.tag == "agg":
                fs = list(v.args[1])
                fs[e[1]] = self.upd(st, fs[e[1]], path[1:], val)
                return agg(v.args[0], fs)
            if v.tag == "undef":
                raise Incomplete("partial initialisation")
            raise Incomplete("update field of " + v.tag)
        if k == "v":
            # ("v", i) is followed by ("f", j)
            if len(path) < 2:
                raise Incomplete("write of a variant")
            j = path[1][1]
            if v.tag == "en" and v.args[1] == e[1]:
                fs = list(v.args[2])
                fs[j] = self.upd(st, fs[j], path[2:], val)
                return en(v.args[0], v.args[1], *fs)
            if v.tag == "symv":
                t, ty = v.args
                vs = variants(strip(ty))
                fs = [mk_value(typed(mk("pl", t, e[1], q), ft), ft) for q, ft in enumerate(vs[e[1]])]
                fs[j] = self.upd(st, fs[j], path[2:], val)
                return en(strip(ty)[1], e[1], *fs)
            raise Incomplete("update variant of " + v.tag)
        if k == "i":
            old = self.sel(st, v, e)
            new = self.upd(st, old, path[1:], val)
            r = store_seq(v, e[1], new, self.decide(st))
            if r is None:
                raise Incomplete("store into an irregular sequence")
            return r
        if k == "r":
            old = self.sel(st, v, e)
            new = self.upd(st, old, path[1:], val)
            r = store_range(v, e[1], e[2], new, self.decide(st))
            if r is None:
                raise Incomplete("range store into an irregular sequence")
            return r
        raise Incomplete("upd")

    # ------------------------------------------------------------ operands and rvalues
    def const_val(self, fr, c):
        if "fn" in c:
            return self.fn_item(c["fn"], fr.sub)
        if "str" in c:
            return ref(symv(typed(mk("strlit", c["str"]), ("prim", "str")), ("prim", "str")))
        ty = self.ty(c["ty"], fr.sub) if isinstance(c.get("ty"), int) else None
        if "promoted" in c:
            owner = self.P.fns.get(c["uneval"]) or fr.fn
            body = None
            if owner.get("promoted") and c["promoted"] < len(owner["promoted"]):
                body = owner["promoted"][c["promoted"]]
            if body is None:
                body = fr.fn["promoted"][c["promoted"]]
            return self.const_body(owner, body, fr.sub)
        if c.get("v") is not None:
            v = c["v"]
            s = strip(ty)
            if s == ("prim", "bool"):
                return bool(v)
            if s[0] == "prim":
                return const(int(v))
            vs = variants(s)
            if vs is not None:
                a = self.P.adts.get(s[1])
                if a:
                    for k, va in enumerate(a["variants"]):
                        if int(va.get("discr", k)) == int(v) and not va["fields"]:
                            return en(s[1], k)
            if s[0] in ("ref", "ptr"):
                return symv(typed(mk("uf", "const", True, repr(v)), s), s)
            return symv(typed(mk("uf", "const:" + str(v), True), s), s)
        if "uneval" in c:
            f = self.P.fns.get(c["uneval"])
            if f and f.get("body"):
                sub = {g: self.ty(a, fr.sub) for g, a in zip(f["generics"], c.get("args", [])) if isinstance(a, int)}
                return self.const_body(f, f["body"], sub)
            return mk_value(typed(mk("uf", "const:" + c["uneval"], True), ty), ty)
        if c.get("zst"):
            return self.zst(ty)
        m = re.match(r"Ty\(&.*\bstr, (\".*\"),?\)$", str(c.get("other")), re.S)
        if m:
            return ref(symv(typed(mk("strlit", unescape(m.group(1)[1:-1])), ("prim", "str")), ("prim", "str")))
        if ty is not None:
            return mk_value(typed(mk("uf", "const?" + str(c.get("other")), True), ty), ty)
        raise Incomplete("constant")

    def zst(self, ty):
        if ty[0] == "tuple" and not ty[1]:
            return UNIT
        if ty[0] == "closure":
            return agg("clo:%s:%d" % (ty[1], self.sub_id({})), ())
        if ty[0] == "fndef":
            return self.fn_item({"id": ty[1], "name": ty[2], "args": [], "_targs": ty[3], "local": ty[1] in self.P.fns}, {})
        if ty[0] == "array" and ty[2] == 0:
            return EMPTYSEQ
        return agg("zst:" + repr(ty), ())

    def const_body(self, f, body, sub):
        outs = self.run_body(f, body, [], sub, State())
        rets = [o for o in outs if o[1] == "ret"]
        if len(outs) != 1 or not rets:
            raise Incomplete("constant body")
        st, _, v = rets[0]
        return self.freeze(st, v)

    def freeze(self, st, v):
        """replace references into local allocations by snapshots"""
        if not isinstance(v, N):
            return v
        if v.tag == "mref":
            return ref(self.freeze(st, self.read(st, ("mem", v.args[0], v.args[1]))))
        if v.tag in ("agg", "en"):
            if v.tag == "agg":
                return agg(v.args[0], [self.freeze(st, x) for x in v.args[1]])
            return en(v.args[0], v.args[1], *[self.freeze(st, x) for x in v.args[2]])
        if v.tag == "ref":
            return ref(self.freeze(st, v.args[0]))
        return v

    def fn_item(self, f, sub):
        key = (f["id"], f.get("rid"), tuple(map(str, f.get("args", []))), tuple(map(str, f.get("rargs", []))), self.sub_id(sub), f.get("_targs"))
        if key not in self.fnitems:
            self.fnitems[key] = len(self.fnlist)
            self.fnlist.append((f, dict(sub)))
        return agg("fn:%d" % self.fnitems[key], ())

    def operand(self, fr, st, o):
        if o[0] == "const":
            return self.const_val(fr, o[1])
        cur = self.resolve(fr, st, o[1])
        return self.read(st, cur)

    def rvalue(self, fr, st, r, dty):
        """value, or list of (state, value) when it has to split"""
        k = r[0]
        if k == "use":
            return self.operand(fr, st, r[1])
        if k == "repeat":
            v = self.operand(fr, st, r[1])
            n = r[2] if isinstance(r[2], int) else None
            if n is None:
                raise Incomplete("repeat length")
            return seq((comp(const(n), lam(fresh(), v)),))
        if k == "ref":
            cur = self.resolve(fr, st, r[2])
            if r[1]:
                if cur[0] == "mem":
                    return mref(cur[1], cur[2])
                raise Incomplete("mutable borrow of a shared value")
            v = self.read(st, cur)
            return ref(v)
        if k == "rawptr":
            cur = self.resolve(fr, st, r[2])
            if r[1] and cur[0] == "mem":
                return mref(cur[1], cur[2])
            return ref(self.read(st, cur))
        if k == "cast":
            return self.cast(fr, st, r)
        if k == "bin":
            return self.binop(st, r[1], self.operand(fr, st, r[2]), self.operand(fr, st, r[3]), dty)
        if k == "un":
            v = self.operand(fr, st, r[2])
            if r[1] == "Not":
                if isinstance(v, bool) or is_bool(v):
                    return bnot(v)
                raise Incomplete("bitwise not")
            if r[1] == "Neg":
                return pscale(v, -1)
            if r[1] == "PtrMetadata":
                cur = self.deref_value(st, v)
                return slen(self.read(st, cur))
            raise Incomplete("unary " + r[1])
        if k == "discr":
            cur = self.resolve(fr, st, r[1])
            v = self.read(st, cur)
            return self.discr(v)
        if k == "agg":
            return self.aggregate(fr, st, r, dty)
        raise Incomplete("rvalue " + k)

    def discr(self, v):
        if isinstance(v, bool):
            return const(int(v))
        if v.tag == "en":
            return const(self.discr_of(v.args[0], v.args[1]))
        if v.tag == "ite":
            return ite(v.args[0], self.discr(v.args[1]), self.discr(v.args[2]))
        if v.tag == "symv":
            t, ty = v.args
            return atom(typed(mk("discr", t), ("prim", "isize")))
        if is_bool(v):
            return atom(mk("ite", v, ONE, ZERO))
        raise Incomplete("discriminant of " + v.tag)

    def discr_of(self, adt, k):
        if adt == ORD:
            return k - 1
        a = self.P.adts.get(adt)
        if a:
            d = a["variants"][k].get("discr")
            if d is not None:
                return int(d)
        return k

    def aggregate(self, fr, st, r, dty):
        kind = r[1]
        ops = [self.operand(fr, st, o) for o in r[2]]
        if kind[0] == "tuple":
            return agg("tuple", ops)
        if kind[0] == "array":
            return lit(ops)
        if kind[0] == "closure":
            return agg("clo:%s:%d" % (kind[1], self.sub_id(fr.sub)), ops)
        if kind[0] == "adt":
            name, vi = kind[1], kind[2]
            vs = variants(dty) if dty[0] == "adt" and dty[1] == name else None
            if vs is None:
                a = self.P.adts.get(name)
                if a is not None and a["kind"] == "enum":
                    return en(name, vi, *ops)
            else:
                return en(name, vi, *ops)
            if dty[0] == "adt":
                e = erased(dty)
                if e:
                    return ops[e[0]]
            return agg(name, ops)
        if kind[0] == "rawptr":
            return ops[0]
        raise Incomplete("aggregate " + str(kind[0]))

    def cast(self, fr, st, r):
        v = self.operand(fr, st, r[2])
        kind = r[1]
        src = self.ty(r[3], fr.sub) if isinstance(r[3], int) else None
        dst = self.ty(r[4], fr.sub)
        if kind.startswith("PointerCoercion") or kind in ("PtrToPtr",):
            return v
        if kind == "IntToInt":
            return self.int_cast(st, v, src, dst)
        if kind == "Transmute" or kind.startswith("BoxDeref"):
            return v
        if kind.startswith("PointerExpose"):
            # the address of a reference, kept symbolic
            return atom(typed(mk("addr", v), USIZE))
        raise Incomplete("cast " + kind)

    def int_cast(self, st, v, src, dst):
        s, d = int_name(src), int_name(dst)
        if isinstance(v, bool) or is_bool(v):
            return ite(v, ONE, ZERO) if not isinstance(v, bool) else const(int(v))
        if v.tag in ("en", "symv") or (v.tag == "ite"):
            v = self.discr(v)
        if s is None or d is None or s == d:
            return v
        W = {"u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32, "u64": 64, "i64": 64, "usize": 64, "isize": 64,
             "u128": 128, "i128": 128, "char": 32}
        c = cval(v)
        su, du = s in UNSIGNED or s == "char", d in UNSIGNED or d == "char"
        if c is not None:
            m = 1 << W[d]
            c %= m
            if not du and c >= m // 2:
                c -= m
            return const(c)
        if su and (W[d] > W[s] or (W[d] == W[s] and du)):
            return v
        if not su and not du and W[d] >= W[s]:
            return v
        if not su and du and W[d] >= W[s] and prove(st.facts, ge(v)):
            return v
        if su and not du and W[d] == W[s]:
            # usize -> isize: identity below 2^63 (memory-sized quantities)
            if not self.overflow and W[d] >= 64:
                return v
            if prove(st.facts, lt(v, const(1 << (W[d] - 1)))):
                return v
        if du and prove(st.facts, band(ge(v), lt(v, const(1 << W[d])))):
            return v
        return atom(typed(mk("uf", "cast:%s:%s" % (s, d), True, v), ("prim", d)))

    def binop(self, st, op, a, b, dty):
        if op.endswith("WithOverflow"):
            base = op[:-len("WithOverflow")]
            v = self.binop(st, base, a, b, None)
            it = dty[1][0] if dty and dty[0] == "tuple" else USIZE
            return tup(v, self.ovf(st, base, a, b, v, it))
        if op.endswith("Unchecked"):
            op = op[:-9]
        if op in ("Eq", "Ne"):
            c = self.eq_val(st, a, b)
            return c if op == "Eq" else bnot(c)
        if isinstance(a, bool) or isinstance(b, bool) or is_bool(a) or is_bool(b):
            if op == "BitAnd":
                return band(a, b)
            if op == "BitOr":
                return bor(a, b)
            if op == "BitXor":
                return bor(band(a, bnot(b)), band(bnot(a), b))
            raise Incomplete("bool op " + op)
        if a.tag != "poly" or b.tag != "poly":
            raise Incomplete("arithmetic on " + a.tag)
        if op == "Add":
            return padd(a, b)
        if op == "Sub":
            return psub(a, b)
        if op == "Mul":
            return pmul(a, b)
        if op == "Lt":
            return lt(a, b)
        if op == "Le":
            return le(a, b)
        if op == "Gt":
            return lt(b, a)
        if op == "Ge":
            return le(b, a)
        if op == "Div":
            return pdivc(a, b)
        if op == "Rem":
            return pmodc(a, b)
        if op == "BitAnd" and (cval(b) == 1 or cval(a) == 1):
            return pmodc(a if cval(b) == 1 else b, const(2))
        if op == "Shr" and cval(b) is not None:
            return pdivc(a, const(1 << cval(b)))
        if op == "Shl" and cval(b) is not None:
            return pscale(a, 1 << cval(b))
        if op == "Cmp":
            return ite(lt(a, b), en(ORD, 0), ite(eqp(a, b), en(ORD, 1), en(ORD, 2)))
        if op in ("BitAnd", "BitOr", "BitXor") and cval(a) is not None and cval(b) is not None:
            return const(cval(a) & cval(b) if op == "BitAnd" else cval(a) | cval(b) if op == "BitOr" else cval(a) ^ cval(b))
        ity = dty if dty and int_name(dty) else USIZE
        v = atom(typed(mk("uf", "bin:" + op, True, a, b), ity))
        if op == "BitAnd":
            # masking by a non-negative number: never more than the mask
            for x in (a, b):
                if prove(st.facts, ge(x)):
                    st.facts = st.facts.add(band(ge(v), le(v, x)))
        return v

    def ovf(self, st, op, a, b, v, ity):
        n = int_name(ity)
        if n in UNSIGNED and op == "Sub":
            return lt(v, ZERO)
        if self.overflow and n in ("usize", "u64"):
            # reported only for quantities that an unbounded scalar input reaches
            if any(unbounded(x) for x in (a, b)):
                c = batom(mk("uf", "overflow", True, v))
                return c
        return False

    def eq_val(self, st, a, b):
        c = veq(a, b, self.decide(st))
        return c

    # ------------------------------------------------------------ running
    def run_fn(self, f, args, sub, st):
        body = f["body"]
        if body is None:
            raise Incomplete("no body: " + f["name"])
        return self.run_body(f, body, args, sub, st)

    def run_body(self, f, body, args, sub, st):
        self.tick()
        if len(self.callstack) > 40 or self.callstack.count(f["id"]) > 1:
            raise Incomplete("recursion in " + f["name"])
        fr = Frame()
        self.nframe += 1
        fr.id = self.nframe
        fr.fn, fr.body, fr.sub = f, body, sub
        fr.name = f["name"]
        key = id(body)
        if key not in _cfgs:
            _cfgs[key] = (CFG(body), body)
        fr.cfg = _cfgs[key][0]
        st = st.fork()
        for k, v in enumerate(args):
            st.mem["%d:%d" % (fr.id, k + 1)] = v
        for k, t in enumerate(body["locals"]):
            self.alloc_ty["%d:%d" % (fr.id, k)] = self.ty(t, sub)
        self.callstack.append(f["id"])
        try:
            outs = self.exec(fr, st, 0, None, None)
        finally:
            self.callstack.pop()
        res = []
        pre = "%d:" % fr.id
        for s, tag, v in outs:
            if tag == "ret":
                rv = s.mem.get(pre + "0")
                if rv is None:
                    rv = UNIT
                keep = self.escaping(s, rv, pre)
                if keep is None:
                    s.mem = {a: x for a, x in s.mem.items() if not a.startswith(pre)}
                else:
                    s.mem = {a: x for a, x in s.mem.items() if not a.startswith(pre) or a in keep}
                res.append((s, "ret", rv))
            elif tag == "panic":
                res.append((s, tag, v))
            else:
                raise Incomplete("stray " + tag)
        return res

    def escaping(self, s, rv, pre):
        """local allocations still referenced by the result (promoted constants)"""
        found = set()
        work = [rv]
        seen = set()
        while work:
            x = work.pop()
            if isinstance(x, tuple):
                work.extend(x)
                continue
            if not isinstance(x, N) or x in seen:
                continue
            seen.add(x)
            if x.tag == "mref" and x.args[0].startswith(pre):
                if x.args[0] not in found:
                    found.add(x.args[0])
                    v = s.mem.get(x.args[0])
                    if v is not None:
                        work.append(v)
            if x.tag in ("agg", "en", "ref", "it", "ite", "vsel"):
                work.extend(x.args)
        return found or None

    def exec(self, fr, st, start, region, head):
        """run from block `start`; with a region: stop at the head ('back') and when leaving ('exit')"""
        outs = []
        work = [(st, start, True)]
        order = fr.cfg.order
        while work:
            if len(work) > 1:
                # in topological order, so that paths that meet again with the same memory are joined
                i = min(range(len(work)), key=lambda j: (order.get(work[j][1], 0), -j))
                st, bb, first = work.pop(i)
                if not first:
                    here = [w for w in work if w[1] == bb and not w[2]]
                    if here:
                        import loops
                        work = [w for w in work if not (w[1] == bb and not w[2])]
                        js = join_states([loops.prune(fr, s, bb) for s in [st] + [w[0] for w in here]])
                        st = js[0]
                        if js[1:]:
                            # cannot be joined: each on its own
                            for s in js:
                                self.exec_one(fr, s, bb, False, start, region, head, outs, work)
                            continue
            else:
                st, bb, first = work.pop()
            self.exec_one(fr, st, bb, first, start, region, head, outs, work)
        return outs

    def exec_one(self, fr, st, bb, first, start, region, head, outs, work):
        for _ in (0,):
            self.tick()
            if not (first and bb == start):
                if head is not None and bb == head:
                    outs.append((st, "back", None))
                    continue
                if region is not None and bb not in region:
                    outs.append((st, "exit", bb))
                    continue
            if bb in fr.cfg.loops and not (first and bb == start and head == bb):
                import loops
                self.stats["loops"] += 1
                for o in loops.mir_loop(self, fr, st, bb):
                    if o[1] == "exit":
                        if region is not None and o[2] not in region:
                            outs.append(o)
                        elif head is not None and o[2] == head:
                            outs.append((o[0], "back", None))
                        else:
                            work.append((o[0], o[2], False))
                    else:
                        outs.append(o)
                continue
            for o in self.block(fr, st, bb):
                if o[1] == "goto":
                    work.append((o[0], o[2], False))
                elif o[1] == "retry":
                    # an iterator skipped an item: the call is made again
                    if head is not None and bb == head:
                        outs.append((o[0], "back", None))
                    else:
                        raise Incomplete("skipping iterator outside a loop head")
                else:
                    outs.append(o)
                    self.npaths += 1

    def block(self, fr, st, bb):
        b = fr.body["blocks"][bb]
        self.stats["blocks"] += 1
        st = st.fork()
        for s in b["s"]:
            if s[0] == "assign":
                self.assign(fr, st, s[1], s[2])
            elif s[0] == "dead":
                st.mem.pop(self.local_alloc(fr, s[1]), None)
            elif s[0] == "setdiscr":
                raise Incomplete("set discriminant")
        return self.term(fr, st, b["t"], b.get("ln"))

    def place_ty(self, fr, place):
        if place["p"]:
            e = place["p"][-1]
            if e[0] == "field":
                return self.ty(e[3], fr.sub)
            bt = self.ty(e[1], fr.sub)
            if e[0] == "deref":
                return bt[2] if bt[0] in ("ref", "ptr") else bt[2][0]
            return elem_ty(bt) or bt
        return self.ty(fr.body["locals"][place["l"]], fr.sub)

    def assign(self, fr, st, place, r):
        dty = self.place_ty(fr, place)
        v = self.rvalue(fr, st, r, dty)
        self.write(st, self.resolve(fr, st, place) if place["p"] else ("mem", self.local_alloc(fr, place["l"]), ()), v)

    def term(self, fr, st, t, ln):
        k = t[0]
        if k == "goto":
            return [(st, "goto", t[1])]
        if k == "return":
            return [(st, "ret", None)]
        if k == "drop":
            return [(st, "goto", t[2])]
        if k == "unreachable":
            return []
        if k == "switch":
            return self.switch(fr, st, t)
        if k == "assert":
            c = self.operand(fr, st, t[1])
            if t[2] is False or t[2] == 0:
                c = bnot(c)
            out = []
            for s, ok_ in self.split(st, c):
                if ok_:
                    out.append((s, "goto", t[4]))
                else:
                    out.append((s, "panic", "assert:%s@%s" % (t[3][0] if t[3] else "?", fr.name)))
            return out
        if k == "call":
            return self.call_term(fr, st, t, ln)
        if k in ("resume", "terminate"):
            return []
        raise Incomplete("terminator " + k)

    def switch(self, fr, st, t):
        v = self.operand(fr, st, t[1])
        targets = t[2]
        if isinstance(v, bool) or is_bool(v):
            out = []
            for s, tr in self.split(st, v):
                val = 1 if tr else 0
                for x, bb in targets:
                    if int(x) == val:
                        out.append((s, "goto", bb))
                        break
                else:
                    out.append((s, "goto", t[3]))
            return out
        if v.tag != "poly":
            raise Incomplete("switch on " + v.tag)
        a = as_atom(v)
        out = []
        cur = st
        for x, bb in targets:
            c = self.case_cond(v, a, x)
            nxt = None
            for s, tr in self.split(cur, c):
                if tr:
                    out.append((s, "goto", bb))
                else:
                    nxt = s
            if nxt is None:
                return out
            cur = nxt
        if t[3] is not None:
            # otherwise: for enums, all variants may have been covered
            if a is not None and a.tag == "discr":
                ty = TY.get(a.args[0])
                vs = variants(strip(ty)) if ty is not None else None
                if vs is not None:
                    left = [k for k in range(len(vs)) if not any(int(self.discr_of(strip(ty)[1], k)) == norm_discr(x) for x, _ in targets)]
                    if not left:
                        return out
                    if len(left) == 1:
                        cur = cur.assume(isv(a.args[0], left[0]))
            out.append((cur, "goto", t[3]))
        return out

    def case_cond(self, v, a, x):
        x = norm_discr(x)
        if a is not None and a.tag == "discr":
            ty = TY.get(a.args[0])
            vs = variants(strip(ty)) if ty is not None else None
            if vs is not None:
                for k in range(len(vs)):
                    if self.discr_of(strip(ty)[1], k) == x:
                        return isv(a.args[0], k)
                return False
        return cond_eq(v, x, None if a is not None and a.tag == "discr" else self)

    # ------------------------------------------------------------ calls
    def call_term(self, fr, st, t, ln):
        f, args, dest, target = t[1], t[2], t[3], t[4]
        vals = [self.operand(fr, st, a) for a in args]
        dty = self.place_ty(fr, dest)
        argtys = [self.ty(x, fr.sub) if isinstance(x, int) else None for x in t[5]] if len(t) > 5 and t[5] else []
        if f[0] == "const" and "fn" in f[1]:
            outs = self.call_fn(st, f[1]["fn"], fr.sub, vals, dty, argtys, fr)
        else:
            outs = self.call_value(st, self.operand(fr, st, f), vals, dty)
        res = []
        for s, tag, v in outs:
            if tag == "ret":
                if target is None:
                    res.append((s, "panic", "diverges"))
                    continue
                s = s.fork()
                self.write(s, self.resolve(fr, s, dest) if dest["p"] else ("mem", self.local_alloc(fr, dest["l"]), ()), v)
                res.append((s, "goto", target))
            else:
                res.append((s, tag, v))
        return res

    def call_fn(self, st, f, sub, vals, dty, argtys, fr=None):
        """call a resolved function item"""
        self.stats["calls"] += 1
        fid = f.get("rid") or f["id"]
        local = f.get("rlocal") if "rid" in f else f.get("local")
        raw = f.get("rargs") if "rid" in f else f.get("args")
        if "_targs" in f:
            targs = [subst_ty(x, sub) for x in f["_targs"]]
        else:
            targs = [self.ty(a, sub) if isinstance(a, int) else ("const", a) for a in (raw or [])]
        if f.get("trait") and "rid" not in f:
            r = self.resolve_trait(f, [self.ty(a, sub) if isinstance(a, int) else ("const", a) for a in f["args"]])
            if r is not None:
                fid, local, targs = r[0], True, r[1]
            else:
                local = False
        elif f.get("trait") and not local:
            # the compiler resolved to an external impl; still try local ones for substituted types
            pass
        g = self.P.fns.get(fid) if local else None
        if g is None and fid in self.P.fns and local is not False:
            g = self.P.fns[fid]
        info = CallInfo(f, targs, dty, argtys, sub)
        info.frame = fr
        key = fkey(f)
        info.key = key
        h = self.hooks.get(f.get("rname") or f["name"]) or self.hooks.get(key)
        if h:
            r = h(self, st, vals, info)
            if r is not None:
                return r
        if g is not None and g["name"] in self.contracts and g["name"] != self.root_name and dty is not None:
            # a validating parser that is a root of its own: its result is any value of its type
            t = typed(mk("uf", "call", True, mk("strlit", g["name"]), *[self.freeze(st, a) for a in vals]), dty)
            self.stats["models"].add("contract " + g["name"])
            return [(st, "ret", mk_value(t, dty))]
        if g is not None and g.get("body") and g["name"] not in self.opaque_fns:
            m = self.M.get_local(self, g, vals, info)
            if m is not None:
                r = m(self, st, vals, info)
                if r is not None:
                    return r
            gsub = {x: y for x, y in zip(g["generics"], targs)}
            if g.get("derived") and g.get("trait"):
                r = self.derived(st, g, vals, info)
                if r is not None:
                    return r
            self.stats["inlined"].add(g["name"])
            return self.run_fn(g, self.fit_args(st, g, vals), gsub, st)
        m = self.M.get(key)
        if m is not None:
            self.stats["models"].add(key)
            r = m(self, st, vals, info)
            if r is not None:
                return r
        return self.opaque_call(st, f.get("rname") or f["name"], vals, dty, argtys)

    def fit_args(self, st, g, vals):
        return vals

    def derived(self, st, g, vals, info):
        """compiler-derived trait implementations are structural"""
        tr = g["trait"].split("::")[-1]
        m = g["method"]
        if tr == "Clone" and m == "clone":
            return [(st, "ret", self.read(st, self.deref_value(st, vals[0])))]
        if tr == "PartialEq" and m in ("eq", "ne"):
            a = self.read(st, self.deref_value(st, vals[0]))
            b = self.read(st, self.deref_value(st, vals[1]))
            c = self.eq_val(st, a, b)
            return [(st, "ret", c if m == "eq" else bnot(c))]
        return None

    def resolve_trait(self, f, targs):
        """find the local impl for a trait method called on a now known type"""
        if not targs:
            return None
        selfty = targs[0]
        tr = f["trait"]
        while selfty[0] == "ref" and False:
            selfty = selfty[2]
        for im in self.P.impls:
            if im["trait"] != tr or f["method"] not in im["items"]:
                continue
            m = {}
            if not unify(self.P.ty(im["self"]), selfty, m):
                continue
            okk = True
            for x, y in zip(im["targs"][1:], targs[1:]):
                if isinstance(x, int) and not unify(self.P.ty(x), y, m):
                    okk = False
                    break
            if not okk:
                continue
            fid = im["items"][f["method"]]
            g = self.P.fns.get(fid)
            if g is None:
                continue
            ntr = len(im["targs"])
            rest = targs[ntr:]
            gens = g["generics"]
            out = []
            ri = 0
            for gname in gens:
                if gname in im["generics"]:
                    out.append(m.get(gname, ("param", gname)))
                else:
                    out.append(rest[ri] if ri < len(rest) else ("param", gname))
                    ri += 1
            return fid, out
        return None

    def call_value(self, st, fv, args, dty=None):
        """call a closure / function value with already separated arguments"""
        # see through references
        selfref = fv
        depth = 0
        cur = None
        while fv.tag in ("ref", "mref"):
            cur = self.deref_value(st, fv)
            selfref = fv
            fv = self.read(st, cur)
            depth += 1
        if fv.tag == "agg" and fv.args[0].startswith("clo:"):
            _, cid, sid = fv.args[0].rsplit(":", 1)[0].split(":", 1)[0], fv.args[0][4:].rsplit(":", 1)[0], int(fv.args[0].rsplit(":", 1)[1])
            g = self.P.fns.get(cid)
            if g is None or not g.get("body"):
                raise Incomplete("closure body " + cid)
            t1 = self.P.ty(g["body"]["locals"][1])
            if t1[0] == "ref" and t1[1]:
                if depth and selfref.tag == "mref":
                    env = selfref
                    s2 = st
                else:
                    s2 = st.fork()
                    a = self.new_alloc(s2, fv)
                    env = mref(a)
            elif t1[0] == "ref":
                env, s2 = ref(fv), st
            else:
                env, s2 = fv, st
            argc = g["body"]["argc"]
            if argc == len(args) + 1:
                vals = [env] + list(args)
            elif argc == 2 and len(args) != 1:
                vals = [env, agg("tuple", args)]
            else:
                vals = [env] + list(args)
            self.stats["inlined"].add(g["name"])
            return self.run_fn(g, vals, self.subs[sid], s2)
        if fv.tag == "agg" and fv.args[0].startswith("fn:"):
            f, sub = self.fnlist[int(fv.args[0][3:])]
            return self.call_item(st, f, sub, list(args), dty)
        if fv.tag == "symv":
            t, ty = fv.args
            rt = self.fn_ret_ty(ty) or dty
            if rt is None:
                raise Incomplete("result type of an opaque function")
            v = mk_value(typed(mk("uf", "call", True, t, *[self.freeze(st, a) for a in args]), rt), rt)
            return [(st, "ret", v)]
        raise Incomplete("call of " + fv.tag)

    def call_item(self, st, f, sub, args, dty):
        # constructor functions (tuple struct / enum variants)
        k = f.get("ctor")
        if k:
            pass
        name = f["name"]
        c = self.ctor(f, args, sub)
        if c is not None:
            return [(st, "ret", c)]
        g = self.P.fns.get(f.get("rid") or f["id"])
        if dty is None and g is None and f.get("trait") in SELF_RET and f.get("method") in SELF_RET[f["trait"]] and f.get("args"):
            dty = subst_ty(self.P.ty(f["args"][0]), sub)
        return self.call_fn(st, f, sub, args, dty, [])

    def ctor(self, f, args, sub):
        name = f["name"]
        parts = strip_generics(name).split("::")
        if len(parts) >= 2:
            if parts[-1] == "Some" and parts[-2] in ("Option", "option") or name.endswith("::Some"):
                return some(args[0])
            if name.endswith("::Ok"):
                return ok(args[0])
            if name.endswith("::Err"):
                return err(args[0])
        # local enum variant / tuple struct
        base = "::".join(parts[:-1])
        a = self.P.adts.get(base)
        if a is not None and a["kind"] == "enum":
            for k, va in enumerate(a["variants"]):
                if va["name"] == parts[-1]:
                    return en(base, k, *args)
        a = self.P.adts.get("::".join(parts))
        if a is not None and a["kind"] == "struct" and a["local"]:
            ty = ("adt", "::".join(parts), tuple(("param", g) for g in a["generics"]))
            e = erased(ty)
            if e:
                return args[e[0]]
            return agg("::".join(parts), args)
        return None

    def item_ty(self, ty):
        """item type of an opaque iterator / collection"""
        r = self.param_info.get(("item", ty))
        if r is not None:
            return r
        if ty[0] in ("ref",):
            return self.item_ty(ty[2])
        e = elem_ty(ty)
        if e is not None:
            return e
        if ty[0] == "adt" and ty[1].endswith("HashSet"):
            return ty[2][0]
        if ty[0] == "adt" and ty[1].endswith("HashMap"):
            return ("tuple", tuple(ty[2][:2]))
        if ty[0] == "alias":
            # impl Iterator<Item = X>
            n = ty[1]
            if "Item = " in n:
                return self.parse_ty(n)
        return None

    def parse_ty(self, n):
        return None

    def fn_ret_ty(self, ty):
        """declared result type of an opaque callable type parameter"""
        return self.param_info.get(("ret", ty))

    def opaque_call(self, st, name, vals, dty, argtys=()):
        """unknown function: deterministic in its arguments; whatever it can mutate becomes a new unknown"""
        self.stats["opaque"].add(name)
        st = st.fork()
        fz = []
        muts = []
        for v in vals:
            fz.append(self.freeze(st, v))
            muts += self.mrefs(v)
        clos = [v for v in fz if isinstance(v, N) and any(x.tag == "agg" and x.args[0].startswith("clo:") for x in subvals(v))]
        for v in fz:
            for x in subvals(v):
                if x.tag == "agg" and isinstance(x.args[0], str) and x.args[0].startswith("clo:") and x.args[1]:
                    st.inexact("closure passed to " + name)
        base = strip_generics(name)
        for k, m in enumerate(muts):
            cur = ("mem", m.args[0], m.args[1])
            ty = self.loc_ty(m.args[0], m.args[1])
            if ty is None:
                ty = self.guess(self.read(st, cur)) if st.mem.get(m.args[0]) is not None else None
            if ty is None:
                raise Incomplete("opaque mutation by " + name)
            t = typed(mk("uf", base + ".out%d" % k, True, *fz), ty)
            self.write(st, cur, mk_value(t, ty))
        if dty is None:
            raise Incomplete("type of result of " + name)
        if dty[0] == "never":
            return [(st, "panic", "call:" + base)]
        v = mk_value(typed(mk("uf", base, True, *fz), dty), dty)
        out = [(st, "ret", v)]
        for c in vals:
            if self.may_panic(st, c):
                # the callee may run it, on values this analysis does not know
                s2 = st.fork()
                s2.inexact("closure passed to " + base)
                out.append((s2, "panic", "closure passed to " + base))
                break
        return out

    def may_panic(self, st, v):
        """can the local closure or function v panic for some arguments?"""
        if not isinstance(v, N) or v.tag != "agg" or not isinstance(v.args[0], str):
            return False
        if v.args[0].startswith("clo:"):
            cid, sid = v.args[0][4:].rsplit(":", 1)
            g, sub = self.P.fns.get(cid), self.subs[int(sid)]
            skip = 1
        elif v.args[0].startswith("fn:"):
            f, sub = self.fnlist[int(v.args[0][3:])]
            g = self.P.fns.get(f.get("rid") or f["id"])
            skip = 0
        else:
            return False
        if g is None or not g.get("body") or g["name"] in self.speculating:
            return False
        self.speculating.add(g["name"])
        try:
            b = g["body"]
            tys = [subst_ty(self.P.ty(t), sub) for t in b["locals"][1 + skip:1 + b["argc"]]]
            if skip and len(tys) == 1 and b["argc"] == 2 and tys[0][0] == "tuple" and g.get("spread"):
                tys = list(tys[0][1])
            args = [mk_value(V.sym("arg%d" % T.COPIES[0], t, True, "havoc"), t) for t in tys]
            if any(t[0] in ("ref", "ptr") and t[1] for t in tys):
                return True
            T.COPIES[0] += 1
            return any(tag != "ret" for s2, tag, x in self.call_value(st.fork(), v, args))
        except Incomplete:
            return True
        finally:
            self.speculating.discard(g["name"])

    def mrefs(self, v):
        out = []
        for x in subvals(v):
            if x.tag == "mref":
                out.append(x)
        return out

    def loc_ty(self, alloc, path):
        ty = self.alloc_ty.get(alloc)
        for e in path:
            if ty is None:
                return None
            if e[0] == "f":
                if isinstance(ty, tuple) and ty and ty[0] == "vsel":
                    ty = ty[1][e[1]] if e[1] < len(ty[1]) else None
                else:
                    ty = field_ty(ty, e[1])
            elif e[0] == "i":
                ty = elem_ty(ty)
            elif e[0] == "r":
                el = elem_ty(ty)
                ty = ("slice", el) if el else None
            elif e[0] == "v":
                vs = variants(strip(ty))
                ty = ("vsel", tuple(vs[e[1]])) if vs else None
            else:
                return None
        return ty

    # ------------------------------------------------------------ pure evaluation on a generic element
    def pure_eval(self, st, fv, args, facts=(), dty=None):
        """(value, [(condition, reason)] panics, exact) of calling fv, or None when it has effects"""
        import loops
        s0 = st.assume(*facts) if facts else st
        base = s0.facts
        mark = T._CNT[0]
        n_ev = len(s0.events)
        before = dict(s0.mem)
        outs = self.call_value(s0, fv, args, dty)
        vals, panics = [], []
        for s, tag, v in outs:
            new = [f for f in s.facts.items if f not in base.set]
            val = [] if tag == "panic" else [v]
            if loops.new_syms(new + val, mark) or any(loops.has_new_havoc(x, mark) for x in new + val):
                # what one application does must be a function of its arguments
                r = loops.functional(new, val, mark, s.facts)
                if r is None:
                    return None
                new, val, _ = r
            cond = band(*new)
            if tag == "panic":
                panics.append((cond, v))
                continue
            v, = val
            for a, x in before.items():
                if s.mem.get(a) is not x:
                    return None
            if len(s.events) != n_ev:
                return None
            if not s.exact and s0.exact:
                st.inexact("closure")
            vals.append((cond, self.freeze_new(s, v, before)))
        if not vals:
            return (None, panics)
        v = vals[-1][1]
        for c, x in reversed(vals[:-1]):
            v = ite(c, x, v)
        return (v, panics)

    def freeze_new(self, s, v, before):
        return v


class CallInfo:
    __slots__ = ("f", "targs", "dty", "argtys", "sub", "key", "frame")

    def __init__(self, f, targs, dty, argtys, sub):
        self.f, self.targs, self.dty, self.argtys, self.sub = f, targs, dty, argtys, sub


def subvals(v):
    """sub-values reachable without entering terms"""
    work = [v]
    seen = set()
    while work:
        x = work.pop()
        if isinstance(x, tuple):
            work.extend(x)
            continue
        if not isinstance(x, N) or x in seen:
            continue
        seen.add(x)
        yield x
        if x.tag in ("agg", "en", "ref", "it", "ite", "vsel"):
            work.extend(x.args)


PURE_PREFIX = ()


def unescape(s):
    """the text of a Rust string literal"""
    s = re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m.group(1), 16)), s)
    return re.sub(r"\\(.)", lambda m: {"n": "\n", "t": "\t", "r": "\r", "0": "\0"}.get(m.group(1), m.group(1)), s)


def pure_name(n):
    return True


DEFS = set()


def join_states(ss):
    """states with the same memory become one, under the disjunction of what sets them apart"""
    groups = {}
    for s in ss:
        k = (frozenset(s.mem.items()), s.exact, s.events, s.notes)
        groups.setdefault(k, []).append(s)
    return join_bounds([join_facts(g) for g in groups.values()])


def join_bounds(ss):
    """states set apart by the form of a range's bound only, where one number depends on it: joined by a conditional number"""
    if len(ss) < 2 or len(ss) > 4:
        return ss
    keys = set(ss[0].mem)
    if any(set(s.mem) != keys or (s.exact, s.events, s.notes) != (ss[0].exact, ss[0].events, ss[0].notes) for s in ss):
        return ss
    diff = [k for k in keys if any(s.mem[k] is not ss[0].mem[k] for s in ss)]
    if len(diff) != 1 or any(not isinstance(s.mem[diff[0]], N) or s.mem[diff[0]].tag != "poly" for s in ss):
        return ss
    sets = [frozenset(s.facts.items) for s in ss]
    com = frozenset.intersection(*sets)
    own = [[f for f in s.facts.items if f not in com] for s in ss]
    for o in own:
        for f in o:
            if not isinstance(f, N):
                return ss
            b = f.args[0] if f.tag == "not" else f
            b = b.args[0] if b.tag == "b" else b
            if not (b.tag == "isv" and b.args[0].tag == "uf" and b.args[0].args[0].startswith("bound:")):
                return ss
    # the alternatives must exclude one another (they come from one match) and the last is what remains
    alts = []
    for s, o in zip(ss, own):
        pos = [f for f in o if f.tag == "isv"]
        if len(pos) != 1 or len({(f.args[0] if f.tag == "not" else f).args[0] for f in o}) != 1:
            return ss
        alts.append((pos[0].args[1], pos[0], s.mem[diff[0]], o))
    if len({a[0] for a in alts}) != len(alts) or len({a[1].args[0] for a in alts}) != 1:
        return ss
    alts.sort(key=lambda a: a[0])
    v = alts[-1][2]
    for a in alts[-2::-1]:
        v = T.ite(a[1], a[2], v)
    v = named(v)
    r = ss[0].fork()
    rest = [] if [a[0] for a in alts] == [0, 1, 2] else [bor(*[band(*o) for o in own])]
    r.facts = Facts().add(*[f for f in ss[0].facts.items if f in com], *rest)
    r.mem[diff[0]] = v
    return [r]


def named(v):
    """an abbreviation of a conditional number"""
    a = as_atom(v)
    return atom(typed(mk("uf", "named", True, v), USIZE)) if a is not None and a.tag == "ite" else v


def join_facts(g):
    if len(g) == 1:
        return g[0]
    sets = [frozenset(s.facts.items) for s in g]
    com = frozenset.intersection(*sets)
    defs = []
    alts = []
    for s in g:
        d = []
        for f in s.facts.items:
            if f in com:
                continue
            if f in DEFS:
                if f not in defs:
                    defs.append(f)
            else:
                d.append(f)
        alts.append(band(*d))
    F = Facts().add(*[f for f in g[0].facts.items if f in com], *defs, bor(*alts))
    r = g[0].fork()
    r.facts = F
    return r


def define(st, *fs):
    """facts that only describe an approximated symbol (satisfiable whatever the inputs)"""
    for f in fs:
        for g in FX.flatten(f):
            if isinstance(g, N):
                DEFS.add(g)
    st.facts = st.facts.add(*fs)


_apx = {}
REC = {}         # symbol of an unknown function of the iteration number -> (value before the loop, lambda giving the next value, type): defined exactly by recurrence


def record(defs):
    """symbols that a recurrence over the inputs defines exactly: [(symbol, init, step lambda, type)]"""
    _apx.clear()
    names = {d[0] for d in defs}
    for S, init, step, ty in defs:
        for x in (init, step):
            if x is None or isinstance(x, N) and (x.bvs or x.syms or not exact_but(x, names)):
                return False
    for S, init, step, ty in defs:
        REC[S] = (init, step, ty)
    return True


def exact_but(x, names):
    if not isinstance(x, N):
        return True
    seen, stack = set(), [x]
    while stack:
        y = stack.pop()
        if isinstance(y, tuple):
            stack.extend(y)
            continue
        if not isinstance(y, N) or y in seen:
            continue
        seen.add(y)
        if y.tag == "sym" and y.args[1] == "havoc" and y not in names and y not in REC or y.tag == "sv" or y.tag == "uf" and not exact_uf(y.args[0]) or y.tag == "mref":
            return False
        stack.extend(y.args)
    return True


def rec_deps(x, out=None):
    """the recurrence symbols a term mentions, with those that define them"""
    out = set() if out is None else out
    if not REC:
        return out
    seen, stack = set(), [x]
    while stack:
        y = stack.pop()
        if isinstance(y, tuple):
            stack.extend(y)
            continue
        if not isinstance(y, N) or y in seen:
            continue
        seen.add(y)
        if y in REC:
            if y not in out:
                out.add(y)
                stack.extend(z for z in REC[y][:2] if isinstance(z, N))
            continue
        stack.extend(y.args)
    return out


def mentions(x, keys):
    seen, stack = set(), [x]
    while stack:
        y = stack.pop()
        if isinstance(y, tuple):
            stack.extend(y)
        elif isinstance(y, N) and y not in seen:
            seen.add(y)
            if y in keys:
                return True
            stack.extend(y.args)
    return False


_rsub = {}


def resubst(x, m):
    """the term in another run, whose inputs m replaces: unknowns of the run itself (loop functions, numbers of iterations)
    are renamed too, except those whose recurrence does not involve a replaced input"""
    if not isinstance(x, N) or not m:
        return x
    r = _rsub.setdefault(frozenset(m.items()), {})
    D = rec_deps(x)
    new = [S for S in D if S not in r]
    if new:
        hit = {S for S in D if r.get(S, S) is not S or any(mentions(z, m) for z in REC[S][:2] if isinstance(z, N))}
        while True:
            more = {S for S in D - hit if any(mentions(z, hit) for z in REC[S][:2] if isinstance(z, N))}
            if not more:
                break
            hit |= more
        for S in D:
            if S not in r:
                r[S] = another(S) if S in hit else S
        mm = dict(m)
        mm.update({a: b for a, b in r.items() if a is not b})
        for S in hit:
            if S in new:
                i, st, ty = REC[S]
                REC[r[S]] = (T.subst_any(i, mm) if isinstance(i, N) else i, T.subst_any(st, mm) if isinstance(st, N) else st, ty)
        _apx.clear()
    for y in own_unknowns(x):
        if y not in r and y not in m:
            r[y] = another(y)
    mm = dict(m)
    mm.update({a: b for a, b in r.items() if a is not b})
    y = T.subst_any(x, mm)
    if x in DEFS:
        DEFS.add(y)
    return y


def another(S):
    T.COPIES[0] += 1
    if S.tag == "sv":
        return T.fresh(S.args[0])
    return V.sym("%s'%d" % (S.args[0], T.COPIES[0]), V.TY[S], V.is_valid(S), "havoc")


def own_unknowns(x):
    out, seen, stack = set(x.syms), set(), [x]
    while stack:
        y = stack.pop()
        if isinstance(y, tuple):
            stack.extend(y)
        elif isinstance(y, N) and y not in seen:
            seen.add(y)
            if y.tag == "sym":
                if y.args[1] == "havoc" and y not in REC:
                    out.add(y)
                continue
            stack.extend(y.args)
    return out


def exact_uf(k):
    """uninterpreted functions that lose nothing: any interpretation of them is possible (client code), or
    the evaluator knows their meaning"""
    return k in ("call", "as_ref", "chars", "bytes", "pieces", "cmp", "overflow", "ptr", "named", "format:char", "format:int", "std::str::to_lowercase", "std::str::to_uppercase") or k in STRFN or k in ("row", "bin:BitAnd", "bin:BitOr", "bin:BitXor") or k.startswith(("bound:", "wrap:", "cast:", "sorted:"))


def approx(x):
    """does the term mention a symbol whose value the analysis only approximates?"""
    if not isinstance(x, N):
        return False
    r = _apx.get(x)
    if r is not None:
        return r
    t = x.tag
    if t == "sym":
        r = x.args[1] == "havoc" and x not in REC
    elif t == "sv":
        r = x.args[0] == "adv"
    elif t == "uf" and not exact_uf(x.args[0]):
        r = True
    else:
        r = any(approx(y) for y in _kids_all(x.args))
    _apx[x] = r
    return r


def _kids_all(args):
    for a in args:
        if isinstance(a, tuple):
            yield from _kids_all(a)
        elif isinstance(a, N):
            yield a


def exact_state(st):
    return st.exact and not any(approx(f) for f in st.facts.items if f not in DEFS)


def norm_discr(x):
    x = int(x)
    if x >= 1 << 63:
        x -= 1 << 64
    elif x == 255:
        x = -1
    return x


def cond_eq(v, x, I=None):
    """boolean: integer value v equals the constant x, seeing through conditionals"""
    a = as_atom(v)
    if a is not None and a.tag == "ite":
        c, p, q = a.args
        return bor(band(c, cond_eq(p, x)), band(bnot(c), cond_eq(q, x)))
    if a is not None and a.tag == "discr" and I is not None:
        return I.case_cond(v, a, x)
    return eqp(v, const(x))


def unify(pat, ty, m):
    if pat[0] == "param":
        if pat[1] in m:
            return m[pat[1]] == ty
        m[pat[1]] = ty
        return True
    if pat[0] != ty[0]:
        return False
    h = pat[0]
    if h == "adt":
        return pat[1] == ty[1] and len(pat[2]) == len(ty[2]) and all(unify(x, y, m) for x, y in zip(pat[2], ty[2]))
    if h in ("ref", "ptr"):
        return pat[1] == ty[1] and unify(pat[2], ty[2], m)
    if h == "slice":
        return unify(pat[1], ty[1], m)
    if h == "tuple":
        return len(pat[1]) == len(ty[1]) and all(unify(x, y, m) for x, y in zip(pat[1], ty[1]))
    return pat == ty


def strip_generics(n):
    out = []
    d = 0
    i = 0
    while i < len(n):
        c = n[i]
        if c == "<":
            d += 1
        elif c == ">" and not (i > 0 and n[i - 1] == "-"):
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    s = "".join(out)
    while "::::" in s:
        s = s.replace("::::", "::")
    return s.strip(":")


_fk = {}


def fkey(f):
    k = (f["name"], f.get("trait"), f.get("method"))
    r = _fk.get(k)
    if r is None:
        if f.get("trait") and f.get("method"):
            r = f["trait"].split("::")[-1].split("<")[0] + "::" + f["method"]
        else:
            n = f["name"]
            if "<impl " in n:
                i = n.index("<impl ")
                j = n.index(">", i)
                # balanced
                d = 0
                for q in range(i, len(n)):
                    if n[q] == "<":
                        d += 1
                    elif n[q] == ">":
                        d -= 1
                        if d == 0:
                            j = q
                            break
                ty = n[i + 6:j]
                r = ty.split("<")[0].split(" for ")[-1] + "::" + n[j + 1:].strip(":")
                r = strip_generics(r) if "<" in r else r
            else:
                s = strip_generics(n)
                r = "::".join(s.split("::")[-2:])
        _fk[k] = r
    return r


def simp_bool(c, F):
    """resolve sub-conditions already known"""
    if isinstance(c, bool):
        return c
    if c in F.set:
        return True
    if bnot(c) in F.set:
        return False
    if c.tag == "and":
        return band(*[simp_bool(x, F) for x in c.args[0]])
    if c.tag == "or":
        return bor(*[simp_bool(x, F) for x in c.args[0]])
    return c


UNBOUNDED = set()


def unbounded(p):
    """does an unbounded scalar input reach this quantity?"""
    if not isinstance(p, N) or p.tag != "poly":
        return False
    for m, c in p.args[0]:
        for a in m:
            if a in UNBOUNDED:
                return True
    return False
