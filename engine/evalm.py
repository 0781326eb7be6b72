"""Small-model evaluation of the abstract domain's terms.

A *valuation* gives every input symbol a concrete value of its type that satisfies the type's invariants;
terms are then plain arithmetic.  It is only used to look for a witness that an exit whose obligation could
not be established is really in violation; nothing of the analysed program is executed."""
import random
from terms import *
from values import *
import values as V
import layout as LY


def RECS():
    global _recs
    if _recs is None:
        import interp
        _recs = interp.REC
    return _recs


_recs = None


class GiveUp(Exception):
    pass


class Bad(Exception):
    """the valuation does not give this term a meaning (partial term); the sample is discarded"""


ALPHA = "1234567890ETx-.,+ *X&aéÉ\n/|x1234-.,"


class Rng(random.Random):
    pass


class Model:
    """one valuation"""

    def __init__(self, seed, size=4, hints=()):
        self.r = random.Random(seed)
        self.stage = self.r.choice([1, 2, 3, 3, 4, 4, 4, 5, 6][:5 + size])
        self.hints = ()
        if hints:
            u = self.r.random()
            if u < 0.3:
                self.stage = self.r.choice(hints)
            elif u < 0.5:
                self.hints = hints
        self.mix = self.r.random() < 0.25        # operands of different stages
        self.other = self.r.choice([x for x in (1, 2, 3, 4, 5) if x != self.stage])
        self.base = {}
        self.free = {}
        self.ntok = 0
        self.big = self.r.random() < 0.15
        self.points = ()        # numbers the facts compare with or narrow to
        self.words = ()         # string literals the facts mention

    # ------------------------------------------------------------ concrete values of a type
    def pick_stage(self):
        if self.mix and self.r.random() < 0.4:
            return self.other
        return self.stage

    def perm(self, n):
        p = list(range(n))
        u = self.r.random()
        if u < 0.68:
            self.r.shuffle(p)
        elif u < 0.76:
            p.reverse()
        elif u < 0.84 and n > 1:
            # a few bells out of their places
            i, j = self.r.sample(range(n), 2)
            p[i], p[j] = p[j], p[i]
        elif u < 0.88:
            k = self.r.randint(0, n)
            p = p[k:] + p[:k]
        return p

    def count(self, options):
        """how many items a collection has"""
        if self.hints and self.r.random() < 0.3:
            return self.r.choice(self.hints)
        return self.r.choice(options)

    def gen(self, ty, valid=True, depth=0):
        r = self.r
        if depth > 8:
            raise GiveUp("deep type")
        ty0 = ty
        ty = LY.unbox(ty)
        h = ty[0]
        if h == "ref" or h == "ptr":
            return self.gen(ty[2], valid, depth + 1)
        if valid:
            if LY.is_row_ty(ty):
                return self.perm(self.pick_stage())
            if LY.is_ty(ty, "Stage"):
                if self.big and r.random() < 0.4:
                    return r.choice((16, 17, 33, 34, 127, 128, 255, 256, 257, 65536))
                return self.pick_stage()
            if LY.is_ty(ty, "Bell"):
                if self.points and r.random() < 0.25:
                    return max(0, r.choice(self.points) + r.choice((-2, -1, -1, 0, 0, 1)))
                if self.big and r.random() < 0.4:
                    return r.choice((126, 127, 128, 254, 255, 256, 65535))
                return r.randint(0, self.stage + 1) if r.random() < 0.9 else r.choice([30, 33, 40])
            if LY.is_ty(ty, "SameStageVec") or LY.is_ty(ty, "Iter"):
                st = self.pick_stage()
                return self.ssv(ty, st, self.count([0, 1, 1, 2, 2, 3, 4]))
            if LY.is_ty(ty, "AnnotBlock"):
                return self.block(ty, self.pick_stage(), depth)
            if LY.is_ty(ty, "PlaceNot"):
                return self.pn(ty, self.pick_stage())
            if LY.is_ty(ty, "PnBlock"):
                st = self.pick_stage()
                et = elem_ty(ty)
                return [self.pn(et, st) for _ in range(self.count([1, 2, 3]))]
            if LY.is_ty(ty, "Mask"):
                st = self.pick_stage()
                out = []
                p = self.perm(st)
                dense = r.choice((0.6, 0.6, 0.6, 0.1, 0.0, 1.0))
                for k in range(st):
                    out.append((1, [p[k]]) if r.random() < dense else (0, []))
                if r.random() < 0.1 and st > 1:
                    out[0] = (1, [r.randint(0, st)])
                return out
            if LY.is_ty(ty, "Regex"):
                et = elem_ty(ty)
                kinds = regex_kinds(et)
                out = []
                for _ in range(r.randint(0, 3)):
                    for _ in range(r.randint(0, 2)):
                        out.append((kinds["any"], []))
                    if r.random() < 0.5:
                        out.append((kinds["glob"], []))
                    out.append((kinds["bell"], [r.randint(0, 4)]))
                if r.random() < 0.4:
                    out.append((kinds["any"], []))
                if r.random() < 0.5:
                    out.append((kinds["glob"], []))
                return out
            if LY.is_ty(ty, "RowAccumulator"):
                f = adt_fields(ty)
                st = self.pick_stage()
                if erased(ty):
                    return self.perm(st)
                return [self.perm(st) if LY.is_row_ty(t) else self.gen(t, valid, depth + 1) for n, t in f]
            if LY.is_ty(ty, "RepeatIter"):
                raise GiveUp("iterator state")
        if h == "prim":
            k = ty[1]
            if k in INTS:
                if self.big and r.random() < 0.4:
                    if k not in ("u8", "i8") and r.random() < 0.5:
                        # one more than a narrower width can hold
                        return r.choice([w for w in (256, 1 << 16, 1 << 32) if w < (1 << 64 if k in ("usize", "u64", "isize", "i64") else 1 << 32 if k in ("u32", "i32") else 1 << 15)]) + r.choice((0, 1, self.stage))
                    return {"u8": 255, "u16": 65535}.get(k, (1 << 64) - 1 - r.randint(0, 1) if k in UNSIGNED and k != "u32" else 2 ** 31 - 1)
                if self.points and r.random() < 0.25:
                    x = r.choice(self.points) + r.choice((-1, 0, 0, 1))
                    lo, hi = RANGE.get(k, (0, 1 << 63))
                    if lo <= x < hi:
                        return x
                if self.hints and r.random() < 0.3 and k not in ("u8", "i8"):
                    return r.choice(self.hints)
                if k in UNSIGNED:
                    return r.choice([0, 1, 2, 3, 4, 5, 6, self.stage, self.stage - 1, r.randint(0, 9)])
                return r.choice([0, 1, 2, -1, -2, 3, 5])
            if k == "bool":
                return r.random() < 0.5
            if k == "char":
                return ord(r.choice(ALPHA))
            if k == "str":
                return self.text()
            raise GiveUp("type " + k)
        if h == "param" or h == "alias" or h == "opaque":
            it = PARAMS.get(("item", ty))
            if it is not None and depth < 4:
                return [self.gen(it, valid, depth + 1) for _ in range(self.count([0, 1, 2, 2, 3]))]
            self.ntok += 1
            return ("tok", r.randint(0, 3))
        if h == "adt" and ty[1] == "std::string::String":
            return self.text()
        e = strip(ty)
        if e is not ty and e != ty:
            return self.gen(e, valid, depth + 1)
        et = elem_ty(ty)
        if et is not None:
            if h == "array" and isinstance(ty[2], int):
                n = ty[2]
            else:
                n = self.count([0, 1, 2, 3, self.stage, self.stage])
            return [self.gen(et, valid, depth + 1) for _ in range(n)]
        if h == "tuple":
            return [self.gen(t, valid, depth + 1) for t in ty[1]]
        f = adt_fields(ty)
        if f is not None:
            return [self.gen(t, valid, depth + 1) for n, t in f]
        if h == "adt" and ty[1] in ("std::ops::Range",):
            return [self.gen(ty[2][0]), self.gen(ty[2][0])]
        vs = variants(ty)
        if vs:
            ks = list(range(len(vs)))
            k = r.choice(ks)
            return (k, [self.gen(t, valid, depth + 1) for t in vs[k]])
        raise GiveUp("type %s" % (ty,))

    def text(self):
        r = self.r
        if self.words and r.random() < 0.6:
            out = []
            for _ in range(r.randint(1, 3)):
                w = r.choice(self.words) if r.random() < 0.6 else "".join(r.choice(ALPHA) for _ in range(r.randint(0, 3)))
                out.append(r.choice((w, w, w.upper(), w.capitalize())))
            return r.choice((" ", " ", ",", "")).join(out)
        if r.random() < 0.5:
            n = self.stage
            p = [str(x + 1) for x in self.perm(n)]
            s = "".join(p)
            if r.random() < 0.4:
                k = r.randint(0, len(s))
                s = s[:k] + r.choice(ALPHA) + s[k:]
            if r.random() < 0.3:
                s = s + "," + s[::-1][:3]
            return s
        return "".join(r.choice(ALPHA) for _ in range(r.randint(0, 6)))

    def ssv(self, ty, st, n):
        b, s = LY.ssv_fields(ty)
        out = [None] * len(adt_fields(ty))
        out[b] = [x for _ in range(n) for x in self.perm(st)]
        out[s] = st
        return out

    def block(self, ty, st, depth):
        fs = adt_fields(ty)
        rf, af = LY.block_fields(ty)
        n = self.count([0, 1, 1, 2, 2, 3])
        out = [None] * len(fs)
        for k, (nm, t) in enumerate(fs):
            if k == rf:
                out[k] = self.ssv(t, st, n + 1)
            elif k == af:
                e = elem_ty(t)
                out[k] = [self.gen(e, True, depth + 1) for _ in range(n)]
            else:
                out[k] = self.gen(t, True, depth + 1)
        return out

    def pn(self, ty, st):
        fs = adt_fields(ty)
        si = LY.fidx(ty, lambda q: LY.is_ty(q, "Stage"))
        pi = [k for k in range(len(fs)) if k != si][0]
        places = []
        k = 0
        while k < st:
            if self.r.random() < 0.4 or k + 1 == st:
                places.append(k)
                k += 1
            else:
                k += 2
        out = [None] * len(fs)
        out[si], out[pi] = st, places
        return out


def regex_kinds(et):
    a = V.PROG[0].adts[et[1]]
    out = {}
    for k, v in enumerate(a["variants"]):
        nm = v["name"].lower()
        out["bell" if v["fields"] else nm] = k
    return out


BIN = None
STRFN = {w + k: f for w in ("std::str::", "core::str::", "alloc::str::") for k, f in dict(
    starts_with=lambda s, p: s.startswith(p), ends_with=lambda s, p: s.endswith(p), contains=lambda s, p: p in s,
    eq_ignore_ascii_case=lambda s, p: s.lower() == p.lower() if s.isascii() and p.isascii() else None,
    to_ascii_lowercase=lambda s: "".join(c.lower() if c.isascii() else c for c in s), to_ascii_uppercase=lambda s: "".join(c.upper() if c.isascii() else c for c in s),
    trim=lambda s: s.strip(" \t\n\r"), trim_start=lambda s: s.lstrip(" \t\n\r"), trim_end=lambda s: s.rstrip(" \t\n\r"),
    replace=lambda s, a, b: s.replace(a, b)).items()}


class Ev:
    def __init__(self, model, discr=None):
        self.m = model
        self.memo = {}
        self.rec = {}
        self.steps = 0
        self.discr = discr or (lambda ty, k: k)

    # ------------------------------------------------------------ helpers
    def free(self, n, key, ty):
        k = (key, repr(ty))
        if k not in self.m.free:
            self.m.free[k] = self.m.gen(ty)
        return self.m.free[k]

    def ev(self, n, env=None):
        if isinstance(n, bool):
            return n
        if env is None:
            env = {}
        closed = not env or n.hgt == 0 and not n_has_bv(n)
        if closed and n in self.memo:
            return self.memo[n]
        self.steps += 1
        if self.steps > 200000:
            raise GiveUp("evaluation budget")
        v = self._ev(n, env)
        if closed:
            self.memo[n] = v
        return v

    def lamapp(self, l, k, env):
        b = l.args[0]
        if not isinstance(b, N):
            return b
        e = dict(env)
        e[l.hgt] = k
        return self.ev(b, e)

    def iterate(self, S, k):
        """value of a function defined by recurrence"""
        if not isinstance(k, int) or k < 0:
            raise Bad("iteration")
        if k > 600:
            raise GiveUp("many iterations")
        init, step, ty = RECS()[S]
        vs = self.rec.get(S)
        if vs is None:
            vs = self.rec[S] = [self.ev(init)]
        while len(vs) <= k:
            j = len(vs) - 1
            v = self.lamapp(step, j, {}) if isinstance(step, N) else step
            if len(vs) == j + 1:
                vs.append(v)
        return vs[k]

    def cnt(self, p, env):
        n = self.ev(p, env)
        if not isinstance(n, int) or n > 5000:
            raise GiveUp("large sequence")
        if n < 0:
            raise Bad("negative length")
        return n

    def _ev(self, n, env):
        t, a = n.tag, n.args
        ev = self.ev
        if t == "poly":
            r = 0
            for m, c in a[0]:
                p = c
                for x in m:
                    v = ev(x, env)
                    if isinstance(v, bool):
                        v = int(v)
                    if not isinstance(v, int):
                        raise GiveUp("non-integer atom")
                    p *= v
                r += p
            return r
        if t == "bv":
            if a[0] not in env:
                raise GiveUp("unbound variable")
            return env[a[0]]
        if t == "sym":
            if a[1] == "havoc":
                raise GiveUp("approximated symbol")
            if n not in self.m.base:
                self.m.base[n] = self.m.gen(a[3], a[2])
            return self.m.base[n]
        if t == "ge":
            return ev(a[0], env) >= 0
        if t == "eq":
            return ev(a[0], env) == 0
        if t == "not":
            return not ev(a[0], env)
        if t == "and":
            g = None
            for x in a[0]:
                try:
                    if not ev(x, env):
                        return False
                except (Bad, GiveUp) as e:
                    g = e
            if g:
                raise g
            return True
        if t == "or":
            g = None
            for x in a[0]:
                try:
                    if ev(x, env):
                        return True
                except (Bad, GiveUp) as e:
                    g = e
            if g:
                raise g
            return False
        if t == "b":
            v = ev(a[0], env)
            if not isinstance(v, bool):
                raise GiveUp("non-boolean")
            return v
        if t in ("forall", "exists"):
            k = self.cnt(a[0], env)
            want = t == "exists"
            for i in range(k):
                if bool(self.lamapp(a[1], i, env)) == want:
                    return want
            return not want
        if t == "ite":
            return ev(a[1], env) if ev(a[0], env) else ev(a[2], env)
        if t == "trace":
            return ev(a[0], env)
        if t == "at" and a[0] in RECS():
            return self.iterate(a[0], ev(a[1], env))
        if t == "at":
            s = ev(a[0], env)
            i = ev(a[1], env)
            if not isinstance(s, list):
                raise GiveUp("index of non-sequence")
            if not 0 <= i < len(s):
                raise Bad("index")
            return s[i]
        if t == "pos":
            s = ev(a[0], env)
            b = ev(a[1], env)
            if b in s:
                return s.index(b)
            return b
        if t == "len":
            s = ev(a[0], env)
            if isinstance(s, str):
                raise GiveUp("str len")
            if not isinstance(s, list):
                raise GiveUp("length")
            return len(s)
        if t == "fld":
            if a[1] == "*":
                return ev(a[0], env)
            v = ev(a[0], env)
            if not isinstance(v, list):
                raise GiveUp("field")
            ty = TY.get(a[0])
            if ty is not None:
                e = erased(strip_box(ty))
                if e and e[0] == a[1]:
                    return v
            return v[a[1]]
        if t == "pl":
            v = ev(a[0], env)
            if not (isinstance(v, tuple) and len(v) == 2):
                raise GiveUp("payload")
            if v[0] != a[1]:
                raise Bad("payload")
            return v[1][a[2]]
        if t == "isv":
            v = ev(a[0], env)
            if not (isinstance(v, tuple) and len(v) == 2) or v[0] == "tok":
                raise GiveUp("variant")
            return v[0] == a[1]
        if t == "discr":
            v = ev(a[0], env)
            if not isinstance(v, tuple) or v[0] == "tok":
                raise GiveUp("discriminant")
            return self.discr(TY.get(a[0]), v[0])
        if t == "nrows":
            v = ev(a[0], env)
            b, s = LY.ssv_fields(LY.unbox(TY[a[0]]))
            return len(v[b]) // v[s]
        if t == "div":
            p, d = ev(a[0], env), ev(a[1], env)
            if d == 0:
                raise Bad("div")
            return p // d
        if t == "mod":
            p, d = ev(a[0], env), ev(a[1], env)
            if d == 0:
                raise Bad("mod")
            return p % d
        if t == "min":
            return min(ev(a[0], env), ev(a[1], env))
        if t == "max":
            return max(ev(a[0], env), ev(a[1], env))
        if t == "find":
            k = self.cnt(a[0], env)
            for i in range(k):
                if self.lamapp(a[1], i, env):
                    return i
            return k
        if t == "sum":
            return sum(self.lamapp(a[1], i, env) for i in range(self.cnt(a[0], env)))
        if t == "maxov":
            r = ev(a[1], env)
            for i in range(self.cnt(a[0], env)):
                r = max(r, self.lamapp(a[2], i, env))
            return r
        if t == "ext":
            xs = [self.lamapp(a[2], i, env) for i in range(self.cnt(a[1], env))]
            if not xs:
                raise Bad("extremum")
            return max(xs) if a[0] == "max" else min(xs)
        if t == "catlen":
            return sum(len(self.lamapp(a[1], i, env)) for i in range(self.cnt(a[0], env)))
        if t == "seq":
            out = []
            for p in a[0]:
                k = self.cnt(p.args[0], env)
                for i in range(k):
                    x = self.lamapp(p.args[1], i, env)
                    if p.tag == "comp":
                        out.append(x)
                    else:
                        if not isinstance(x, list):
                            raise GiveUp("part")
                        out.extend(x)
            return out
        if t == "agg":
            k = a[0]
            if k == "HSet":
                return [ev(x, env) for x in a[1]]
            return [ev(x, env) for x in a[1]]
        if t == "en":
            return (a[1], [ev(x, env) for x in a[2]])
        if t == "symv":
            return ev(a[0], env)
        if t == "ref":
            return ev(a[0], env)
        if t == "veq":
            x, y = ev(a[0], env), ev(a[1], env)
            return x == y
        if t == "strlit":
            return a[0]
        if t == "slen":
            v = ev(a[0], env)
            if not isinstance(v, str):
                raise GiveUp("string")
            return len(v.encode())
        if t == "coff":
            v = ev(a[0], env)
            k = ev(a[1], env)
            if not isinstance(v, str) or not 0 <= k <= len(v):
                raise Bad("char offset")
            return len(v[:k].encode())
        if t == "it":
            if a[0] == "seq":
                return ev(a[1], env)
            raise GiveUp("iterator " + str(a[0]))
        if t == "uf":
            return self.uf(n, env)
        if t == "sv":
            # an index the exit is taken for (the facts say which): any value satisfying them is possible
            if a[0] == "adv":
                raise GiveUp("approximated variable")
            if n not in self.m.free:
                self.m.free[n] = self.m.r.choice((0, 0, 1, 1, 2, 2, 3, 4, self.m.stage - 1))
            return self.m.free[n]
        raise GiveUp("term " + t)

    def uf(self, n, env):
        a = n.args
        k = a[0]
        ty = TY.get(n)
        args = []
        if k == "named":
            return self.ev(a[2], env)
        if k == "overflow":
            v = self.ev(a[2], env)
            return not 0 <= v < 1 << 64
        if k.startswith("wrap:"):
            return wrap(self.ev(a[2], env), k[5:])
        if k.startswith("cast:"):
            return wrap(self.ev(a[2], env), k.split(":")[2])
        if k == "row":
            o = LY.bells_owner(a[2])
            if o is None:
                raise GiveUp("row of an unknown collection")
            B, q, st = self.ev(a[2], env), self.ev(a[3], env), self.ev(o[1], env)
            if not isinstance(B, list):
                raise GiveUp("row of " + str(type(B)))
            if not 0 <= q * st < (q + 1) * st <= len(B):
                raise Bad("row")
            return B[q * st:(q + 1) * st]
        if k in ("bin:BitAnd", "bin:BitOr", "bin:BitXor"):
            x, y = self.ev(a[2], env), self.ev(a[3], env)
            return x & y if k == "bin:BitAnd" else x | y if k == "bin:BitOr" else x ^ y
        if k in ("chars", "bytes"):
            s = self.ev(a[2], env)
            if not isinstance(s, str):
                raise GiveUp("chars")
            return [ord(c) for c in s] if k == "chars" else list(s.encode())
        if k == "pieces":
            s = self.ev(a[3], env)
            if not isinstance(s, str):
                raise GiveUp("pieces")
            w = a[2].args[0]
            if w == "lines":
                return [x[:-1] if x.endswith("\r") else x for x in (s[:-1] if s.endswith("\n") else s).split("\n")] if s else []
            if w in ("split_whitespace", "split_ascii_whitespace"):
                return s.split()
            if w in ("split", "rsplit"):
                p = self.ev(a[4], env)
                if isinstance(p, int):
                    p = chr(p)
                if not isinstance(p, str) or not p:
                    raise GiveUp("pattern")
                return s.split(p) if w == "split" else s.split(p)[::-1]
            raise GiveUp("pieces")
        if k in ("std::str::to_lowercase", "std::str::to_uppercase", "core::str::to_lowercase"):
            s = self.ev(a[2], env)
            if not isinstance(s, str):
                raise GiveUp("case")
            return s.lower() if k.endswith("lowercase") else s.upper()
        if k in ("format:char", "format:int"):
            x = self.ev(a[2], env)
            if isinstance(x, bool) or not isinstance(x, int):
                raise GiveUp("format")
            return str(x) if k == "format:int" else chr(x)
        if k in STRFN:
            xs = [self.ev(x, env) for x in a[2:]]
            if not xs or not isinstance(xs[0], str):
                raise GiveUp("string function")
            if len(xs) > 1 and isinstance(xs[1], int) and not isinstance(xs[1], bool):
                xs[1] = chr(xs[1])
            if not all(isinstance(x, str) for x in xs):
                raise GiveUp("string pattern")
            r = STRFN[k](*xs)
            if r is None:
                raise GiveUp("string function")
            return r
        if k == "cmp":
            x, y = self.ev(a[2], env), self.ev(a[3], env)
            if type(x) != type(y):
                raise GiveUp("cmp")
            return (0 if x < y else 1 if x == y else 2, [])
        if k.startswith("sorted:"):
            s = self.ev(a[2], env)
            if not all(isinstance(x, int) for x in s):
                raise GiveUp("sort")
            return sorted(s)
        if k == "call" or k == "as_ref" or k.startswith("bound:"):
            if ty is None:
                # a substituted application: the type its function was always applied at
                c = V.UFTY.get(V.uf_key(n), ())
                if len(c) != 1:
                    raise GiveUp("untyped call")
                ty, = c
            for x in a[2:]:
                args.append(key_of(self.ev(x, env)) if isinstance(x, N) else repr(x))
            return self.free(n, (k,) + tuple(args), ty)
        raise GiveUp("function " + k)


def wrap(v, ty):
    bits = {"usize": 64, "isize": 64, "char": 32}.get(ty) or int(ty[1:])
    v &= (1 << bits) - 1
    if ty[0] == "i" and v >= 1 << (bits - 1):
        v -= 1 << bits
    return v


def strip_box(ty):
    return LY.unbox(ty) if ty is not None else ty


def key_of(v):
    return repr(v)


_hb = {}


def n_has_bv(n):
    r = _hb.get(n)
    if r is None:
        if n.tag == "bv":
            r = True
        else:
            r = any(n_has_bv(x) for x in _kids2(n.args))
        _hb[n] = r
    return r


def _kids2(args):
    for a in args:
        if isinstance(a, N):
            yield a
        elif isinstance(a, tuple):
            yield from _kids2(a)


# ---------------------------------------------------------------- concrete invariants
def bad_inv(v, ty, path="value", depth=0, keys=None):
    """None if the concrete value satisfies the invariants of its type, else a description"""
    if depth > 10:
        return None
    ty = LY.unbox(ty)
    h = ty[0]
    if h in ("ref", "ptr"):
        return bad_inv(v, ty[2], path, depth + 1, keys)
    if h in ("prim", "param", "alias", "opaque", "never"):
        return None
    K = lambda *ks: any(LY.is_ty(ty, k) for k in ks) and (keys is None or any(k in keys for k in ks))
    if K("Row", "RowBuf"):
        if not v:
            return "%s: an empty row" % path
        if sorted(v) != list(range(len(v))):
            return "%s: %s is not a permutation" % (path, v)
        return None
    if K("Stage"):
        return None if v >= 1 else "%s: stage %s" % (path, v)
    if K("SameStageVec", "Iter"):
        b, s = LY.ssv_fields(ty)
        st, bells = v[s], v[b]
        if st < 1:
            return "%s: stage %s" % (path, st)
        if len(bells) % st:
            return "%s: %d bells do not form rows of stage %d" % (path, len(bells), st)
        for k in range(0, len(bells), st):
            if sorted(bells[k:k + st]) != list(range(st)):
                return "%s: row %d = %s is not a row of stage %d" % (path, k // st, bells[k:k + st], st)
        return None
    if LY.is_ty(ty, "AnnotBlock"):
        fs = adt_fields(ty)
        rf, af = LY.block_fields(ty)
        r = bad_inv(v[rf], fs[rf][1], path + "." + fs[rf][0], depth + 1, keys)
        if r:
            return r
        b, s = LY.ssv_fields(fs[rf][1])
        n = len(v[rf][b]) // v[rf][s]
        if n != len(v[af]) + 1 and (keys is None or "AnnotBlock" in keys):
            return "%s: %d rows for %d annotations" % (path, n, len(v[af]))
        return bad_inv(v[af], fs[af][1], path + "." + fs[af][0], depth + 1, keys)
    if K("PlaceNot"):
        fs = adt_fields(ty)
        si = LY.fidx(ty, lambda q: LY.is_ty(q, "Stage"))
        pi = [k for k in range(len(fs)) if k != si][0]
        st, pl = v[si], v[pi]
        if st < 1:
            return "%s: stage %s" % (path, st)
        prev = -1
        for p in list(pl) + [st]:
            if p <= prev or p > st:
                return "%s: places %s are not increasing below stage %d" % (path, pl, st)
            if (p - prev - 1) % 2:
                return "%s: places %s leave an odd gap on stage %d" % (path, pl, st)
            prev = p
        return None
    if K("PnBlock"):
        if not v:
            return "%s: an empty place-notation block" % path
        et = elem_ty(ty)
        si = LY.fidx(et, lambda q: LY.is_ty(q, "Stage"))
        for k, x in enumerate(v):
            r = bad_inv(x, et, "%s[%d]" % (path, k), depth + 1, keys)
            if r:
                return r
            if x[si] != v[0][si]:
                return "%s: notations of stages %d and %d" % (path, v[0][si], x[si])
        return None
    if K("Regex"):
        ks = regex_kinds(elem_ty(ty))
        seen = False
        for x in v:
            if x[0] == ks["bell"]:
                seen = False
            elif seen:
                return "%s: a wildcard after a glob" % path
            elif x[0] == ks["glob"]:
                seen = True
        return None
    if K("RowAccumulator") and not erased(ty):
        rows = [v[k] for k, (n, t) in enumerate(adt_fields(ty)) if LY.is_row_ty(t)]
        for x in rows:
            r = bad_inv(x, ("adt", LY.NAMES["RowBuf"], ()), path, depth + 1, keys)
            if r:
                return r
        return None
    s = strip(ty)
    if s != ty:
        return bad_inv(v, s, path, depth + 1, keys)
    et = elem_ty(ty)
    if et is not None:
        if isinstance(v, list):
            for k, x in enumerate(v):
                r = bad_inv(x, et, "%s[%d]" % (path, k), depth + 1, keys)
                if r:
                    return r
        return None
    if h == "tuple" and isinstance(v, list):
        for k, t in enumerate(ty[1]):
            r = bad_inv(v[k], t, "%s.%d" % (path, k), depth + 1, keys)
            if r:
                return r
        return None
    f = adt_fields(ty)
    if f is not None:
        if isinstance(v, list) and len(v) == len(f):
            for k, (n, t) in enumerate(f):
                r = bad_inv(v[k], t, "%s.%s" % (path, n), depth + 1, keys)
                if r:
                    return r
        return None
    vs = variants(ty)
    if vs and isinstance(v, tuple) and v[0] != "tok":
        for j, t in enumerate(vs[v[0]]):
            r = bad_inv(v[1][j], t, "%s.%d" % (path, j), depth + 1, keys)
            if r:
                return r
    return None


PARAMS = {}


# ---------------------------------------------------------------- search
def find_witness(facts, goal, seed=1, tries=1500, discr=None, budget=8.0, want=None, about=()):
    """a valuation satisfying all facts on which goal(ev) returns a description of a violation.
    returns (description, inputs) / None; raises GiveUp if the facts cannot be evaluated at all"""
    import time
    t0 = time.process_time()
    ok = 0
    last = None
    # cheap facts first
    fs = sorted([f for f in facts if isinstance(f, N)], key=lambda f: (cost(f), f.id))
    words = tuple(sorted(literals(fs)))
    hints = thresholds(fs + [x for x in about if isinstance(x, N)])
    pts = points(fs + [x for x in about if isinstance(x, N)])
    pos = tuple(sorted(literals([f for f in fs if f.tag == "veq"])))
    for k in range(tries):
        if time.process_time() - t0 > budget:
            break
        m = Model(seed * 100003 + k, size=1 + min(3, k // 200), hints=hints)
        m.points = pts if k % 2 else ()
        m.words = pos if pos and k % 2 else words
        for attempt in range(6):
            e = Ev(m, discr)
            good = True
            try:
                for f in fs:
                    if not e.ev(f):
                        good = False
                        break
            except GiveUp as g:
                last = g
                good = False
                if k > 60 and ok == 0:
                    raise
            except (Bad, IndexError, TypeError):
                good = False
            if good or not m.free:
                break
            m.free = {}
        if not good:
            continue
        ok += 1
        try:
            d = goal(e)
        except GiveUp as g:
            last = g
            if ok > 20:
                raise
            continue
        except (Bad, IndexError):
            continue
        if d:
            return d, {s.args[0]: v for s, v in m.base.items() if isinstance(s.args[0], str)}, ok
    return None, None, ok


RANGE = {"%s%d" % (c, w): (0, 1 << w) if c == "u" else (-(1 << w - 1), 1 << w - 1) for c in "ui" for w in (8, 16, 32, 64, 128)}
RANGE["usize"], RANGE["isize"] = RANGE["u64"], RANGE["i64"]


def points(fs):
    """numbers beyond small sizes that the facts compare with, and where the conversions in them lose something"""
    out, seen, q = set(), set(), list(fs)
    while q:
        x = q.pop()
        if isinstance(x, tuple):
            q += list(x)
        elif isinstance(x, N) and x not in seen:
            seen.add(x)
            if x.tag == "poly":
                out |= {abs(c) for mono, c in x.args[0] if not mono and isinstance(c, int) and 40 < abs(c) < 1 << 64}
            elif x.tag == "uf" and x.args[0].startswith("cast:"):
                out |= {h for h in RANGE.get(x.args[0].split(":")[2], ()) if h > 0}
            elif x.tag == "uf" and x.args[0] in ("wrap:usize", "wrap:u64"):
                # multiples that come round to small numbers
                out |= {1 << 63, 1 << 62}
            q += list(x.args)
    return tuple(sorted(out)[:6])


def thresholds(fs):
    """sizes near the constants the facts compare with: behaviour may change there"""
    out, seen, q = set(), set(), list(fs)
    while q:
        x = q.pop()
        if isinstance(x, tuple):
            q += list(x)
        elif isinstance(x, N) and x not in seen:
            seen.add(x)
            if x.tag == "poly":
                out |= {abs(c) for mono, c in x.args[0] if not mono and isinstance(c, int) and 6 < abs(c) <= 40}
            q += list(x.args)
    return tuple(sorted({y for c in out for y in (c, c + 1) }))[:12]


def literals(fs):
    """string literals compared with in the facts (seeds for the strings tried)"""
    out, seen, q = set(), set(), list(fs)
    while q:
        x = q.pop()
        if isinstance(x, tuple):
            q += list(x)
        elif isinstance(x, N) and x not in seen:
            seen.add(x)
            if x.tag == "veq":
                for y in x.args:
                    if isinstance(y, N):
                        z = y.args[0] if y.tag in ("ref", "symv") and isinstance(y.args[0], N) else y
                        if z.tag == "strlit" and isinstance(z.args[0], str):
                            out.add(z.args[0])
            q += list(x.args)
    return out


_cost = {}


def cost(f):
    r = _cost.get(f)
    if r is None:
        r = 1 + sum(cost(x) for x in _kids2(f.args))
        r = min(r, 10 ** 6) * (3 if f.tag in ("forall", "exists") else 1)
        _cost[f] = r
    return r
