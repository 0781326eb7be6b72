"""Typed symbolic values: how a term of a given Rust type is viewed, and sequence operations."""
from terms import *
import terms as T

# type of an opaque term, and whether the invariants of its type may be assumed
TY = {}
INTS = {"usize", "u8", "u16", "u32", "u64", "u128", "isize", "i8", "i16", "i32", "i64", "i128"}
UNSIGNED = {"usize", "u8", "u16", "u32", "u64", "u128"}
USIZE = ("prim", "usize")

PROG = [None]           # the program (types of fields)


def set_prog(p):
    PROG[0] = p
    _sf.clear()


def sym(name, ty, valid=True, kind="in"):
    n = mk("sym", name, kind, valid, ty)
    TY[n] = ty
    return n


def root_sym(t):
    while t.tag not in ("sym", "uf"):
        t = t.args[0]
        if not isinstance(t, N):
            return None
    return t


def is_valid(t):
    """may the invariants of t's type be assumed?"""
    r = t
    while True:
        if r.tag == "sym":
            return r.args[2]
        if r.tag in ("at", "fld", "pl"):
            r = r.args[0]
            continue
        if r.tag == "uf":
            return bool(r.args[1])
        return False


def typed(n, ty):
    if n not in TY:
        TY[n] = ty
        if n.tag == "uf":
            UFTY.setdefault(uf_key(n), set()).add(ty)
    return n


UFTY = {}


def uf_key(n):
    """the function an opaque application applies"""
    a = n.args
    return (a[0], a[2]) if a[0] == "call" and len(a) > 2 else a[0]


def uf_rebuild(*args):
    n = mk("uf", *args)
    if n not in TY:
        c = UFTY.get(uf_key(n), ())
        if len(c) == 1:
            TY[n] = next(iter(c))
    return n


REBUILD["uf"] = uf_rebuild


# ---------------------------------------------------------------- types
_sf = {}


def adt_fields(ty):
    """[(name, type)] of a struct type with its generics substituted; None for others"""
    if ty in _sf:
        return _sf[ty]
    r = None
    if ty[0] == "adt":
        a = PROG[0].adts.get(ty[1])
        if a and a["kind"] == "struct" and a["local"]:
            m = gen_map(a, ty)
            r = [(f["name"], subst_ty(PROG[0].ty(f["ty"]), m)) for f in a["variants"][0]["fields"]]
    _sf[ty] = r
    return r


def gen_map(a, ty):
    gens = a.get("generics") or []
    return {g: t for g, t in zip(gens, ty[2])}


def subst_ty(t, m):
    if not m:
        return t
    h = t[0]
    if h == "param":
        return m.get(t[1], t)
    if h == "adt":
        return ("adt", t[1], tuple(subst_ty(x, m) for x in t[2]))
    if h in ("ref", "ptr"):
        return (h, t[1], subst_ty(t[2], m))
    if h == "slice":
        return (h, subst_ty(t[1], m))
    if h == "array":
        return (h, subst_ty(t[1], m), t[2])
    if h == "tuple":
        return (h, tuple(subst_ty(x, m) for x in t[1]))
    if h == "fndef":
        return (h, t[1], t[2], tuple(subst_ty(x, m) for x in t[3]))
    if h == "closure":
        return (h, t[1], tuple(subst_ty(x, m) for x in t[2]), tuple(subst_ty(x, m) for x in t[3]))
    if h == "alias" and m:
        return m.get(t[1], t)
    return t


def is_zst(ty):
    return ty[0] == "tuple" and not ty[1] or (ty[0] == "adt" and ty[1].endswith("PhantomData"))


def erased(ty):
    """single-field local structs are represented by their field: returns (index, field type) or None"""
    f = adt_fields(ty)
    if not f:
        return None
    nz = [(k, t) for k, (n, t) in enumerate(f) if not is_zst(t)]
    if len(nz) == 1:
        return nz[0]
    return None


def strip(ty):
    """see through erased structs and boxes"""
    while True:
        e = erased(ty)
        if e:
            ty = e[1]
            continue
        if ty[0] == "adt" and ty[1] in ("std::boxed::Box", "std::rc::Rc", "std::sync::Arc"):
            ty = ty[2][0]
            continue
        return ty


def elem_ty(ty):
    """element type of a sequence-like type or None"""
    ty = strip(ty)
    if ty[0] == "slice" or ty[0] == "array":
        return ty[1]
    if ty[0] == "adt" and ty[1] in ("std::vec::Vec", "std::collections::VecDeque"):
        return ty[2][0]
    return None


def is_seq_ty(ty):
    return elem_ty(ty) is not None


def is_int_ty(ty):
    ty = strip(ty)
    return ty[0] == "prim" and (ty[1] in INTS or ty[1] == "char")


def int_name(ty):
    ty = strip(ty)
    return ty[1] if ty[0] == "prim" else None


def variants(ty):
    """variants of an enum type: list of field-type lists, or None"""
    if ty[0] != "adt":
        return None
    n = ty[1]
    if n == OPT:
        return [[], [ty[2][0]]]
    if n == RES:
        return [[ty[2][0]], [ty[2][1]]]
    if n == CF:
        return [[ty[2][1]], [ty[2][0]]]
    if n == ORD:
        return [[], [], []]
    if n in ("std::ops::Bound",):
        return [[ty[2][0]], [ty[2][0]], []]
    a = PROG[0].adts.get(n)
    if a and a["kind"] == "enum":
        m = gen_map(a, ty)
        return [[subst_ty(PROG[0].ty(f["ty"]), m) for f in v["fields"]] for v in a["variants"]]
    return None


# ---------------------------------------------------------------- invariants of the crate's types, as used for inputs
class Inv:
    """names of the types the invariants are about; filled by layout.py from the program"""
    pass


LEN_HOOK = [None]


def tlen(t):
    """length (poly) of the sequence denoted by the opaque term t"""
    h = LEN_HOOK[0]
    if h:
        r = h(t)
        if r is not None:
            return r
    return atom(typed(mk("len", t), USIZE))


PERM_HOOK = [None]       # is the opaque term a permutation of 0..len?


def is_perm(t):
    h = PERM_HOOK[0]
    return h is not None and isinstance(t, N) and h(t)


def t_pos(t, b):
    """the position of b in the permutation t (poly); permutations are read as the identity beyond their length"""
    a = as_atom(b)
    if a is not None and a.tag == "at" and a.args[0] is t:
        return a.args[1]
    if t.tag in ("seq", "ite"):
        k = fresh()
        x = seq_at(t, atom(k)) if t.tag == "seq" else None
        if x is not None and x is atom(k):
            return b
    return atom(typed(mk("pos", t, b), USIZE))


REBUILD["pos"] = lambda t, b: t_pos(t, b)


def t_at(t, i):
    a = as_atom(i)
    if a is not None and a.tag == "pos" and a.args[0] is t:
        return a.args[1]
    ty = TY.get(t)
    n = mk("at", t, i)
    if ty is not None:
        e = elem_ty(ty)
        if e is not None:
            typed(n, e)
    return n


FLD_HOOK = [None]


def t_fld(t, k, fty):
    h = FLD_HOOK[0]
    if h:
        r = h(t, k, fty)
        if r is not None:
            return r
    n = mk("fld", t, k)
    typed(n, fty)
    return n


def mk_value(t, ty):
    """the value denoted by the opaque term t of type ty"""
    typed(t, ty)
    s = strip(ty)
    if s[0] == "prim":
        if s[1] in INTS or s[1] == "char":
            return atom(t)
        if s[1] == "bool":
            return batom(t)
        return symv(t, s)
    e = elem_ty(s)
    if e is not None:
        if TY.get(t) != ty:
            pass
        n = tlen(t)
        k = fresh()
        return seq((comp(n, lam(k, mk_value(typed(mk("at", t, atom(k)), e), e))),)) if not (cval(n) == 0) else EMPTYSEQ
    if s[0] == "tuple":
        return agg("tuple", [mk_value(t_fld(t, k, ft), ft) for k, ft in enumerate(s[1])])
    if s[0] == "ref":
        if s[1]:
            return symv(t, s)
        return ref(mk_value(typed(mk("fld", t, "*"), s[2]), s[2]))
    f = adt_fields(s)
    if f is not None:
        return agg(s[1], [mk_value(t_fld(t, k, ft), ft) for k, (_, ft) in enumerate(f)])
    if s[0] == "adt" and s[1] == "std::ops::Range":
        return agg(s[1], [mk_value(t_fld(t, k, s[2][0]), s[2][0]) for k in (0, 1)])
    return symv(t, s)


def _rebuild_at(t, i):
    n = mk("at", t, i)
    return n


def _rb_sym(tag):
    def f(*args):
        n = mk(tag, *args)
        # types follow the shape
        if n not in TY and isinstance(args[0], N):
            ty = TY.get(args[0])
            if ty is not None:
                if tag == "at":
                    e = elem_ty(ty)
                    if e is not None:
                        TY[n] = e
                elif tag == "len":
                    TY[n] = USIZE
                elif tag == "fld":
                    ft = field_ty(ty, args[1])
                    if ft is not None:
                        TY[n] = ft
                elif tag == "pl":
                    vs = variants(strip(ty))
                    if vs:
                        TY[n] = vs[args[1]][args[2]]
        return n
    return f


def field_ty(ty, k):
    s = strip(ty)
    if k == "*" and s[0] in ("ref", "ptr"):
        return s[2]
    f = adt_fields(s)
    if f is not None and isinstance(k, int):
        return f[k][1]
    if s[0] == "tuple" and isinstance(k, int):
        return s[1][k]
    if s[0] == "adt" and s[1] == "std::ops::Range":
        return s[2][0]
    return None


VALTAGS = ("poly", "agg", "en", "seq", "ref", "symv", "mref", "it")


def is_val(x):
    return isinstance(x, bool) or (isinstance(x, N) and (x.tag in VALTAGS or x.tag == "ite" or is_bool(x)))


def _rb_at(t, i):
    if t.tag in ("seq", "ite"):
        r = seq_at(t, i)
        if r is not None:
            return r
        return mk("at", t, i)
    a = as_atom(i)
    if a is not None and a.tag == "pos" and a.args[0] is t:
        return a.args[1]
    return _at0(t, i)


def _rb_fld(t, k):
    if t.tag == "agg":
        return t.args[1][k]
    if t.tag == "ref" and k == "*":
        return t.args[0]
    if t.tag == "symv":
        t = t.args[0]
    if t.tag == "ite":
        return ite(t.args[0], _rb_fld(t.args[1], k), _rb_fld(t.args[2], k))
    return _fld0(t, k)


def _rb_pl(t, v, k):
    if t.tag == "en":
        if t.args[1] == v:
            return t.args[2][k]
        return mk("junk", t, v, k)
    if t.tag == "symv":
        t = t.args[0]
    if t.tag == "ite":
        return ite(t.args[0], _rb_pl(t.args[1], v, k), _rb_pl(t.args[2], v, k))
    return _pl0(t, v, k)


def _rb_len(t):
    if t.tag in ("seq", "ite"):
        return slen(t)
    return _len0(t)


def _rb_symv(t, ty):
    if isinstance(t, bool) or t.tag in VALTAGS or t.tag == "ite" or is_bool(t):
        return t
    return mk("symv", t, ty)


def _rb_b(t):
    if isinstance(t, bool) or is_bool(t):
        return t
    return mk("b", t)


_at0, _fld0, _pl0, _len0 = _rb_sym("at"), _rb_sym("fld"), _rb_sym("pl"), _rb_sym("len")
REBUILD["at"] = _rb_at
REBUILD["fld"] = _rb_fld
REBUILD["pl"] = _rb_pl
REBUILD["len"] = _rb_len
REBUILD["symv"] = _rb_symv
REBUILD["b"] = _rb_b


def enum_split(v):
    """cases of a symbolic enum: [(condition, en value)]"""
    t, ty = v.args
    vs = variants(strip(ty))
    if vs is None:
        return None
    out = []
    for k, fs in enumerate(vs):
        fields = []
        for j, ft in enumerate(fs):
            p = typed(mk("pl", t, k, j), ft)
            fields.append(mk_value(p, ft))
        out.append((isv(t, k), en(strip(ty)[1], k, *fields)))
    return out


def isv(t, k):
    """boolean: the opaque enum term t is variant k"""
    if t.tag == "en":
        return t.args[1] == k
    if t.tag == "symv":
        t = t.args[0]
    if t.tag == "ite":
        return ite(t.args[0], isv(t.args[1], k), isv(t.args[2], k))
    ty = TY.get(t)
    vs = variants(strip(ty)) if ty is not None else None
    if vs is not None and len(vs) == 1:
        return True
    if vs is not None and len(vs) == 2 and k == 0:
        return bnot(mk("isv", t, 1))
    return mk("isv", t, k)


# ---------------------------------------------------------------- sequences
def seq_at(s, i, decide=None):
    """element i of a sequence value; `decide(cond)` may resolve comparisons (True/False/None)"""
    if s.tag == "ite":
        c, a, b = s.args
        return ite(c, seq_at(a, i, decide), seq_at(b, i, decide))
    if s.tag != "seq":
        return None
    off = ZERO
    parts = s.args[0]

    def go(k, off):
        if k == len(parts):
            return None
        p = parts[k]
        last = k == len(parts) - 1
        rel = psub(i, off)
        if p.tag == "comp":
            n, l = p.args
            if last:
                return app(l, rel)
            c = lt(rel, n)
            d = c if isinstance(c, bool) else (decide(c) if decide else None)
            if d is True:
                return app(l, rel)
            if d is False:
                return go(k + 1, padd(off, n))
            a = app(l, rel)
            b = go(k + 1, padd(off, n))
            if b is None:
                return None
            return ite(c, a, b)
        # flat / cat: only constant sub-length flats can be indexed
        if p.tag == "flat":
            n, l = p.args
            if last and len(parts) == 1:
                body = l.args[0]
                if body.tag == "seq":
                    ln = slen(body)
                    la = as_atom(ln)
                    if cval(ln) is not None and cval(ln) > 0:
                        c = cval(ln)
                        q = pdivc(rel, ln)
                        r = psub(rel, pmul(q, ln))
                        return seq_at(app(l, q), r, decide)
                    if la is not None:
                        q, r = split_by(rel, la)
                        # r must be a proper remainder: ask
                        if decide and decide(ge(r)) is True and decide(lt(r, ln)) is True:
                            return seq_at(app(l, q), r, decide)
                        q = pdivc(rel, ln)
                        return seq_at(app(l, q), psub(rel, pmul(q, ln)), decide)
            return None
        return None

    r = go(0, off)
    return r


def pdivc(p, d):
    """floor division term p / d (d > 0)"""
    if cval(d) == 1:
        return p
    if cval(p) is not None and cval(d):
        return const(cval(p) // cval(d))
    da = as_atom(d)
    if da is not None:
        q, r = split_by(p, da)
        if cval(r) == 0:
            return q
    return atom(typed(mk("div", p, d), USIZE))


def pmodc(p, d):
    if cval(d) == 1:
        return ZERO
    if cval(p) is not None and cval(d):
        return const(cval(p) % cval(d))
    da = as_atom(d)
    if da is not None:
        q, r = split_by(p, da)
        if cval(r) == 0:
            return ZERO
    # p mod c with constant c: reduce coefficients
    if cval(d):
        c = cval(d)
        red = T._poly({m: k % c for m, k in p.args[0]})
        if cval(red) is not None:
            return const(cval(red) % c)
        if red is not p:
            return pmodc(red, d)
    return atom(typed(mk("mod", p, d), USIZE))


REBUILD["div"] = lambda p, d: pdivc(p, d)
REBUILD["mod"] = lambda p, d: pmodc(p, d)


def slice_seq(s, lo, hi, decide=None):
    """elements lo..hi (assumed in range); None when the shape does not allow it"""
    if s.tag == "ite":
        c, a, b = s.args
        x, y = slice_seq(a, lo, hi, decide), slice_seq(b, lo, hi, decide)
        return None if x is None or y is None else ite(c, x, y)
    if s.tag != "seq":
        return None
    if lo is ZERO and hi is slen(s):
        return s
    n = psub(hi, lo)
    if cval(n) is not None and cval(n) <= 0:
        return EMPTYSEQ
    parts = s.args[0]
    if len(parts) == 1 and parts[0].tag == "comp":
        l = parts[0].args[1]
        k = fresh()
        return seq((comp(n, lam(k, app(l, padd(lo, atom(k))))),))

    def d(c):
        if isinstance(c, bool):
            return c
        return decide(c) if decide else None
    out = []
    off = ZERO
    open_ = True
    # find parts fully inside / cut
    started = False
    for p in parts:
        pn = T.plen(p)
        end = padd(off, pn)
        if not started:
            # does lo lie in this part?
            if d(le(end, lo)) is True:
                off = end
                continue
            if d(le(off, lo)) is not True or d(le(lo, end)) is not True:
                return None
            a = psub(lo, off)
            started = True
        else:
            a = ZERO
        if d(le(hi, end)) is True:
            b = psub(hi, off)
            fin = True
        elif d(le(end, hi)) is True:
            b = pn
            fin = False
        else:
            return None
        if a is ZERO and b is pn:
            out.append(p)
        elif p.tag == "comp":
            k = fresh()
            out.append(comp(psub(b, a), lam(k, app(p.args[1], padd(a, atom(k))))))
        elif p.tag == "flat" and p.args[1].args[0].tag == "seq":
            body = p.args[1].args[0]
            ln = as_atom(slen(body))
            if ln is None:
                if cval(psub(b, a)) == 0:
                    pass
                else:
                    return None
            else:
                qa, qb = pdiv_exact(a, ln), pdiv_exact(b, ln)
                if qa is None or qb is None:
                    if qa is not None and qb is None:
                        return None
                    return None
                k = fresh()
                out.append(flat(psub(qb, qa), lam(k, app(p.args[1], padd(qa, atom(k))))))
        else:
            return None
        if fin:
            return seq(out)
        off = end
    return seq(out) if started else (EMPTYSEQ if d(le(hi, lo)) is True else None)


def store_seq(s, i, v, decide=None):
    """s with element i replaced"""
    if s.tag != "seq":
        return None
    n = slen(s)
    if len(s.args[0]) == 1 and cval(n) == 1:
        return lit([v])
    k = fresh()
    old = seq_at(s, atom(k), decide)
    if old is None:
        return None
    return seq((comp(n, lam(k, ite(eqp(atom(k), i), v, old))),))


def store_range(s, lo, hi, t, decide=None):
    """s with s[lo..hi] replaced by t (same length)"""
    if lo is ZERO and hi is slen(s):
        return t
    a = slice_seq(s, ZERO, lo, decide)
    b = slice_seq(s, hi, slen(s), decide)
    if a is None or b is None:
        return None
    return concat(concat(a, t), b)


def rev_seq(s, decide=None):
    if s.tag != "seq":
        return None
    out = []
    for p in reversed(s.args[0]):
        if p.tag == "comp":
            n, l = p.args
            k = fresh()
            out.append(comp(n, lam(k, app(l, psub(psub(n, ONE), atom(k))))))
        elif p.tag == "flat":
            n, l = p.args
            k = fresh()
            r = rev_seq(app(l, psub(psub(n, ONE), atom(k))), decide)
            if r is None:
                return None
            out.append(flat(n, lam(k, r)))
        elif p.tag == "cat":
            n, l = p.args
            k = fresh()
            b = app(l, psub(psub(n, ONE), atom(k)))
            r = rev_any(b)
            if r is None:
                return None
            out.append(cat(n, lam(k, r)))
    return seq(out)


def rev_any(b):
    if b.tag == "ite":
        x, y = rev_any(b.args[1]), rev_any(b.args[2])
        return None if x is None or y is None else ite(b.args[0], x, y)
    return rev_seq(b)


def cat(n, l):
    """concatenation over i<n of sequences of varying length"""
    b = l.args[0]
    if b.tag == "seq":
        if not b.args[0]:
            return comp(ZERO, l)
        k = fresh()
        ln = slen(app(l, atom(k)))
        if k not in ln.syms:
            return flat(n, l)
    return mk("cat", n, l)


REBUILD["cat"] = cat


def map_seq(s, f):
    """apply the value function f to every element (shape preserving); f gets (index poly or None, element)"""
    out = []
    off = ZERO
    for p in s.args[0]:
        n, l = p.args
        k = fresh()
        if p.tag == "comp":
            out.append(comp(n, lam(k, f(padd(off, atom(k)), app(l, atom(k))))))
        else:
            b = map_any(app(l, atom(k)), lambda e: f(None, e))
            out.append(mk(p.tag, n, lam(k, b)))
        off = padd(off, T.plen(p))
    return seq(out)


def map_any(b, f):
    if b.tag == "ite":
        return ite(b.args[0], map_any(b.args[1], f), map_any(b.args[2], f))
    return map_seq(b, lambda i, e: f(e))


# ---------------------------------------------------------------- structural equality as a boolean
EQ_OPAQUE = []


def veq(a, b, decide=None):
    """boolean term: values a and b are equal"""
    if a is b:
        return True
    if isinstance(a, bool) or isinstance(b, bool) or is_bool(a) or is_bool(b):
        return bor(band(a, b), band(bnot(a), bnot(b)))
    ta, tb = a.tag, b.tag
    if ta == "ite":
        return bor(band(a.args[0], veq(a.args[1], b, decide)), band(bnot(a.args[0]), veq(a.args[2], b, decide)))
    if tb == "ite":
        return veq(b, a, decide)
    if ta == "poly" and tb == "poly":
        return eqp(a, b)
    if ta == "ref" and tb == "ref":
        return veq(a.args[0], b.args[0], decide)
    if ta == "agg" and tb == "agg":
        if len(a.args[1]) != len(b.args[1]):
            return mk("veq", a, b)
        return band(*[veq(x, y, decide) for x, y in zip(a.args[1], b.args[1])])
    if ta == "en" and tb == "en":
        if a.args[1] != b.args[1]:
            return False
        return band(*[veq(x, y, decide) for x, y in zip(a.args[2], b.args[2])])
    if ta == "symv" and tb == "en":
        t, ty = a.args
        k = b.args[1]
        vs = variants(strip(ty))
        if vs is not None:
            cond = [isv(t, k)]
            for j, ft in enumerate(vs[k]):
                cond.append(veq(mk_value(typed(mk("pl", t, k, j), ft), ft), b.args[2][j], decide))
            return band(*cond)
    if ta == "en" and tb == "symv":
        return veq(b, a, decide)
    if ta == "symv" and tb == "symv":
        vs = variants(strip(a.args[1]))
        if vs is not None and len(vs) <= 6 and all(is_int_ty(f) for fs in vs for f in fs):
            alts = []
            for k, fs in enumerate(vs):
                c = [isv(a.args[0], k), isv(b.args[0], k)]
                for j, ft in enumerate(fs):
                    c.append(veq(mk_value(typed(mk("pl", a.args[0], k, j), ft), ft),
                                 mk_value(typed(mk("pl", b.args[0], k, j), ft), ft), decide))
                alts.append(band(*c))
            return bor(*alts)
    if ta == "seq" and tb == "seq":
        na, nb = slen(a), slen(b)
        k = fresh()
        x, y = seq_at(a, atom(k), decide), seq_at(b, atom(k), decide)
        if x is not None and y is not None:
            return band(eqp(na, nb), forall_(na, lam(k, veq(x, y, decide))))
    if a.id > b.id:
        a, b = b, a
    return mk("veq", a, b)


REBUILD["veq"] = veq
REBUILD["isv"] = lambda t, k: isv(t, k)
