"""Which of the crate's types carry invariants, and the axioms of symbols of those types."""
from terms import *
from values import *
import values as V
import facts as FX
import terms as T


def local_named(last):
    out = []
    for n, a in V.PROG[0].adts.items():
        if a["local"] and n.split("::")[-1] == last:
            out.append(n)
    return out


class L:
    pass


NAMES = {}


def setup(prog):
    V.set_prog(prog)
    NAMES.clear()
    for k in ("Row", "RowBuf", "SameStageVec", "Stage", "Bell", "Mask", "PlaceNot", "PnBlock", "Regex", "RegexElem",
              "AnnotBlock", "RowAccumulator", "RepeatIter", "Method", "AnnotRow", "MethodLib", "Call"):
        ns = local_named(k)
        NAMES[k] = ns[0] if len(ns) == 1 else None
    its = [n for n in local_named("Iter") if "same_stage_vec" in n]
    NAMES["Iter"] = its[0] if len(its) == 1 else None
    V.LEN_HOOK[0] = len_hook
    V.FLD_HOOK[0] = fld_hook
    V.PERM_HOOK[0] = lambda t: is_row_ty(TY.get(t)) and is_valid(t)
    T.INJ_HOOK[0] = V.is_perm
    FX.AX[:] = [axioms]
    FX.FA_LEMMA[:] = [row_surjective]


def is_ty(ty, key):
    return ty is not None and ty[0] == "adt" and NAMES.get(key) is not None and ty[1] == NAMES[key]


def unbox(ty):
    while ty is not None and ty[0] == "adt" and ty[1] in ("std::boxed::Box", "std::rc::Rc", "std::sync::Arc"):
        ty = ty[2][0]
    return ty


def is_row_ty(ty):
    ty = unbox(ty)
    return is_ty(ty, "Row") or is_ty(ty, "RowBuf")


def fidx(ty, pred):
    """index of the only field of a local struct whose type satisfies pred"""
    f = adt_fields(ty)
    if not f:
        return None
    c = [k for k, (n, t) in enumerate(f) if pred(t)]
    return c[0] if len(c) == 1 else None


def seqfield(ty, elempred):
    def p(t):
        e = elem_ty(t[2] if t[0] == "ref" else t)
        return e is not None and elempred(e)
    return fidx(ty, p)


def ssv_fields(ty):
    """(bells index, stage index) of a SameStageVec-like struct"""
    b = seqfield(ty, lambda e: is_ty(e, "Bell"))
    s = fidx(ty, lambda t: is_ty(t, "Stage"))
    if b is None or s is None:
        return None
    return b, s


def parent(t):
    if t.tag == "fld":
        return t.args[0], t.args[1]
    return None, None


def bells_owner(t):
    """if t is the bell storage of a valid SameStageVec / Iter symbol: (owner term, stage poly)"""
    p, k = parent(t)
    if p is None:
        return None
    if k == "*":
        # the target of a reference field
        q, k2 = parent(p)
        if q is None:
            return None
        p, k = q, k2
    ty = unbox(TY.get(p))
    if (is_ty(ty, "SameStageVec") or is_ty(ty, "Iter")) and is_valid(p):
        sf = ssv_fields(ty)
        if sf and sf[0] == k:
            st = mk_value(V.t_fld(p, sf[1], adt_fields(ty)[sf[1]][1]), adt_fields(ty)[sf[1]][1])
            return p, st
    return None


def nrows(S):
    """number of rows of the SameStageVec symbol S"""
    p, k = parent(S)
    if p is not None and is_ty(TY.get(p), "AnnotBlock") and is_valid(p):
        ty = TY[p]
        af = block_fields(ty)
        if af and af[0] == k:
            fa = adt_fields(ty)[af[1]][1]
            return padd(tlen(V.t_fld(p, af[1], fa)), ONE)
    return atom(typed(mk("nrows", S), USIZE))


def block_fields(ty):
    r = fidx(ty, lambda t: is_ty(t, "SameStageVec"))
    f = adt_fields(ty)
    if r is None:
        return None
    a = [k for k, (n, t) in enumerate(f) if k != r and elem_ty(t) is not None]
    return (r, a[0]) if len(a) == 1 else None


def row_sym(B, q, st):
    """a valid row standing for row q of the bell storage B of a valid collection"""
    return typed(mk("uf", "row", True, B, q), ("adt", NAMES["RowBuf"], ()))


def is_row_sym(t):
    return t.tag == "uf" and t.args[0] == "row"


def len_hook(t):
    if is_row_sym(t):
        o = bells_owner(t.args[2])
        return o[1] if o else None
    o = bells_owner(t)
    if o:
        S, st = o
        return pmul(nrows(S), st)
    return None


def fld_hook(t, k, fty):
    ty = TY.get(t)
    # all notations of a valid PnBlock share the stage of the first one
    if is_ty(ty, "PlaceNot") and is_ty(fty, "Stage") and t.tag == "at" and t.args[1] is not ZERO:
        p = t.args[0]
        if is_ty(TY.get(p), "PnBlock") and is_valid(p):
            z = typed(mk("at", p, ZERO), ty)
            return typed(mk("fld", z, k), fty)
    if is_ty(ty, "RepeatIter") and is_valid(t):
        pass
    return None


_ax = {}


def axioms(a):
    r = _ax.get(a)
    if r is None:
        r = _axioms(a)
        _ax[a] = r
    return r


def _axioms(a):
    out = []
    t = a.tag
    A = atom(a)
    ty = TY.get(a)
    if ty is not None and is_ty(ty, "Stage") and is_valid(a):
        out.append(ge(psub(A, ONE)))
    elif ty is not None and (V.int_name(ty) in UNSIGNED or V.int_name(ty) == "char"):
        out.append(ge(A))
    if t == "len":
        x = a.args[0]
        if not (isinstance(x, N)):
            return out
        xt = TY.get(x)
        out.append(ge(A))
        if xt is not None and is_valid(x) and (is_row_ty(xt) or is_ty(xt, "PnBlock")):
            out.append(ge(psub(A, ONE)))
    elif t == "nrows":
        out.append(ge(A))
    elif t == "at":
        x, i = a.args
        if x.tag == "seq":
            return out
        xt = TY.get(x)
        if xt is not None and is_row_ty(xt) and is_valid(x):
            out.append(lt(A, tlen(x)))
        o = bells_owner(x)
        if o:
            out.append(lt(A, o[1]))
        p, k = parent(x)
        if p is not None and is_ty(TY.get(p), "PlaceNot") and is_valid(p):
            fs = adt_fields(TY[p])
            si = fidx(TY[p], lambda q: is_ty(q, "Stage"))
            if si is not None:
                out.append(lt(A, mk_value(V.t_fld(p, si, fs[si][1]), fs[si][1])))
    elif t == "div":
        p, d = a.args
        if cval(d) is not None and cval(d) > 0 or True:
            # p = d*q + r, 0 <= r < d   (d >= 1 is checked where the division happens)
            r = psub(p, pmul(d, A))
            out += [ge(r), lt(r, d)]
    elif t == "mod":
        p, d = a.args
        out += [ge(A), lt(A, d)]
        q = atom(typed(mk("div", p, d), USIZE))
        out.append(eqp(p, padd(pmul(d, q), A)))
    elif t == "find":
        n, l = a.args
        w = fresh()
        out += [ge(A), le(A, n), forall_(A, lam(w, bnot(app(l, atom(w))))), bor(le(n, A), app(l, A))]
    elif t == "sum":
        n, l = a.args
        b = l.args[0]
        lo, hi = bounds_const(b)
        if lo is not None:
            out.append(ge(psub(A, pscale(n, lo))))
        if hi is not None:
            out.append(ge(psub(pscale(n, hi), A)))
    elif t == "catlen":
        n, l = a.args
        lo, hi = bounds_const(any_len(l.args[0]))
        if lo is not None:
            out.append(ge(psub(A, pscale(n, lo))))
        if hi is not None:
            out.append(ge(psub(pscale(n, hi), A)))
    elif t == "maxov":
        n, init, l = a.args
        out.append(ge(psub(A, init)))
    elif t == "pos":
        x, b = a.args
        n = slen(x) if x.tag == "seq" else tlen(x)
        out += [ge(A), bor(le(n, b), lt(A, n)), bor(lt(b, n), le(n, A))]
    elif t == "min":
        x, y = a.args
        out += [le(A, x), le(A, y)]
    elif t == "max":
        x, y = a.args
        out += [le(x, A), le(y, A)]
    elif t == "ite":
        pass
    return out


def any_len(b):
    if not isinstance(b, N):
        return ZERO
    if b.tag == "ite":
        return ite(b.args[0], any_len(b.args[1]), any_len(b.args[2]))
    return slen(b)


def bounds_const(p):
    if p is None or not isinstance(p, N) or p.tag != "poly":
        return None, None
    c = cval(p)
    if c is not None:
        return c, c
    a = as_atom(p)
    if a is not None and a.tag == "ite":
        l1, h1 = bounds_const(a.args[1])
        l2, h2 = bounds_const(a.args[2])
        return (min(l1, l2) if l1 is not None and l2 is not None else None,
                max(h1, h2) if h1 is not None and h2 is not None else None)
    if a is not None:
        ty = TY.get(a)
        if ty is not None and V.int_name(ty) in UNSIGNED:
            return 0, None
        if a.tag in ("len", "catlen", "nrows"):
            return 0, None
    return None, None


def row_surjective(f):
    """every bell of the stage occurs in every row of a valid collection"""
    n, l = f.args
    b = l.args[0]
    if not isinstance(b, N) or b.tag != "not" or b.args[0].tag != "eq":
        return []
    k = fresh()
    c = app(l, atom(k))
    p = c.args[0].args[0]
    for m, co in p.args[0]:
        if len(m) == 1 and m[0].tag == "at" and abs(co) == 1 and V.is_perm(m[0].args[0]) and m[0].args[1] is atom(k) and tlen(m[0].args[0]) is n:
            x = psub(p, pscale(atom(m[0]), co))
            if co == 1:
                x = pscale(x, -1)
            if k in x.syms:
                continue
            return [bor(lt(x, ZERO), ge(psub(x, n)))]
        if len(m) == 1 and m[0].tag == "at" and abs(co) == 1:
            o = bells_owner(m[0].args[0])
            if o is None or o[1] is not n:
                continue
            sa = as_atom(n)
            if sa is None:
                continue
            q, r = split_by(m[0].args[1], sa)
            if r is not atom(k) or k in q.syms:
                continue
            x = psub(p, pscale(atom(m[0]), co))
            if co == 1:
                x = pscale(x, -1)
            if k in x.syms:
                continue
            return [bor(lt(x, ZERO), ge(psub(x, n)), lt(q, ZERO), ge(psub(q, nrows(o[0]))))]
    return []
