"""Type-directed proofs that a value satisfies the invariants of its type (valid rows, aligned collections, ...)."""
from terms import *
from values import *
import values as V
import terms as T
import facts as FX
from facts import prove, infeasible, decider
import layout as LY


class Ctx:
    """collects the leaves of a proof"""

    def __init__(self):
        self.done = 0
        self.fails = []
        self.keys = set(INVT)
        self.block_len = True

    def ok(self):
        self.done += 1

    def hkeys(self):
        return tuple(k for k in INVT if k in self.keys)

    def want(self, ty, *keys):
        return any(LY.is_ty(ty, k) for k in keys) and any(k in self.keys for k in keys)

    def fail(self, path, why):
        self.fails.append((path, why))


def row_ty():
    return ("adt", LY.NAMES["RowBuf"], ())


def prove_inv(F, v, ty, cx, path="value", depth=0):
    if FX_false(F):
        return cx.ok()
    if depth > 12:
        return cx.fail(path, "type too deep")
    if isinstance(v, bool):
        return cx.ok()
    if v.tag == "it":
        # a private iterator over items that are judged where they are yielded
        return cx.ok() if ty[0] != "slice" else cx.fail(path, "iterator")
    if v.tag == "ref":
        return prove_inv(F, v.args[0], ty[2] if ty[0] in ("ref", "ptr") else ty, cx, path, depth + 1)
    if v.tag == "ite":
        c, a, b = v.args
        d = decider(F, 2)(c)
        if d is not False:
            prove_inv(F.add(c), a, ty, cx, path, depth + 1)
        if d is not True:
            prove_inv(F.add(bnot(c)), b, ty, cx, path, depth + 1)
        return
    ty = LY.unbox(ty)
    h = ty[0]
    if h in ("ref", "ptr"):
        if v.tag == "mref":
            return cx.ok()      # judged as a final value of the operand it points into
        return prove_inv(F, v, ty[2], cx, path, depth + 1)
    if h in ("prim", "param", "alias", "opaque", "never", "fndef", "closure"):
        return cx.ok()
    if not has_inv(ty, frozenset(), cx.hkeys()):
        return cx.ok()
    if v.tag == "symv":
        return cx.ok() if V.is_valid(v.args[0]) and same_inv(TY.get(v.args[0]), ty) else cx.fail(path, "opaque value")
    if cx.want(ty, "Row", "RowBuf"):
        return prove_row(F, v, cx, path)
    if cx.want(ty, "Stage"):
        if v.tag == "poly" and prove(F, ge(psub(v, ONE)), 3):
            return cx.ok()
        return cx.fail(path, "stage may be zero")
    if cx.want(ty, "SameStageVec", "Iter"):
        b, s = LY.ssv_fields(ty)
        if v.tag != "agg":
            return cx.fail(path, "collection " + v.tag)
        bells, st = v.args[1][b], v.args[1][s]
        if bells.tag == "ref":
            bells = bells.args[0]
        return prove_ssv(F, bells, st, cx, path)
    if LY.is_ty(ty, "AnnotBlock"):
        fs = adt_fields(ty)
        rf, af = LY.block_fields(ty)
        if v.tag != "agg":
            return cx.fail(path, "block " + v.tag)
        rows, an = v.args[1][rf], v.args[1][af]
        prove_inv(F, rows, fs[rf][1], cx, path + "." + fs[rf][0], depth + 1)
        if "AnnotBlock" in cx.keys:
            prove_block_len(F, v, ty, cx, path)
        return prove_inv(F, an, fs[af][1], cx, path + "." + fs[af][0], depth + 1)
    if cx.want(ty, "PlaceNot"):
        return prove_pn(F, v, ty, cx, path)
    if cx.want(ty, "PnBlock"):
        return prove_pnblock(F, v, ty, cx, path, depth)
    if cx.want(ty, "Regex"):
        return prove_regex(F, v, ty, cx, path)
    s = strip(ty)
    if s != ty:
        return prove_inv(F, v, s, cx, path, depth + 1)
    et = elem_ty(ty)
    if et is not None:
        if v.tag != "seq":
            return cx.fail(path, "sequence " + v.tag)
        for p in v.args[0]:
            k = fresh()
            n = p.args[0]
            F2 = F.add(ge(atom(k)), lt(atom(k), n))
            if F2.false() or infeasible(F2, 2):
                cx.ok()
                continue
            x = app(p.args[1], atom(k))
            if p.tag == "comp":
                prove_inv(F2, x, et, cx, path + "[]", depth + 1)
            else:
                prove_inv(F2, x, ("slice", et), cx, path + "[]", depth + 1)
        return
    if h == "tuple":
        if v.tag != "agg":
            return cx.fail(path, "tuple " + v.tag)
        for k, t in enumerate(ty[1]):
            prove_inv(F, v.args[1][k], t, cx, "%s.%d" % (path, k), depth + 1)
        return
    f = adt_fields(ty)
    if f is not None:
        if v.tag != "agg":
            return cx.fail(path, "struct " + v.tag)
        for k, (n, t) in enumerate(f):
            prove_inv(F, v.args[1][k], t, cx, "%s.%s" % (path, n), depth + 1)
        return
    vs = variants(ty)
    if vs:
        if v.tag != "en":
            return cx.fail(path, "enum " + v.tag)
        for j, t in enumerate(vs[v.args[1]]):
            prove_inv(F, v.args[2][j], t, cx, "%s.%d" % (path, j), depth + 1)
        return
    return cx.fail(path, "type %s" % (ty[1] if len(ty) > 1 else h,))


def FX_false(F):
    return F.false()


INVT = ("Row", "RowBuf", "Stage", "SameStageVec", "Iter", "AnnotBlock", "PlaceNot", "PnBlock", "Regex", "RowAccumulator", "RepeatIter")
_hi = {}


def has_inv(ty, seen=frozenset(), keys=INVT):
    """does a value of this type contain anything with an invariant?"""
    r = _hi.get((ty, keys))
    if r is not None:
        return r
    r = _has(ty, seen, keys)
    if not seen:
        _hi[(ty, keys)] = r
    return r


def _has(ty, seen, keys):
    ty = LY.unbox(ty)
    if ty in seen:
        return False
    seen = seen | {ty}
    h = ty[0]
    if h in ("ref", "ptr"):
        return has_inv(ty[2], seen, keys)
    if h in ("slice", "array"):
        return has_inv(ty[1], seen, keys)
    if h == "tuple":
        return any(has_inv(t, seen, keys) for t in ty[1])
    if h in ("alias", "opaque"):
        return False
    if h != "adt":
        return False
    if any(LY.is_ty(ty, k) for k in keys):
        return True
    if any(isinstance(t, tuple) and t and t[0] != "const" and has_inv(t, seen, keys) for t in ty[2]):
        return True
    f = adt_fields(ty)
    if f is not None:
        return any(has_inv(t, seen, keys) for n, t in f)
    vs = variants(ty)
    if vs and V.PROG[0].adts.get(ty[1], {}).get("local"):
        return any(has_inv(t, seen, keys) for fs in vs for t in fs)
    return False


def same_inv(a, b):
    if a is None:
        return False
    a, b = LY.unbox(a), LY.unbox(b)
    if a == b:
        return True
    if LY.is_row_ty(a) and LY.is_row_ty(b):
        return True
    sa, sb = strip(a), strip(b)
    return sa == sb or same_up_to_alias(sa, sb)


def same_up_to_alias(a, b):
    if a == b or (isinstance(a, tuple) and a and a[0] == "alias") or (isinstance(b, tuple) and b and b[0] == "alias"):
        return True
    return isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and all(same_up_to_alias(x, y) for x, y in zip(a, b))


# ---------------------------------------------------------------- rows
def eta(v):
    """the opaque term whose elements the sequence lists, or None"""
    if v.tag != "seq" or len(v.args[0]) != 1 or v.args[0][0].tag != "comp":
        return None
    n, l = v.args[0][0].args
    k = fresh()
    e = app(l, atom(k))
    if e.tag != "poly":
        return None
    a = as_atom(e)
    if a is not None and a.tag == "at" and a.args[1] is atom(k) and k not in a.args[0].syms:
        return a.args[0], n
    return None


def prove_row(F, v, cx, path):
    if v.tag == "symv":
        return cx.ok() if V.is_valid(v.args[0]) else cx.fail(path, "opaque row")
    if v.tag != "seq":
        return cx.fail(path, "row " + v.tag)
    t = eta(v)
    if t is not None and V.is_perm(t[0]) and (tlen(t[0]) is t[1] or prove(F, eqp(tlen(t[0]), t[1]), 2)):
        return cx.ok()
    n = slen(v)
    if not prove(F, ge(psub(n, ONE)), 3):
        return cx.fail(path, "row may be empty")
    F, v = rowify(F, v, None)
    r = perm_seq(F, v, n)
    return cx.ok() if r is True else cx.fail(path, r)


def pigeonhole(F):
    """distinct values covering everything below their maximum M: there are exactly M + 1 of them (or none)"""
    new = []
    for f in F.items:
        if f.tag != "forall":
            continue
        M = f.args[0]
        ma = as_atom(M) if M.tag == "poly" else None
        if ma is None or ma.tag != "maxov" or ma.args[1] is not ZERO:
            continue
        k, j, i = fresh(), fresh(), fresh()
        b = app(f.args[1], atom(k))
        if not isinstance(b, N) or b.tag != "exists" or b.args[0] is not ma.args[0]:
            continue
        c = app(b.args[1], atom(j))
        if not isinstance(c, N) or c.tag != "eq":
            continue
        A = app(ma.args[2], atom(j))
        if c is not eqp(A, atom(k)):
            continue
        n = ma.args[0]
        Fd = F.add(ge(atom(i)), lt(atom(i), atom(j)), lt(atom(j), n), eqp(app(ma.args[2], atom(i)), A))
        if infeasible(Fd, 3):
            new.append(bor(eqp(n, ZERO), eqp(n, padd(M, ONE))))
            new.append(forall_(n, lam(j, ge(psub(M, A)))))
    return F.add(*new) if new else F


def perm_seq(F, v, n):
    """True if the sequence v (length n) is proved to be a permutation of 0..n, else a reason"""
    F = pigeonhole(F)
    at = lambda i: seq_at(v, i, decider(F, 2))
    k = fresh("i")
    Fk = F.add(ge(atom(k)), lt(atom(k), n))
    if infeasible(Fk, 2):
        return True
    e = at(atom(k))
    if e is None or e.tag != "poly":
        return "elements are not in closed form"
    e = FX.simp_value(Fk, e)
    r = bij(Fk, k, e, n)
    if r:
        return True
    # prefix of a permutation followed by the identity
    if not prove(Fk, ge(e), 3):
        return "an element may be negative"
    if not prove(Fk, lt(e, n), 3):
        return "an element may lie outside the row"
    j = fresh("j")
    Fj = F.add(ge(atom(k)), lt(atom(k), atom(j)), lt(atom(j), n))
    ej = subst(e, {k: atom(j)})
    ek = FX.simp_value(Fj, e)
    ej = FX.simp_value(Fj, ej)
    if all_cases(Fj, eqp(ek, ej), 4):
        return True
    return "two elements may be equal"


def all_cases(F, g, depth, cap=4):
    """g is refuted under every combination of the conditions of its piecewise terms"""
    s = set()
    FX.collect_nodes(g, "ite", s)
    if not s or cap == 0 or g is False:
        return g is False or infeasible(F.add(g), depth)
    c = sorted(s, key=lambda a: a.id)[0].args[0]
    for val, h in ((True, c), (False, bnot(c))):
        if h is False:
            continue
        F2 = F.add(h)
        if F2.false():
            continue
        g2, = FX.rewrite_ite([g], c, val)
        if g2 is not False and not all_cases(F2, g2, depth, cap - 1):
            return False
    return True


def bij(F, k, e, n):
    """is k -> e a bijection of 0..n (k is the fresh index, 0 <= k < n is in F)?"""
    if e is atom(k) or e is psub(psub(n, ONE), atom(k)):
        return True
    a = as_atom(e)
    if a is not None and a.tag in ("at", "pos") and V.is_perm(a.args[0]) and k not in a.args[0].syms:
        R, i = a.args
        if (tlen(R) is n or prove(F, eqp(tlen(R), n), 2)) and bij(F, k, i, n):
            return True
    return False


row_sym = LY.row_sym


def rowify(F, v, extra):
    """replace storage accesses B[q*stage + j] with 0 <= j < stage by row(B, q)[j]"""
    k = fresh("r")
    n = slen(v)
    Fk = F.add(ge(atom(k)), lt(atom(k), n))
    facts = []
    out = []
    ch = False
    for p in v.args[0]:
        if p.tag != "comp":
            out.append(p)
            continue
        w = fresh("r")
        e = app(p.args[1], atom(w))
        Fw = F.add(ge(atom(w)), lt(atom(w), p.args[0]))
        e2 = rowify_term(Fw, e, facts)
        if e2 is not e:
            ch = True
            out.append(comp(p.args[0], lam(w, e2)))
        else:
            out.append(p)
    if not ch:
        return F, v
    return F.add(*facts), seq(out)


def rowify_term(F, x, facts):
    """rewrite storage accesses inside a term"""
    m = {}
    uni = equal_atoms(F)

    def go(n):
        if isinstance(n, tuple):
            for y in n:
                go(y)
            return
        if not isinstance(n, N) or n in m:
            return
        if n.tag == "at":
            o = LY.bells_owner(n.args[0])
            if o is not None and not n_free_bv(n):
                S, st = o
                sa = as_atom(st)
                if sa is not None:
                    idx = n.args[1]
                    sb = uni.get(sa)
                    if sb is not None:
                        # the collection's stage under the name of an equal one
                        idx = subst_any(idx, {sa: atom(sb)})
                    q, r = split_by(idx, sb if sb is not None else sa)
                    if prove(F, ge(r), 2) and prove(F, lt(r, st), 2) and prove(F, ge(q), 2):
                        R = row_sym(n.args[0], q, st)
                        facts.append(eqp(tlen(R), st))
                        go(r)
                        m[n] = atom(typed(mk("at", R, subst_any(r, m) if m else r), ("adt", LY.NAMES["Bell"], ())))
                        return
        go(n.args)
    go(x)
    if not m:
        return x
    return subst_any(x, {k: v for k, v in m.items()})


def n_free_bv(n):
    return n.hgt != 0 or has_bv(n)


_hb = {}


def has_bv(n):
    r = _hb.get(n)
    if r is None:
        if n.tag == "bv":
            r = True
        else:
            r = any(has_bv(x) for x in _kids3(n.args))
        _hb[n] = r
    return r


def _kids3(args):
    for a in args:
        if isinstance(a, N):
            yield a
        elif isinstance(a, tuple):
            yield from _kids3(a)


def equal_atoms(F):
    """atom -> the representative of the atoms the facts make equal to it"""
    par = {}

    def find(a):
        while a in par:
            a = par[a]
        return a
    for f in F.items:
        if isinstance(f, N) and f.tag == "eq":
            t = f.args[0].args[0]
            if len(t) == 2 and t[0][1] + t[1][1] == 0 and abs(t[0][1]) == 1 and len(t[0][0]) == 1 and len(t[1][0]) == 1:
                x, y = find(t[0][0][0]), find(t[1][0][0])
                if x is not y:
                    if x.id < y.id:
                        x, y = y, x
                    par[x] = y
    return {a: find(a) for a in par}


# ---------------------------------------------------------------- collections
def div_by_stage(F, n, st):
    """q with n = q*st, or None"""
    if n is ZERO:
        return ZERO
    if n is st:
        return ONE
    a = as_atom(st)
    if a is not None:
        q = pdiv_exact(n, a)
        if q is not None:
            return q
    c = cval(st)
    if c == 1:
        return n
    if prove(F, eqp(n, st), 2):
        return ONE
    if prove(F, eqp(n, ZERO), 2):
        return ZERO
    # a stage equal to another symbol
    for f in F.items:
        if f.tag == "eq":
            t = f.args[0].args[0]
            if len(t) == 2 and t[0][1] + t[1][1] == 0 and len(t[0][0]) == 1 and len(t[1][0]) == 1:
                x, y = t[0][0][0], t[1][0][0]
                if a is x or a is y:
                    o = y if a is x else x
                    q = pdiv_exact(n, o)
                    if q is not None:
                        return q
    return None


def prove_ssv(F, bells, st, cx, path):
    if bells.tag == "ref":
        bells = bells.args[0]
    if bells.tag == "ite":
        c, a, b = bells.args
        prove_ssv(F.add(c), a, st, cx, path)
        prove_ssv(F.add(bnot(c)), b, st, cx, path)
        return
    if not prove(F, ge(psub(st, ONE)), 3):
        cx.fail(path, "stage may be zero")
    uni = equal_atoms(F)
    if uni and isinstance(st, N):
        m = {a: atom(b) for a, b in uni.items()}
        bells, st = T.subst_any(bells, m), T.subst_any(st, m)
    if bells.tag != "seq":
        if bells.tag == "symv" and V.is_valid(bells.args[0]):
            return cx.ok()
        return cx.fail(path, "storage " + bells.tag)
    parts = bells.args[0]
    if not parts:
        return cx.ok()
    # group parts until a whole number of rows
    group = []
    for p in parts:
        if not group:
            if p.tag == "comp":
                q = div_by_stage(F, p.args[0], st)
                if q is not None:
                    prove_rows_part(F, p, q, st, cx, path)
                    continue
            elif p.tag in ("flat", "cat"):
                n, l = p.args
                k = fresh("r")
                Fk = F.add(ge(atom(k)), lt(atom(k), n))
                if infeasible(Fk, 2):
                    cx.ok()
                    continue
                b = app(l, atom(k))
                prove_ssv(Fk, b, st, cx, path)
                continue
        group.append(p)
        g = seq(group)
        n = slen(g)
        if prove(F, eqp(n, st), 3):
            prove_row(F, g, cx, path)
            group = []
    if group:
        g = seq(group)
        if prove(F, eqp(slen(g), ZERO), 2):
            return cx.ok()
        cx.fail(path, "not shown to be a whole number of rows")


def prove_rows_part(F, p, q, st, cx, path):
    """the part lists q rows of stage st"""
    r = fresh("r")
    Fr = F.add(ge(atom(r)), lt(atom(r), q))
    if q is ONE:
        Fr = F
        base = ZERO
    else:
        base = pmul(atom(r), st)
        if infeasible(Fr, 2):
            return cx.ok()
    j = fresh("j")
    Fj = Fr.add(ge(atom(j)), lt(atom(j), st))
    e = app(p.args[1], padd(base, atom(j)))
    facts = []
    if q is not ONE:
        # r*st + j < q*st
        Fj = Fj.add(ge(psub(pmul(q, st), padd(padd(base, atom(j)), ONE))))
    e2 = rowify_term(Fj, e, facts)
    row = seq((comp(st, lam(j, e2)),))
    FF = Fr.add(*facts)
    res = perm_seq(FF, row, st)
    if res is True:
        return cx.ok()
    cx.fail(path, res)


def prove_block_len(F, v, ty, cx, path):
    fs = adt_fields(ty)
    rf, af = LY.block_fields(ty)
    rows, an = v.args[1][rf], v.args[1][af]
    b, s = LY.ssv_fields(fs[rf][1])
    if rows.tag != "agg":
        return cx.fail(path, "rows " + rows.tag)
    bells, st = rows.args[1][b], rows.args[1][s]
    n = slen(bells)
    m = pmul(padd(slen(an), ONE), st)
    if prove(F, eqp(n, m), 3):
        return cx.ok()
    q = div_by_stage(F, n, st)
    if q is not None and prove(F, eqp(q, padd(slen(an), ONE)), 3):
        return cx.ok()
    cx.fail(path, "rows = annotations + 1 not established")


# ---------------------------------------------------------------- place notation
def pn_parts(v, ty):
    fs = adt_fields(ty)
    si = LY.fidx(ty, lambda q: LY.is_ty(q, "Stage"))
    pi = [k for k in range(len(fs)) if k != si][0]
    return v.args[1][pi], v.args[1][si]


def prove_pn(F, v, ty, cx, path):
    if v.tag == "symv":
        return cx.ok() if V.is_valid(v.args[0]) else cx.fail(path, "opaque notation")
    if v.tag != "agg":
        return cx.fail(path, "notation " + v.tag)
    pl, st = pn_parts(v, ty)
    # unchanged fields of one valid notation
    t = eta(pl) if pl.tag == "seq" else None
    if t is not None:
        p, k = LY.parent(t[0])
        if p is not None and LY.is_ty(TY.get(p), "PlaceNot") and V.is_valid(p) and t[1] is tlen(t[0]):
            st0 = pn_parts(mk_value(p, TY[p]), TY[p])[1]
            if st0 is st or prove(F, eqp(st0, st), 2):
                return cx.ok()
    if pl.tag != "seq":
        return cx.fail(path, "places " + pl.tag)
    if not prove(F, ge(psub(st, ONE)), 2):
        return cx.fail(path, "stage may be zero")
    n = slen(pl)
    d = decider(F, 2)
    k = fresh("i")
    Fk = F.add(ge(atom(k)), lt(atom(k), n))
    even = lambda F, x: is_even(F, x)
    if cval(n) == 0 or prove(F, eqp(n, ZERO), 2):
        return cx.ok() if even(F, st) else cx.fail(path, "no places on a possibly odd stage")
    at = lambda i, F: (lambda x: x if x is None else FX.simp_value(F, x))(seq_at(pl, i, decider(F, 2)))
    e = at(atom(k), Fk)
    if e is None:
        return cx.fail(path, "places are not in closed form")
    if not prove(Fk, lt(e, st), 3):
        return cx.fail(path, "a place may lie outside the stage")
    Fk1 = F.add(ge(atom(k)), lt(padd(atom(k), ONE), n))
    if not infeasible(Fk1, 2):
        a, b = at(atom(k), Fk1), at(padd(atom(k), ONE), Fk1)
        if not prove(Fk1, lt(a, b), 3):
            return cx.fail(path, "places may not increase")
        if not even(Fk1, psub(psub(b, a), ONE)):
            return cx.fail(path, "an odd gap between places")
    Fn = F.add(ge(psub(n, ONE)))
    if not infeasible(Fn, 2):
        if not even(Fn, at(ZERO, Fn)):
            return cx.fail(path, "an odd gap before the first place")
        if not even(Fn, psub(psub(st, at(psub(n, ONE), Fn)), ONE)):
            return cx.fail(path, "an odd gap after the last place")
    F0 = F.add(eqp(n, ZERO))
    if not infeasible(F0, 2) and not even(F0, st):
        return cx.fail(path, "no places on a possibly odd stage")
    cx.ok()


def is_even(F, p):
    c = cval(p)
    if c is not None:
        return c % 2 == 0
    import values
    m = values.pmodc(p, const(2))
    return prove(F, eqp(m, ZERO), 3)


def prove_pnblock(F, v, ty, cx, path, depth):
    if v.tag == "symv":
        return cx.ok() if V.is_valid(v.args[0]) else cx.fail(path, "opaque block")
    if v.tag != "seq":
        return cx.fail(path, "block " + v.tag)
    t = None
    if len(v.args[0]) == 1 and v.args[0][0].tag == "comp":
        k = fresh()
        e = app(v.args[0][0].args[1], atom(k))
        if e.tag == "agg":
            x = e.args[1][0]
    n = slen(v)
    et = elem_ty(ty)
    if not prove(F, ge(psub(n, ONE)), 3):
        return cx.fail(path, "may be empty")
    k = fresh("i")
    Fk = F.add(ge(atom(k)), lt(atom(k), n))
    d = decider(Fk, 2)
    first = seq_at(v, ZERO, decider(F, 2))
    for p in v.args[0]:
        w = fresh("i")
        Fw = F.add(ge(atom(w)), lt(atom(w), p.args[0]))
        if infeasible(Fw, 2):
            continue
        x = app(p.args[1], atom(w))
        if p.tag != "comp":
            return cx.fail(path, "nested parts")
        prove_inv(Fw, x, et, cx, path + "[]", depth + 1)
        if first is None:
            cx.fail(path, "first notation unknown")
            continue
        sx, s0 = _stage_of(x, et), _stage_of(first, et)
        if sx is None or s0 is None or not prove(Fw, eqp(sx, s0), 3):
            cx.fail(path, "stages of the notations may differ")
        else:
            cx.ok()


def _stage_of(x, et):
    if x.tag == "agg":
        return pn_parts(x, et)[1]
    if x.tag == "ite":
        a, b = _stage_of(x.args[1], et), _stage_of(x.args[2], et)
        return ite(x.args[0], a, b) if a is not None and b is not None else None
    return None


# ---------------------------------------------------------------- regexes
def prove_regex(F, v, ty, cx, path):
    """a wildcard is never directly preceded by a glob"""
    import evalm
    if v.tag == "symv":
        return cx.ok() if V.is_valid(v.args[0]) else cx.fail(path, "opaque regex")
    if v.tag != "seq":
        return cx.fail(path, "regex " + v.tag)
    t = eta_any(v)
    if t is not None and V.is_valid(t) and LY.is_ty(TY.get(t), "Regex"):
        return cx.ok()
    ks = evalm.regex_kinds(elem_ty(ty))
    n = slen(v)
    k = fresh("i")
    Fk = F.add(ge(atom(k)), lt(padd(atom(k), ONE), n))
    if infeasible(Fk, 2):
        return cx.ok()
    d = decider(Fk, 2)
    a, b = seq_at(v, atom(k), d), seq_at(v, padd(atom(k), ONE), d)
    if a is None or b is None:
        return cx.fail(path, "elements are not in closed form")
    bad = band(is_kind(a, ks["glob"]), bnot(is_kind(b, ks["bell"])))
    if bad is False or infeasible(Fk.add(bad), 4):
        return cx.ok()
    cx.fail(path, "a wildcard may follow a glob")


def is_kind(x, k):
    if x.tag == "en":
        return x.args[1] == k
    if x.tag == "ite":
        return bor(band(x.args[0], is_kind(x.args[1], k)), band(bnot(x.args[0]), is_kind(x.args[2], k)))
    if x.tag == "symv":
        return isv(x.args[0], k)
    return mk("isv", x, k)


def eta_any(v):
    if len(v.args[0]) != 1 or v.args[0][0].tag != "comp":
        return None
    n, l = v.args[0][0].args
    k = fresh()
    e = app(l, atom(k))
    if e.tag == "symv":
        e = e.args[0]
    elif e.tag == "poly":
        e = as_atom(e)
    if e is not None and isinstance(e, N) and e.tag == "at" and e.args[1] is atom(k) and k not in e.args[0].syms and n is tlen(e.args[0]):
        return e.args[0]
    return None
