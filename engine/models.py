"""Meaning of the standard-library functions the crate calls, as transfer functions of the abstract domain."""
from terms import *
from values import *
import values as V
import terms as T
import facts as FX
from facts import prove, infeasible, equal, decider
import layout as LY
import interp as IP
from interp import Incomplete, State, subvals, strip_generics, fkey
import loops

M = {}


def model(*keys):
    def d(f):
        for k in keys:
            M[k] = f
        return f
    return d


def get(key):
    return M.get(key)


# ---------------------------------------------------------------- helpers
def loc(I, st, v):
    """location a reference points at, seeing through nested references"""
    cur = I.deref_value(st, v)
    while True:
        x = I.read(st, cur)
        if isinstance(x, N) and x.tag in ("mref", "ref"):
            cur = I.deref_value(st, x)
            continue
        if isinstance(x, N) and x.tag == "symv" and x.args[1][0] == "ref":
            cur = I.deref_value(st, x)
            continue
        return cur


def rd(I, st, v):
    """value with all references removed"""
    n = 0
    while isinstance(v, N) and (v.tag in ("ref", "mref") or (v.tag == "symv" and v.args[1][0] == "ref")):
        v = I.read(st, I.deref_value(st, v))
        n += 1
        if n > 20:
            raise Incomplete("reference chain")
    return v


def ret(st, v):
    return [(st, "ret", v)]


def is_it(v):
    return isinstance(v, N) and v.tag == "it"


def is_range(v):
    return isinstance(v, N) and v.tag == "agg" and v.args[0] in ("std::ops::Range", "std::ops::RangeInclusive")


def is_seq(v):
    return isinstance(v, N) and (v.tag == "seq" or (v.tag == "ite" and is_seq(v.args[1]) and is_seq(v.args[2])))


def the_seq(I, st, v):
    """a sequence value out of a slice/vec/array (through references); list of (state, seq)"""
    v = rd(I, st, v)
    if v.tag == "ite":
        out = []
        for s, tr in I.split(st, v.args[0]):
            out += the_seq(I, s, v.args[1] if tr else v.args[2])
        return out
    if v.tag != "seq":
        raise Incomplete("sequence expected: " + v.tag)
    return [(st, v)]


def one_seq(I, st, v):
    r = the_seq(I, st, v)
    if len(r) != 1:
        raise Incomplete("conditional sequence")
    return r[0][1]


def seq_it(S, lo=None, hi=None):
    return mk("it", "seq", S, lo if lo is not None else ZERO, hi if hi is not None else slen(S))


def bounded(k, n):
    return (ge(atom(k)), lt(atom(k), n))


def is_some(v):
    return isvar(v, 1)


def isvar(v, k):
    """boolean: enum value v is variant k"""
    if v.tag == "en":
        return v.args[1] == k
    if v.tag == "ite":
        return T.ite(v.args[0], isvar(v.args[1], k), isvar(v.args[2], k))
    if v.tag == "symv":
        return isv(v.args[0], k)
    raise Incomplete("variant of " + v.tag + (" " + str(v.args[0]) if v.tag == "agg" else ""))


def payload(v, k, j=0):
    if v.tag == "en":
        return v.args[2][j] if v.args[1] == k else None
    if v.tag == "ite":
        a, b = payload(v.args[1], k, j), payload(v.args[2], k, j)
        if a is None:
            return b
        if b is None:
            return a
        return T.ite(v.args[0], a, b)
    if v.tag == "symv":
        t, ty = v.args
        vs = V.variants(strip(ty))
        if vs is None:
            raise Incomplete("payload of opaque")
        ft = vs[k][j]
        return mk_value(typed(mk("pl", t, k, j), ft), ft)
    raise Incomplete("payload of " + v.tag)


def cases(I, st, v, k):
    """[(state, is variant k)]"""
    return I.split(st, isvar(v, k))


# ---------------------------------------------------------------- iterators
def as_it(I, st, v):
    """make an iterator of an IntoIterator value: list of (state, it)"""
    if is_it(v):
        return [(st, v)]
    if is_range(v):
        a, b = v.args[1][:2]
        out = []
        for s, tr in I.split(st, le(a, b)):
            if tr:
                k = fresh()
                out.append((s, seq_it(seq((comp(psub(b, a), lam(k, padd(a, atom(k)))),)))))
            else:
                out.append((s, seq_it(EMPTYSEQ)))
        return out
    if v.tag == "agg" and v.args[0] == "std::ops::RangeFrom":
        return [(st, mk("it", "from", v.args[1][0]))]
    if v.tag == "seq":
        return [(st, seq_it(v))]
    if v.tag == "ite":
        out = []
        for s, tr in I.split(st, v.args[0]):
            out += as_it(I, s, v.args[1] if tr else v.args[2])
        return out
    if v.tag == "ref":
        w = rd(I, st, v)
        if w.tag == "seq":
            return [(st, seq_it(map_seq(w, lambda i, e: ref(e))))]
        if w.tag == "ite":
            out = []
            for s, tr in I.split(st, w.args[0]):
                out += as_it(I, s, ref(w.args[1] if tr else w.args[2]))
            return out
        if w.tag in ("en", "symv") and opt_like(w):
            return option_it(I, st, w, lambda x: ref(x))
        if w.tag == "symv":
            return [(st, opaque_it(I, st, mk("uf", "iter", True, w), w.args[1], True))]
    if v.tag == "mref":
        cur = loc(I, st, v)
        w = I.read(st, cur)
        if is_it(w) or is_range(w):
            return [(st, mk("it", "by", v))]
        if w.tag in ("seq", "ite") and cur[0] == "mem":
            n = slen(w)
            k = fresh()
            return [(st, seq_it(seq((comp(n, lam(k, mref(cur[1], cur[2] + (("i", atom(k)),)))),))))]
    if v.tag in ("en",) and v.args[0] == OPT or (v.tag == "symv" and opt_like(v)):
        return option_it(I, st, v, lambda x: x)
    if v.tag == "symv":
        return [(st, opaque_it(I, st, v.args[0], v.args[1], False))]
    if v.tag == "agg" and v.args[0] == "HSet":
        st.inexact("iteration over a hash set")
        return [(st, seq_it(v.args[1][0]))]
    if v.tag == "ref" and rd(I, st, v).tag == "agg" and rd(I, st, v).args[0] == "HSet":
        st.inexact("iteration over a hash set")
        return [(st, seq_it(map_seq(rd(I, st, v).args[1][0], lambda i, e: ref(e))))]
    if v.tag == "agg":
        r = local_it(I, st, v)
        if r is not None:
            return r
    raise Incomplete("iterator of " + v.tag)


def opt_like(v):
    if v.tag == "en":
        return v.args[0] == OPT
    return v.tag == "symv" and v.args[1][0] == "adt" and v.args[1][1] == OPT


def option_it(I, st, v, f):
    out = []
    for s, tr in cases(I, st, v, 1):
        out.append((s, seq_it(lit([f(payload(v, 1))]) if tr else EMPTYSEQ)))
    return out


def opaque_it(I, st, t, ty, byref):
    item = I.item_ty(ty)
    if item is None:
        raise Incomplete("items of an opaque iterator")
    if byref and item[0] == "tuple" and strip(ty)[1].endswith("HashMap"):
        item = ("tuple", tuple(("ref", False, x) for x in item[1]))
    elif byref and item[0] != "ref":
        item = ("ref", False, item)
    typed(t, ty)
    n = atom(typed(mk("len", t), USIZE))
    k = fresh()
    return seq_it(seq((comp(n, lam(k, mk_value(typed(mk("at", t, atom(k)), item), item))),)))


def local_it(I, st, v):
    """local iterator structs with a plain reading: rows of a bell slice"""
    if LY.NAMES.get("Iter") and v.args[0] == LY.NAMES["Iter"]:
        a = I.P.adts[v.args[0]]
        ty = ("adt", v.args[0], ())
        sf = LY.ssv_fields(ty)
        if sf is None:
            return None
        bells = rd(I, st, v.args[1][sf[0]])
        stage = v.args[1][sf[1]]
        n = slen(bells)
        sa = as_atom(stage)
        q = None
        if sa is not None:
            q = pdiv_exact(n, sa)
        if q is None and cval(stage):
            c = cval(stage)
            if all(x % c == 0 for m, x in n.args[0]):
                q = T._poly({m: x // c for m, x in n.args[0]})
        if q is None:
            return None
        return [(st, seq_it(rows_of(I, st, bells, stage, q)))]
    return [(st, mk("it", "local", v))]


def rows_of(I, st, bells, stage, n):
    """sequence of references to the row slices bells[r*stage .. (r+1)*stage]"""
    r = fresh()
    j = fresh()
    fs = st.facts.add(*bounded(r, n), *bounded(j, stage))
    d = decider(fs, 2)
    e = seq_at(bells, padd(pmul(atom(r), stage), atom(j)), d)
    if e is None:
        e = I.opaque_at(bells, padd(pmul(atom(r), stage), atom(j)))
    return seq((comp(n, lam(r, ref(seq((comp(stage, lam(j, e)),))))),))


def nxt(I, st, it, back=False):
    """advance: [(state, 'item'|'end'|'panic'|'retry', item, iterator)]"""
    if is_range(it):
        a, b = it.args[1][:2]
        out = []
        for s, tr in I.split(st, lt(a, b)):
            if not tr:
                out.append((s, "end", None, it))
            elif back:
                out.append((s, "item", psub(b, ONE), agg(it.args[0], (a, psub(b, ONE)) + it.args[1][2:])))
            else:
                out.append((s, "item", a, agg(it.args[0], (padd(a, ONE), b) + it.args[1][2:])))
        return out
    if it.tag == "agg" and it.args[0] == "std::ops::RangeFrom":
        a = it.args[1][0]
        return [(st, "item", a, agg(it.args[0], (padd(a, ONE),)))]
    if it.tag == "agg":
        return local_next(I, st, it, back)
    if it.tag == "ite":
        out = []
        for s, tr in I.split(st, it.args[0]):
            out += nxt(I, s, it.args[1] if tr else it.args[2], back)
        return out
    if it.tag == "symv":
        r = as_it(I, st, it)
        return nxt(I, r[0][0], r[0][1], back)
    if it.tag != "it":
        raise Incomplete("next of " + it.tag)
    k = it.args[0]
    if k == "seq":
        S, lo, hi = it.args[1:]
        out = []
        for s, tr in I.split(st, lt(lo, hi)):
            if not tr:
                out.append((s, "end", None, it))
                continue
            i = psub(hi, ONE) if back else lo
            e = seq_at(S, i, decider(s.facts, 2))
            if e is None:
                e = I.opaque_at(S, i)
            out.append((s, "item", e, mk("it", "seq", S, lo, i) if back else mk("it", "seq", S, padd(lo, ONE), hi)))
        return out
    if k == "from":
        return [(st, "item", it.args[1], mk("it", "from", padd(it.args[1], ONE)))]
    if k == "repeat":
        return [(st, "item", it.args[1], it)]
    if k == "by":
        cur = loc(I, st, it.args[1])
        out = []
        for s, tag, x, i2 in nxt(I, st, I.read(st, cur), back):
            s = s.fork()
            if i2 is not None:
                I.write(s, cur, i2)
            out.append((s, tag, x, it))
        return out
    if k == "local":
        out = []
        for s, tag, x, i2 in local_next(I, st, it.args[1], back):
            out.append((s, tag, x, mk("it", "local", i2) if i2 is not None else None))
        return out
    if k == "map":
        out = []
        for s, tag, x, i2 in nxt(I, st, it.args[1], back):
            if tag != "item":
                out.append((s, tag, x, mk("it", "map", i2, it.args[2]) if i2 is not None else None))
                continue
            for s2, tag2, y in call_mut(I, s, it.args[2], [x]):
                if tag2 == "ret":
                    out.append((s2, "item", y[0], mk("it", "map", i2, y[1])))
                else:
                    out.append((s2, "panic", y, None))
        return out
    if k == "filter":
        out = []
        for s, tag, x, i2 in nxt(I, st, it.args[1], back):
            if tag != "item":
                out.append((s, tag, x, mk("it", "filter", i2, it.args[2]) if i2 is not None else None))
                continue
            for s2, tag2, y in call_mut(I, s, it.args[2], [ref(x)]):
                if tag2 != "ret":
                    out.append((s2, "panic", y, None))
                    continue
                n2 = mk("it", "filter", i2, y[1])
                for s3, tr in I.split(s2, y[0]):
                    out.append((s3, "item", x, n2) if tr else (s3, "retry", None, n2))
        return out
    if k == "fmap":
        out = []
        for s, tag, x, i2 in nxt(I, st, it.args[1], back):
            if tag != "item":
                out.append((s, tag, x, mk("it", "fmap", i2, it.args[2]) if i2 is not None else None))
                continue
            for s2, tag2, y in call_mut(I, s, it.args[2], [x]):
                if tag2 != "ret":
                    out.append((s2, "panic", y, None))
                    continue
                n2 = mk("it", "fmap", i2, y[1])
                for s3, tr in cases(I, s2, y[0], 1):
                    out.append((s3, "item", payload(y[0], 1), n2) if tr else (s3, "retry", None, n2))
        return out
    if k == "twhile":
        it1, f, done = it.args[1:]
        if done is True:
            return [(st, "end", None, it)]
        out = []
        for s, tag, x, i2 in nxt(I, st, it1, back):
            if tag != "item":
                out.append((s, tag, x, mk("it", "twhile", i2, f, done) if i2 is not None else None))
                continue
            for s2, tag2, y in call_mut(I, s, f, [ref(x)]):
                if tag2 != "ret":
                    out.append((s2, "panic", y, None))
                    continue
                for s3, tr in I.split(s2, y[0]):
                    out.append((s3, "item", x, mk("it", "twhile", i2, y[1], done)) if tr
                               else (s3, "end", None, mk("it", "twhile", i2, y[1], True)))
        return out
    if k == "enum":
        if back:
            raise Incomplete("next_back of enumerate")
        out = []
        for s, tag, x, i2 in nxt(I, st, it.args[1]):
            if tag == "item":
                out.append((s, tag, tup(it.args[2], x), mk("it", "enum", i2, padd(it.args[2], ONE))))
            else:
                out.append((s, tag, x, mk("it", "enum", i2, it.args[2]) if i2 is not None else None))
        return out
    if k == "zip":
        if back:
            raise Incomplete("next_back of zip")
        out = []
        for s, tag, x, i2 in nxt(I, st, it.args[1]):
            if tag != "item":
                out.append((s, tag, x, mk("it", "zip", i2, it.args[2]) if i2 is not None else None))
                continue
            for s2, tag2, y, i3 in nxt(I, s, it.args[2]):
                if tag2 == "item":
                    out.append((s2, "item", tup(x, y), mk("it", "zip", i2, i3)))
                elif tag2 == "retry":
                    raise Incomplete("zip of a filtered iterator")
                else:
                    out.append((s2, tag2, y, mk("it", "zip", i2, i3) if i3 is not None else None))
        return out
    if k == "zipeq":
        out = []
        for s, tag, x, i2 in nxt(I, st, it.args[1]):
            for s2, tag2, y, i3 in nxt(I, s, it.args[2]):
                if tag == "item" and tag2 == "item":
                    out.append((s2, "item", tup(x, y), mk("it", "zipeq", i2, i3)))
                elif tag == "end" and tag2 == "end":
                    out.append((s2, "end", None, mk("it", "zipeq", i2, i3)))
                elif "panic" in (tag, tag2):
                    out.append((s2, "panic", x if tag == "panic" else y, None))
                elif "retry" in (tag, tag2):
                    raise Incomplete("zip_eq of a filtered iterator")
                else:
                    out.append((s2, "panic", "zip_eq", None))
        return out
    if k == "rev":
        return [(s, tag, x, mk("it", "rev", i2) if i2 is not None else None) for s, tag, x, i2 in nxt(I, st, it.args[1], not back)]
    if k == "chain":
        a, b = (it.args[2], it.args[1]) if back else (it.args[1], it.args[2])
        out = []
        for s, tag, x, i2 in nxt(I, st, a, back):
            if tag == "end":
                for s2, tag2, y, i3 in nxt(I, s, b, back):
                    out.append((s2, tag2, y, (mk("it", "chain", i3, i2) if back else mk("it", "chain", i2, i3)) if i3 is not None else None))
            else:
                out.append((s, tag, x, (mk("it", "chain", b, i2) if back else mk("it", "chain", i2, b)) if i2 is not None else None))
        return out
    if k == "take":
        n = it.args[2]
        out = []
        for s, tr in I.split(st, lt(ZERO, n)):
            if not tr:
                out.append((s, "end", None, it))
                continue
            for s2, tag, x, i2 in nxt(I, s, it.args[1], back):
                out.append((s2, tag, x, mk("it", "take", i2, psub(n, ONE)) if i2 is not None else None))
        return out
    if k == "cloned":
        out = []
        for s, tag, x, i2 in nxt(I, st, it.args[1], back):
            out.append((s, tag, I.read(s, I.deref_value(s, x)) if tag == "item" else x, mk("it", "cloned", i2) if i2 is not None else None))
        return out
    if k == "peek":
        return [(s, tag, x, mk("it", "peek", i2) if i2 is not None else None) for s, tag, x, i2 in nxt(I, st, it.args[1], back)]
    if k == "cycle":
        S, pos = it.args[1:]
        n = slen(S)
        out = []
        for s, tr in I.split(st, eqp(n, ZERO)):
            if tr:
                out.append((s, "end", None, it))
                continue
            e = seq_at(S, pmodc(pos, n), decider(s.facts, 2))
            if e is None:
                e = I.opaque_at(S, pmodc(pos, n))
            out.append((s, "item", e, mk("it", "cycle", S, padd(pos, ONE))))
        return out
    if k == "repwith":
        out = []
        for s2, tag2, y in call_mut(I, st, it.args[1], []):
            out.append((s2, "item", y[0], mk("it", "repwith", y[1])) if tag2 == "ret" else (s2, "panic", y, None))
        return out
    raise Incomplete("iterator " + k)


def local_next(I, st, v, back):
    """call the crate's own Iterator::next on a struct value"""
    meth = "next_back" if back else "next"
    tr = "DoubleEndedIterator" if back else "Iterator"
    for im in I.P.impls:
        if im["trait"] and im["trait"].split("::")[-1].split("<")[0] == tr and meth in im["items"]:
            pt = I.P.ty(im["self"])
            if pt[0] == "adt" and pt[1] == v.args[0]:
                g = I.P.fns.get(im["items"][meth])
                if g is None or not g.get("body"):
                    continue
                s = st.fork()
                a = I.new_alloc(s, v)
                out = []
                for s2, tag, r in I.run_fn(g, [mref(a)], {}, s):
                    if tag != "ret":
                        out.append((s2, "panic", r, None))
                        continue
                    nv = s2.mem.get(a)
                    for s3, tr_ in cases(I, s2, r, 1):
                        out.append((s3, "item", payload(r, 1), nv) if tr_ else (s3, "end", None, nv))
                return out
    raise Incomplete("next of " + v.args[0])


def call_mut(I, st, f, args):
    """call a closure stored by value, keeping its updated environment: (state, 'ret', (value, closure))"""
    if isinstance(f, N) and f.tag == "agg" and f.args[0].startswith("clo:"):
        s = st.fork()
        a = I.new_alloc(s, f)
        out = []
        for s2, tag, v in I.call_value(s, mref(a), args):
            if tag == "ret":
                nf = s2.mem.get(a, f)
                s2 = s2.fork()
                s2.mem.pop(a, None)
                out.append((s2, "ret", (v, nf)))
            else:
                out.append((s2, tag, v))
        return out
    return [(s2, tag, (v, f) if tag == "ret" else v) for s2, tag, v in I.call_value(st, f, args)]


# ---- bulk reading of pure iterators
def pure_seq(I, st, it, panics):
    """sequence of all items when the iterator is pure and finite; None otherwise.  Panic conditions are appended."""
    if is_range(it) or it.tag != "it":
        r = as_it(I, st, it)
        if len(r) != 1:
            return None
        it = r[0][1]
        if not is_it(it):
            return None
    k = it.args[0]
    if k == "seq":
        S, lo, hi = it.args[1:]
        if lo is ZERO and hi is slen(S):
            return S
        if not prove(st.facts, le(lo, hi), 2):
            return None
        r = slice_seq(S, lo, hi, decider(st.facts, 2))
        return r if r is not None else I.opaque_slice(S, lo, hi)
    if k == "map":
        S = pure_seq(I, st, it.args[1], panics)
        if S is None:
            return None
        return pure_map(I, st, S, it.args[2], panics)
    if k == "filter":
        S = pure_seq(I, st, it.args[1], panics)
        if S is None:
            return None
        return pure_filter(I, st, S, it.args[2], panics)
    if k == "fmap":
        S = pure_seq(I, st, it.args[1], panics)
        if S is None:
            return None
        S2 = pure_map(I, st, S, it.args[2], panics)
        if S2 is None:
            return None
        return parts_cat(S2, lambda e: ite_seq(isvar(e, 1), lambda: lit([payload(e, 1)])))
    if k == "enum":
        S = pure_seq(I, st, it.args[1], panics)
        if S is None or any(p.tag != "comp" for p in S.args[0]):
            return None
        return map_seq(S, lambda i, e: tup(padd(it.args[2], i), e))
    if k in ("zip", "zipeq"):
        A = pure_seq(I, st, it.args[1], panics)
        if A is None:
            return None
        if it.args[2].tag == "it" and it.args[2].args[0] == "from":
            if any(p.tag != "comp" for p in A.args[0]):
                return None
            return map_seq(A, lambda i, e: tup(e, padd(it.args[2].args[1], i)))
        B = pure_seq(I, st, it.args[2], panics)
        if B is None:
            return None
        return zip_seq(I, st, A, B, panics if k == "zipeq" else None)
    if k == "rev":
        S = pure_seq(I, st, it.args[1], panics)
        return rev_seq(S) if S is not None else None
    if k == "chain":
        A = pure_seq(I, st, it.args[1], panics)
        B = pure_seq(I, st, it.args[2], panics) if A is not None else None
        return concat(A, B) if B is not None else None
    if k == "take":
        n = it.args[2]
        inner = it.args[1]
        if inner.tag == "it" and inner.args[0] in ("cycle", "repeat", "from") or (inner.tag == "agg" and inner.args[0].endswith("RangeFrom")):
            kk = fresh()
            r = nth_of(I, st.assume(*bounded(kk, n)), inner, atom(kk))
            return None if r is None else seq((comp(n, lam(kk, r)),))
        S = pure_seq(I, st, inner, panics)
        if S is None:
            return None
        ln = slen(S)
        d = decider(st.facts, 2)
        if d(le(n, ln)) is True:
            return slice_seq(S, ZERO, n, d)
        if d(le(ln, n)) is True:
            return S
        x = slice_seq(S, ZERO, n, decider(st.facts.add(le(n, ln)), 2))
        if x is None or len(S.args[0]) != 1 or S.args[0][0].tag != "comp":
            return None
        return seq((comp(T.ite(le(n, ln), n, ln), S.args[0][0].args[1]),))
    if k == "cloned":
        S = pure_seq(I, st, it.args[1], panics)
        return None if S is None else map_seq(S, lambda i, e: rd1(I, st, e))
    if k == "peek":
        return pure_seq(I, st, it.args[1], panics)
    if k == "by":
        return None
    if k == "flatmap":
        S = pure_seq(I, st, it.args[1], panics)
        if S is None:
            return None
        return pure_flatmap(I, st, S, it.args[2], panics)
    return None


def nth_of(I, st, it, i):
    if it.tag == "agg":
        return padd(it.args[1][0], i)
    k = it.args[0]
    if k == "repeat":
        return it.args[1]
    if k == "from":
        return padd(it.args[1], i)
    if k == "cycle":
        S, pos = it.args[1:]
        if not prove(st.facts, lt(ZERO, slen(S)), 2):
            return None
        return seq_at(S, pmodc(padd(pos, i), slen(S)), decider(st.facts, 2))
    return None


def rd1(I, st, e):
    return I.read(st, I.deref_value(st, e))


def ite_seq(c, f):
    if c is False:
        return EMPTYSEQ
    v = f()
    return T.ite(c, v, EMPTYSEQ)


def parts_cat(S, f):
    """concatenate f(e) over the elements"""
    out = []
    for p in S.args[0]:
        n, l = p.args
        k = fresh()
        if p.tag == "comp":
            out.append(cat(n, lam(k, f(app(l, atom(k))))))
        else:
            b = app(l, atom(k))
            r = cat_any(b, f)
            if r is None:
                return None
            out.append(cat(n, lam(k, r)))
    return seq(out)


def cat_any(b, f):
    if b.tag == "ite":
        x, y = cat_any(b.args[1], f), cat_any(b.args[2], f)
        return None if x is None or y is None else T.ite(b.args[0], x, y)
    return parts_cat(b, f)


def bound_facts(k, n):
    return [ge(atom(k)), lt(atom(k), n)]


def pure_map(I, st, S, f, panics):
    out = []
    for p in S.args[0]:
        n, l = p.args
        k = fresh()
        if p.tag == "comp":
            r = I.pure_eval(st, f, [app(l, atom(k))], bound_facts(k, n))
            if r is None:
                return None
            v, ps = r
            for c, why in ps:
                panics.append((exists_(n, lam(k, c)), why))
            if v is None:
                # no element gets through (it always panics, or there are none): past this point there are none
                continue
            out.append(comp(n, lam(k, v)))
        else:
            ps2 = []
            b = map_cond(I, st, app(l, atom(k)), f, ps2, bound_facts(k, n))
            if b is None:
                return None
            for c, why in ps2:
                panics.append((exists_(n, lam(k, c)), why))
            out.append(mk(p.tag, n, lam(k, b)))
    return seq(out)


def map_cond(I, st, b, f, ps, fs):
    if b.tag == "ite":
        x = map_cond(I, st, b.args[1], f, p1 := [], fs + [b.args[0]])
        y = map_cond(I, st, b.args[2], f, p2 := [], fs + [bnot(b.args[0])])
        if x is None or y is None:
            return None
        ps += [(band(b.args[0], c), w) for c, w in p1] + [(band(bnot(b.args[0]), c), w) for c, w in p2]
        return T.ite(b.args[0], x, y)
    return pure_map(I, st.assume(*fs), b, f, ps)


def pure_filter(I, st, S, f, panics):
    conds = pure_map(I, st, map_seq(S, lambda i, e: ref(e)), f, panics)
    if conds is None:
        return None
    out = []
    for p, q in zip_parts(S, conds):
        n, l = p.args
        k = fresh()
        if p.tag != "comp":
            return None
        e, c = app(l, atom(k)), app(q, atom(k))
        out.append(cat(n, lam(k, ite_seq(c, lambda: lit([e])))))
    return seq(out)


def zip_parts(S, C):
    """parts of S together with the functions of C over the same index ranges"""
    res = []
    off = ZERO
    for p in S.args[0]:
        if p.tag != "comp":
            res.append((p, None))
            continue
        n = p.args[0]
        k = fresh()
        v = seq_at_cases(C, off, k, n)
        res.append((p, lam(k, v) if v is not None else None))
        off = padd(off, n)
    for p, q in res:
        if q is None:
            raise Incomplete("filter over an irregular sequence")
    return res


def seq_at_cases(C, off, k, n):
    # C was produced part by part from S, only adjacent parts may have been merged
    o = ZERO
    for p in C.args[0]:
        if p.tag != "comp":
            return None
        rel = psub(off, o)
        c = cval(psub(rel, ZERO))
        end = psub(padd(o, p.args[0]), off)
        if rel is ZERO or (c is not None and c >= 0):
            # does the part cover [off, off+n)?
            if end is n or (cval(psub(end, n)) is not None and cval(psub(end, n)) >= 0) or len(C.args[0]) == 1:
                return app(p.args[1], padd(rel, atom(k)))
        o = padd(o, p.args[0])
    return seq_at(C, padd(off, atom(k)))


def pure_flatmap(I, st, S, f, panics):
    out = []
    for p in S.args[0]:
        n, l = p.args
        if p.tag != "comp":
            return None
        k = fresh()
        fs = bound_facts(k, n)
        if f is None:
            v, ps = app(l, atom(k)), []
        else:
            r = I.pure_eval(st, f, [app(l, atom(k))], fs)
            if r is None:
                return None
            v, ps = r
        for c, why in ps:
            panics.append((exists_(n, lam(k, c)), why))
        ps2 = []
        b = inner_seq(I, st.assume(*fs), v, ps2)
        if b is None:
            return None
        for c, why in ps2:
            panics.append((exists_(n, lam(k, c)), why))
        out.append(cat(n, lam(k, b)))
    return seq(out)


def inner_seq(I, st, v, ps):
    if isinstance(v, N) and v.tag == "ite":
        a, b = inner_seq(I, st.assume(v.args[0]), v.args[1], ps), inner_seq(I, st.assume(bnot(v.args[0])), v.args[2], ps)
        return None if a is None or b is None else T.ite(v.args[0], a, b)
    r = as_it(I, st, v)
    if len(r) == 1:
        return pure_seq(I, r[0][0], r[0][1], ps)
    acc = None
    for s, it in reversed(r):
        x = pure_seq(I, s, it, ps)
        if x is None:
            return None
        c = band(*[f for f in s.facts.items if f not in st.facts.set])
        acc = x if acc is None else T.ite(c, x, acc)
    return acc


def zip_seq(I, st, A, B, panics):
    na, nb = slen(A), slen(B)
    d = decider(st.facts, 2)
    if panics is not None:
        c = bnot(eqp(na, nb))
        if d(c) is not False:
            panics.append((c, "zip_eq"))
        n = na
    elif d(le(na, nb)) is True:
        n = na
    elif d(le(nb, na)) is True:
        n = nb
    else:
        n = T.ite(le(na, nb), na, nb)
    # part by part along A when indices are regular
    k = fresh()
    fs = st.facts.add(*bounded(k, n))
    dk = decider(fs, 2)
    if any(p.tag != "comp" for p in A.args[0] + B.args[0]):
        x = seq_at(A, atom(k), dk)
        y = seq_at(B, atom(k), dk)
        if x is None:
            x = I.opaque_at(A, atom(k))
        if y is None:
            y = I.opaque_at(B, atom(k))
        return seq((comp(n, lam(k, tup(x, y))),))
    if n is na and len(A.args[0]) > 1:
        out = []
        off = ZERO
        for p in A.args[0]:
            kk = fresh()
            dd = decider(st.facts.add(*bounded(kk, p.args[0])), 2)
            y = seq_at(B, padd(off, atom(kk)), dd)
            out.append(comp(p.args[0], lam(kk, tup(app(p.args[1], atom(kk)), y))))
            off = padd(off, p.args[0])
        return seq(out)
    x, y = seq_at(A, atom(k), dk), seq_at(B, atom(k), dk)
    return seq((comp(n, lam(k, tup(x, y))),))


def bulk(I, st, it):
    """(ok, panic outcomes): ok = [(state, sequence)] or None when the iterator is not pure"""
    res, outs = [], []
    n_alloc = dict(st.mem)
    for s, i in as_it(I, st, it):
        ps = []
        S = pure_seq(I, s, i, ps)
        if S is None:
            return None
        cur = s
        for c, why in ps:
            nxt_ = None
            for s2, tr in I.split(cur, c):
                if tr:
                    outs.append((s2, "panic", why))
                else:
                    nxt_ = s2
            cur = nxt_
            if cur is None:
                break
        if cur is not None:
            res.append((cur, S))
    return res, outs


def drive(I, st, it, body, acc0):
    """consume an impure iterator: body(state, acc, item) -> [(state, 'cont'|'stop'|'panic', acc)]"""
    outs_all = []
    for s0, i0 in as_it(I, st, it):
        s0 = s0.fork()
        a = I.new_alloc(s0, i0)
        b = I.new_alloc(s0, acc0)

        def step(s):
            outs = []
            for s1, tag, x, i2 in nxt(I, s, s.mem[a]):
                if tag == "panic":
                    outs.append((s1, "panic", x))
                    continue
                s1 = s1.fork()
                s1.mem[a] = i2
                if tag == "end":
                    outs.append((s1, "done", s1.mem[b]))
                elif tag == "retry":
                    outs.append((s1, "back", None))
                else:
                    for s2, t2, acc in body(s1, s1.mem[b], x):
                        if t2 == "panic":
                            outs.append((s2, "panic", acc))
                            continue
                        s2 = s2.fork()
                        s2.mem[b] = acc
                        outs.append((s2, "back", None) if t2 == "cont" else (s2, "done", acc))
            return outs
        I.stats["loops"] += 1
        for s, tag, v in loops.accelerate(I, s0, step):
            if tag == "done":
                s = s.fork()
                v = s.mem[b]
                iv = s.mem[a]
                s.mem.pop(a, None)
                s.mem.pop(b, None)
                outs_all.append((s, "ret", v, iv))
            else:
                outs_all.append((s, tag, v, None))
    return outs_all


def lazy_or_seq(I, st, it):
    """turn a pure, panic-free iterator into its item sequence"""
    if is_it(it) and it.args[0] == "seq":
        return it
    ps = []
    try:
        S = pure_seq(I, st, it, ps)
    except Incomplete:
        return it
    if S is not None and not [c for c, w in ps if not prove(st.facts, bnot(c), 2)]:
        if all(p.tag in ("comp", "flat") for p in S.args[0]):
            return seq_it(S)
    return it


# ---------------------------------------------------------------- Iterator methods
@model("IntoIterator::into_iter", "[T]::iter", "[T]::iter_mut", "Vec::into_iter", "Option::iter", "Option::into_iter")
def m_into_iter(I, st, a, info):
    return [(s, "ret", i) for s, i in into(I, st, a[0], info)]


def into(I, st, v, info):
    if is_it(v) or is_range(v) or (v.tag == "agg" and v.args[0].endswith("RangeFrom")):
        return [(st, v)]
    m = hm_type(I, st, v)
    if m is not None and v.tag != "mref":
        return hm_entries(I, st, m, "iter" if v.tag == "ref" else "into_iter")
    return as_it(I, st, v)


def receiver(I, st, v):
    cur = loc(I, st, v)
    return cur, I.read(st, cur)


@model("Iterator::next", "DoubleEndedIterator::next_back")
def m_next(I, st, a, info):
    cur, it = receiver(I, st, a[0])
    out = []
    for s, tag, x, i2 in nxt(I, st, it, info.key.endswith("next_back")):
        s = s.fork()
        if i2 is not None and i2 is not it:
            I.write(s, cur, i2)
        if tag == "item":
            out.append((s, "ret", some(x)))
        elif tag == "end":
            out.append((s, "ret", NONE))
        elif tag == "retry":
            out.append((s, "retry", None))
        else:
            out.append((s, "panic", x))
    return out


def adapter(kind):
    def f(I, st, a, info):
        out = []
        for s, it in into(I, st, a[0], info):
            n = mk("it", kind, it, *a[1:])
            out.append((s, "ret", lazy_or_seq(I, s, n)))
        return out
    return f


M["Iterator::map"] = adapter("map")
M["Iterator::filter"] = adapter("filter")
M["Iterator::filter_map"] = adapter("fmap")
M["Iterator::rev"] = adapter("rev")
M["Iterator::flat_map"] = adapter("flatmap")


@model("Iterator::cloned", "Iterator::copied")
def m_cloned(I, st, a, info):
    return [(s, "ret", lazy_or_seq(I, s, mk("it", "cloned", i))) for s, i in into(I, st, a[0], info)]


@model("Iterator::flatten")
def m_flatten(I, st, a, info):
    return [(s, "ret", lazy_or_seq(I, s, mk("it", "flatmap", i, None))) for s, i in into(I, st, a[0], info)]


@model("Iterator::peekable", "Iterator::fuse", "Iterator::by_ref", "Itertools::multipeek")
def m_peekable(I, st, a, info):
    if info.key.endswith("by_ref"):
        return ret(st, a[0])
    return [(s, "ret", i) for s, i in as_it(I, st, a[0])]


@model("Peekable::peek")
def m_peek(I, st, a, info):
    cur, it = receiver(I, st, a[0])
    out = []
    for s, tag, x, i2 in nxt(I, st, it):
        if tag == "item":
            if [y for y in s.mem if s.mem[y] is not st.mem.get(y)]:
                raise Incomplete("peek of an impure iterator")
            out.append((s, "ret", some(ref(x))))
        elif tag == "end":
            out.append((s, "ret", NONE))
        elif tag == "retry":
            raise Incomplete("peek of a filtered iterator")
        else:
            out.append((s, "panic", x))
    return out


@model("Peekable::next_if")
def m_next_if(I, st, a, info):
    cur, it = receiver(I, st, a[0])
    out = []
    for s, tag, x, i2 in nxt(I, st, it):
        if tag == "item":
            for s2, t2, y in call_mut(I, s, a[1], [ref(x)]):
                if t2 != "ret":
                    out.append((s2, t2, y))
                    continue
                for s3, tr in I.split(s2, y[0]):
                    s3 = s3.fork()
                    if tr:
                        I.write(s3, cur, i2)
                    out.append((s3, "ret", some(x) if tr else NONE))
        elif tag == "end":
            out.append((s, "ret", NONE))
        else:
            raise Incomplete("next_if")
    return out


@model("Iterator::enumerate")
def m_enumerate(I, st, a, info):
    return [(s, "ret", lazy_or_seq(I, s, mk("it", "enum", i, ZERO))) for s, i in into(I, st, a[0], info)]


def both(I, st, x, y, info):
    for s, i in into(I, st, x, info):
        for s2, j in into(I, s, y, info):
            yield s2, i, j


@model("Iterator::zip", "Itertools::zip_eq", "itertools::zip_eq", "zip_eq::zip_eq", "iter::zip", "itertools::izip")
def m_zip(I, st, a, info):
    kind = "zipeq" if "zip_eq" in info.key else "zip"
    return [(s, "ret", lazy_or_seq(I, s, mk("it", kind, i, j))) for s, i, j in both(I, st, a[0], a[1], info)]


@model("Iterator::chain")
def m_chain(I, st, a, info):
    return [(s, "ret", lazy_or_seq(I, s, mk("it", "chain", i, j))) for s, i, j in both(I, st, a[0], a[1], info)]


@model("Iterator::take")
def m_take(I, st, a, info):
    return [(s, "ret", lazy_or_seq(I, s, mk("it", "take", i, a[1]))) for s, i in into(I, st, a[0], info)]


@model("Iterator::skip")
def m_skip(I, st, a, info):
    out = []
    for s, it in into(I, st, a[0], info):
        it = lazy_or_seq(I, s, it)
        if it.tag == "agg" and it.args[0].endswith("RangeFrom"):
            out.append((s, "ret", agg(it.args[0], (padd(it.args[1][0], a[1]),))))
            continue
        if is_range(it):
            for s2, i2 in as_it(I, s, it):
                out += m_skip(I, s2, [i2, a[1]], info)
            continue
        if it.tag == "it" and it.args[0] == "seq":
            S, lo, hi = it.args[1:]
            for s2, tr in I.split(s, le(padd(lo, a[1]), hi)):
                out.append((s2, "ret", mk("it", "seq", S, padd(lo, a[1]) if tr else hi, hi)))
            continue
        if it.tag == "it" and it.args[0] == "cycle":
            out.append((s, "ret", mk("it", "cycle", it.args[1], padd(it.args[2], a[1]))))
            continue
        raise Incomplete("skip of " + str(it.args[0]))
    return out


@model("Iterator::step_by")
def m_step_by(I, st, a, info):
    out = []
    n = a[1]
    for s0, tr in I.split(st, eqp(n, ZERO)):
        if tr:
            out.append((s0, "panic", "step_by(0)"))
            continue
        for s, it in as_it(I, s0, a[0]):
            it = lazy_or_seq(I, s, it)
            if not (it.tag == "it" and it.args[0] == "seq"):
                raise Incomplete("step_by")
            S = pure_seq(I, s, it, [])
            if S is None:
                raise Incomplete("step_by")
            ln = slen(S)
            cnt = pdivc(padd(ln, psub(n, ONE)), n)
            # exact multiples
            na = as_atom(n)
            if na is not None:
                q, r = split_by(ln, na)
                if cval(r) == 0:
                    cnt = q
            k = fresh()
            fs = s.facts.add(*bounded(k, cnt))
            e = seq_at(S, pmul(atom(k), n), decider(fs, 2))
            if e is None:
                e = I.opaque_at(S, pmul(atom(k), n))
            out.append((s, "ret", seq_it(seq((comp(cnt, lam(k, e)),)))))
    return out


@model("Iterator::take_while")
def m_take_while(I, st, a, info):
    return [(s, "ret", mk("it", "twhile", i, a[1], False)) for s, i in into(I, st, a[0], info)]


@model("Iterator::cycle")
def m_cycle(I, st, a, info):
    b = bulk(I, st, a[0])
    if b is None:
        raise Incomplete("cycle")
    return [(s, "ret", mk("it", "cycle", S, ZERO)) for s, S in b[0]] + b[1]


@model("iter::repeat")
def m_repeat(I, st, a, info):
    return ret(st, mk("it", "repeat", a[0]))


@model("iter::repeat_n", "iter::repeat_n::repeat_n", "itertools::repeat_n")
def m_repeat_n(I, st, a, info):
    return ret(st, seq_it(seq((comp(a[1], lam(fresh(), a[0])),))))


@model("iter::repeat_with")
def m_repeat_with(I, st, a, info):
    return ret(st, mk("it", "repwith", a[0]))


@model("iter::once", "once::once")
def m_once(I, st, a, info):
    return ret(st, seq_it(lit([a[0]])))


@model("iter::empty")
def m_empty(I, st, a, info):
    return ret(st, seq_it(EMPTYSEQ))


@model("Itertools::tuple_windows", "Itertools::circular_tuple_windows")
def m_tuple_windows(I, st, a, info):
    ty = info.dty
    w = None
    def tuples(t):
        if t[0] == "tuple":
            yield t
        for x in t[1:]:
            if isinstance(x, tuple):
                if x and isinstance(x[0], str):
                    yield from tuples(x)
                else:
                    for y in x:
                        if isinstance(y, tuple):
                            yield from tuples(y)
    ws = [len(t[1]) for t in info.targs if t[0] == "tuple"]
    if not ws:
        ws = [len(t[1]) for t in tuples(ty)]
    w = ws[-1] if ws else None
    if not w:
        raise Incomplete("tuple_windows width")
    b = bulk(I, st, a[0])
    if b is None:
        raise Incomplete("tuple_windows")
    out = list(b[1])
    for s, S in b[0]:
        n = slen(S)
        if info.key.endswith("circular_tuple_windows"):
            for s2, tr in I.split(s, eqp(n, ZERO)):
                if tr:
                    out.append((s2, "ret", seq_it(EMPTYSEQ)))
                    continue
                k = fresh()
                d = decider(s2.facts.add(*bounded(k, n)), 2)
                es = []
                for j in range(w):
                    i = padd(atom(k), const(j))
                    e = seq_at(S, atom(k), d) if j == 0 else T.ite(lt(i, n), nz(seq_at(S, i, d)), nz(seq_at(S, pmodc(psub(i, n), n), d)))
                    es.append(e)
                out.append((s2, "ret", seq_it(seq((comp(n, lam(k, tup(*es))),)))))
            continue
        for s2, tr in I.split(s, le(const(w), n)):
            if not tr:
                out.append((s2, "ret", seq_it(EMPTYSEQ)))
                continue
            k = fresh()
            m = psub(n, const(w - 1))
            d = decider(s2.facts.add(*bounded(k, m)), 2)
            es = [seq_at(S, padd(atom(k), const(j)), d) for j in range(w)]
            if any(e is None for e in es):
                es = [I.opaque_at(S, padd(atom(k), const(j))) for j in range(w)]
            out.append((s2, "ret", seq_it(seq((comp(m, lam(k, tup(*es))),)))))
    return out


def nz(x):
    if x is None:
        raise Incomplete("element")
    return x


@model("[T]::windows")
def m_windows(I, st, a, info):
    out = []
    w = a[1]
    for s0, z in I.split(st, eqp(w, ZERO)):
        if z:
            out.append((s0, "panic", "windows(0)"))
            continue
        for s, S in the_seq(I, s0, a[0]):
            n = slen(S)
            for s2, tr in I.split(s, le(w, n)):
                if not tr:
                    out.append((s2, "ret", seq_it(EMPTYSEQ)))
                    continue
                k, j = fresh(), fresh()
                m = psub(n, psub(w, ONE))
                d = decider(s2.facts.add(*bounded(k, m), *bounded(j, w)), 2)
                e = nz(seq_at(S, padd(atom(k), atom(j)), d))
                out.append((s2, "ret", seq_it(seq((comp(m, lam(k, ref(seq((comp(w, lam(j, e)),))))),)))))
    return out


@model("[T]::chunks", "[T]::chunks_exact", "[T]::chunks_mut", "[T]::chunks_exact_mut")
def m_chunks(I, st, a, info):
    out = []
    c = a[1]
    mut = info.key.endswith("_mut")
    for s0, z in I.split(st, eqp(c, ZERO)):
        if z:
            out.append((s0, "panic", "chunks(0)"))
            continue
        for s, S in the_seq(I, s0, a[0]):
            n = slen(S)
            q = None
            ca = as_atom(c)
            if ca is not None:
                q, r = split_by(n, ca)
                if cval(r) != 0:
                    q = None
            if q is None:
                if "exact" in info.key:
                    q = pdivc(n, c)
                else:
                    raise Incomplete("chunks of unknown multiple")
            if mut:
                cur = loc(I, s, a[0])
                k = fresh()
                lo = pmul(atom(k), c)
                out.append((s, "ret", seq_it(seq((comp(q, lam(k, mref(cur[1], cur[2] + (("r", lo, padd(lo, c)),)))),)))))
            else:
                out.append((s, "ret", seq_it(rows_of(I, s, S, c, q))))
    return out


# ---- consumers
def fallback(I, st, v, body, acc0, fin=lambda s, x: x):
    return [(s, tag, fin(s, x) if tag == "ret" else x) for s, tag, x, i in drive(I, st, v, body, acc0)]


def by_loc(I, st, v):
    """iterator passed by &mut: (iterator value, location) or by value: (value, None)"""
    if v.tag == "mref":
        cur = loc(I, st, v)
        x = I.read(st, cur)
        if is_it(x) or is_range(x) or x.tag in ("symv", "agg"):
            return x, cur
    return v, None


def exhaust(I, s, cur):
    """after full consumption of a by-reference iterator"""
    if cur is None:
        return s
    s = s.fork()
    I.write(s, cur, seq_it(EMPTYSEQ))
    return s


def collect_seq(I, st, v):
    """outcomes with the item sequence"""
    v, cur = by_loc(I, st, v)
    b = bulk(I, st, v)
    if b is not None:
        return [(exhaust(I, s, cur), "ret", S) for s, S in b[0]] + b[1]

    def body(s, acc, x):
        return [(s, "cont", concat(acc, lit([x])))]
    return [(exhaust(I, s, cur) if tag == "ret" else s, tag, x) for s, tag, x in fallback(I, st, v, body, EMPTYSEQ)]


@model("Iterator::collect", "Itertools::collect_vec", "FromIterator::from_iter", "Itertools::try_collect", "Iterator::try_collect",
       "iter::FromIterator::from_iter")
def m_collect(I, st, a, info):
    ty = info.dty
    if info.key == "Itertools::collect_vec" and (ty is None or elem_ty(strip(ty)) is None):
        return collect_seq(I, st, a[0])
    return collect_ty(I, st, a[0], ty)


def collect_ty(I, st, v, ty):
    s_ = strip(ty)
    if ty[0] == "adt":
        g = from_iter_local(I, ty)
        if g is not None:
            return I.run_fn(g, [v], {"I": None} and {}, st)
    if elem_ty(s_) is not None:
        return [(s, tag, name_seq(S, s_) if tag == "ret" else S) for s, tag, S in collect_seq(I, st, v)]
    if s_[0] == "adt" and s_[1] in (RES, OPT):
        okv = 0 if s_[1] == RES else 1
        out = []
        inner = s_[2][0]
        for s, tag, S in collect_seq(I, st, v):
            if tag != "ret":
                out.append((s, tag, S))
                continue
            out += collect_try(I, s, S, s_[1], okv, inner)
        return out
    if s_[0] == "adt" and s_[1].endswith("HashSet"):
        return [(s, tag, agg("HSet", (S,)) if tag == "ret" else S) for s, tag, S in collect_seq(I, st, v)]
    if s_[0] == "tuple" and not s_[1]:
        return [(s, tag, UNIT if tag == "ret" else S) for s, tag, S in collect_seq(I, st, v)]
    # strings, maps, ...
    out = []
    for s, tag, S in collect_seq(I, st, v):
        if tag == "ret":
            out.append((s, "ret", mk_value(typed(mk("uf", "collect", True, I.freeze(s, S)), ty), ty)))
        else:
            out.append((s, tag, S))
    return out


def name_seq(S, ty):
    """a filtered sequence becomes an opaque sequence defined by it"""
    if not is_seq(S) or all(p.tag != "cat" for p in S.args[0]):
        return S
    t = typed(mk("uf", "named", True, S), ty)
    return mk_value(t, ty)


def from_iter_local(I, ty):
    for im in I.P.impls:
        if im["trait"] and im["trait"].split("::")[-1].startswith("FromIterator") and "from_iter" in im["items"]:
            pt = I.P.ty(im["self"])
            if pt[0] == "adt" and pt[1] == ty[1]:
                g = I.P.fns.get(im["items"]["from_iter"])
                if g is not None and g.get("body"):
                    return g
    return None


def collect_try(I, st, S, adt, okv, inner):
    """collect Result/Option items"""
    if S.tag == "ite":
        out = []
        for s, tr in I.split(st, S.args[0]):
            out += collect_try(I, s, S.args[1] if tr else S.args[2], adt, okv, inner)
        return out
    if any(p.tag != "comp" for p in S.args[0]):
        raise Incomplete("collect of irregular results")
    n = slen(S)
    k = fresh()
    # all ok?
    conds = []
    for p in S.args[0]:
        kk = fresh()
        conds.append(forall_(p.args[0], lam(kk, isvar(app(p.args[1], atom(kk)), okv))))
    c = band(*conds)
    out = []
    for s, tr in I.split(st, c):
        if tr:
            vals = seq([comp(p.args[0], (lambda kk: lam(kk, payload(app(p.args[1], atom(kk)), okv)))(fresh())) for p in S.args[0]])
            el = elem_ty(inner)
            g = from_iter_local(I, inner) if inner[0] == "adt" else None
            if g is not None:
                for s2, t2, v2 in I.run_fn(g, [seq_it(vals)], {}, s):
                    out.append((s2, t2, en(adt, okv, v2) if t2 == "ret" else v2))
                continue
            if el is None:
                raise Incomplete("try-collect into a non-sequence")
            out.append((s, "ret", en(adt, okv, vals)))
        else:
            if adt == OPT:
                out.append((s, "ret", NONE))
                continue
            # first failing element
            e = fresh("first")
            d = decider(s.facts, 1)
            x = nz(seq_at(S, atom(e), d))
            j = fresh()
            s2 = s.assume(ge(atom(e)), lt(atom(e), n), bnot(isvar(x, okv)),
                          forall_(atom(e), lam(j, isvar(nz(seq_at(S, atom(j), d)), okv))))
            if infeasible(s2.facts, 1):
                continue
            out.append((s2, "ret", en(adt, 1 - okv, payload(x, 1 - okv))))
    return out


def quant(I, st, a, univ, by=None):
    """all / any with a predicate"""
    v, cur = by_loc(I, st, a[0])
    out = []
    b = None
    if cur is None or True:
        its = as_it(I, st, v)
        pure = True
        res = []
        for s, it in its:
            ps = []
            S = pure_seq(I, s, it, ps)
            if S is None or ps or not all(p.tag == "comp" for p in S.args[0]):
                pure = False
                break
            C = pure_map(I, s, S, a[1], ps)
            if C is None:
                pure = False
                break
            # element panics only matter up to the deciding element; keep them when they may happen at all
            res.append((s, C, ps))
        if pure:
            for s, C, ps in res:
                cs = []
                if C.tag != "seq" or any(p.tag != "comp" for p in C.args[0]):
                    pure = False
                    break
                for p in C.args[0]:
                    cs.append(forall_(p.args[0], p.args[1]) if univ else exists_(p.args[0], p.args[1]))
                c = band(*cs) if univ else bor(*cs)
                ps = [(x, w) for x, w in ps if not prove(s.facts, bnot(x), 2)]
                if ps:
                    pure = False
                    break
                s2 = s
                if cur is not None:
                    s2 = s.fork()
                    I.write(s2, cur, partial(I, s2, v))
                out.append((s2, "ret", c))
        if pure:
            return out

    def body(s, acc, x):
        o = []
        for s2, tag, y in I.call_value(s, a[1], [x]):
            if tag != "ret":
                o.append((s2, "panic", y))
                continue
            for s3, tr in I.split(s2, y):
                if tr == univ:
                    o.append((s3, "cont", acc))
                else:
                    o.append((s3, "stop", not univ))
        return o
    return drive_by(I, st, v, cur, body, univ)


def partial(I, s, it):
    """an iterator advanced by an unknown number of items"""
    if is_it(it) and it.args[0] == "seq":
        k = fresh("adv")
        IP.define(s, ge(atom(k)), le(padd(it.args[2], atom(k)), it.args[3]))
        return mk("it", "seq", it.args[1], padd(it.args[2], atom(k)), it.args[3])
    raise Incomplete("partially consumed iterator")


def drive_by(I, st, v, cur, body, acc0, fin=lambda s, x: x):
    out = []
    for s, tag, x, i in drive(I, st, v, body, acc0):
        if tag == "ret":
            if cur is not None:
                s = s.fork()
                I.write(s, cur, i)
            out.append((s, "ret", fin(s, x)))
        else:
            out.append((s, tag, x))
    return out


@model("Iterator::all", "Itertools::all")
def m_all(I, st, a, info):
    return quant(I, st, a, True)


@model("Iterator::any")
def m_any(I, st, a, info):
    return quant(I, st, a, False)


@model("Iterator::position", "Iterator::find", "Itertools::find_position")
def m_position(I, st, a, info):
    find = info.key.endswith("find")
    v, cur = by_loc(I, st, a[0])
    out = []
    ok_ = True
    for s, it in as_it(I, st, v):
        ps = []
        S = pure_seq(I, s, it, ps)
        if S is None or ps or not all(p.tag == "comp" for p in S.args[0]):
            ok_ = False
            break
        C = pure_map(I, s, map_seq(S, lambda i, e: ref(e)) if find else S, a[1], ps)
        if C is None or any(not prove(s.facts, bnot(x), 2) for x, w in ps):
            ok_ = False
            break
        out += first_where(I, s, S, C, find, cur, it)
    if ok_:
        return out

    def body(s, acc, x):
        o = []
        i = acc.args[1][0]
        for s2, tag, y in I.call_value(s, a[1], [ref(x) if find else x]):
            if tag != "ret":
                o.append((s2, "panic", y))
                continue
            for s3, tr in I.split(s2, y):
                if tr:
                    o.append((s3, "stop", tup(i, some(x if find else i))))
                else:
                    o.append((s3, "cont", tup(padd(i, ONE), acc.args[1][1])))
        return o
    return drive_by(I, st, v, cur, body, tup(ZERO, NONE), lambda s, x: x.args[1][1])


def perm_position(n, L):
    """where a bell that occurs in a row is found: its position in the permutation"""
    k = fresh()
    c = app(L, atom(k))
    if not isinstance(c, N) or c.tag != "eq":
        return None
    for a in T.atoms_of(c.args[0]):
        if a.tag != "at" or k not in a.syms:
            continue
        R, i = a.args
        j = psub(i, atom(k))
        if k in j.syms or k in R.syms:
            return None
        co = [v for m, v in c.args[0].args[0] if m == (a,)]
        if len(co) != 1 or co[0] not in (1, -1):
            return None
        b = pscale(psub(c.args[0], pscale(atom(a), co[0])), -co[0])
        if k in b.syms:
            return None
        if V.is_perm(R) and cval(j) == 0 and V.tlen(R) is n:
            return V.t_pos(R, b)
        o = LY.bells_owner(R)
        if o is not None and n is o[1]:
            sa = as_atom(o[1])
            q, r = split_by(j, sa) if sa is not None else (None, None)
            if q is not None and cval(r) == 0:
                return V.t_pos(LY.row_sym(R, q, o[1]), b)
        return None
    return None


def first_where(I, st, S, C, find, cur, it):
    n = slen(S)
    d = decider(st.facts, 1)
    k = fresh()
    dk = decider(st.facts.add(*bounded(k, n)), 2)
    if not C.args[0]:
        s = st.fork()
        return [(s, "ret", NONE)]
    ck = seq_at(C, atom(k), dk)
    if ck is None:
        # piece by piece
        ck, off = False, ZERO
        for p in C.args[0]:
            x = app(p.args[1], psub(atom(k), off))
            ck = bor(ck, band(ge(psub(atom(k), off)), lt(psub(atom(k), off), p.args[0]), x))
            off = padd(off, p.args[0])
    out = []
    L = lam(k, ck)
    for s, tr in I.split(st, exists_(n, L)):
        if not tr:
            s = s.fork()
            if cur is not None:
                I.write(s, cur, seq_it(EMPTYSEQ))
            out.append((s, "ret", NONE))
            continue
        e = perm_position(n, L)
        if e is None:
            e = atom(typed(mk("find", n, L), USIZE))
        j = fresh()
        s2 = s.assume(ge(e), lt(e, n), app(L, e), forall_(e, lam(j, bnot(app(L, atom(j))))))
        if infeasible(s2.facts, 1):
            continue
        if cur is not None:
            if not (is_it(it) and it.args[0] == "seq"):
                raise Incomplete("partially consumed iterator")
            I.write(s2, cur, mk("it", "seq", it.args[1], padd(it.args[2], padd(e, ONE)), it.args[3]))
        if find:
            x = seq_at(S, e, decider(s2.facts, 2))
            if x is None:
                off = ZERO
                for p in S.args[0]:
                    i = psub(e, off)
                    s3 = s2.assume(ge(i), lt(i, p.args[0]))
                    off = padd(off, p.args[0])
                    if not infeasible(s3.facts, 2):
                        out.append((s3, "ret", some(nz(app(p.args[1], i)))))
                continue
            out.append((s2, "ret", some(nz(x))))
        else:
            out.append((s2, "ret", some(e)))
    return out


@model("Iterator::find_map")
def m_find_map(I, st, a, info):
    v, cur = by_loc(I, st, a[0])

    def body(s, acc, x):
        o = []
        for s2, tag, y in I.call_value(s, a[1], [x]):
            if tag != "ret":
                o.append((s2, "panic", y))
                continue
            for s3, tr in cases(I, s2, y, 1):
                o.append((s3, "stop", y) if tr else (s3, "cont", acc))
        return o
    return drive_by(I, st, v, cur, body, NONE)


@model("Itertools::positions")
def m_positions(I, st, a, info):
    out = []
    for s, i in into(I, st, a[0], info):
        ps = []
        S = pure_seq(I, s, i, ps)
        if S is None or ps:
            raise Incomplete("positions")
        C = pure_map(I, s, S, a[1], ps)
        if C is None or ps or any(p.tag != "comp" for p in C.args[0]):
            raise Incomplete("positions")
        parts = []
        off = ZERO
        for p in C.args[0]:
            k = fresh()
            c = app(p.args[1], atom(k))
            parts.append(cat(p.args[0], lam(k, ite_seq(c, lambda: lit([padd(off, atom(k))])))))
            off = padd(off, p.args[0])
        out.append((s, "ret", seq_it(seq(parts))))
    return out


@model("Iterator::count")
def m_count(I, st, a, info):
    return [(s, tag, count_len(S) if tag == "ret" else S) for s, tag, S in collect_seq(I, st, a[0])]


def count_len(S):
    """length; conditional single items become a sum of indicators"""
    if S.tag == "ite":
        return T.ite(S.args[0], count_len(S.args[1]), count_len(S.args[2]))
    r = ZERO
    for p in S.args[0]:
        r = padd(r, norm_plen(p))
    return r


def norm_plen(p):
    if p.tag != "cat":
        return T.plen(p)
    n, l = p.args
    k = fresh()
    b = any_len(app(l, atom(k)))
    return loops.summ(n, lam(k, b))


def any_len(b):
    if b.tag == "ite":
        return T.ite(b.args[0], any_len(b.args[1]), any_len(b.args[2]))
    return count_len(b)


# the length of a concatenation is the sum of the lengths
T.CAT_LEN[0] = norm_plen


@model("Iterator::sum", "Iterator::product")
def m_sum(I, st, a, info):
    out = []
    for s, tag, S in collect_seq(I, st, a[0]):
        if tag != "ret" or info.key.endswith("product"):
            if tag == "ret":
                raise Incomplete("product")
            out.append((s, tag, S))
            continue
        r = ZERO
        for p in S.args[0]:
            n, l = p.args
            if p.tag != "comp":
                raise Incomplete("sum of irregular items")
            k = fresh()
            e = rd(I, s, app(l, atom(k)))
            if e.tag != "poly":
                raise Incomplete("sum of non-integers")
            r = padd(r, loops.summ(n, lam(k, e)))
        out.append((s, "ret", r))
    return out


@model("Iterator::last")
def m_last_it(I, st, a, info):
    out = []
    for s, tag, S in collect_seq(I, st, a[0]):
        if tag != "ret":
            out.append((s, tag, S))
            continue
        out += opt_at(I, s, S, psub(slen(S), ONE), lambda x: x)
    return out


def opt_at(I, st, S, i, f):
    n = slen(S)
    out = []
    for s, tr in I.split(st, band(ge(i), lt(i, n))):
        if tr:
            x = seq_at(S, i, decider(s.facts, 2))
            if x is None:
                x = I.opaque_at(S, i)
            out.append((s, "ret", some(f(x))))
        else:
            out.append((s, "ret", NONE))
    return out


@model("Iterator::nth")
def m_nth(I, st, a, info):
    cur, it = receiver(I, st, a[0])
    out = []
    for s, i in as_it(I, st, it):
        i = lazy_or_seq(I, s, i)
        if not (is_it(i) and i.args[0] == "seq"):
            raise Incomplete("nth")
        S, lo, hi = i.args[1:]
        for s2, tr in I.split(s, lt(padd(lo, a[1]), hi)):
            s2 = s2.fork()
            if tr:
                x = seq_at(S, padd(lo, a[1]), decider(s2.facts, 2))
                I.write(s2, cur, mk("it", "seq", S, padd(padd(lo, a[1]), ONE), hi))
                out.append((s2, "ret", some(nz(x))))
            else:
                I.write(s2, cur, mk("it", "seq", S, hi, hi))
                out.append((s2, "ret", NONE))
    return out


@model("ExactSizeIterator::len", "Iterator::len")
def m_it_len(I, st, a, info):
    v = rd(I, st, a[0])
    out = []
    for s, i in as_it(I, st, v):
        S = pure_seq(I, s, i, [])
        if S is None:
            raise Incomplete("len of iterator")
        out.append((s, "ret", slen(S)))
    return out


@model("Iterator::size_hint")
def m_size_hint(I, st, a, info):
    v = rd(I, st, a[0])
    out = []
    for s, i in as_it(I, st, v):
        S = pure_seq(I, s, i, [])
        if S is None:
            return None
        out.append((s, "ret", tup(slen(S), some(slen(S)))))
    return out


@model("Iterator::min", "Iterator::max")
def m_minmax(I, st, a, info):
    mx = info.key.endswith("max")
    out = []
    for s, tag, S in collect_seq(I, st, a[0]):
        if tag != "ret":
            out.append((s, tag, S))
            continue
        n = slen(S)
        for s2, tr in I.split(s, eqp(n, ZERO)):
            if tr:
                out.append((s2, "ret", NONE))
                continue
            d = decider(s2.facts, 2)
            k = fresh()
            e0 = seq_at(S, atom(k), decider(s2.facts.add(*bounded(k, n)), 2))
            if e0 is None:
                e0 = I.opaque_at(S, atom(k))
            isref = e0.tag in ("ref",)
            e = rd(I, s2, e0)
            if e.tag != "poly":
                raise Incomplete("min/max of non-integers")
            L = lam(k, e)
            r = atom(typed(mk("ext", "max" if mx else "min", n, L), USIZE))
            j = fresh()
            w = fresh()
            s3 = s2.assume(forall_(n, lam(j, le(app(L, atom(j)), r) if mx else le(r, app(L, atom(j))))),
                           exists_(n, lam(w, eqp(app(L, atom(w)), r))))
            out.append((s3, "ret", some(ref(r) if isref else r)))
    return out


@model("Iterator::max_by_key", "Iterator::min_by_key")
def m_by_key(I, st, a, info):
    return None


@model("Iterator::fold")
def m_fold(I, st, a, info):
    def body(s, acc, x):
        return [(s2, "cont" if tag == "ret" else "panic", y) for s2, tag, y in I.call_value(s, a[2], [acc, x])]
    return fallback(I, st, a[0], body, a[1])


@model("Iterator::try_fold")
def m_try_fold(I, st, a, info):
    return None


@model("Iterator::for_each")
def m_for_each(I, st, a, info):
    def body(s, acc, x):
        return [(s2, "cont" if tag == "ret" else "panic", acc if tag == "ret" else y) for s2, tag, y in I.call_value(s, a[1], [x])]
    return fallback(I, st, a[0], body, UNIT)


@model("Iterator::eq", "Iterator::ne")
def m_iter_eq(I, st, a, info):
    out = []
    for s, tag, S in collect_seq(I, st, a[0]):
        if tag != "ret":
            out.append((s, tag, S))
            continue
        for s2, t2, R in collect_seq(I, s, a[1]):
            if t2 != "ret":
                out.append((s2, t2, R))
                continue
            c = veq(deep(I, s2, S), deep(I, s2, R), decider(s2.facts, 1))
            out.append((s2, "ret", bnot(c) if info.key.endswith("ne") else c))
    return out


@model("Itertools::all_unique")
def m_all_unique(I, st, a, info):
    out = []
    for s, tag, S in collect_seq(I, st, a[0]):
        out.append((s, tag, unique_cond(I, s, S) if tag == "ret" else S))
    return out


def unique_cond(I, s, S):
    n = slen(S)
    i, j = fresh(), fresh()
    d = decider(s.facts, 1)
    x, y = nz(seq_at(S, atom(i), d)), nz(seq_at(S, atom(j), d))
    return forall_(n, lam(i, forall_(atom(i), lam(j, bnot(veq(deep(I, s, x), deep(I, s, y)))))))


def deep(I, st, v):
    """value with references removed everywhere"""
    if isinstance(v, bool) or not isinstance(v, N):
        return v
    if v.tag in ("ref", "mref"):
        return deep(I, st, rd(I, st, v))
    if v.tag == "agg":
        return agg(v.args[0], [deep(I, st, x) for x in v.args[1]])
    if v.tag == "en":
        return en(v.args[0], v.args[1], *[deep(I, st, x) for x in v.args[2]])
    if v.tag == "ite":
        return T.ite(v.args[0], deep(I, st, v.args[1]), deep(I, st, v.args[2]))
    if v.tag == "seq":
        return map_seq(v, lambda i, e: deep(I, st, e))
    return v


# ---------------------------------------------------------------- slices and vectors
@model("Vec::new", "Vec::with_capacity", "VecDeque::new", "VecDeque::with_capacity", "Vec::default")
def m_vec_new(I, st, a, info):
    return ret(st, EMPTYSEQ)


@model("vec::from_elem")
def m_from_elem(I, st, a, info):
    return ret(st, seq((comp(a[1], lam(fresh(), a[0])),)))


@model("Vec::len", "[T]::len", "VecDeque::len")
def m_len(I, st, a, info):
    return ret(st, slen(rd(I, st, a[0])))


@model("Vec::is_empty", "[T]::is_empty", "VecDeque::is_empty", "ExactSizeIterator::is_empty")
def m_is_empty(I, st, a, info):
    return ret(st, eqp(slen(rd(I, st, a[0])), ZERO))


@model("Vec::push", "VecDeque::push_back")
def m_push(I, st, a, info):
    cur = loc(I, st, a[0])
    st = st.fork()
    v = I.read(st, cur)
    I.write(st, cur, cat_val(v, lit([a[1]])))
    return ret(st, UNIT)


def cat_val(v, w):
    if v.tag == "ite":
        return T.ite(v.args[0], cat_val(v.args[1], w), cat_val(v.args[2], w))
    if w.tag == "ite":
        return T.ite(w.args[0], cat_val(v, w.args[1]), cat_val(v, w.args[2]))
    return concat(v, w)


@model("VecDeque::push_front")
def m_push_front(I, st, a, info):
    cur = loc(I, st, a[0])
    st = st.fork()
    I.write(st, cur, cat_val(lit([a[1]]), I.read(st, cur)))
    return ret(st, UNIT)


@model("Vec::pop", "VecDeque::pop_back")
def m_pop(I, st, a, info):
    cur = loc(I, st, a[0])
    out = []
    for s, S in the_seq(I, st, a[0]):
        n = slen(S)
        for s2, tr in I.split(s, lt(ZERO, n)):
            if not tr:
                out.append((s2, "ret", NONE))
                continue
            s2 = s2.fork()
            d = decider(s2.facts, 2)
            i = psub(n, ONE)
            x = seq_at(S, i, d)
            x = I.opaque_at(S, i) if x is None else x
            r = slice_seq(S, ZERO, i, d)
            I.write(s2, cur, r if r is not None else I.opaque_slice(S, ZERO, i))
            out.append((s2, "ret", some(x)))
    return out


@model("VecDeque::pop_front")
def m_pop_front(I, st, a, info):
    cur = loc(I, st, a[0])
    out = []
    for s, S in the_seq(I, st, a[0]):
        n = slen(S)
        for s2, tr in I.split(s, lt(ZERO, n)):
            if not tr:
                out.append((s2, "ret", NONE))
                continue
            s2 = s2.fork()
            d = decider(s2.facts, 2)
            x = seq_at(S, ZERO, d)
            x = I.opaque_at(S, ZERO) if x is None else x
            r = slice_seq(S, ONE, n, d)
            I.write(s2, cur, r if r is not None else I.opaque_slice(S, ONE, n))
            out.append((s2, "ret", some(x)))
    return out


@model("Vec::insert")
def m_insert(I, st, a, info):
    cur = loc(I, st, a[0])
    out = []
    for s, S in the_seq(I, st, a[0]):
        for s2, tr in I.split(s, le(a[1], slen(S))):
            if not tr:
                out.append((s2, "panic", "insert"))
                continue
            s2 = s2.fork()
            d = decider(s2.facts, 2)
            x, y = sl(I, S, ZERO, a[1], d), sl(I, S, a[1], slen(S), d)
            I.write(s2, cur, concat(concat(x, lit([a[2]])), y))
            out.append((s2, "ret", UNIT))
    return out


@model("Vec::remove", "Vec::swap_remove")
def m_remove(I, st, a, info):
    cur = loc(I, st, a[0])
    out = []
    for s, S in the_seq(I, st, a[0]):
        n = slen(S)
        for s2, tr in I.split(s, lt(a[1], n)):
            if not tr:
                out.append((s2, "panic", "remove"))
                continue
            s2 = s2.fork()
            d = decider(s2.facts, 2)
            x = seq_at(S, a[1], d)
            x = I.opaque_at(S, a[1]) if x is None else x
            if info.key.endswith("swap_remove"):
                last = nz(seq_at(S, psub(n, ONE), d))
                S2 = store_seq(S, a[1], last, d)
                r = sl(I, S2, ZERO, psub(n, ONE), d)
            else:
                r = concat(sl(I, S, ZERO, a[1], d), sl(I, S, padd(a[1], ONE), n, d))
            I.write(s2, cur, r)
            out.append((s2, "ret", x))
    return out


def sl(I, S, lo, hi, d):
    r = slice_seq(S, lo, hi, d)
    return r if r is not None else I.opaque_slice(S, lo, hi)


@model("Vec::clear", "VecDeque::clear")
def m_clear(I, st, a, info):
    st = st.fork()
    I.write(st, loc(I, st, a[0]), EMPTYSEQ)
    return ret(st, UNIT)


@model("Vec::truncate")
def m_truncate(I, st, a, info):
    cur = loc(I, st, a[0])
    out = []
    for s, S in the_seq(I, st, a[0]):
        for s2, tr in I.split(s, lt(a[1], slen(S))):
            s2 = s2.fork()
            if tr:
                I.write(s2, cur, sl(I, S, ZERO, a[1], decider(s2.facts, 2)))
            out.append((s2, "ret", UNIT))
    return out


@model("Vec::reserve", "Vec::reserve_exact", "Vec::shrink_to_fit", "String::reserve", "VecDeque::reserve")
def m_reserve(I, st, a, info):
    return ret(st, UNIT)


@model("Vec::capacity")
def m_capacity(I, st, a, info):
    return None


@model("Vec::resize")
def m_resize(I, st, a, info):
    cur = loc(I, st, a[0])
    out = []
    for s, S in the_seq(I, st, a[0]):
        n = slen(S)
        for s2, tr in I.split(s, le(n, a[1])):
            s2 = s2.fork()
            I.write(s2, cur, concat(S, seq((comp(psub(a[1], n), lam(fresh(), a[2])),))) if tr else sl(I, S, ZERO, a[1], decider(s2.facts, 2)))
            out.append((s2, "ret", UNIT))
    return out


@model("Vec::extend_from_slice")
def m_extend_from_slice(I, st, a, info):
    st = st.fork()
    cur = loc(I, st, a[0])
    I.write(st, cur, cat_val(I.read(st, cur), rd(I, st, a[1])))
    return ret(st, UNIT)


@model("Vec::extend", "Extend::extend", "VecDeque::extend")
def m_extend(I, st, a, info):
    cur = loc(I, st, a[0])
    v0 = I.read(st, cur)
    if v0.tag == "agg" and v0.args[0] == "HSet":
        out = []
        for s, tag, S in collect_seq(I, st, a[1]):
            if tag == "ret":
                s = s.fork()
                I.write(s, cur, agg("HSet", (concat(v0.args[1][0], S),)))
                out.append((s, "ret", UNIT))
            else:
                out.append((s, tag, S))
        return out
    if v0.tag not in ("seq", "ite"):
        return None
    # &T items are copied
    el = elem_ty(info.targs[0]) if info.targs else None
    b = bulk(I, st, a[1])

    def own(s, S):
        if el is not None and el[0] != "ref":
            return map_seq(S, lambda i, e: rd1(I, s, e) if e.tag in ("ref", "mref") else e)
        return S
    if b is not None:
        out = []
        for s, S in b[0]:
            s = s.fork()
            I.write(s, cur, cat_val(I.read(s, cur), own(s, S)))
            out.append((s, "ret", UNIT))
        for s, tag, why in b[1]:
            s = s.fork()
            s.inexact("partial extend")
            out.append((s, tag, why))
        return out

    def body(s, acc, x):
        s = s.fork()
        if el is not None and el[0] != "ref" and x.tag in ("ref", "mref"):
            x = rd1(I, s, x)
        I.write(s, cur, cat_val(I.read(s, cur), lit([x])))
        return [(s, "cont", acc)]
    return fallback(I, st, a[1], body, UNIT)


@model("Vec::append")
def m_append(I, st, a, info):
    st = st.fork()
    c1, c2 = loc(I, st, a[0]), loc(I, st, a[1])
    I.write(st, c1, cat_val(I.read(st, c1), I.read(st, c2)))
    I.write(st, c2, EMPTYSEQ)
    return ret(st, UNIT)


@model("Vec::split_off", "VecDeque::split_off")
def m_split_off(I, st, a, info):
    cur = loc(I, st, a[0])
    out = []
    for s, S in the_seq(I, st, a[0]):
        for s2, tr in I.split(s, le(a[1], slen(S))):
            if not tr:
                out.append((s2, "panic", "split_off"))
                continue
            s2 = s2.fork()
            d = decider(s2.facts, 2)
            I.write(s2, cur, sl(I, S, ZERO, a[1], d))
            out.append((s2, "ret", sl(I, S, a[1], slen(S), d)))
    return out


def range_bounds(I, st, r, n):
    """(lo, hi) of a range value over a sequence of length n, or None"""
    r = rd(I, st, r)
    if r.tag == "agg":
        k = r.args[0]
        if k == "std::ops::Range":
            return r.args[1][0], r.args[1][1]
        if k == "std::ops::RangeInclusive":
            return r.args[1][0], r.args[1][1]
        if k == "std::ops::RangeFrom":
            return r.args[1][0], n
        if k == "std::ops::RangeTo":
            return ZERO, r.args[1][0]
        if k == "std::ops::RangeToInclusive":
            return ZERO, padd(r.args[1][0], ONE)
        if k == "std::ops::RangeFull" or k.startswith("zst:") and "RangeFull" in k:
            return ZERO, n
    return None


def sym_bounds(I, st, r, n):
    """bounds of an opaque RangeBounds value: [(state, lo, hi)] through its start/end bounds"""
    out = []
    lo_v = bound_sym(I, st, r, "start")
    hi_v = bound_sym(I, st, r, "end")
    BT = strip(lo_v.args[1])
    res = []
    for k in range(3):
        for s, tr in I.split(st, isvar(lo_v, k)):
            if not tr:
                continue
            lo = [lambda: payload(lo_v, 0), lambda: padd(payload(lo_v, 1), ONE), lambda: ZERO][k]()
            if isinstance(lo, N) and lo.tag == "ref":
                lo = lo.args[0]
            for q in range(3):
                for s2, tr2 in I.split(s, isvar(hi_v, q)):
                    if tr2:
                        hi = [lambda: padd(deref(payload(hi_v, 0)), ONE), lambda: deref(payload(hi_v, 1)), lambda: n][q]()
                        lo2 = [lambda: deref(payload(lo_v, 0)), lambda: padd(deref(payload(lo_v, 1)), ONE), lambda: ZERO][k]()
                        res.append((s2, lo2, hi))
    return res


def deref(v):
    return v.args[0] if isinstance(v, N) and v.tag == "ref" else v


def bound_sym(I, st, r, which):
    bt = ("adt", "std::ops::Bound", (("ref", False, USIZE),))
    t = typed(mk("uf", "bound:" + which, True, rd(I, st, r)), bt)
    return symv(t, bt)


BOUND = "std::ops::Bound"


@model("RangeBounds::start_bound", "RangeBounds::end_bound")
def m_bound(I, st, a, info):
    r = rd(I, st, a[0])
    start = info.key.endswith("start_bound")
    if r.tag == "agg":
        k = r.args[0]
        f = r.args[1]
        if k == "std::ops::Range":
            return ret(st, en(BOUND, 0, ref(f[0])) if start else en(BOUND, 1, ref(f[1])))
        if k == "std::ops::RangeInclusive":
            return ret(st, en(BOUND, 0, ref(f[0])) if start else en(BOUND, 1, ref(f[1])))
        if k == "std::ops::RangeFrom":
            return ret(st, en(BOUND, 0, ref(f[0])) if start else en(BOUND, 2))
        if k == "std::ops::RangeTo":
            return ret(st, en(BOUND, 2) if start else en(BOUND, 1, ref(f[0])))
        if k == "std::ops::RangeToInclusive":
            return ret(st, en(BOUND, 2) if start else en(BOUND, 0, ref(f[0])))
        return ret(st, en(BOUND, 2))
    return ret(st, bound_sym(I, st, a[0], "start" if start else "end"))


def with_bounds(I, st, r, n):
    b = range_bounds(I, st, r, n)
    if b is not None:
        return [(st, b[0], b[1])]
    v = rd(I, st, r)
    if v.tag == "symv":
        return sym_bounds(I, st, r, n)
    raise Incomplete("range value")


def is_range_like(v):
    if not isinstance(v, N):
        return False
    if v.tag == "agg" and (v.args[0].startswith("std::ops::Range") or "RangeFull" in v.args[0]):
        return True
    return v.tag == "symv"


@model("Vec::drain", "VecDeque::drain")
def m_drain(I, st, a, info):
    cur = loc(I, st, a[0])
    out = []
    for s, S in the_seq(I, st, a[0]):
        n = slen(S)
        for s1, lo, hi in with_bounds(I, s, a[1], n):
            for s2, tr in I.split(s1, band(le(lo, hi), le(hi, n))):
                if not tr:
                    out.append((s2, "panic", "drain range"))
                    continue
                s2 = s2.fork()
                d = decider(s2.facts, 2)
                I.write(s2, cur, concat(sl(I, S, ZERO, lo, d), sl(I, S, hi, n, d)))
                out.append((s2, "ret", seq_it(sl(I, S, lo, hi, d))))
    return out


@model("Vec::extend_from_within")
def m_extend_from_within(I, st, a, info):
    cur = loc(I, st, a[0])
    out = []
    for s, S in the_seq(I, st, a[0]):
        n = slen(S)
        for s1, lo, hi in with_bounds(I, s, a[1], n):
            for s2, tr in I.split(s1, band(le(lo, hi), le(hi, n))):
                if not tr:
                    out.append((s2, "panic", "extend_from_within range"))
                    continue
                s2 = s2.fork()
                I.write(s2, cur, concat(S, sl(I, S, lo, hi, decider(s2.facts, 2))))
                out.append((s2, "ret", UNIT))
    return out


@model("Index::index", "IndexMut::index_mut", "SliceIndex::index", "SliceIndex::index_mut")
def m_index(I, st, a, info):
    mut = info.key.endswith("index_mut")
    base = rd(I, st, a[0])
    if base.tag == "symv":
        # strings: only that the range is within bounds and on boundaries is unknown
        return str_index(I, st, a, info)
    idx = a[1]
    out = []
    for s, S in the_seq(I, st, a[0]):
        n = slen(S)
        if idx.tag == "poly":
            for s2, tr in I.split(s, lt(idx, n)):
                if not tr:
                    out.append((s2, "panic", "index"))
                    continue
                out.append((s2, "ret", element(I, s2, a[0], S, idx, mut)))
            continue
        for s1, lo, hi in with_bounds(I, s, idx, n):
            for s2, tr in I.split(s1, band(le(lo, hi), le(hi, n))):
                if not tr:
                    out.append((s2, "panic", "slice index"))
                else:
                    out.append((s2, "ret", subslice(I, s2, a[0], S, lo, hi, mut)))
    return out


def element(I, st, base, S, i, mut):
    if mut:
        cur = loc(I, st, base)
        if cur[0] != "mem":
            raise Incomplete("mutable element of a shared value")
        return mref(cur[1], cur[2] + (("i", i),))
    x = seq_at(S, i, decider(st.facts, 2))
    return ref(x if x is not None else I.opaque_at(S, i))


def subslice(I, st, base, S, lo, hi, mut):
    if mut:
        cur = loc(I, st, base)
        if cur[0] != "mem":
            raise Incomplete("mutable slice of a shared value")
        return mref(cur[1], cur[2] + (("r", lo, hi),))
    return ref(sl(I, S, lo, hi, decider(st.facts, 2)))


@model("[T]::get", "[T]::get_mut", "Vec::get", "Vec::get_mut", "VecDeque::get")
def m_get(I, st, a, info):
    mut = info.key.endswith("_mut")
    idx = a[1]
    out = []
    for s, S in the_seq(I, st, a[0]):
        n = slen(S)
        if idx.tag == "poly":
            for s2, tr in I.split(s, lt(idx, n)):
                out.append((s2, "ret", some(element(I, s2, a[0], S, idx, mut)) if tr else NONE))
            continue
        for s1, lo, hi in with_bounds(I, s, idx, n):
            for s2, tr in I.split(s1, band(le(lo, hi), le(hi, n))):
                out.append((s2, "ret", some(subslice(I, s2, a[0], S, lo, hi, mut)) if tr else NONE))
    return out


@model("[T]::get_unchecked", "[T]::get_unchecked_mut")
def m_get_unchecked(I, st, a, info):
    mut = info.key.endswith("_mut")
    idx = a[1]
    out = []
    for s, S in the_seq(I, st, a[0]):
        n = slen(S)
        if idx.tag != "poly":
            raise Incomplete("unchecked range")
        for s2, tr in I.split(s, lt(idx, n)):
            if tr:
                out.append((s2, "ret", element(I, s2, a[0], S, idx, mut)))
            else:
                out.append((s2, "panic", "UB:get_unchecked out of range"))
    return out


@model("[T]::first", "[T]::last", "[T]::first_mut", "[T]::last_mut", "VecDeque::front", "VecDeque::back")
def m_first(I, st, a, info):
    mut = info.key.endswith("_mut")
    out = []
    for s, S in the_seq(I, st, a[0]):
        n = slen(S)
        for s2, tr in I.split(s, lt(ZERO, n)):
            if tr:
                i = ZERO if "first" in info.key or "front" in info.key else psub(n, ONE)
                out.append((s2, "ret", some(element(I, s2, a[0], S, i, mut))))
            else:
                out.append((s2, "ret", NONE))
    return out


@model("[T]::split_at", "[T]::split_at_mut")
def m_split_at(I, st, a, info):
    mut = info.key.endswith("_mut")
    out = []
    for s, S in the_seq(I, st, a[0]):
        n = slen(S)
        for s2, tr in I.split(s, le(a[1], n)):
            if not tr:
                out.append((s2, "panic", "split_at"))
            else:
                out.append((s2, "ret", tup(subslice(I, s2, a[0], S, ZERO, a[1], mut), subslice(I, s2, a[0], S, a[1], n, mut))))
    return out


@model("[T]::split_first", "[T]::split_last")
def m_split_first(I, st, a, info):
    out = []
    for s, S in the_seq(I, st, a[0]):
        n = slen(S)
        for s2, tr in I.split(s, lt(ZERO, n)):
            if not tr:
                out.append((s2, "ret", NONE))
            elif info.key.endswith("first"):
                out.append((s2, "ret", some(tup(element(I, s2, a[0], S, ZERO, False), subslice(I, s2, a[0], S, ONE, n, False)))))
            else:
                out.append((s2, "ret", some(tup(element(I, s2, a[0], S, psub(n, ONE), False), subslice(I, s2, a[0], S, ZERO, psub(n, ONE), False)))))
    return out


@model("[T]::swap", "Vec::swap")
def m_swap(I, st, a, info):
    cur = loc(I, st, a[0])
    out = []
    for s, S in the_seq(I, st, a[0]):
        n = slen(S)
        for s2, tr in I.split(s, band(lt(a[1], n), lt(a[2], n))):
            if not tr:
                out.append((s2, "panic", "swap"))
                continue
            s2 = s2.fork()
            d = decider(s2.facts, 2)
            x, y = seq_at(S, a[1], d), seq_at(S, a[2], d)
            k = fresh()
            old = nz(seq_at(S, atom(k), d))
            I.write(s2, cur, seq((comp(n, lam(k, T.ite(eqp(atom(k), a[1]), y, T.ite(eqp(atom(k), a[2]), x, old)))),)))
            out.append((s2, "ret", UNIT))
    return out


@model("[T]::reverse")
def m_reverse(I, st, a, info):
    st = st.fork()
    cur = loc(I, st, a[0])
    S = I.read(st, cur)
    r = rev_seq(S)
    if r is None:
        raise Incomplete("reverse")
    I.write(st, cur, r)
    return ret(st, UNIT)


@model("[T]::fill")
def m_fill(I, st, a, info):
    st = st.fork()
    cur = loc(I, st, a[0])
    S = I.read(st, cur)
    I.write(st, cur, seq((comp(slen(S), lam(fresh(), a[1])),)))
    return ret(st, UNIT)


@model("[T]::copy_from_slice", "[T]::clone_from_slice")
def m_copy_from_slice(I, st, a, info):
    cur = loc(I, st, a[0])
    out = []
    src = rd(I, st, a[1])
    dst = I.read(st, cur)
    for s, tr in I.split(st, eqp(slen(dst), slen(src))):
        if not tr:
            out.append((s, "panic", "copy_from_slice"))
            continue
        s = s.fork()
        I.write(s, cur, src)
        out.append((s, "ret", UNIT))
    return out


@model("[T]::to_vec", "[T]::into_vec", "ToOwned::to_owned", "Vec::into_boxed_slice", "Vec::as_slice", "Vec::as_mut_slice", "slice::to_vec")
def m_to_vec(I, st, a, info):
    v = a[0]
    if info.key in ("Vec::as_slice", "Vec::as_mut_slice"):
        return ret(st, v)
    r = rd(I, st, v)
    if info.key == "ToOwned::to_owned" and info.dty is not None and info.dty[0] == "ref":
        r = v
    if r.tag == "symv" and r.args[1] == ("prim", "str"):
        return ret(st, symv(r.args[0], r.args[1]))
    return ret(st, r)


@model("[T]::contains")
def m_contains(I, st, a, info):
    out = []
    x = rd(I, st, a[1])
    for s, S in the_seq(I, st, a[0]):
        cs = []
        for p in S.args[0]:
            if p.tag != "comp":
                raise Incomplete("contains in an irregular sequence")
            k = fresh()
            cs.append(exists_(p.args[0], lam(k, veq(deep(I, s, app(p.args[1], atom(k))), x))))
        out.append((s, "ret", bor(*cs)))
    return out


@model("[T]::starts_with", "[T]::ends_with")
def m_starts_with(I, st, a, info):
    out = []
    for s, S in the_seq(I, st, a[0]):
        for s2, R in the_seq(I, s, a[1]):
            n, k = slen(R), slen(S)
            j = fresh()
            d = decider(s2.facts, 1)
            off = psub(k, n) if info.key.endswith("ends_with") else ZERO
            x, y = seq_at(S, padd(atom(j), off), d), seq_at(R, atom(j), d)
            if x is None or y is None:
                raise Incomplete("prefix of an irregular sequence")
            c = band(le(n, k), forall_(n, lam(j, veq(deep(I, s2, x), deep(I, s2, y)))))
            out.append((s2, "ret", c))
    return out


@model("[T]::sort_unstable", "[T]::sort", "[T]::sort_by", "[T]::sort_by_key", "[T]::sort_unstable_by", "[T]::sort_unstable_by_key")
def m_sort(I, st, a, info):
    cur = loc(I, st, a[0])
    st = st.fork()
    S = I.read(st, cur)
    if cval(slen(S)) in (0, 1):
        return ret(st, UNIT)
    el = I.elem_guess(S) if S.tag == "seq" else None
    if el is None:
        raise Incomplete("sort")
    t = typed(mk("uf", "sorted:" + info.key, True, S), ("adt", "std::vec::Vec", (el,)))
    k = fresh()
    n = slen(S)
    R = seq((comp(n, lam(k, mk_value(typed(mk("at", t, atom(k)), el), el))),))
    I.write(st, cur, R)
    e1 = seq_at(R, atom(k))
    if e1.tag == "poly" and info.key in ("[T]::sort_unstable", "[T]::sort"):
        j = fresh()
        IP.define(st, forall_(psub(n, ONE), lam(j, le(seq_at(R, atom(j)), seq_at(R, padd(atom(j), ONE))))))
        # every element bound is preserved: instantiate with the elements of the source
        i1, i2 = fresh(), fresh()
        src = seq_at(S, atom(i2))
        sa = as_atom(src) if src is not None and src.tag == "poly" else None
        plain = sa is not None and sa.tag == "at" and FX.leaf(sa.args[0])      # nothing is known of its elements
        if src is not None and src.tag == "poly" and not plain:
            IP.define(st, forall_(n, lam(i1, exists_(n, lam(i2, eqp(seq_at(R, atom(i1)), src))))))
    return ret(st, UNIT)


@model("[T]::concat", "[T]::join")
def m_concat(I, st, a, info):
    return None


@model("Vec::dedup")
def m_dedup(I, st, a, info):
    return None


@model("Vec::retain")
def m_retain(I, st, a, info):
    cur = loc(I, st, a[0])
    out = []
    for s, S in the_seq(I, st, a[0]):
        ps = []
        R = pure_filter(I, s, S, a[1], ps)
        if R is None or ps:
            return None
        s = s.fork()
        I.write(s, cur, R)
        out.append((s, "ret", UNIT))
    return out


@model("Deref::deref", "DerefMut::deref_mut", "AsRef::as_ref", "AsMut::as_mut", "Borrow::borrow", "BorrowMut::borrow_mut",
       "String::as_str", "Vec::as_ref", "Box::as_ref", "str::as_ref")
def m_deref(I, st, a, info):
    v = a[0]
    # peel one level of reference to reference
    if v.tag == "ref" and isinstance(v.args[0], N) and v.args[0].tag in ("ref", "mref") and info.key in ("AsRef::as_ref", "Borrow::borrow"):
        w = rd(I, st, v)
        return ret(st, ref(w))
    if v.tag == "ref" and v.args[0].tag == "symv" and v.args[0].args[1][0] == "param":
        # opaque AsRef<T>
        rt = info.dty
        if rt is not None and rt[0] == "ref":
            t = typed(mk("uf", "as_ref", True, v.args[0]), rt[2])
            return ret(st, ref(mk_value(t, rt[2])))
    return ret(st, v)


@model("Clone::clone", "Clone::clone_from")
def m_clone(I, st, a, info):
    if info.key.endswith("clone_from"):
        st = st.fork()
        I.write(st, loc(I, st, a[0]), rd1(I, st, a[1]))
        return ret(st, UNIT)
    return ret(st, I.freeze(st, rd1(I, st, a[0])))


@model("Into::into", "From::from")
def m_into(I, st, a, info):
    src = info.targs[-1] if info.key == "From::from" and len(info.targs) > 1 else (info.targs[0] if info.targs else None)
    dst = info.dty
    # a local From impl
    for im in I.P.impls:
        if im["trait"] and im["trait"].split("::")[-1].split("<")[0] == "From" and "from" in im["items"]:
            m = {}
            if IP.unify(I.P.ty(im["self"]), dst, m) and len(im["targs"]) > 1 and isinstance(im["targs"][1], int) \
                    and src is not None and IP.unify(I.P.ty(im["targs"][1]), src, m):
                g = I.P.fns.get(im["items"]["from"])
                if g is not None and g.get("body"):
                    return I.run_fn(g, a, {x: m.get(x, ("param", x)) for x in g["generics"]}, st)
    if src == dst or src is None:
        return ret(st, a[0])
    return conv(I, st, a[0], src, dst)


def conv(I, st, v, src, dst):
    s, d = V.int_name(src), V.int_name(dst)
    if s and d:
        return ret(st, I.int_cast(st, v, src, dst))
    es, ed = elem_ty(rr(src)), elem_ty(dst)
    if es is not None and es == ed:
        return ret(st, rd(I, st, v))
    if dst[0] == "adt" and dst[1] in ("std::boxed::Box", "std::rc::Rc", "std::sync::Arc"):
        return ret(st, rd(I, st, v) if src[0] == "ref" else v)
    if dst[0] == "adt" and dst[1] == "std::string::String":
        w = rd(I, st, v)
        if w.tag == "symv":
            return ret(st, w)
    return None


def rr(t):
    while t[0] == "ref":
        t = t[2]
    return t


# ---------------------------------------------------------------- Option / Result
def opt(I, st, v):
    v = I.read(st, I.deref_value(st, v)) if v.tag in ("ref", "mref") else v
    return v


@model("Option::is_some", "Option::is_none", "Result::is_ok", "Result::is_err")
def m_is(I, st, a, info):
    v = rd(I, st, a[0])
    k = info.key
    i = isvar(v, 1)
    return ret(st, i if k in ("Option::is_some", "Result::is_err") else bnot(i))


def unwrap_like(okv, why):
    def f(I, st, a, info):
        out = []
        for s, tr in cases(I, st, a[0], okv):
            if tr:
                out.append((s, "ret", payload(a[0], okv)))
            else:
                out.append((s, "panic", why))
        return out
    return f


M["Option::unwrap"] = unwrap_like(1, "Option::unwrap")
M["Option::expect"] = unwrap_like(1, "Option::expect")
M["Option::unwrap_unchecked"] = unwrap_like(1, "UB:unwrap_unchecked")
M["Result::unwrap"] = unwrap_like(0, "Result::unwrap")
M["Result::expect"] = unwrap_like(0, "Result::expect")
M["Result::expect_err"] = unwrap_like(1, "Result::expect_err")
M["Result::unwrap_err"] = unwrap_like(1, "Result::unwrap_err")


def branch(I, st, v, k, f, g):
    """[(outcomes)] f(state, payload) when variant k else g(state, other payload or None)"""
    out = []
    for s, tr in cases(I, st, v, k):
        if tr:
            out += f(s, pl_or_none(v, k))
        else:
            out += g(s, pl_or_none(v, 1 - k))
    return out


def pl_or_none(v, k):
    try:
        return payload(v, k)
    except (IndexError, Incomplete):
        return None


def callf(I, s, f, args, wrap=lambda x: x):
    return [(s2, tag, wrap(x) if tag == "ret" else x) for s2, tag, x in I.call_value(s, f, args)]


@model("Option::map")
def m_opt_map(I, st, a, info):
    return branch(I, st, a[0], 1, lambda s, p: callf(I, s, a[1], [p], some), lambda s, p: ret(s, NONE))


@model("Result::map")
def m_res_map(I, st, a, info):
    return branch(I, st, a[0], 0, lambda s, p: callf(I, s, a[1], [p], ok), lambda s, p: ret(s, err(p)))


@model("Result::map_err")
def m_map_err(I, st, a, info):
    return branch(I, st, a[0], 0, lambda s, p: ret(s, ok(p)), lambda s, p: callf(I, s, a[1], [p], err))


@model("Option::and_then")
def m_and_then(I, st, a, info):
    return branch(I, st, a[0], 1, lambda s, p: callf(I, s, a[1], [p]), lambda s, p: ret(s, NONE))


@model("Result::and_then")
def m_res_and_then(I, st, a, info):
    return branch(I, st, a[0], 0, lambda s, p: callf(I, s, a[1], [p]), lambda s, p: ret(s, err(p)))


@model("Option::or_else")
def m_or_else(I, st, a, info):
    return branch(I, st, a[0], 1, lambda s, p: ret(s, some(p)), lambda s, p: callf(I, s, a[1], []))


@model("Result::or_else")
def m_res_or_else(I, st, a, info):
    return branch(I, st, a[0], 0, lambda s, p: ret(s, ok(p)), lambda s, p: callf(I, s, a[1], [p]))


@model("Result::or")
def m_res_or(I, st, a, info):
    return branch(I, st, a[0], 0, lambda s, p: ret(s, ok(p)), lambda s, p: ret(s, a[1]))


@model("Result::and")
def m_res_and(I, st, a, info):
    return branch(I, st, a[0], 0, lambda s, p: ret(s, a[1]), lambda s, p: ret(s, err(p)))


@model("Result::map_or")
def m_res_map_or(I, st, a, info):
    return branch(I, st, a[0], 0, lambda s, p: callf(I, s, a[2], [p]), lambda s, p: ret(s, a[1]))


@model("Result::map_or_else")
def m_res_map_or_else(I, st, a, info):
    return branch(I, st, a[0], 0, lambda s, p: callf(I, s, a[2], [p]), lambda s, p: callf(I, s, a[1], [p]))


@model("Result::is_ok_and")
def m_is_ok_and(I, st, a, info):
    return branch(I, st, a[0], 0, lambda s, p: callf(I, s, a[1], [p]), lambda s, p: ret(s, False))


@model("Result::is_err_and")
def m_is_err_and(I, st, a, info):
    return branch(I, st, a[0], 0, lambda s, p: ret(s, False), lambda s, p: callf(I, s, a[1], [p]))


@model("Result::unwrap_or_default")
def m_res_unwrap_or_default(I, st, a, info):
    d = default_of(I, info.dty)
    if d is None:
        return None
    return branch(I, st, a[0], 0, lambda s, p: ret(s, p), lambda s, p: ret(s, d))


@model("Option::inspect", "Result::inspect", "Result::inspect_err")
def m_inspect(I, st, a, info):
    k = 1 if info.key == "Option::inspect" else 0

    def run(s, p):
        return [(s2, tag, a[0] if tag == "ret" else x) for s2, tag, x in I.call_value(s, a[1], [ref(p)])]
    keep = lambda s, p: ret(s, a[0])
    return branch(I, st, a[0], k, keep, run) if info.key.endswith("err") else branch(I, st, a[0], k, run, keep)


@model("Option::or")
def m_or(I, st, a, info):
    return branch(I, st, a[0], 1, lambda s, p: ret(s, some(p)), lambda s, p: ret(s, a[1]))


@model("Option::xor", "Option::and")
def m_optand(I, st, a, info):
    if info.key.endswith("xor"):
        return branch(I, st, a[0], 1, lambda s, p: branch(I, s, a[1], 1, lambda s2, q: ret(s2, NONE), lambda s2, q: ret(s2, some(p))), lambda s, p: ret(s, a[1]))
    return branch(I, st, a[0], 1, lambda s, p: ret(s, a[1]), lambda s, p: ret(s, NONE))


@model("Option::ok_or")
def m_ok_or(I, st, a, info):
    return branch(I, st, a[0], 1, lambda s, p: ret(s, ok(p)), lambda s, p: ret(s, err(a[1])))


@model("Option::ok_or_else")
def m_ok_or_else(I, st, a, info):
    return branch(I, st, a[0], 1, lambda s, p: ret(s, ok(p)), lambda s, p: callf(I, s, a[1], [], err))


@model("Result::ok")
def m_ok(I, st, a, info):
    return branch(I, st, a[0], 0, lambda s, p: ret(s, some(p)), lambda s, p: ret(s, NONE))


@model("Result::err")
def m_err(I, st, a, info):
    return branch(I, st, a[0], 0, lambda s, p: ret(s, NONE), lambda s, p: ret(s, some(p)))


@model("Option::unwrap_or")
def m_unwrap_or(I, st, a, info):
    return branch(I, st, a[0], 1, lambda s, p: ret(s, p), lambda s, p: ret(s, a[1]))


@model("Result::unwrap_or")
def m_res_unwrap_or(I, st, a, info):
    return branch(I, st, a[0], 0, lambda s, p: ret(s, p), lambda s, p: ret(s, a[1]))


@model("Option::unwrap_or_else")
def m_unwrap_or_else(I, st, a, info):
    return branch(I, st, a[0], 1, lambda s, p: ret(s, p), lambda s, p: callf(I, s, a[1], []))


@model("Result::unwrap_or_else")
def m_res_unwrap_or_else(I, st, a, info):
    return branch(I, st, a[0], 0, lambda s, p: ret(s, p), lambda s, p: callf(I, s, a[1], [p]))


@model("Option::unwrap_or_default")
def m_unwrap_or_default(I, st, a, info):
    d = default_of(I, info.dty)
    if d is None:
        return None
    return branch(I, st, a[0], 1, lambda s, p: ret(s, p), lambda s, p: ret(s, d))


@model("Option::map_or")
def m_map_or(I, st, a, info):
    return branch(I, st, a[0], 1, lambda s, p: callf(I, s, a[2], [p]), lambda s, p: ret(s, a[1]))


@model("Option::map_or_else")
def m_map_or_else(I, st, a, info):
    return branch(I, st, a[0], 1, lambda s, p: callf(I, s, a[2], [p]), lambda s, p: callf(I, s, a[1], []))


@model("Option::is_some_and")
def m_is_some_and(I, st, a, info):
    return branch(I, st, a[0], 1, lambda s, p: callf(I, s, a[1], [p]), lambda s, p: ret(s, False))


@model("Option::is_none_or")
def m_is_none_or(I, st, a, info):
    return branch(I, st, a[0], 1, lambda s, p: callf(I, s, a[1], [p]), lambda s, p: ret(s, True))


@model("Option::filter")
def m_opt_filter(I, st, a, info):
    def f(s, p):
        out = []
        for s2, tag, c in I.call_value(s, a[1], [ref(p)]):
            if tag != "ret":
                out.append((s2, tag, c))
                continue
            for s3, tr in I.split(s2, c):
                out.append((s3, "ret", some(p) if tr else NONE))
        return out
    return branch(I, st, a[0], 1, f, lambda s, p: ret(s, NONE))


@model("Option::as_ref", "Option::as_deref", "Result::as_ref")
def m_as_ref(I, st, a, info):
    v = rd1(I, st, a[0])
    if info.key.startswith("Result"):
        return branch(I, st, v, 0, lambda s, p: ret(s, ok(ref(p))), lambda s, p: ret(s, err(ref(p))))
    return branch(I, st, v, 1, lambda s, p: ret(s, some(ref(p))), lambda s, p: ret(s, NONE))


@model("Option::as_mut", "Option::as_deref_mut")
def m_as_mut(I, st, a, info):
    cur = loc(I, st, a[0])
    v = I.read(st, cur)
    out = []
    for s, tr in cases(I, st, v, 1):
        if tr:
            s = s.fork()
            if v.tag != "en":
                I.write(s, cur, some(payload(v, 1)))
            out.append((s, "ret", some(mref(cur[1], cur[2] + (("v", 1), ("f", 0))))))
        else:
            out.append((s, "ret", NONE))
    return out


@model("Option::take")
def m_opt_take(I, st, a, info):
    cur = loc(I, st, a[0])
    v = I.read(st, cur)
    st = st.fork()
    I.write(st, cur, NONE)
    return ret(st, v)


@model("Option::replace", "Option::insert", "mem::replace")
def m_replace(I, st, a, info):
    cur = loc(I, st, a[0])
    v = I.read(st, cur)
    st = st.fork()
    if info.key == "Option::insert":
        I.write(st, cur, some(a[1]))
        return ret(st, mref(cur[1], cur[2] + (("v", 1), ("f", 0))))
    I.write(st, cur, some(a[1]) if info.key == "Option::replace" else a[1])
    return ret(st, v)


@model("mem::take")
def m_mem_take(I, st, a, info):
    cur = loc(I, st, a[0])
    v = I.read(st, cur)
    d = default_of(I, info.dty)
    if d is None:
        return None
    st = st.fork()
    I.write(st, cur, d)
    return ret(st, v)


@model("mem::swap", "ptr::swap")
def m_mem_swap(I, st, a, info):
    c1, c2 = I.deref_value(st, a[0]), I.deref_value(st, a[1])
    st = st.fork()
    x, y = I.read(st, c1), I.read(st, c2)
    I.write(st, c1, y)
    I.write(st, c2, x)
    return ret(st, UNIT)


@model("mem::drop", "mem::forget")
def m_drop(I, st, a, info):
    return ret(st, UNIT)


@model("Option::copied", "Option::cloned")
def m_opt_copied(I, st, a, info):
    return branch(I, st, a[0], 1, lambda s, p: ret(s, some(rd1(I, s, p))), lambda s, p: ret(s, NONE))


@model("Option::zip")
def m_opt_zip(I, st, a, info):
    return branch(I, st, a[0], 1, lambda s, p: branch(I, s, a[1], 1, lambda s2, q: ret(s2, some(tup(p, q))), lambda s2, q: ret(s2, NONE)),
                  lambda s, p: ret(s, NONE))


@model("Option::transpose")
def m_transpose(I, st, a, info):
    return branch(I, st, a[0], 1,
                  lambda s, p: branch(I, s, p, 0, lambda s2, q: ret(s2, ok(some(q))), lambda s2, q: ret(s2, err(q))),
                  lambda s, p: ret(s, ok(NONE)))


@model("Option::flatten")
def m_opt_flatten(I, st, a, info):
    return branch(I, st, a[0], 1, lambda s, p: ret(s, p), lambda s, p: ret(s, NONE))


@model("Try::branch")
def m_branch(I, st, a, info):
    v = a[0]
    t = info.targs[0] if info.targs else None
    isopt = opt_like(v) if v.tag in ("en", "symv") else (t is not None and t[0] == "adt" and t[1] == OPT)
    if isopt:
        return branch(I, st, v, 1, lambda s, p: ret(s, en(CF, 0, p)), lambda s, p: ret(s, en(CF, 1, NONE)))
    return branch(I, st, v, 0, lambda s, p: ret(s, en(CF, 0, p)), lambda s, p: ret(s, en(CF, 1, err(p))))


@model("FromResidual::from_residual")
def m_residual(I, st, a, info):
    v = a[0]
    dst = info.dty
    if v.tag == "en" and v.args[0] == OPT:
        return ret(st, NONE)
    if v.tag == "symv" or v.tag == "en":
        p = payload(v, 1)
        if p is None:
            return ret(st, NONE)
        # the error is converted with From
        et = dst[2][1] if dst is not None and dst[0] == "adt" and dst[1] == RES else None
        src = None
        if len(info.targs) > 1 and info.targs[1][0] == "adt" and info.targs[1][1] == RES:
            src = info.targs[1][2][1]
        if et is not None and src is not None and et != src:
            fi = IP.CallInfo({"name": "From::from", "id": "?"}, [et, src], et, [], {})
            fi.key = "From::from"
            r = m_into(I, st, [p], fi)
            if r is None:
                r = I.opaque_call(st, "From::from", [p], et)
            return [(s, tag, err(x) if tag == "ret" else x) for s, tag, x in r]
        return ret(st, err(p))
    raise Incomplete("residual")


# ---------------------------------------------------------------- integers, comparison, defaults
def int2(f):
    def g(I, st, a, info):
        x, y = rd(I, st, a[0]), rd(I, st, a[1])
        if x.tag != "poly" or y.tag != "poly":
            return None
        return f(I, st, x, y)
    return g


INTT = ("usize", "u8", "u16", "u32", "u64", "isize", "i8", "i16", "i32", "i64")


def width_ok(I, st, v, name, mul=False):
    """condition that v fits; memory sized quantities do not overflow unless tracked"""
    return True


def reg_int(n):
    signed = n.startswith("i")
    M[n + "::checked_sub"] = int2(lambda I, st, x, y: [(s, "ret", some(psub(x, y)) if tr else NONE) for s, tr in I.split(st, le(y, x) if not signed else True)])
    M[n + "::checked_add"] = int2(lambda I, st, x, y: checked(I, st, padd(x, y), x, y, n))
    M[n + "::checked_mul"] = int2(lambda I, st, x, y: checked(I, st, pmul(x, y), x, y, n))
    M[n + "::checked_div"] = int2(lambda I, st, x, y: [(s, "ret", NONE if tr else some(pdivc(x, y))) for s, tr in I.split(st, eqp(y, ZERO))])
    M[n + "::checked_rem"] = int2(lambda I, st, x, y: [(s, "ret", NONE if tr else some(pmodc(x, y))) for s, tr in I.split(st, eqp(y, ZERO))])
    M[n + "::saturating_sub"] = int2(lambda I, st, x, y: [(s, "ret", psub(x, y) if tr else ZERO) for s, tr in I.split(st, le(y, x))] if not signed else None)
    M[n + "::saturating_add"] = int2(lambda I, st, x, y: saturating(I, st, padd(x, y), x, y, n))
    M[n + "::saturating_mul"] = int2(lambda I, st, x, y: saturating(I, st, pmul(x, y), x, y, n))
    M[n + "::abs_diff"] = int2(lambda I, st, x, y: [(s, "ret", psub(x, y) if tr else psub(y, x)) for s, tr in I.split(st, le(y, x))])
    M[n + "::rem_euclid"] = int2(lambda I, st, x, y: [(s, "panic", "rem_euclid") if tr else (s, "ret", pmodc(x, y)) for s, tr in I.split(st, eqp(y, ZERO))])
    M[n + "::div_ceil"] = int2(lambda I, st, x, y: [(s, "panic", "div_ceil") if tr else (s, "ret", pdivc(padd(x, psub(y, ONE)), y)) for s, tr in I.split(st, eqp(y, ZERO))])
    M[n + "::min"] = M[n + "::max"] = None

    def wrapping(f):
        def g(I, st, x, y):
            v = f(x, y)
            if not signed and prove(st.facts, ge(v), 2) and not any(IP.unbounded(q) for q in (x, y)):
                return ret(st, v)
            return ret(st, atom(typed(mk("uf", "wrap:" + n, True, v), ("prim", n))))
        return int2(g)
    M[n + "::wrapping_sub"] = wrapping(psub)
    M[n + "::wrapping_add"] = wrapping(padd)
    M[n + "::wrapping_mul"] = wrapping(pmul)


TOP = {"u8": 255, "u16": 65535, "u32": (1 << 32) - 1, "usize": (1 << 64) - 1, "u64": (1 << 64) - 1}


def saturating(I, st, v, x, y, n):
    w = TOP.get(n)
    if w is None:
        return None
    if n in ("usize", "u64") and not any(IP.unbounded(q) for q in (x, y)):
        return ret(st, v)
    return [(s, "ret", v if tr else const(w)) for s, tr in I.split(st, le(v, const(w)))]


def checked(I, st, v, x, y, n):
    if I.overflow and any(IP.unbounded(q) for q in (x, y)):
        c = batom(mk("uf", "overflow", True, v))
        return [(s, "ret", NONE if tr else some(v)) for s, tr in I.split(st, c)]
    w = {"u8": 255, "u16": 65535, "u32": (1 << 32) - 1}.get(n)
    if w:
        return [(s, "ret", some(v) if tr else NONE) for s, tr in I.split(st, le(v, const(w)))]
    return ret(st, some(v))


for _n in INTT:
    reg_int(_n)
    for q in ("min", "max"):
        M.pop(_n + "::" + q, None)


@model("isize::abs", "i32::abs", "i64::abs", "isize::unsigned_abs", "i32::unsigned_abs", "i64::unsigned_abs")
def m_abs(I, st, a, info):
    return [(s, "ret", a[0] if tr else pscale(a[0], -1)) for s, tr in I.split(st, ge(a[0]))]


@model("usize::pow", "u64::pow", "u32::pow")
def m_pow(I, st, a, info):
    c = cval(a[1])
    if c is not None and 0 <= c <= 4:
        r = ONE
        for _ in range(c):
            r = pmul(r, a[0])
        return ret(st, r)
    return None


@model("cmp::min", "Ord::min", "cmp::max", "Ord::max")
def m_min(I, st, a, info):
    x, y = a
    xv, yv = x, y
    if xv.tag != "poly" or yv.tag != "poly":
        rx, ry = rd(I, st, x), rd(I, st, y)
        if rx.tag != "poly" or ry.tag != "poly":
            return None
        xv, yv = rx, ry
    mn = info.key.endswith("min")
    out = []
    c = le(xv, yv)
    d = decider(st.facts, 2)(c) if not isinstance(c, bool) else c
    if d is None:
        if x.tag == "poly" and I.in_loop:
            return ret(st, T.ite(c, xv, yv) if mn else T.ite(c, yv, xv))
        return [(s, "ret", (x if tr == mn else y)) for s, tr in I.split(st, c)]
    return ret(st, (x if d == mn else y))


def arith(op):
    def g(I, st, a, info):
        x, y = rd(I, st, a[0]), rd(I, st, a[1])
        if x.tag != "poly" or y.tag != "poly":
            return None
        if op in ("Div", "Rem"):
            return [(s, "panic", "division by zero") if tr else (s, "ret", I.binop(s, op, x, y, None)) for s, tr in I.split(st, eqp(y, ZERO))]
        v = I.binop(st, op, x, y, None)
        t = info.targs[0] if info.targs else USIZE
        o = I.ovf(st, op, x, y, v, rr(t))
        return [(s, "panic", "overflow") if tr else (s, "ret", v) for s, tr in I.split(st, o)]
    return g


for _o, _t in (("Add", "add"), ("Sub", "sub"), ("Mul", "mul"), ("Div", "div"), ("Rem", "rem")):
    M["%s::%s" % (_o, _t)] = arith(_o)


def arith_assign(op):
    f = arith(op)

    def g(I, st, a, info):
        cur = loc(I, st, a[0])
        out = f(I, st, a, info)
        if out is None:
            return None
        res = []
        for s, tag, v in out:
            if tag == "ret":
                s = s.fork()
                I.write(s, cur, v)
                v = UNIT
            res.append((s, tag, v))
        return res
    return g


for _o, _t in (("Add", "add"), ("Sub", "sub"), ("Mul", "mul"), ("Div", "div"), ("Rem", "rem")):
    M["%sAssign::%s_assign" % (_o, _t)] = arith_assign(_o)


@model("PartialEq::eq", "PartialEq::ne")
def m_eq(I, st, a, info):
    x, y = deep(I, st, a[0]), deep(I, st, a[1])
    # local PartialEq impls of the elements: only structural ones are understood
    r = eq_local(I, st, x, y, info)
    if r is not None:
        return r
    c = veq(x, y, decider(st.facts, 1))
    return ret(st, bnot(c) if info.key.endswith("ne") else c)


def eq_local(I, st, x, y, info):
    """`ne` on a type whose `eq` is local"""
    if not info.targs:
        return None
    t0 = info.targs[0]
    t = rr(t0)
    t1 = rr(info.targs[1]) if len(info.targs) > 1 else t
    for im in I.P.impls:
        if im["trait"] and im["trait"].split("::")[-1].split("<")[0] == "PartialEq" and "eq" in im["items"]:
            m = {}
            if IP.unify(I.P.ty(im["self"]), t, m) and (len(im["targs"]) < 2 or not isinstance(im["targs"][1], int) or IP.unify(I.P.ty(im["targs"][1]), t1, m)):
                g = I.P.fns.get(im["items"]["eq"])
                if g is None or g.get("derived") or not g.get("body"):
                    return None
                out = []
                for s, tag, v in I.run_fn(g, [ref(x), ref(y)], {q: m.get(q, ("param", q)) for q in g["generics"]}, st):
                    out.append((s, tag, (bnot(v) if info.key.endswith("ne") else v) if tag == "ret" else v))
                return out
    return None


@model("PartialOrd::lt", "PartialOrd::le", "PartialOrd::gt", "PartialOrd::ge")
def m_lt(I, st, a, info):
    x, y = deep(I, st, a[0]), deep(I, st, a[1])
    if x.tag != "poly" or y.tag != "poly":
        return None
    k = info.key[-2:]
    return ret(st, {"lt": lt(x, y), "le": le(x, y), "gt": lt(y, x), "ge": le(y, x)}[k])


@model("Ord::cmp", "PartialOrd::partial_cmp")
def m_cmp(I, st, a, info):
    x, y = deep(I, st, a[0]), deep(I, st, a[1])
    w = some if info.key.endswith("partial_cmp") else (lambda v: v)
    if x.tag == "poly" and y.tag == "poly":
        return ret(st, w(T.ite(lt(x, y), en(ORD, 0), T.ite(eqp(x, y), en(ORD, 1), en(ORD, 2)))))
    t = typed(mk("uf", "cmp", True, x, y), ("adt", ORD, ()))
    return ret(st, w(symv(t, ("adt", ORD, ()))))


@model("Hash::hash", "Hash::hash_slice", "Hasher::write_usize", "Hasher::write_u64", "Hasher::write_u32", "Hasher::write_u16", "Hasher::write_u8", "Hasher::write_length_prefix")
def m_hash(I, st, a, info):
    """the hasher's state is the history of what was fed to it"""
    m = info.key.split("::")[-1]
    v, s = (a[0], a[1]) if m.startswith("hash") else (a[1], a[0])
    if s.tag != "mref":
        return None
    ty = info.argtys[0 if m.startswith("hash") else 1] if info.argtys else None
    while ty is not None and ty[0] == "ref":
        ty = ty[2]
    x = deep(I, st, v)
    if m.startswith("hash"):
        if ty is None:
            return None
        if elem_ty(ty) is not None:
            k = "slice" if m == "hash_slice" else "seq"
            while elem_ty(ty) is not None:
                ty = elem_ty(ty)
            k += ":" + repr(strip(ty))
        elif ty[0] == "prim":
            k = ty[1]
        else:
            return None
    else:
        k = {"length_prefix": "usize"}.get(m[6:], m[6:])
    cur = ("mem", s.args[0], s.args[1])
    hty = I.loc_ty(s.args[0], s.args[1])
    if hty is None:
        return None
    t = typed(mk("uf", "hashed:" + k, True, x, I.read(st, cur)), hty)
    st = st.fork()
    I.write(st, cur, mk_value(t, hty))
    return [(st, "ret", UNIT)]


@model("Ordering::reverse")
def m_ord_rev(I, st, a, info):
    v = a[0]
    return ret(st, T.ite(isvar(v, 0), en(ORD, 2), T.ite(isvar(v, 1), en(ORD, 1), en(ORD, 0))))


@model("Ordering::is_eq", "Ordering::is_ne", "Ordering::is_lt", "Ordering::is_gt", "Ordering::is_le", "Ordering::is_ge")
def m_ord_is(I, st, a, info):
    v, k = a[0], info.key.split("::")[-1][3:]
    i, pos = {"eq": (1, True), "ne": (1, False), "lt": (0, True), "ge": (0, False), "gt": (2, True), "le": (2, False)}[k]
    return ret(st, isvar(v, i) if pos else bnot(isvar(v, i)))


@model("Ordering::then", "Ordering::then_with")
def m_ord_then(I, st, a, info):
    out = []
    for s, tr in I.split(st, isvar(a[0], 1)):
        if not tr:
            out.append((s, "ret", a[0]))
        elif info.key.endswith("with"):
            out += callf(I, s, a[1], [])
        else:
            out.append((s, "ret", a[1]))
    return out


@model("bool::then")
def m_then(I, st, a, info):
    out = []
    for s, tr in I.split(st, a[0]):
        if tr:
            out += callf(I, s, a[1], [], some)
        else:
            out.append((s, "ret", NONE))
    return out


@model("bool::then_some")
def m_then_some(I, st, a, info):
    return [(s, "ret", some(a[1]) if tr else NONE) for s, tr in I.split(st, a[0])]


def default_of(I, ty):
    s = strip(ty)
    if s[0] == "prim":
        if s[1] == "bool":
            return False
        if s[1] in V.INTS:
            return ZERO
    if elem_ty(s) is not None and s[0] == "adt":
        return EMPTYSEQ
    if s[0] == "adt" and s[1] == OPT:
        return NONE
    if s[0] == "tuple":
        fs = [default_of(I, x) for x in s[1]]
        return None if any(f is None for f in fs) else agg("tuple", fs)
    return None


@model("Default::default")
def m_default(I, st, a, info):
    ty = info.dty
    if ty is None and info.targs:
        ty = info.targs[0]
    if ty is None:
        return None
    d = default_of(I, ty)
    if d is None:
        if ty[0] in ("param", "alias"):
            t = typed(mk("uf", "call", True, mk("strlit", "Default::default")), ty)
            return ret(st, mk_value(t, ty))
        return None
    return ret(st, d)


@model("RangeInclusive::new")
def m_ri_new(I, st, a, info):
    return ret(st, agg("std::ops::Range", (a[0], padd(a[1], ONE))))


@model("RangeInclusive::contains", "Range::contains")
def m_range_contains(I, st, a, info):
    r = rd(I, st, a[0])
    x = rd(I, st, a[1])
    lo, hi = r.args[1][:2]
    return ret(st, band(le(lo, x), lt(x, hi)))


@model("Range::is_empty", "RangeInclusive::is_empty")
def m_range_empty(I, st, a, info):
    r = rd(I, st, a[0])
    return ret(st, bnot(lt(r.args[1][0], r.args[1][1])))


# ---------------------------------------------------------------- panics
@model("panicking::panic", "rt::panic_fmt", "panicking::panic_fmt", "panicking::assert_failed", "panicking::panic_display",
       "panicking::unreachable_display", "rt::begin_panic", "panicking::panic_nounwind", "option::expect_failed", "panicking::assert_failed_inner",
       "panicking::panic_explicit", "panicking::panic_str_2015")
def m_panic(I, st, a, info):
    return [(st, "panic", "explicit panic in " + (info.frame.name if info.frame is not None else "?"))]


# ---------------------------------------------------------------- closures called through traits
@model("FnOnce::call_once", "FnMut::call_mut", "Fn::call")
def m_call(I, st, a, info):
    args = a[1]
    if args.tag == "agg" and args.args[0] == "tuple":
        return I.call_value(st, a[0], list(args.args[1]), info.dty)
    raise Incomplete("call arguments")


# ---------------------------------------------------------------- boxes and shared pointers
@model("Box::new", "Rc::new", "Arc::new", "Rc::from_raw", "Arc::from_raw", "Rc::into_raw", "Arc::into_raw", "Box::from_raw", "Box::into_raw",
       "Box::leak", "Pin::new", "boxed::box_assume_init_into_vec_unsafe", "hint::must_use", "hint::black_box", "Box::into_inner",
       "Vec::into_vec", "ManuallyDrop::new", "Rc::clone", "Arc::clone")
def m_ident(I, st, a, info):
    if info.key in ("Rc::clone", "Arc::clone"):
        return ret(st, rd1(I, st, a[0]))
    return ret(st, a[0])


@model("Box::new_uninit")
def m_new_uninit(I, st, a, info):
    return ret(st, UNDEF)


# ---------------------------------------------------------------- strings
STR = ("prim", "str")


def str_term(I, st, v):
    v = rd(I, st, v)
    if v.tag != "symv":
        raise Incomplete("string value " + v.tag)
    return v


@model("str::chars", "str::bytes", "str::char_indices", "str::as_bytes", "String::as_bytes", "String::into_bytes")
def m_chars(I, st, a, info):
    v = str_term(I, st, a[0])
    t = typed(mk("uf", "chars", True, v), ("adt", "std::vec::Vec", (("prim", "char"),)))
    k = fresh()
    n = atom(typed(mk("len", t), USIZE))
    e = atom(typed(mk("at", t, atom(k)), ("prim", "char")))
    if info.key.endswith("bytes"):
        t = typed(mk("uf", "bytes", True, v), ("adt", "std::vec::Vec", (("prim", "u8"),)))
        x = v.args[0] if v.tag == "symv" else v
        b = mk_value(t, TY[t])
        if x.tag == "strlit" and isinstance(x.args[0], str):
            b = seq((comp(const(len(x.args[0].encode())), lam(k, atom(typed(mk("at", t, atom(k)), ("prim", "u8"))))),))
        return ret(st, seq_it(b) if info.key == "str::bytes" else b if info.key == "String::into_bytes" else ref(b))
    if info.key == "str::char_indices":
        # byte offset of character k: offsets increase and stay inside the string
        o = atom(typed(mk("coff", v, atom(k)), USIZE))
        e = tup(o, e)
    return ret(st, seq_it(seq((comp(n, lam(k, e)),))))


@model("str::len", "String::len")
def m_str_len(I, st, a, info):
    v = str_term(I, st, a[0])
    return ret(st, atom(typed(mk("slen", v), USIZE)))


@model("str::is_empty", "String::is_empty")
def m_str_empty(I, st, a, info):
    v = str_term(I, st, a[0])
    return ret(st, eqp(atom(typed(mk("slen", v), USIZE)), ZERO))


@model("str::as_ptr")
def m_as_ptr(I, st, a, info):
    v = str_term(I, st, a[0])
    return ret(st, symv(typed(mk("uf", "ptr", True, v), ("ptr", False, ("prim", "u8"))), ("ptr", False, ("prim", "u8"))))


def str_index(I, st, a, info):
    v = rd(I, st, a[0])
    return None


# ---------------------------------------------------------------- sets
@model("HashSet::new", "HashSet::with_capacity")
def m_hs_new(I, st, a, info):
    return ret(st, agg("HSet", (EMPTYSEQ,)))


def hs(I, st, v):
    w = rd(I, st, v)
    if w.tag == "agg" and w.args[0] == "HSet":
        return w.args[1][0]
    return None


def member(I, st, S, x):
    cs = []
    x = deep(I, st, x)
    for p in S.args[0]:
        if p.tag != "comp":
            if p.tag == "cat":
                n, l = p.args
                k = fresh()
                cs.append(exists_(n, lam(k, member_any(I, st, app(l, atom(k)), x))))
                continue
            raise Incomplete("membership")
        k = fresh()
        cs.append(exists_(p.args[0], lam(k, veq(deep(I, st, app(p.args[1], atom(k))), x))))
    return bor(*cs)


def member_any(I, st, b, x):
    if b.tag == "ite":
        return bor(band(b.args[0], member_any(I, st, b.args[1], x)), band(bnot(b.args[0]), member_any(I, st, b.args[2], x)))
    return member(I, st, b, x)


@model("HashSet::contains")
def m_hs_contains(I, st, a, info):
    S = hs(I, st, a[0])
    if S is None:
        return None
    return ret(st, member(I, st, S, a[1]))


@model("HashSet::insert")
def m_hs_insert(I, st, a, info):
    S = hs(I, st, a[0])
    if S is None:
        return None
    cur = loc(I, st, a[0])
    c = bnot(member(I, st, S, a[1]))
    st = st.fork()
    I.write(st, cur, agg("HSet", (concat(S, lit([a[1]])),)))
    return ret(st, c)


@model("HashSet::is_empty")
def m_hs_empty(I, st, a, info):
    S = hs(I, st, a[0])
    if S is None:
        return None
    return ret(st, eqp(slen(S), ZERO))


# ---------------------------------------------------------------- misc
@model("fmt::format", "ToString::to_string", "alloc::fmt::format")
def m_format(I, st, a, info):
    if info.key == "ToString::to_string" and len(a) == 1:
        r = rd(I, st, a[0])
        while r.tag == "ref":
            r = r.args[0]
        if r.tag == "symv" and r.args[1] in (("prim", "str"), ("adt", "std::string::String", ())):
            return ret(st, r)           # printing a string gives the string
        ty = info.argtys[0] if info.argtys else None
        while ty is not None and ty[0] == "ref":
            ty = ty[2]
        if ty is not None and ty[0] == "prim" and (ty[1] == "char" or ty[1] in INTS) and r.tag == "poly":
            t = typed(mk("uf", "format:" + ("char" if ty[1] == "char" else "int"), True, r), ("adt", "std::string::String", ()))
            return ret(st, symv(t, TY[t]))
    t = typed(mk("uf", "format", True, *[I.freeze(st, x) for x in a]), ("adt", "std::string::String", ()))
    return ret(st, symv(t, TY[t]))


def get_local(I, g, vals, info):
    """models for local functions: iterator methods on values that were converted to item sequences"""
    if g["method"] in ("next", "next_back") and vals:
        try:
            return m_next_local
        except Incomplete:
            return None
    if g.get("trait") and g["trait"].split("::")[-1].split("<")[0] == "IntoIterator" and vals:
        return m_into_local
    return None


def m_next_local(I, st, vals, info):
    v = vals[0]
    if v.tag != "mref":
        return None
    cur = loc(I, st, v)
    it = I.read(st, cur)
    if is_it(it):
        return m_next(I, st, vals, info)
    return None


def m_into_local(I, st, vals, info):
    if is_it(vals[0]):
        return ret(st, vals[0])
    return None


# ---------------------------------------------------------------- pieces of a string
@model("str::lines", "str::split", "str::rsplit", "str::split_whitespace", "str::split_ascii_whitespace", "str::split_inclusive", "str::split_terminator")
def m_str_pieces(I, st, a, info):
    """the pieces are an unknown but fixed sequence of substrings"""
    v = str_term(I, st, a[0])
    extra = [I.freeze(st, x) for x in a[1:]]
    for x in extra:
        if any(y.tag == "agg" and isinstance(y.args[0], str) and y.args[0].startswith("clo:") for y in subvals(x)):
            return None
    t = typed(mk("uf", "pieces", True, mk("strlit", info.key.split("::")[1]), v, *extra), ("adt", "std::vec::Vec", (("ref", False, STR),)))
    if info.key in ("str::split", "str::rsplit"):
        st = st.assume(ge(psub(atom(typed(mk("len", t), USIZE)), ONE)))
    return ret(st, seq_it(mk_value(t, TY[t])))


# ---------------------------------------------------------------- maps
def hm_type(I, st, v):
    """(map value, key type, value type) of a reference to a map, or None"""
    if v.tag not in ("ref", "mref", "symv", "ite"):
        return None
    w = rd(I, st, v) if v.tag != "ite" else v
    if w.tag == "ite":
        # one of several maps: an unknown map determined by the condition and both
        leaves, q = [], [w]
        while q:
            x = q.pop()
            if x.tag == "ite":
                q += [x.args[1], x.args[2]]
            else:
                leaves.append(x)
        if not all(x.tag == "symv" and x.args[1] is leaves[0].args[1] or x.tag == "symv" and x.args[1] == leaves[0].args[1] for x in leaves):
            return None
        t = typed(mk("uf", "pick", True, w), leaves[0].args[1])
        w = symv(t, leaves[0].args[1])
    if w.tag != "symv":
        return None
    ty = LY.unbox(w.args[1])
    if ty[0] != "adt" or not ty[1].endswith("HashMap"):
        return None
    return w, ty[2][0], ty[2][1]


@model("HashMap::values", "HashMap::keys", "HashMap::iter", "HashMap::into_values", "HashMap::into_keys")
def m_hm_iter(I, st, a, info):
    """the entries of a map are an unknown but fixed sequence"""
    m = hm_type(I, st, a[0])
    if m is None:
        return None
    return [(s, "ret", i) for s, i in hm_entries(I, st, m, info.key.split("::")[1])]


def hm_entries(I, st, m, k):
    w, K, W = m
    by = not k.startswith("into_")
    r = lambda x: ("ref", False, x) if by else x
    item = {"values": r(W), "keys": r(K), "iter": ("tuple", (r(K), r(W)))}[k.replace("into_", "")]
    t = typed(mk("uf", "entries:" + k, True, w), ("adt", "std::vec::Vec", (item,)))
    return [(st, seq_it(mk_value(t, TY[t])))]


@model("HashMap::entry")
def m_hm_entry(I, st, a, info):
    m = hm_type(I, st, a[0])
    if m is None or a[0].tag != "mref":
        return None
    return ret(st, agg("HEntry", (a[0], a[1])))


@model("Entry::or_insert_with", "Entry::or_insert", "Entry::or_default", "hash_map::Entry::or_insert_with", "hash_map::Entry::or_insert")
def m_hm_slot(I, st, a, info):
    """the slot of a key: an unknown value of the map's value type, mutable through the returned reference"""
    if a[0].tag != "agg" or a[0].args[0] != "HEntry":
        return None
    mr, key = a[0].args[1]
    m = hm_type(I, st, mr)
    if m is None:
        return None
    w, K, W = m
    st = st.fork()
    fk = I.freeze(st, key)
    t = typed(mk("uf", "slot", True, w, fk), W)
    al = I.new_alloc(st, mk_value(t, W), W)
    I.slot_keys[al] = fk
    nm = typed(mk("uf", "slotted", True, w, fk), LY.unbox(w.args[1]))
    I.write(st, loc(I, st, mr), mk_value(nm, TY[nm]))
    return ret(st, mref(al))


@model("Write::write_fmt", "Write::write_str", "Write::write_char")
def m_write_string(I, st, a, info):
    """writing to a string cannot fail"""
    if a[0].tag != "mref":
        return None
    cur = loc(I, st, a[0])
    w = I.read(st, cur)
    if w.tag != "symv" or LY.unbox(w.args[1]) != ("adt", "std::string::String", ()):
        return None
    st = st.fork()
    ty = ("adt", "std::string::String", ())
    I.write(st, cur, symv(typed(mk("uf", "appended", True, w, *[I.freeze(st, x) for x in a[1:]]), ty), ty))
    return ret(st, ok(UNIT))
