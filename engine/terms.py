"""Hash-consed terms: integers are polynomials over atoms, sequences are comprehensions, plus values.

Everything the abstract interpreter computes with is one of these nodes; structural equality is
node identity.  `lam` is the only binder (bound variables are named by binder height, so alpha
equivalent terms are identical)."""
import sys
sys.setrecursionlimit(20000)

_TABLE = {}
_CNT = [0]


class N:
    __slots__ = ("tag", "args", "id", "hgt", "syms", "bvs")

    def __repr__(self):
        return show(self)


_EMPTY = frozenset()


def mk(tag, *args):
    key = (tag, args)
    n = _TABLE.get(key)
    if n is not None:
        return n
    n = N()
    n.tag = tag
    n.args = args
    _CNT[0] += 1
    n.id = _CNT[0]
    h = 0
    sy = _EMPTY
    bs = _EMPTY
    for a in _kids(args):
        if a.hgt > h:
            h = a.hgt
        if a.syms:
            sy = sy | a.syms if sy else a.syms
        if a.bvs:
            bs = bs | a.bvs if bs else a.bvs
    if tag == "lam":
        h += 1
        if bs:
            b = _TABLE.get(("bv", (h,)))
            if b in bs:
                bs = bs - {b}
    elif tag == "sv":
        sy = sy | frozenset((n,))
    elif tag == "bv":
        bs = frozenset((n,))
    n.bvs = bs
    n.hgt = h
    n.syms = sy
    _TABLE[key] = n
    return n


def _kids(args):
    for a in args:
        if isinstance(a, N):
            yield a
        elif isinstance(a, tuple):
            yield from _kids(a)


# ---------------------------------------------------------------- integers
def _poly(d):
    items = [x for x in d.items() if x[1] != 0]
    if len(items) > 1:
        items.sort(key=_mkey)
    return mk("poly", tuple(items))


def _mkey(x):
    m = x[0]
    return (m[0].id,) if len(m) == 1 else tuple([a.id for a in m])


_CONST = {}
_ATOM = {}


def const(n):
    r = _CONST.get(n)
    if r is None:
        r = _CONST[n] = _poly({(): n})
    return r


def atom(a):
    """atom node -> poly"""
    r = _ATOM.get(a)
    if r is None:
        r = _ATOM[a] = a if a.tag == "poly" else _poly({(a,): 1})
    return r


ZERO = const(0)
ONE = const(1)


def is_poly(x):
    return isinstance(x, N) and x.tag == "poly"


def cval(p):
    """constant value or None"""
    if p.tag != "poly":
        return None
    t = p.args[0]
    if not t:
        return 0
    if len(t) == 1 and t[0][0] == ():
        return t[0][1]
    return None


def as_atom(p):
    """the atom if p is exactly one atom"""
    if p.tag == "poly" and len(p.args[0]) == 1:
        m, c = p.args[0][0]
        if c == 1 and len(m) == 1:
            return m[0]
    return None


def padd(a, b, s=1):
    if not b.args[0]:
        return a
    if s == 1 and not a.args[0]:
        return b
    d = dict(a.args[0])
    for m, c in b.args[0]:
        d[m] = d.get(m, 0) + s * c
    return _poly(d)


def psub(a, b):
    return padd(a, b, -1)


def pscale(a, k):
    if k == 1:
        return a
    return _poly({m: c * k for m, c in a.args[0]})


def pmul(a, b):
    x, y = a.args[0], b.args[0]
    if not x or not y:
        return ZERO
    if len(x) == 1 and x[0][0] == ():
        return pscale(b, x[0][1])
    if len(y) == 1 and y[0][0] == ():
        return pscale(a, y[0][1])
    d = {}
    for m, c in a.args[0]:
        for m2, c2 in b.args[0]:
            mm = tuple(sorted(m + m2, key=lambda x: x.id))
            d[mm] = d.get(mm, 0) + c * c2
    return _poly(d)


def pconst(p):
    for m, c in p.args[0]:
        if m == ():
            return c
    return 0


def atoms_of(p):
    s = set()
    for m, c in p.args[0]:
        s.update(m)
    return s


def pdiv_exact(p, a):
    """p / a for an atom a, if every monomial contains a; else None"""
    d = {}
    for m, c in p.args[0]:
        if a not in m:
            return None
        l = list(m)
        l.remove(a)
        d[tuple(l)] = d.get(tuple(l), 0) + c
    return _poly(d)


def split_by(p, a):
    """p = q*a + r with r not containing a"""
    q, r = {}, {}
    for m, c in p.args[0]:
        if a in m:
            l = list(m)
            l.remove(a)
            q[tuple(l)] = q.get(tuple(l), 0) + c
        else:
            r[m] = c
    return _poly(q), _poly(r)


# ---------------------------------------------------------------- booleans (python True/False or nodes)
def ge(p):
    """p >= 0"""
    c = cval(p)
    if c is not None:
        return c >= 0
    # tighten by gcd
    import math
    g = 0
    for m, k in p.args[0]:
        if m != ():
            g = math.gcd(g, abs(k))
    if g > 1:
        d = {}
        for m, k in p.args[0]:
            d[m] = k // g if m != () else (k // g)
        p = _poly(d)
    return mk("ge", p)


INJ_HOOK = [None]


def eq0(p):
    c = cval(p)
    if c is not None:
        return c == 0
    t = p.args[0]
    if len(t) == 2 and t[0][1] + t[1][1] == 0 and len(t[0][0]) == 1 and len(t[1][0]) == 1:
        a, b = t[0][0][0], t[1][0][0]
        if a.tag == b.tag and a.tag in ("at", "pos") and a.args[0] is b.args[0] and INJ_HOOK[0] and INJ_HOOK[0](a.args[0]):
            return eq0(psub(a.args[1], b.args[1]))
    # sign normal form: the leading non-constant coefficient is positive
    import math
    g = 0
    for m, k in p.args[0]:
        if m != ():
            g = math.gcd(g, abs(k))
    c0 = pconst(p)
    if g > 1:
        if c0 % g:
            return False
        p = _poly({m: k // g for m, k in p.args[0]})
    lead = [k for m, k in p.args[0] if m != ()][0]
    if lead < 0:
        p = pscale(p, -1)
    return mk("eq", p)


def lt(a, b):
    return ge(psub(psub(b, a), ONE))


def le(a, b):
    return ge(psub(b, a))


def eqp(a, b):
    return eq0(psub(a, b))


def bnot(f):
    if f is True:
        return False
    if f is False:
        return True
    if f.tag == "not":
        return f.args[0]
    if f.tag == "ge":
        return ge(psub(pscale(f.args[0], -1), ONE))
    if f.tag == "and":
        return bor(*[bnot(x) for x in f.args[0]])
    if f.tag == "or":
        return band(*[bnot(x) for x in f.args[0]])
    if f.tag == "forall":
        n, l = f.args
        return exists_(n, lam_map(l, bnot))
    if f.tag == "exists":
        n, l = f.args
        return forall_(n, lam_map(l, bnot))
    return mk("not", f)


def band(*fs):
    out = []
    for f in fs:
        if f is True:
            continue
        if f is False:
            return False
        if f.tag == "and":
            for g in f.args[0]:
                if g not in out:
                    out.append(g)
        elif f not in out:
            out.append(f)
    s = set(out)
    for f in out:
        if bnot_shallow(f) in s:
            return False
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return mk("and", tuple(sorted(out, key=lambda x: x.id)))


def bnot_shallow(f):
    if f.tag == "not":
        return f.args[0]
    if f.tag == "ge":
        return ge(psub(pscale(f.args[0], -1), ONE))
    return mk("not", f)


def bor(*fs):
    out = []
    for f in fs:
        if f is False:
            continue
        if f is True:
            return True
        if f.tag == "or":
            for g in f.args[0]:
                if g not in out:
                    out.append(g)
        elif f not in out:
            out.append(f)
    s = set(out)
    for f in out:
        if bnot_shallow(f) in s:
            return True
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return mk("or", tuple(sorted(out, key=lambda x: x.id)))


def batom(n):
    return mk("b", n)


# ---------------------------------------------------------------- binders
def bv(h):
    return mk("bv", h)


_FRESH = [0]


COPIES = [0]


def fresh(hint="k"):
    _FRESH[0] += 1
    return mk("sv", hint, _FRESH[0])


def lam(sym, body):
    """abstract the fresh symbol `sym` (an `sv` atom) out of body"""
    if not isinstance(body, N):
        return mk("lam", body)
    h = body.hgt + 1
    b = subst(body, {sym: atom(bv(h))})
    # substitution may have changed the height (it cannot grow: bv has height 0)
    if b_hgt(b) + 1 != h:
        b = subst(body, {sym: atom(bv(b_hgt(b) + 1))})
    return mk("lam", b)


def b_hgt(b):
    return b.hgt if isinstance(b, N) else 0


def app(l, t):
    b = l.args[0]
    if not isinstance(b, N):
        return b
    return subst(b, {bv(l.hgt): t})


def lam_map(l, f):
    s = fresh()
    return lam(s, f(app(l, atom(s))))


def forall_(n, l):
    if cval(n) is not None and cval(n) <= 0:
        return True
    if l.args[0] is True:
        return True
    b = l.args[0]
    if isinstance(b, N) and b.tag == "and":
        s = fresh()
        o = app(l, atom(s))
        if isinstance(o, N) and o.tag == "and":
            return band(*[forall_(n, lam(s, x)) for x in o.args[0]])
    if cval(n) == 1:
        return app(l, ZERO)
    if isinstance(b, N) and b.tag == "ge":
        # what the range itself says
        s = fresh()
        o = app(l, atom(s))
        if isinstance(o, N) and o.tag == "ge":
            for r in (psub(o.args[0], atom(s)), psub(padd(o.args[0], atom(s)), psub(n, ONE))):
                if cval(r) is not None and cval(r) >= 0:
                    return True
    return mk("forall", n, l)


def exists_(n, l):
    if cval(n) is not None and cval(n) <= 0:
        return False
    if l.args[0] is False:
        return False
    if cval(n) == 1:
        return app(l, ZERO)
    b = l.args[0]
    if isinstance(b, N) and b.tag == "or":
        s = fresh()
        o = app(l, atom(s))
        if isinstance(o, N) and o.tag == "or":
            return bor(*[exists_(n, lam(s, x)) for x in o.args[0]])
    return mk("exists", n, l)


def mentions(x, bvn):
    """does x contain the atom bvn (free)?"""
    if not isinstance(x, N):
        if isinstance(x, tuple):
            return any(mentions(a, bvn) for a in x)
        return False
    if x is bvn:
        return True
    if bvn.tag == "sv" and bvn not in x.syms:
        return False
    if bvn.tag == "bv" and x.tag == "lam" and x.hgt <= 0:
        return False
    return any(mentions(a, bvn) for a in _kids(x.args))


# ---------------------------------------------------------------- substitution
REBUILD = {}


def sub_poly(n, m, go):
    d = {}
    changed = False
    for mono, c in n.args[0]:
        p = None
        for i, a in enumerate(mono):
            b = m[a] if a in m else go(a)
            if b is a:
                if p is not None:
                    p = pmul(p, atom(a))
            else:
                if p is None:
                    p = _poly({mono[:i]: 1})
                p = pmul(p, b if b.tag == "poly" else atom(b))
        if p is None:
            d[mono] = d.get(mono, 0) + c
        else:
            changed = True
            for m2, c2 in p.args[0]:
                d[m2] = d.get(m2, 0) + c * c2
    return _poly(d) if changed else n


def subst(x, m):
    if not m:
        return x
    memo = {}
    other = any(k.tag != "sv" and k.tag != "bv" for k in m)
    keys = frozenset(m)
    ksv = frozenset(k for k in m if k.tag == "sv")
    kbv = keys - ksv

    def go(n):
        if isinstance(n, tuple):
            return tuple(go(a) for a in n)
        if not isinstance(n, N):
            return n
        if not other and (not ksv or not (n.syms & ksv)) and (not kbv or not (n.bvs & kbv)):
            return n
        r = memo.get(n)
        if r is not None:
            return r
        t = n.tag
        if t == "poly":
            r = sub_poly(n, m, go)
        elif t == "lam":
            body = n.args[0]
            if not isinstance(body, N):
                r = n
            else:
                # open with a fresh symbol, substitute, close again
                k = bv(n.hgt)
                if k in m:
                    m2 = dict(m)
                    del m2[k]
                else:
                    m2 = m
                # quick check: unchanged?
                s = fresh()
                ob = subst(body, {k: atom(s)})
                nb = subst(ob, m2) if m2 else ob
                if nb is ob:
                    r = n
                else:
                    r = lam(s, nb)
        elif n in m:
            r = m[n]
        elif t in ("bv", "sv", "sym"):
            r = n
        else:
            na = tuple(go(a) for a in n.args)
            if na == n.args:
                r = n
            else:
                rb = REBUILD.get(t)
                r = rb(*na) if rb else mk(t, *na)
        memo[n] = r
        return r

    return go(x)


def subst_any(x, m):
    """substitute arbitrary nodes (not only variables)"""
    if not m:
        return x
    memo = {}
    low = min(k.id for k in m)      # a term is created after its subterms

    def go(n):
        if isinstance(n, tuple):
            return tuple([go(a) for a in n])
        if not isinstance(n, N) or n.id < low:
            return n
        r = memo.get(n)
        if r is not None:
            return r
        if n in m:
            r = m[n]
        elif n.tag == "poly":
            r = sub_poly(n, m, go)
        elif n.tag == "lam" and isinstance(n.args[0], N):
            s = fresh()
            ob = app(n, atom(s))
            nb = subst_any(ob, m)
            r = n if nb is ob else lam(s, nb)
        else:
            na = tuple(go(a) for a in n.args)
            if na == n.args:
                r = n
            else:
                rb = REBUILD.get(n.tag)
                r = rb(*na) if rb else mk(n.tag, *na)
        memo[n] = r
        return r

    return go(x)


REBUILD["ge"] = ge
REBUILD["eq"] = eq0
REBUILD["not"] = bnot
REBUILD["and"] = lambda fs: band(*fs)
REBUILD["or"] = lambda fs: bor(*fs)
REBUILD["forall"] = forall_
REBUILD["exists"] = exists_


# ---------------------------------------------------------------- values
UNDEF = mk("undef")


def agg(kind, fields):
    return mk("agg", kind, tuple(fields))


UNIT = agg("tuple", ())


def tup(*fs):
    return agg("tuple", fs)


def en(adt, v, *fields):
    return mk("en", adt, v, tuple(fields))


OPT = "std::option::Option"
RES = "std::result::Result"
CF = "std::ops::ControlFlow"
ORD = "std::cmp::Ordering"
NONE = en(OPT, 0)


def some(x):
    return en(OPT, 1, x)


def ok(x):
    return en(RES, 0, x)


def err(x):
    return en(RES, 1, x)


def symv(term, ty):
    return mk("symv", term, ty)


def ref(v):
    return mk("ref", v)


def mref(alloc, path=()):
    return mk("mref", alloc, tuple(path))


def ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if a is True and b is False:
        return c
    if a is False and b is True:
        return bnot(c)
    if isinstance(a, bool) or isinstance(b, bool) or is_bool(a) or is_bool(b):
        return bor(band(c, a), band(bnot(c), b))
    if a.tag == "poly" and b.tag == "poly":
        return atom(mk("ite", c, a, b))
    if a.tag == "agg" and b.tag == "agg" and a.args[0] == b.args[0] and len(a.args[1]) == len(b.args[1]):
        return agg(a.args[0], [ite(c, x, y) for x, y in zip(a.args[1], b.args[1])])
    if a.tag == "ref" and b.tag == "ref":
        return ref(ite(c, a.args[0], b.args[0]))
    if a.tag == "en" and b.tag == "en" and a.args[:2] == b.args[:2]:
        return en(a.args[0], a.args[1], *[ite(c, x, y) for x, y in zip(a.args[2], b.args[2])])
    return mk("ite", c, a, b)


REBUILD["ite"] = ite


def is_bool(x):
    return isinstance(x, bool) or (isinstance(x, N) and x.tag in ("ge", "eq", "not", "and", "or", "b", "forall", "exists", "isv", "veq"))


# sequences: ("seq", parts) ; parts: comp(n, lam) | flat(n, lam->seq of constant length) | cat(n, lam->seq/ite)
def comp(n, l):
    return mk("comp", n, l)


def seq(parts):
    out = []
    for p in parts:
        if p.tag == "comp":
            n, l = p.args
            if cval(n) is not None and cval(n) <= 0:
                continue
            if out and out[-1].tag == "comp":
                n1, l1 = out[-1].args
                s = fresh()
                if (cval(n1) is not None and cval(n) is not None and cval(n1) + cval(n) <= 6
                        and False):
                    pass
                a = app(l1, padd(atom(s), n1))
                b = app(l, atom(s))
                if a is b:
                    out[-1] = comp(padd(n1, n), l1)
                    continue
            out.append(p)
        elif p.tag in ("flat", "cat"):
            if cval(p.args[0]) is not None and cval(p.args[0]) <= 0:
                continue
            if cval(p.args[0]) == 1:
                b = app(p.args[1], ZERO)
                if b.tag == "seq":
                    return seq(out + list(b.args[0]) + list(parts[parts.index(p) + 1:]) if isinstance(parts, list)
                               else out + list(b.args[0]) + list(parts[list(parts).index(p) + 1:]))
            out.append(p)
        else:
            raise ValueError(p.tag)
    return mk("seq", tuple(out))


REBUILD["seq"] = seq
EMPTYSEQ = seq(())


def comp_of(n, f):
    s = fresh()
    return comp(n, lam(s, f(atom(s))))


def seq_of(n, f):
    return seq((comp_of(n, f),))


def lit(vals):
    return seq([comp(ONE, mk("lam", v)) if not isinstance(v, N) else comp(ONE, lam(fresh(), v)) for v in vals])


def concat(a, b):
    return seq(list(a.args[0]) + list(b.args[0]))


def flat(n, l):
    """concatenation over i<n of the sequences l(i), all of one length"""
    b = l.args[0]
    if b.tag == "seq" and len(b.args[0]) == 1 and b.args[0][0].tag == "comp" and cval(b.args[0][0].args[0]) == 1:
        s = fresh()
        o = app(l, atom(s))
        el = app(o.args[0][0].args[1], ZERO)
        return comp(n, lam(s, el))
    if b.tag == "seq" and not b.args[0]:
        return comp(ZERO, l)
    return mk("flat", n, l)


REBUILD["flat"] = flat


def plen(p):
    if p.tag == "comp":
        return p.args[0]
    if p.tag == "flat":
        n, l = p.args
        b = l.args[0]
        ln = slen(b)
        return pmul(n, ln)   # element length does not mention the bound variable
    if CAT_LEN[0]:
        return CAT_LEN[0](p)
    return atom(mk("catlen", p.args[0], p.args[1]))


CAT_LEN = [None]


def slen(s):
    if s.tag == "ite":
        c, a, b = s.args
        return ite(c, slen(a), slen(b))
    if s.tag != "seq":
        return atom(mk("len", s))
    r = ZERO
    for p in s.args[0]:
        r = padd(r, plen(p))
    return r


# ---------------------------------------------------------------- printing
def show(n, d=0):
    if not isinstance(n, N):
        if isinstance(n, tuple):
            return "(" + ",".join(show(a, d) for a in n) + ")"
        return str(n)
    if d > 14:
        return "…"
    t, a = n.tag, n.args
    d += 1
    if t == "poly":
        if not a[0]:
            return "0"
        out = ""
        for m, c in a[0]:
            s = "*".join(show(x, d) for x in m)
            if m == ():
                w = str(abs(c))
            else:
                w = s if abs(c) == 1 else "%d*%s" % (abs(c), s)
            out += (" - " if c < 0 else (" + " if out else "")) + w
        return out.strip()
    if t == "bv":
        return "i%d" % a[0]
    if t == "sv":
        return "%s#%d" % a
    if t == "ge":
        return "(%s >= 0)" % show(a[0], d)
    if t == "eq":
        return "(%s == 0)" % show(a[0], d)
    if t == "not":
        return "!" + show(a[0], d)
    if t in ("and", "or"):
        return "(" + (" & " if t == "and" else " | ").join(show(x, d) for x in a[0]) + ")"
    if t == "lam":
        return "\\i%d.%s" % (n.hgt, show(a[0], d))
    if t in ("forall", "exists"):
        return "%s[i%d<%s](%s)" % (t, a[1].hgt, show(a[0], d), show(a[1].args[0], d))
    if t == "comp":
        return "{%s | i%d<%s}" % (show(a[1].args[0], d), a[1].hgt, show(a[0], d))
    if t == "seq":
        return "[" + " ++ ".join(show(x, d) for x in a[0]) + "]"
    if t == "agg":
        return (a[0].split("::")[-1] if a[0] != "tuple" else "") + "(" + ", ".join(show(x, d) for x in a[1]) + ")"
    if t == "en":
        nm = {(OPT, 0): "None", (OPT, 1): "Some", (RES, 0): "Ok", (RES, 1): "Err"}.get((a[0], a[1])) or "%s#%d" % (a[0].split("::")[-1], a[1])
        return nm + ("(" + ", ".join(show(x, d) for x in a[2]) + ")" if a[2] else "")
    if t == "symv":
        return "<" + show(a[0], d) + ">"
    if t == "ref":
        return "&" + show(a[0], d)
    if t == "at":
        return "%s[%s]" % (show(a[0], d), show(a[1], d))
    if t == "sym":
        return str(a[0])
    if t == "ite":
        return "ite(%s, %s, %s)" % tuple(show(x, d) for x in a)
    return t + "(" + ",".join(show(x, d) for x in a) + ")"
