"""Loop summaries: the leaves a loop changes are found by a havoc fixpoint, their value after k iterations is put in
closed form (constant steps, sums, appended segments, element stores, existential flags), guessed forms are checked
inductively, and whatever has no closed form stays unknown."""
from terms import *
from values import *
import values as V
import terms as T
import facts as FX
import layout as LY
from facts import prove, infeasible, equal, decider
from interp import Incomplete, State, subvals, simp_bool
import interp as IP

DEBUG = [False]
_hv = [0]


class Leaf:
    __slots__ = ("alloc", "path", "init", "sym", "value", "ty", "kind", "closed", "bad", "kval", "perm")

    def __init__(self):
        self.perm = False


# ---------------------------------------------------------------- trees
def kids(v):
    """(label, child) of a value node that has structure worth descending into"""
    if not isinstance(v, N):
        return None
    t = v.tag
    if t == "agg":
        return v.args[1]
    if t == "en":
        return v.args[2]
    if t == "ref":
        return v.args
    if t == "it":
        return v.args[1:]
    return None


def shape(v):
    if not isinstance(v, N):
        return None
    t = v.tag
    if t == "agg":
        return (t, v.args[0], len(v.args[1]))
    if t == "en":
        return (t, v.args[0], v.args[1], len(v.args[2]))
    if t == "ref":
        return (t,)
    if t == "it":
        return (t, v.args[0], len(v.args))
    return None


def rebuild(v, cs):
    t = v.tag
    if t == "agg":
        return agg(v.args[0], cs)
    if t == "en":
        return en(v.args[0], v.args[1], *cs)
    if t == "ref":
        return ref(cs[0])
    return mk("it", v.args[0], *cs)


def diff(a, b, path, out):
    if a is b:
        return
    sa, sb = shape(a), shape(b)
    if sa is not None and sa == sb:
        for k, (x, y) in enumerate(zip(kids(a), kids(b))):
            if isinstance(x, (str, int)) and not isinstance(x, bool):
                if x != y:
                    out.append(path)
                continue
            diff(x, y, path + (k,), out)
        return
    out.append(path)


def getp(v, path):
    for k in path:
        v = kids(v)[k]
    return v


def setp(v, path, x):
    if not path:
        return x
    cs = list(kids(v))
    cs[path[0]] = setp(cs[path[0]], path[1:], x)
    return rebuild(v, cs)


def has_mref(v):
    return any(x.tag == "mref" for x in subvals(v)) if isinstance(v, N) else False


# ---------------------------------------------------------------- MIR loops
def mir_loop(I, fr, st, head):
    region = fr.cfg.loops[head]
    st = prune(fr, st, head)
    st = normalise_iters(I, st)

    def step(s):
        return I.exec(fr, s, head, region, head)
    return accelerate(I, st, step, lambda s: prune(fr, s, head))


def prune(fr, st, head):
    live = fr.cfg.live_in(head)
    pre = "%d:" % fr.id
    keep = set()
    work = []
    for a, v in st.mem.items():
        if a.startswith(pre):
            if int(a[len(pre):]) in live or a == pre + "0":
                keep.add(a)
                work.append(v)
        else:
            keep.add(a)
            work.append(v)
    seen = set()
    while work:
        x = work.pop()
        if isinstance(x, tuple):
            work.extend(x)
            continue
        if not isinstance(x, N) or x in seen:
            continue
        seen.add(x)
        if x.tag == "mref" and x.args[0] not in keep and x.args[0] in st.mem:
            keep.add(x.args[0])
            work.append(st.mem[x.args[0]])
        if x.tag in ("agg", "en", "ref", "it", "ite", "vsel", "seq", "comp", "flat", "cat", "lam", "mref"):
            work.extend(x.args)
    s = st.fork()
    s.mem = {a: v for a, v in st.mem.items() if a in keep}
    return s


def normalise_iters(I, st):
    """local iterators with a plain reading become item sequences"""
    return st


# ---------------------------------------------------------------- acceleration
def guess_ty(I, lf, vals):
    v = lf.init
    ty = None
    if isinstance(v, bool) or is_bool(v):
        return ("prim", "bool")
    if v.tag == "poly":
        ty = leaf_ty(I, lf)
        if ty is not None and V.is_int_ty(ty):
            return ty
        for a in T.atoms_of(v):
            if a in TY and V.is_int_ty(TY[a]):
                return TY[a]
        return USIZE
    ty = leaf_ty(I, lf)
    if ty is not None:
        return ty
    for x in [v] + list(vals):
        t = I.guess(x)
        if t is not None:
            return t
    return None


def leaf_ty(I, lf):
    ty = I.alloc_ty.get(lf.alloc)
    if ty is None:
        return None
    return ty_at(ty, lf.path)


def ty_at(ty, path):
    for k in path:
        s = strip(ty)
        if s[0] == "ref" and k == 0:
            ty = s[2]
            continue
        f = V.adt_fields(s)
        if f is not None and k < len(f):
            ty = f[k][1]
            continue
        if s[0] == "tuple" and k < len(s[1]):
            ty = s[1][k]
            continue
        if s[0] == "adt" and s[1] == "std::ops::Range":
            ty = s[2][0]
            continue
        return None
    return ty


def new_leaf(I, st0, alloc, path, vals):
    lf = Leaf()
    lf.alloc, lf.path = alloc, path
    lf.init = getp(st0.mem[alloc], path)
    lf.bad = False
    lf.closed = None
    lf.ty = guess_ty(I, lf, vals)
    if lf.ty is None:
        raise Incomplete("loop-carried value of unknown type")
    if any(has_mref(x) for x in [lf.init] + list(vals) if isinstance(x, N)):
        raise Incomplete("loop-carried reference")
    _hv[0] += 1
    ty = lf.ty
    init = lf.init
    if isinstance(init, N) and init.tag in ("seq",) or (isinstance(init, N) and init.tag == "ite" and elem_ty(ty)):
        el = elem_ty(ty)
        if el is None:
            for x in [init] + list(vals):
                if isinstance(x, N) and x.tag == "seq":
                    el = I.elem_guess(x)
                    if el is not None:
                        break
        if el is None:
            raise Incomplete("loop-carried sequence of unknown elements")
        ty = ("adt", "std::vec::Vec", (el,))
        lf.ty = ty
        lf.kind = "seq"
    elif isinstance(init, bool) or is_bool(init):
        lf.kind = "bool"
    elif init.tag == "poly":
        lf.kind = "int"
    else:
        lf.kind = "other"
    lf.perm = perm_leaf(st0, lf)
    set_symbol(lf)
    return lf


def set_symbol(lf):
    """the symbol for the value of the leaf at an arbitrary iteration"""
    _hv[0] += 1
    lf.sym = sym("hv%d" % _hv[0], LY_ROW() if lf.perm else lf.ty, lf.perm, "havoc")
    lf.value = mk_value(lf.sym, TY[lf.sym])


def check_perms(I, leaves, outs, prune_):
    """the leaves taken to stay permutations do (every iteration keeps them so); otherwise they are taken no more"""
    ok = True
    for s, tag, v in outs:
        if tag != "back":
            continue
        if prune_:
            s = prune_(s)
        for key, lf in leaves.items():
            if lf.perm and not keeps_perm(s.facts, getp(s.mem[key[0]], key[1])):
                lf.perm = False
                set_symbol(lf)
                ok = False
    return ok


def covers(p, q):
    return len(p) <= len(q) and q[:len(p)] == p


def accelerate(I, st0, step, prune_=None):
    I.in_loop += 1
    try:
        return accelerate_(I, st0, step, prune_)
    finally:
        I.in_loop -= 1


def accelerate_(I, st0, step, prune_):
    # a few deterministic iterations
    s = st0
    for it in range(4):
        outs = step(s)
        if not any(o[1] == "back" for o in outs):
            if it == 0 or len(outs) == 1 or True:
                return outs
        if len(outs) != 1:
            break
        s = outs[0][0]
        if prune_:
            s = prune_(s)
    mark = T._CNT[0]
    outs = step(st0) if s is not st0 or it else outs
    leaves = {}
    bad = set()
    for rnd in range(12):
        I.tick()
        changed = collect_new(I, st0, leaves, outs, prune_)
        if not changed:
            break
        h = havoced(st0, leaves)
        mark = T._CNT[0]
        outs = step(h)
    else:
        raise Incomplete("loop leaves do not stabilise")
    while not check_perms(I, leaves, outs, prune_):
        h = havoced(st0, leaves)
        mark = T._CNT[0]
        outs = step(h)
    if not leaves:
        # nothing changes: the loop either leaves at once or never ends
        return [o for o in outs if o[1] != "back"]
    for attempt in range(6):
        I.tick()
        r = solve(I, st0, leaves, outs, prune_, step, bad, mark)
        if r is not None:
            return r
    raise Incomplete("loop summary")


def collect_new(I, st0, leaves, outs, prune_):
    ch = False
    h = havoced(st0, leaves)
    for s, tag, v in outs:
        if tag != "back":
            continue
        if prune_:
            s = prune_(s)
        for a, x in h.mem.items():
            y = s.mem.get(a)
            if y is None or x is y:
                continue
            ps = []
            diff(x, y, (), ps)
            for p in ps:
                if any(k[0] == a and covers(k[1], p) for k in leaves):
                    continue
                for k in list(leaves):
                    if k[0] == a and covers(p, k[1]):
                        del leaves[k]
                vals = [getp2(y, p)]
                leaves[(a, p)] = new_leaf(I, st0, a, p, [x for x in vals if x is not None])
                ch = True
    return ch


def getp2(v, path):
    for k in path:
        c = kids(v)
        if c is None or k >= len(c):
            return None
        v = c[k]
    return v


def havoced(st0, leaves):
    h = st0.fork()
    for (a, p), lf in leaves.items():
        h.mem[a] = setp(h.mem[a], p, lf.value)
    return h


def new_syms(xs, mark):
    """symbols that came into being after `mark` and occur in xs"""
    out = set()
    for x in xs:
        if isinstance(x, N):
            out |= {y for y in x.syms if y.id > mark}
    return out


_hvs = {}


def has_new_havoc(x, mark):
    if not isinstance(x, N) or x.id <= mark:
        return False
    r = _hvs.get(x)
    if r is None:
        r = 0
        if x.tag == "sym" and x.args[1] == "havoc" and x not in IP.REC:
            r = x.id
        for y in T._kids(x.args):
            has_new_havoc(y, -1)
            r = max(r, _hvs.get(y, 0))
        _hvs[x] = r
    return r > mark


def functional(facts, values, mark, F, at_=None):
    """symbols a path introduced (positions where an inner search stopped, results of inner loops) written as functions of their
    context: (facts, values, exactly described?) without symbols newer than `mark`, or None.
    `at_`: the index of the context, of which an otherwise undescribed symbol is an unknown function"""
    facts, values = list(facts), list(values)
    exact = True
    own = set()

    def put(m):
        nonlocal facts, values, F
        facts = [T.subst_any(f, m) if isinstance(f, N) else f for f in facts]
        values = [T.subst_any(v, m) if isinstance(v, N) else v for v in values]
        F = FX.Facts().add(*[T.subst_any(f, m) if isinstance(f, N) else f for f in F.items])
    while True:
        ks = new_syms(facts + values, mark) - at_.syms if at_ is not None else new_syms(facts + values, mark)
        if not ks:
            break
        done = False
        for k in sorted(ks, key=lambda y: y.id):
            r = as_find(facts, k, ks, F)
            if r is None:
                continue
            put({k: r})
            done = True
            break
        if not done:
            if at_ is None:
                return None
            k = min(ks, key=lambda y: y.id)
            v = skolem(V.USIZE, False, at_)
            own.add(as_skolem(v))
            put({k: v})
            exact = False
    hv = set()
    for x in facts + values:
        new_havocs(x, mark, hv)
    hv -= own
    if hv:
        if at_ is None:
            return None
        exact = False
        m = {}
        for x in sorted(hv, key=lambda y: y.id):
            v = skolem(TY[x], V.is_valid(x), at_)
            if v is None:
                return None
            if isinstance(v, N) and v.tag == "b":
                m[mk("b", x)] = v
            elif isinstance(v, N) and v.tag == "poly":
                m[x] = v
            else:
                m[x] = v
        put(m)
    return facts, values, exact


def skolem(ty, valid, at_):
    """an unknown function of the index `at_` (the form in which it replaces a symbol)"""
    _hv[0] += 1
    S = sym("hs%d" % _hv[0], ("adt", "std::vec::Vec", (ty,)), valid, "havoc")
    t = typed(mk("at", S, at_), ty)
    s = V.strip(ty)
    if s[0] == "prim" and (s[1] in INTS or s[1] == "char"):
        return atom(t)
    if s == ("prim", "bool"):
        return batom(t)
    return t


def as_skolem(v):
    """the symbol of the unknown function a `skolem` term applies"""
    if v.tag == "poly":
        v = as_atom(v)
    if v.tag == "b":
        v = v.args[0]
    return v.args[0]


def new_havocs(x, mark, out):
    stack, seen = [x], set()
    while stack:
        y = stack.pop()
        if not isinstance(y, N) or y in seen or not has_new_havoc(y, mark):
            continue
        seen.add(y)
        if y.tag == "sym":
            out.add(y)
        else:
            stack.extend(T._kids(y.args))


def as_find(facts, k, ks, F):
    """k as the first position at which the conditions that held before it fail"""
    K = atom(k)
    C, ns = [], []
    for f in facts:
        if not isinstance(f, N) or k not in f.syms:
            continue
        if f.tag == "forall" and f.args[0] is K and k not in f.args[1].syms:
            if f.args[1].syms & ks:
                return None
            C.append(f.args[1])
        elif f.tag == "ge":
            q, r = split_by(f.args[0], k)
            if cval(q) == -1 and not (r.syms & ks):
                ns.append(padd(r, ONE))
    if not C or not ns:
        return None
    w = fresh()
    body = bnot(band(*[app(c, atom(w)) for c in C]))
    if isinstance(body, bool):
        return None
    if not prove(F, subst(body, {w: K}), 2):
        return None
    n = min(ns, key=lambda x: len(x.args[0]))
    return atom(typed(mk("find", n, lam(w, body)), V.USIZE))


def back_values(h, outs, leaves, prune_, mark, k):
    """[(cond, {leaf key: value}, state)] of the back edges, relative to the head state h; and whether they are described exactly"""
    res = []
    exact = True
    for s, tag, v in outs:
        if tag != "back":
            continue
        if prune_:
            s = prune_(s)
        new = [f for f in s.facts.items if f not in h.facts.set]
        vals = {}
        for key in leaves:
            a, p = key
            y = s.mem.get(a)
            vals[key] = getp(y, p) if y is not None else None
        ks = list(vals)
        vs = [vals[q] for q in ks]
        if new_syms(new + vs, mark) or any(has_new_havoc(x, mark) for x in new + vs):
            vs = oldest_lengths(s.facts, vs, mark)
            r = functional(new, vs, mark, s.facts, atom(k))
            if r is None:
                # what the iteration does depends on something not described: the values and the condition are unknown
                new = [f for f in new if not new_syms([f], mark) and not has_new_havoc(f, mark)]
                vs = [None for q in ks]
                exact = False
            else:
                new, vs, ex = r
                exact = exact and ex
            vals = dict(zip(ks, vs))
        res.append((band(*new), vals, s))
    return res, exact


def oldest_lengths(F, vs, mark):
    """lengths of values made in this iteration that the facts equate with older quantities"""
    import inv
    m = {a: atom(b) for a, b in inv.equal_atoms(F).items() if a.tag == "len" and has_new_havoc(a, mark) and not has_new_havoc(b, mark)}
    return [T.subst_any(v, m) if isinstance(v, N) else v for v in vs] if m else vs


def fsubst(x, m):
    if not isinstance(x, N) or not m:
        return x
    return T.subst_any(x, m) if any(k.tag not in ("sv", "sym") for k in m) else subst_syms(x, m)


def subst_syms(x, m):
    return T.subst_any(x, m)


def mentions_any(x, syms):
    if not isinstance(x, N):
        return False
    seen = set()
    stack = [x]
    while stack:
        y = stack.pop()
        if isinstance(y, tuple):
            stack.extend(y)
            continue
        if not isinstance(y, N) or y in seen:
            continue
        seen.add(y)
        if y in syms:
            return True
        stack.extend(y.args)
    return False


def solve(I, st0, leaves, outs, prune_, step, bad, mark):
    h = havoced(st0, leaves)
    k = fresh("k")
    K = atom(k)
    backs, exact = back_values(h, outs, leaves, prune_, mark, k)
    order = list(leaves)
    unsolved = {key for key in order}
    m = {}            # havoc symbol -> closed form at k (value as the symbol occurs)
    guessed = set()
    SK = {}           # leaf -> the symbol of its unknown function
    unknown = []      # leaves whose value at iteration k is an unknown function of k
    for lf in leaves.values():
        lf.closed = None
    while unsolved:
        progress = False
        stuck = []
        for key in order:
            if key not in unsolved:
                continue
            lf = leaves[key]
            others = {leaves[q].sym for q in unsolved if q != key}
            r = None
            if key not in bad:
                r = closed_form(I, st0, lf, key, backs, m, k, others)
                if r is None and lf.kind == "seq":
                    # a growing sequence that reads elements it had before the loop
                    b2 = peeked(I, st0, lf, backs, m, k)
                    if b2 is not None:
                        r = closed_form(I, st0, lf, key, b2, m, k, others)
                        if r is not None:
                            backs = b2
                            r = (r[0], True)
            if r is None:
                if key in bad or closed_form(I, st0, lf, key, backs, m, k, set()) is None:
                    stuck.append(key)
                continue
            val, isguess = r
            lf.closed = val
            unsolved.discard(key)
            bind(m, lf, val)
            if isguess:
                guessed.add(key)
            progress = True
        if unsolved and not progress:
            key = stuck[0] if stuck else [q for q in order if q in unsolved][0]
            lf = leaves[key]
            unsolved.discard(key)
            unknown.append(key)
            v = skolem(LY_ROW() if lf.perm else lf.ty, lf.perm, K)
            bind_unknown(m, lf, v)
            SK[key] = as_skolem(v)
            lf.closed = mk_value(v, TY[v]) if v.tag not in ("poly", "b") else v
    # continue condition of iteration k
    C = bor(*[fsubst(cond, m) for cond, vals, s in backs])
    head = st0.fork()
    for key, lf in leaves.items():
        a, p = key
        head.mem[a] = setp(head.mem[a], p, lf.closed)
    us = {x for key in unknown for x in [SK.get(key)] if x is not None}
    if unknown and exact:
        defs = []
        for key in unknown:
            V_ = combined(backs, key, m)
            defs.append((SK.get(key), leaves[key].init, lam_k(V_, k) if V_ is not None else None, leaves[key].ty))
        known = all(d[0] is not None and d[2] is not None for d in defs) and IP.record(defs)
        _hvs.clear()
    else:
        known = False
    full = C
    if not exact or (isinstance(C, N) and has_new_havoc(C, mark)):
        head.inexact("loop condition")
    C = weaken(C, us)
    hist = forall_(K, lam(k2 := fresh(), fsubst1(C, k, atom(k2)))) if C is not True else True
    head.facts = head.facts.add(ge(K), hist)
    if full is not C:
        # what the prover does not use of the iterations' conditions still tells which inputs take the exit
        if known:
            head.facts = head.facts.add(batom(mk("trace", forall_(K, lam_k(full, k)))))
        else:
            head.inexact("loop condition")
    if unknown:
        hou = houdini(I, st0, leaves, unknown, head, step, prune_, k)
        IP.define(head, *hou)
    outs2 = step(head)
    # induction check for guessed closed forms
    for key in guessed:
        lf = leaves[key]
        nxt = fsubst1(lf.closed, k, padd(K, ONE))
        for s, tag, v in outs2:
            if tag != "back":
                continue
            if prune_:
                s = prune_(s)
            y = getp(s.mem[key[0]], key[1])
            if not equal(s.facts, y, nxt, 4):
                if DEBUG[0]:
                    print("loop guess failed", key, "\n  got ", y, "\n  want", nxt)
                bad.add(key)
                return None
    if DEBUG[0]:
        print("LOOP leaves:")
        for key, lf in leaves.items():
            print("  ", key, "init", lf.init, "closed", lf.closed)
            if lf.closed is None:
                for c, vals, s in backs:
                    print("       back", vals[key], "if", c)
        print("   cont", C)
    res = []
    for s, tag, v in outs2:
        if tag == "back":
            continue
        if s.facts.false():
            continue
        for r in finish(I, s, tag, v, k):
            res.append(tidy(r, leaves))
    return res


def tidy(r, leaves):
    """conditionals of the loop's closed forms that the exit facts decide"""
    s, tag, v = r
    if tag not in ("panic",):
        for a, p in leaves:
            x = s.mem.get(a)
            if x is not None and FX.has_ite(x):
                s.mem[a] = FX.simp_value(s.facts, x, 0)
        if isinstance(v, N) and FX.has_ite(v):
            v = FX.simp_value(s.facts, v, 0)
    return (s, tag, v)


def fsubst1(x, k, t):
    if not isinstance(x, N):
        return x
    return subst(x, {k: t})


def LY_ROW():
    return ("adt", LY.NAMES["RowBuf"], ())


def perm_leaf(st0, lf):
    """may the loop be taken to keep the sequence a permutation (checked by induction afterwards)?"""
    if lf.kind != "seq":
        return False
    e = elem_ty(lf.ty)
    if e is None or not LY.is_ty(e, "Bell"):
        return False
    import inv

    def ok(F, v):
        if v.tag == "ite":
            return ok(F.add(v.args[0]), v.args[1]) and ok(F.add(bnot(v.args[0])), v.args[2])
        return v.tag == "seq" and keeps_perm(F, v) and prove(F, ge(psub(slen(v), ONE)), 2)
    return ok(st0.facts, lf.init)


def bind_unknown(m, lf, v):
    if lf.kind == "bool":
        m[mk("b", lf.sym)] = v
    else:
        m[lf.sym] = v


def bind(m, lf, val):
    # in terms, the symbol occurs as atom / batom / base of at, len, fld
    if lf.kind == "int":
        m[lf.sym] = val
    elif lf.kind == "bool":
        m[mk("b", lf.sym)] = val
    else:
        m[lf.sym] = val


def weaken(c, us):
    if not isinstance(c, N):
        return c
    if not us or not mentions_any(c, us):
        return c
    if c.tag == "and":
        return band(*[weaken(x, us) for x in c.args[0]])
    if c.tag == "or":
        return bor(*[weaken(x, us) for x in c.args[0]])
    return True


def combined(backs, key, m):
    """value of the leaf after one iteration as one conditional value"""
    vs = []
    for cond, vals, s in backs:
        if vals[key] is None:
            return None
        vs.append((fsubst(cond, m), fsubst(vals[key], m)))
    first = vs[0][1]
    if all(v is first for _, v in vs):
        return first
    # common conjuncts do not discriminate
    v = vs[-1][1]
    common = None
    for c, _ in vs:
        s = set(FX.flatten(c)) if not isinstance(c, bool) else set()
        common = s if common is None else common & s
    for c, x in reversed(vs[:-1]):
        c2 = band(*[f for f in FX.flatten(c) if f not in common]) if not isinstance(c, bool) else c
        v = ite_any(c2, x, v)
    return v


def ite_any(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    return ite(c, a, b)


def occurs(lf, v):
    return mentions_any(v, {lf.sym})


def closed_form(I, st0, lf, key, backs, m, k, others):
    V_ = combined(backs, key, m)
    if V_ is None:
        return None
    K = atom(k)
    if mentions_any(V_, others):
        return None
    s = lf.sym
    if not occurs(lf, V_) and lf.kind == "seq" and lf.init.tag == "seq" and V_.tag == "seq":
        V_ = same_length(st0.facts, V_, lf.init)
    if not occurs(lf, V_):
        # recomputed every iteration: the value of the previous iteration
        if not isinstance(V_, N) or k not in V_.syms:
            if same(V_, lf.init):
                return lf.init, False
            if isinstance(V_, N) and isinstance(lf.init, N) and not isinstance(V_, bool) and V_.tag != lf.init.tag and not (V_.tag in ("en", "symv", "ite") or lf.init.tag in ("en", "symv", "ite")):
                return None
            return ite_any(eqp(K, ZERO), lf.init, V_), False
        prev = fsubst1(V_, k, psub(K, ONE))
        return ite_any(eqp(K, ZERO), lf.init, prev), False
    if lf.kind == "int":
        return int_form(lf, V_, k)
    if lf.kind == "bool":
        h = batom(s)
        if V_ is h:
            return lf.init, False
        if isinstance(V_, N) and V_.tag == "or" and h in V_.args[0]:
            c = bor(*[x for x in V_.args[0] if x is not h])
            if not occurs(lf, c):
                return bor(lf.init, exists_(K, lam_k(c, k))), False
        if isinstance(V_, N) and V_.tag == "and" and h in V_.args[0]:
            c = band(*[x for x in V_.args[0] if x is not h])
            if not occurs(lf, c):
                return band(lf.init, forall_(K, lam_k(c, k))), False
        if isinstance(V_, N) and V_.tag == "not" and V_.args[0] is h and isinstance(lf.init, bool):
            par = eqp(pmodc(K, const(2)), ZERO)
            return (par if lf.init else bnot(par)), False
        return None
    if lf.kind == "seq":
        return seq_form(I, st0, lf, V_, k)
    return hash_form(lf, V_, k)


def hash_form(lf, V_, k):
    """a hasher fed one value per iteration"""
    def bare(v):
        return v.args[0] if isinstance(v, N) and v.tag == "symv" else v
    v, h = bare(V_), bare(lf.value)
    if not (isinstance(v, N) and v.tag == "uf" and v.args[0].startswith("hashed:") and v.args[0][7:] in V.INTS):
        return None
    if bare(v.args[3]) is not h or not isinstance(v.args[2], N) or mentions_any(v.args[2], {lf.sym}):
        return None
    x = T.seq((comp(atom(k), lam_k(v.args[2], k)),))
    t = typed(mk("uf", "hashed:slice:" + repr(("prim", v.args[0][7:])), True, x, lf.init), lf.ty)
    return mk_value(t, lf.ty), False


def same(a, b):
    return a is b


def same_length(F, v, w):
    """a sequence of the length of w, with that length in w's terms"""
    n, o = slen(v), slen(w)
    ps = v.args[0]
    if n is not o and len(ps) == 1 and ps[0].tag == "comp" and prove(F, eqp(n, o), 2):
        r = T.seq((comp(o, ps[0].args[1]),))
        return typed(r, TY[v]) if v in TY else r
    return v


def lam_k(x, k):
    """lambda over the iteration number"""
    s = fresh()
    return lam(s, fsubst1(x, k, atom(s)))


def int_form(lf, V_, k):
    K = atom(k)
    if V_.tag != "poly":
        return None
    h = atom(lf.sym)
    a = as_atom(V_)
    # conditional update: push the difference inside
    d = diff_int(V_, h)
    if d is not None and not occurs(lf, d):
        if k not in d.syms:
            return padd(lf.init, pmul(K, d)), False
        return padd(lf.init, summ(K, lam_k(d, k))), False
    # maximum / minimum
    if a is not None and a.tag == "ite":
        c, x, y = a.args
        for (p, q, neg) in ((x, y, False), (y, x, True)):
            cc = bnot(c) if neg else c
            if q is h and not occurs(lf, p):
                # x' = p when cc else x
                if cc in (lt(h, p), le(h, p)):
                    return atom(typed(mk("maxov", K, lf.init, lam_k(p, k)), USIZE)), False
                if not occurs_in(cc, lf):
                    return None
    return None


def occurs_in(c, lf):
    return mentions_any(c, {lf.sym})


def diff_int(v, h):
    a = as_atom(v)
    if a is not None and a.tag == "ite":
        x, y = diff_int(a.args[1], h), diff_int(a.args[2], h)
        if x is None or y is None:
            return None
        return ite(a.args[0], x, y)
    return psub(v, h)


def summ(n, l):
    """sum over i<n of l(i)"""
    b = l.args[0]
    s = fresh()
    o = app(l, atom(s))
    if not isinstance(o, N):
        return ZERO
    if s not in o.syms:
        return pmul(n, o)
    if cval(n) is not None and 0 <= cval(n) <= 3:
        r = ZERO
        for i in range(cval(n)):
            r = padd(r, app(l, const(i)))
        return r
    # split off constants and linear parts
    const_, rest = {}, {}
    lin = ZERO
    for mono, c in o.args[0]:
        if not any(s in x.syms or x is s for x in mono):
            const_[mono] = c
        elif mono.count(s) == 1 and not any((s in x.syms) and x is not s for x in mono):
            l2 = list(mono)
            l2.remove(s)
            lin = padd(lin, T._poly({tuple(l2): c}))
        else:
            rest[mono] = c
    r = pmul(n, T._poly(const_))
    if cval(lin) != 0:
        # sum of i = n(n-1)/2
        tri = atom(typed(mk("div", pmul(n, psub(n, ONE)), const(2)), USIZE))
        r = padd(r, pmul(lin, tri))
    for mono, c in rest.items():
        p = T._poly({mono: 1})
        r = padd(r, pscale(atom(typed(mk("sum", n, lam(s, p)), USIZE)), c))
    return r


T.REBUILD["sum"] = lambda n, l: summ(n, l)


# ---------------------------------------------------------------- sequences
def self_part(lf):
    v = lf.value
    return v.args[0][0] if v.args[0] else None


def seq_form(I, st0, lf, V_, k):
    K = atom(k)
    g = grown(lf, V_)
    if g is not None and lf.init.tag == "seq":
        s = fresh()
        body = fsubst1(g, k, atom(s))
        c = cat(K, lam(s, body))
        return seq(list(lf.init.args[0]) + [c]), False
    return store_form(I, st0, lf, V_, k)


def peeked(I, st0, lf, backs, m, k):
    """element reads of the sequence at positions it had before the loop read the initial sequence (a guess: the induction check decides)"""
    if lf.init.tag != "seq":
        return None
    n = slen(lf.init)
    out, any_ = [], False
    for cond, vals, s in backs:
        c = fsubst(cond, m)
        plain = [f for f in FX.flatten(c) if not occurs(lf, f)] if not isinstance(c, bool) else []
        F = st0.facts.add(ge(atom(k)), *plain)
        sub = {}
        for x in [cond] + list(vals.values()):
            for a in reads_of(x, lf.sym):
                if a in sub:
                    continue
                i = fsubst(a.args[1], m)
                if mentions_any(i, {lf.sym}) or not prove(F, band(ge(i), lt(i, n)), 2):
                    continue
                e = seq_at(lf.init, i, lambda q: True if prove(F, q, 2) else False if prove(F, bnot(q), 2) else None)
                if isinstance(e, N) and e.tag == "poly":
                    sub[a] = e
        if sub:
            any_ = True
            out.append((T.subst_any(cond, sub) if isinstance(cond, N) else cond, {q: T.subst_any(x, sub) if isinstance(x, N) else x for q, x in vals.items()}, s))
        else:
            out.append((cond, vals, s))
    return out if any_ else None


def reads_of(x, sym):
    seen, stack, out = set(), [x], []
    while stack:
        y = stack.pop()
        if isinstance(y, tuple):
            stack.extend(y)
            continue
        if not isinstance(y, N) or y in seen:
            continue
        seen.add(y)
        if y.tag == "at" and y.args[0] is sym:
            out.append(y)
        stack.extend(y.args)
    return out


def grown(lf, v):
    """what one iteration appends: a sequence or a conditional of sequences"""
    if v.tag == "ite":
        a, b = grown(lf, v.args[1]), grown(lf, v.args[2])
        if a is None or b is None or occurs(lf, v.args[0]):
            return None
        return ite(v.args[0], a, b)
    if v.tag != "seq":
        return None
    p = self_part(lf)
    if p is None or not v.args[0] or v.args[0][0] is not p:
        return None
    rest = seq(v.args[0][1:])
    if occurs(lf, rest):
        return None
    return rest


def store_form(I, st0, lf, V_, k):
    """element stores: every iteration overwrites some elements"""
    K = atom(k)
    if not prove(st0.facts, True, 0):
        return None
    i = fresh("i")
    e = elem_of(V_, atom(i), lf)
    if e is None:
        return None
    base = elem_of(lf.value, atom(i), lf)
    stores = []
    if not parse_store(e, base, i, lf, [], stores) or not stores:
        return None
    if lf.init.tag != "seq":
        return None
    n = slen(lf.init)
    init_i = seq_at(lf.init, atom(i))
    if init_i is None:
        return None
    initm = {lf.sym: lf.init}
    guess = False
    # innermost decision last: build from the last store to the first
    val = init_i
    for conds, idx, v in reversed(stores):
        c = band(*conds)
        if occurs(lf, c) or occurs(lf, idx):
            return None
        if len(stores) > 1:
            guess = True
        if occurs(lf, v):
            v = fsubst(v, initm)
            guess = True
        inv = invert(idx, k, atom(i))
        if inv is not None:
            j, extra = inv
            cond = band(ge(j), lt(j, K), extra, fsubst1(c, k, j))
            val = ite_any(cond, fsubst1(v, k, j), val)
            continue
        pj = perm_inverse(I, st0, idx, k, atom(i))
        if pj is not None:
            j = pj
            cond = band(ge(j), lt(j, K), fsubst1(c, k, j))
            val = ite_any(cond, fsubst1(v, k, j), val)
            guess = True
            continue
        if not (isinstance(v, N) and k in v.syms):
            s = fresh()
            hit = exists_(K, lam(s, band(fsubst1(c, k, atom(s)), eqp(fsubst1(idx, k, atom(s)), atom(i)))))
            val = ite_any(hit, v, val)
            continue
        return None
    return seq((comp(n, lam(i, val)),)), guess


def elem_of(v, i, lf):
    if v.tag == "ite":
        a, b = elem_of(v.args[1], i, lf), elem_of(v.args[2], i, lf)
        if a is None or b is None:
            return None
        return ite(v.args[0], a, b)
    if v.tag != "seq":
        return None
    if len(v.args[0]) == 1:
        return seq_at(v, i)
    # parts (range stores): element by position
    return seq_at(v, i)


def parse_store(e, base, i, lf, conds, out):
    """e == base unless one of the stores applies; stores: (conditions, index, value)"""
    if e is base:
        return True
    x = e
    if isinstance(e, bool) or is_bool(e):
        return parse_bool_store(e, base, i, lf, conds, out)
    if e.tag == "poly":
        a = as_atom(e)
        if a is None:
            return False
        x = a
    if x.tag == "agg" and isinstance(base, N) and base.tag == "agg":
        return False
    if x.tag != "ite":
        return False
    c, p, q = x.args
    iv = atom(i)
    pos = index_cond(c, i)
    if pos is not None and not mentions_sv(p, i):
        idx, rest = pos
        if idx is not None:
            out.append((conds + rest, idx, p))
            # where it does not apply, the rest
            return parse_store(q, base, i, lf, conds, out)
    # a condition that does not involve the element
    if isinstance(c, N) and i not in c.syms:
        a_, b_ = [], []
        if parse_store(p, base, i, lf, conds + [c], a_) and parse_store(q, base, i, lf, conds + [bnot(c)], b_):
            out.extend(a_ + b_)
            return True
        return False
    nc = bnot(c)
    pos = index_cond(nc, i)
    if pos is not None and not mentions_sv(q, i):
        idx, rest = pos
        out.append((conds + rest, idx, q))
        return parse_store(p, base, i, lf, conds, out)
    return False


def parse_bool_store(e, base, i, lf, conds, out):
    """boolean elements: or(idx==i, old) sets, and(idx!=i, old) clears"""
    if e.tag == "or" and base in e.args[0]:
        for g in e.args[0]:
            if g is base:
                continue
            pos = index_cond(g, i)
            if pos is None:
                return False
            out.append((conds + pos[1], pos[0], True))
        return True
    if e.tag == "and" and base in e.args[0]:
        for g in e.args[0]:
            if g is base:
                continue
            pos = index_cond(bnot(g), i)
            if pos is None:
                return False
            out.append((conds + pos[1], pos[0], False))
        return True
    if e.tag == "or":
        # or(and(i==idx, v), and(i!=idx, old))
        for g in e.args[0]:
            cand = None
            if g.tag == "and" and base in g.args[0]:
                for q in g.args[0]:
                    if q is base:
                        continue
                    pos = index_cond(bnot(q), i)
                    if pos is not None:
                        cand = (q, pos)
                if cand is None:
                    continue
                q, pos = cand
                rest = bor(*[x for x in e.args[0] if x is not g])
                v = drop_conj(rest, bnot(q))
                if v is not None and not mentions_sv(v, i):
                    out.append((conds + pos[1], pos[0], v))
                    return True
    return False


def drop_conj(f, c):
    if f is c:
        return True
    if isinstance(f, N) and f.tag == "and" and c in f.args[0]:
        return band(*[x for x in f.args[0] if x is not c])
    return None


def mentions_sv(x, s):
    return isinstance(x, N) and s in x.syms


def index_cond(c, i):
    """c is `i == idx` (and conditions without i): (idx, [conditions])"""
    cs = list(FX.flatten(c)) if isinstance(c, N) else []
    idx = None
    rest = []
    for f in cs:
        if isinstance(f, N) and i in f.syms:
            if f.tag == "eq" and idx is None:
                p = f.args[0]
                q, r = split_by(p, i)
                cq = cval(q)
                if cq in (1, -1) and i not in r.syms:
                    idx = pscale(r, -cq)
                    continue
            return None
        rest.append(f)
    return (idx, rest) if idx is not None else None


def invert(idx, k, i):
    """solve idx(k) = i for k when idx is affine in k with unit coefficient: (j, extra condition)"""
    q, r = split_by(idx, k)
    if mentions_sv(r, k):
        return None
    c = cval(q)
    if c == 1:
        return psub(i, r), True
    if c == -1:
        return psub(r, i), True
    if c is not None and c > 1:
        d = psub(i, r)
        j = pdivc(d, const(c))
        return j, eqp(pmodc(d, const(c)), ZERO)
    return None


def perm_inverse(I, st0, idx, k, i):
    """idx is R[k + c] for a permutation R: the position of i in R"""
    a = as_atom(idx)
    if a is None or a.tag != "at":
        return None
    R, j = a.args
    inv = invert(j, k, atom(fresh()))
    if inv is None:
        return None
    if not V.is_perm(R):
        # a row of a collection's storage
        o = LY.bells_owner(R)
        sa = as_atom(o[1]) if o else None
        if sa is None:
            return None
        q, r = split_by(j, sa)
        if k in q.syms:
            return None
        R, j = LY.row_sym(R, q, o[1]), r
    p = V.t_pos(R, i)
    j2 = invert(j, k, p)
    return j2[0] if j2 and j2[1] is True else None


# ---------------------------------------------------------------- unknown leaves
def houdini(I, st0, leaves, unknown, head, step, prune_, k):
    """what every iteration preserves of the unknown leaves: candidate facts that survive an iteration"""
    cands = []
    for key in unknown:
        lf = leaves[key]
        if lf.kind == "int":
            h = lf.closed
            cands.append((key, lambda x, i=lf.init: le(i, x), le(lf.init, h)))
            cands.append((key, lambda x, i=lf.init: le(x, i), le(h, lf.init)))
        elif lf.kind == "seq":
            n = slen(lf.closed)
            i = slen(lf.init)
            cands.append((key, lambda x, i=i: eqp(slen(x), i), eqp(n, i)))
            cands.append((key, lambda x, i=i: le(i, slen(x)), le(i, n)))
            cands.append((key, lambda x, i=i: le(slen(x), i), le(n, i)))
    for rnd in range(4):
        F = head.facts
        new = []
        for c in cands:
            if not prove(F, c[2], 1):
                F = F.add(c[2])
                new.append(c)
        if not new:
            return []
        h = head.fork()
        h.facts = F
        outs = step(h)
        drop = set()
        for s, tag, v in outs:
            if tag != "back":
                continue
            if prune_:
                s = prune_(s)
            for q, c in enumerate(cands):
                x = getp(s.mem[c[0][0]], c[0][1])
                if c in new and q not in drop and not prove(s.facts, c[1](x), 3):
                    drop.add(q)
        if not drop:
            res = []
            for c in new:
                w = fresh()
                res += [c[2], forall_(atom(k), lam(w, fsubst1(c[2], k, atom(w))))]
            return res
        cands = [c for q, c in enumerate(cands) if q not in drop]
    return []


def keeps_perm(F, x):
    import inv
    if x.tag != "seq":
        return False
    t = inv.eta(x)
    if t is not None and V.is_perm(t[0]) and (tlen(t[0]) is t[1] or prove(F, eqp(tlen(t[0]), t[1]), 2)):
        return True
    return inv.perm_seq(F, x, slen(x)) is True


# ---------------------------------------------------------------- leaving the loop
def finish(I, s, tag, v, k):
    """express the number of iterations where the exit condition determines it"""
    cands = []
    e = solve_k(s.facts, k, cands)
    if e is not None:
        r = with_k(s, tag, v, k, e)
        return [r] if r is not None else []
    # left at once, or after a determined number of iterations
    F = s.facts.add(ge(psub(atom(k), ONE)))
    for e in cands:
        if k not in e.syms and prove(F, eqp(atom(k), e), 2):
            t = s.fork()
            t.facts = F
            return [r for r in (with_k(s, tag, v, k, ZERO), with_k(t, tag, v, k, e)) if r is not None]
    return [(s, tag, v)]


def with_k(s, tag, v, k, e):
    m = {k: e}
    t = State({}, None, s.exact, tuple(subst_ev(x, m) for x in s.events), s.notes)
    for a, x in s.mem.items():
        t.mem[a] = subst(x, m) if isinstance(x, N) and k in x.syms else x
    fs = []
    for f in s.facts.items:
        g = subst(f, m) if isinstance(f, N) and k in f.syms else f
        if g is False:
            return None
        fs.append(g)
    t.facts = FX.Facts().add(*fs)
    if isinstance(v, N) and k in v.syms:
        v = subst(v, m)
    return (t, tag, v)


def subst_ev(x, m):
    if isinstance(x, tuple):
        return tuple(subst_ev(y, m) for y in x)
    if isinstance(x, N):
        return subst(x, m)
    return x


def solve_k(F, k, cands=None):
    cands = [] if cands is None else cands
    for f in F.items:
        if isinstance(f, N) and k in f.syms and f.tag in ("ge", "eq", "not"):
            g = f.args[0] if f.tag == "not" else f
            if not isinstance(g, N) or g.tag not in ("ge", "eq"):
                continue
            p = g.args[0]
            q, r = split_by(p, k)
            c = cval(q)
            if c is None or c == 0 or k in r.syms:
                if c is None:
                    # nonlinear coefficient: r must be a multiple of q
                    a = as_atom(q) or as_atom(pscale(q, -1))
                    if a is not None and k not in r.syms and k not in a.syms:
                        e = pdiv_exact(r, a)
                        if e is not None:
                            cands.append(pscale(e, -1) if as_atom(q) is not None else e)
                        else:
                            cands.append(pdivc(pscale(r, -1) if as_atom(q) is not None else r, atom(a)))
                continue
            if c in (1, -1):
                cands.append(pscale(r, -c))
            elif f.tag == "ge" or f.tag == "eq":
                d = pscale(r, -1) if c > 0 else r
                cands.append(pdivc(d, const(abs(c))))
    seen = set()
    for e in cands:
        for x in (e, padd(e, ONE)):
            if x in seen:
                continue
            seen.add(x)
            if len(seen) > 8:
                return None
            if prove(F, eqp(atom(k), x), 2):
                return x
    if prove(F, eqp(atom(k), ZERO), 2):
        return ZERO
    return None
