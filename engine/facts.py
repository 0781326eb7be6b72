"""Entailment in the abstract domain: linear arithmetic over monomials (Fourier-Motzkin with integer
tightening), boolean structure, quantified element facts, and the axioms of the symbols that occur."""
import math
from terms import *
from values import *
import values as V
import terms as T

FA_LEMMA = []            # lemmas of quantified facts
AX = []                  # axiom providers: f(atom) -> list of facts
LEMMA = []               # pair lemmas: f(atoms) -> list of facts
class Incomplete(Exception):
    """the analysis gives up on this function"""


import time as _time
DEADLINE = [None]
BUDGET = [0, None]      # work done, limit


def tickw(n=1):
    BUDGET[0] += n
    if BUDGET[1] is not None and BUDGET[0] > BUDGET[1]:
        raise Incomplete("work limit")
    if DEADLINE[0] is not None and (BUDGET[0] & 15) == 0 and _time.process_time() > DEADLINE[0]:
        raise Incomplete("time limit")


class Facts:
    __slots__ = ("items", "set", "key")

    def __init__(self, items=()):
        self.items = tuple(items)
        self.set = frozenset(self.items)
        self.key = self.set

    def add(self, *fs):
        out = list(self.items)
        s = set(self.set)
        for f in fs:
            for g in flatten(f):
                if g is True or g in s:
                    continue
                out.append(g)
                s.add(g)
        if len(out) == len(self.items):
            return self
        return Facts(out)

    def false(self):
        return False in self.set

    def __iter__(self):
        return iter(self.items)

    def __len__(self):
        return len(self.items)


def flatten(f):
    if isinstance(f, N) and f.tag == "and":
        for g in f.args[0]:
            yield from flatten(g)
    else:
        yield f


_memo = {}
_hits = [0, 0]


def prove(F, goal, depth=3):
    """F entails goal"""
    if goal is True:
        return True
    if goal in F.set:
        return True
    if isinstance(goal, N) and goal.tag == "and":
        return all(prove(F, g, depth) for g in goal.args[0])
    key = (F.key, goal, depth)
    r = _memo.get(key)
    if r is None:
        _hits[1] += 1
        try:
            r = unsat(list(F.items) + [bnot(goal)] if goal is not False else list(F.items), depth, goal)
        except RecursionError:
            raise Incomplete("recursion limit")
        if len(_memo) > 200000:
            _memo.clear()
        _memo[key] = r
    else:
        _hits[0] += 1
    return r


def infeasible(F, depth=2):
    return prove(F, False, depth)


def decider(F, depth=1):
    def d(c):
        if isinstance(c, bool):
            return c
        if prove(F, c, depth):
            return True
        if prove(F, bnot(c), depth):
            return False
        return None
    return d


# ---------------------------------------------------------------- the tableau
def unsat(fs, depth, goal=None):
    tickw()
    lits = []
    seen = set()
    work = list(fs)
    ors = []
    foralls = []
    nf = set()
    while work:
        f = work.pop()
        if f is True:
            continue
        if f is False:
            return True
        if f in seen:
            continue
        seen.add(f)
        t = f.tag
        if t == "and":
            work.extend(f.args[0])
        elif t == "or":
            ors.append(f)
        elif t == "exists":
            n, l = f.args
            k = fresh("e")
            work.append(ge(atom(k)))
            work.append(lt(atom(k), n))
            work.append(app(l, atom(k)))
        elif t == "forall":
            foralls.append(f)
            for h in FA_LEMMA:
                work.extend(h(f))
        else:
            if bnot(f) in seen:
                return True
            if t == "b" and f.args[0].tag == "uf" and f.args[0].args[0] == "overflow":
                # the quantity exceeds the machine word; storage never does
                p = f.args[0].args[2]
                work.append(ge(psub(p, WORD)))
                for m, c in p.args[0]:
                    for a in m:
                        work.extend(word_axioms(a))
                for g in fs:
                    if isinstance(g, N) and g.tag in ("ge", "eq"):
                        for m, c in g.args[0].args[0]:
                            for a in m:
                                work.extend(word_axioms(a))
            lits.append(f)
    # storage accesses that lie in a row whose inverse is taken
    r = row_reads(lits, ors, foralls)
    if r is not None:
        return unsat(r, depth, goal)
    # equalities between nested terms: rewrite by the equality (congruence)
    r = congruence(lits, ors, foralls)
    if r is not None:
        return unsat(r, depth, goal)
    # two-sided axioms of positions in permutations
    px = pos_axioms(lits, ors, seen) + sum_axioms(lits, foralls, seen)
    px = [x for x in px if x not in ADDED]
    if px:
        # (rewriting may take them away again: they are added once along a line of argument)
        ADDED.update(px)
        try:
            return unsat(lits + ors + foralls + px, depth, goal)
        finally:
            ADDED.difference_update(px)
    # unit propagation through disjunctions
    changed = True
    S = set(lits)
    while changed:
        changed = False
        for o in list(ors):
            live = []
            sat = False
            for g in o.args[0]:
                if g in S or g in seen:
                    sat = True
                    break
                if bnot(g) in S or (isinstance(g, N) and g.tag == "exists" and bnot(g) in foralls):
                    continue
                live.append(g)
            if sat:
                ors.remove(o)
                changed = True
                continue
            if not live:
                return True
            if len(live) == 1:
                ors.remove(o)
                return unsat(lits + ors + foralls + live, depth, goal)
            if len(live) < len(o.args[0]):
                ors.remove(o)
                no = bor(*live)
                if no is True:
                    continue
                ors.append(no)
                changed = True
    # forall complementary with a failed exists already covered by literals; instantiate
    inst = instantiate(lits, ors, foralls)
    base = lits
    if inst:
        r = quick(lits + [x for x in inst if is_lit(x)])
        if r:
            return True
        # merge
        extra = [x for x in inst if x not in seen]
        if extra and depth > 0 and any(not is_lit(x) for x in extra):
            lits2, ors2, fa2 = [], [], []
            for x in extra:
                if is_lit(x):
                    lits2.append(x)
                elif x.tag == "forall":
                    fa2.append(x)
                else:
                    ors2.append(x)
            lits = lits + lits2
            ors = ors + ors2
            foralls = foralls + fa2
            # propagate again with the new disjunctions
            S = set(lits)
            units, rest = [], []
            for o in ors:
                if o.tag != "or":
                    return unsat(lits + ors + foralls, depth - 1, goal)
                if any(g in S for g in o.args[0]):
                    continue
                live = [g for g in o.args[0] if not (bnot(g) in S)]
                if not live:
                    return True
                if len(live) == 1:
                    units.append(live[0])
                else:
                    rest.append(o)
            if units:
                LEVEL[0] += 1
                try:
                    return unsat(lits + rest + foralls + units, depth if LEVEL[0] < 8 and all(map(is_lit, units)) else depth - 1, goal)
                finally:
                    LEVEL[0] -= 1
        else:
            lits = lits + [x for x in extra if is_lit(x)]
    else:
        if quick(lits):
            return True
    if depth <= 0:
        return False
    return split(lits, ors, foralls, depth, goal)


LEVEL = [0]
ADDED = set()
WORD = const(1 << 64)
HALF = const((1 << 63) - 1)


def word_axioms(a):
    if a.tag == "nrows":
        import layout as LY
        S = a.args[0]
        ty = LY.unbox(TY.get(S))
        sf = LY.ssv_fields(ty) if ty is not None else None
        if sf:
            st = mk_value(V.t_fld(S, sf[1], adt_fields(ty)[sf[1]][1]), adt_fields(ty)[sf[1]][1])
            return [le(pmul(atom(a), st), HALF)]
    if a.tag == "len":
        return [le(atom(a), HALF)]
    return []


def refutes(lits, f):
    return not f if isinstance(f, bool) else quick(lits + [f])


def row_reads(lits, ors, foralls):
    rows = {}
    fs = lits + ors + foralls
    for f in fs:
        for a in deep_atoms(f):
            if a.tag == "pos" and a.args[0].tag == "uf" and a.args[0].args[0] == "row":
                rows.setdefault(a.args[0].args[2], {})[a.args[0].args[3]] = a.args[0]
    if not rows:
        return None
    m = {}
    for f in fs:
        for a in deep_atoms(f):
            qs = rows.get(a.args[0]) if a.tag == "at" and a not in m else None
            if not qs or has_bv(a):
                continue
            st = tlen(next(iter(qs.values())))
            sa = as_atom(st)
            if sa is None:
                continue
            for q, R in qs.items():
                r = psub(a.args[1], pmul(q, st))
                p = as_atom(r)
                x = p.args[1] if p is not None and p.tag == "pos" and p.args[0] is R else r
                if refutes(lits, ge(psub(ZERO, padd(x, ONE)))) and refutes(lits, ge(psub(x, st))):
                    m[a] = atom(V.t_at(R, r))
                    break
    if not m:
        return None
    return [T.subst_any(f, m) for f in fs]


_hb = {}


def has_bv(n):
    r = _hb.get(n)
    if r is None:
        r = n.tag == "bv" or any(has_bv(x) for x in kids_(n.args))
        _hb[n] = r
    return r


def kids_(args):
    for a in args:
        if isinstance(a, tuple):
            yield from kids_(a)
        elif isinstance(a, N):
            yield a


def inner_atoms(f, out):
    """atoms that occur inside other atoms of f"""
    stack = [(f, 0)]
    seen = set()
    while stack:
        x, d = stack.pop()
        if isinstance(x, tuple):
            stack.extend((y, d) for y in x)
            continue
        if not isinstance(x, N) or (x, d) in seen:
            continue
        seen.add((x, d))
        if x.tag == "poly":
            for m, c in x.args[0]:
                for a in m:
                    if d:
                        out.add(a)
                    stack.append((a, 1))
        elif leaf(x):
            continue
        elif x.tag == "lam":
            stack.append((x.args[0], 1))
        else:
            stack.extend((y, d) for y in x.args)


_dp = {}


def depth_of(x):
    if isinstance(x, tuple):
        return max([depth_of(y) for y in x], default=0)
    if not isinstance(x, N):
        return 0
    r = _dp.get(x)
    if r is None:
        r = 1 + max([depth_of(y) for y in x.args], default=0)
        _dp[x] = r
    return r


def congruence(lits, ors, foralls):
    eqs = [l.args[0] for l in lits if l.tag == "eq"]
    ges = {l.args[0] for l in lits if l.tag == "ge"}
    for p in list(ges):
        if pscale(p, -1) in ges:
            e = T.eq0(p)
            if isinstance(e, N) and e.tag == "eq" and e.args[0] not in eqs:
                eqs.append(e.args[0])
    if not eqs:
        return None
    inner = set()
    for f in lits + ors + foralls:
        inner_atoms(f, inner)
    best = None
    for p in eqs:
        # a fixed orientation per equation: the variable, else the deepest and newest atom
        cand = None
        for m, c in p.args[0]:
            if len(m) != 1 or abs(c) != 1:
                continue
            a = m[0]
            key = (a.tag != "sv", -a.hgt if a.tag != "sv" else 0, -depth_of(a), -a.id)
            if cand is None or key < cand[0]:
                cand = (key, a, m, c)
        if cand is None or cand[1] not in inner:
            continue
        key, a, m, c = cand
        r = T._poly({m2: -c2 * c for m2, c2 in p.args[0] if m2 != m})
        s = set()
        inner_atoms(r, s)
        if a in s or a in T.atoms_of(r):
            continue
        if best is None or key < best[0]:
            best = (key, a, r, p)
    if best is None:
        return None
    _, a, r, p = best
    m = {a: r}
    keep = T.eq0(p)
    out = [T.subst_any(f, m) for f in lits + ors + foralls if f is not keep]
    # the equality itself stays, for the axioms of the eliminated atom
    out.append(keep)
    return out


def decided(f, seen):
    """a disequality that a strict inequality among `seen` already gives"""
    if f.tag != "not" or f.args[0].tag != "eq":
        return False
    p = f.args[0].args[0]
    return ge(psub(p, ONE)) in seen or ge(psub(pscale(p, -1), ONE)) in seen


def sum_axioms(lits, foralls, seen):
    """a sum whose terms are all equal to one quantity is a product"""
    if not foralls:
        return []
    ats = set()
    for l in lits:
        collect_atoms(l, ats)
    new = []
    for a in ats:
        if a.tag != "sum":
            continue
        n, l = a.args
        for f in foralls:
            if f.args[0] is not n or f.args[1].args[0].tag != "eq":
                continue
            k = fresh("e")
            B, Q = app(l, atom(k)), app(f.args[1], atom(k))
            if not isinstance(Q, N) or Q.tag != "eq":
                continue
            for c in (psub(B, Q.args[0]), padd(B, Q.args[0])):
                if k not in c.syms:
                    x = eqp(atom(a), pmul(n, c))
                    if x is not True and x not in seen:
                        new.append(x)
                    break
    return new


def pos_axioms(lits, ors, seen):
    ats = set()
    for l in lits:
        collect_atoms(l, ats)
    for o in ors:
        collect_atoms(o, ats)
    new = []
    for a in ats:
        if a.tag == "pos":
            for x in axioms(a):
                if x is not True and isinstance(x, N) and x.tag == "or" and x not in seen:
                    new.append(x)
        elif a.tag == "find" and not has_bv(a):
            for x in axioms(a):
                if isinstance(x, N) and x.tag in ("or", "forall", "and") and not all(y in seen for y in flatten(x)):
                    new.append(x)
    # x != R[j]  gives  pos(R, x) != j, and the other way round
    for l in lits:
        if l.tag != "not" or l.args[0].tag != "eq":
            continue
        p = l.args[0].args[0]
        for m, c in p.args[0]:
            if len(m) == 1 and abs(c) == 1 and m[0].tag in ("at", "pos") and V.is_perm(m[0].args[0]):
                a = m[0]
                e = T._poly({m2: -c2 * c for m2, c2 in p.args[0] if m2 != m})
                other = (V.t_pos(a.args[0], e) if a.tag == "at" else atom(V.t_at(a.args[0], e)))
                f = bnot(eqp(other, a.args[1]))
                if f is False:
                    return [False]
                if f is not True and f not in seen and not decided(f, seen) and T.b_hgt(f) < 6 and f.syms <= l.syms and size(f) < 40:
                    new.append(f)
    return new


def size(f, cap=60):
    n = 0
    stack = [f]
    while stack and n < cap:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
        elif isinstance(x, N):
            n += 1
            stack.extend(x.args)
    return n


def is_lit(x):
    return x.tag not in ("and", "or", "forall", "exists")


def relevant_atoms(goal, lits):
    s = set()
    if isinstance(goal, N):
        collect_atoms(goal, s)
    else:
        for l in lits:
            collect_atoms(l, s)
    return s


def leaf(x):
    """an abbreviation: its definition plays no part in arithmetic"""
    return x.tag == "uf" and (x.args[0] == "named" or x.args[0].startswith("sorted:"))


_ca = {}


def deep_atoms(x):
    """the atoms of a term, at any depth outside binders and abbreviations"""
    r = _ca.get(x)
    if r is not None:
        return r
    t = x.tag
    if t == "lam" or (t == "uf" and leaf(x)):
        r = _NONE
    else:
        s = set()
        if t == "poly":
            for m, c in x.args[0]:
                for a in m:
                    s.add(a)
                    s |= deep_atoms(a)
        else:
            for a in T._kids(x.args):
                s |= deep_atoms(a)
        r = frozenset(s)
    _ca[x] = r
    return r


_NONE = frozenset()


def collect_atoms(f, s, deep=True):
    if isinstance(f, N):
        if deep:
            s |= deep_atoms(f)
        elif f.tag == "poly":
            for m, c in f.args[0]:
                s.update(m)
        elif f.tag != "lam" and not leaf(f):
            for a in T._kids(f.args):
                collect_atoms(a, s, deep)
    elif isinstance(f, tuple):
        for a in f:
            collect_atoms(a, s, deep)


def split(lits, ors, foralls, depth, goal):
    """case splits: ite atoms, disequalities, disjunctions (most relevant first)"""
    cands = []
    ats = set()
    for l in lits:
        if l.tag in ("ge", "eq") or (l.tag == "not" and l.args[0].tag == "eq"):
            collect_atoms(l, ats)
    S = set(lits)
    for a in ats:
        if a.tag == "ite":
            c = a.args[0]
            if c in S or bnot(c) in S:
                continue
            cands.append(("ite", a))
    if cands:
        # innermost conditions first
        cands.sort(key=lambda x: x[1].id)
        a = cands[0][1]
        c = a.args[0]
        return (unsat(rewrite_ite(lits, c, True) + rewrite_ite(ors, c, True) + foralls + [c], depth - 1, goal)
                and unsat(rewrite_ite(lits, c, False) + rewrite_ite(ors, c, False) + foralls + [bnot(c)], depth - 1, goal))
    # resolved ite atoms whose condition is a known literal
    res = [a for a in ats if a.tag == "ite" and (a.args[0] in S or bnot(a.args[0]) in S)]
    if res:
        m = {}
        for a in res:
            m[a] = a.args[1] if a.args[0] in S else a.args[2]
        nl = [T.subst_any(l, m) for l in lits]
        if nl != lits:
            return unsat(nl + ors + foralls, depth, goal)
    # disequalities
    rel = relevant_atoms(goal, lits)
    for l in lits:
        if l.tag == "not" and l.args[0].tag == "eq":
            p = l.args[0].args[0]
            pa = T.atoms_of(p)
            if not (pa & rel):
                continue
            rest = [x for x in lits if x is not l]
            lo, hi = ge(psub(p, ONE)), ge(psub(pscale(p, -1), ONE))
            if lo in rest or hi in rest:
                continue
            if quick(rest + [lo]):
                return unsat(rest + ors + foralls + [hi], depth, goal)
            if quick(rest + [hi]):
                return unsat(rest + ors + foralls + [lo], depth, goal)
    if ors:
        def score(o):
            s = set()
            collect_atoms(o, s)
            return (-len(s & rel), len(o.args[0]), o.id)
        S = set(lits) | set(foralls)
        ors = [o for o in ors if not any(g in S for g in o.args[0])]
        if not ors:
            return unsat(lits + foralls, depth - 1, goal)
        os_ = sorted(ors, key=score)
        # arithmetic unit propagation
        units, gone = [], set()
        for o in sorted(os_, key=lambda o: len(o.args[0]))[:10]:
            if len(o.args[0]) > 3 or sum(is_lit(g) for g in o.args[0]) < len(o.args[0]) - 1:
                continue
            live = [g for g in o.args[0] if not (is_lit(g) and quick(lits + [g]))]
            if not live:
                return True
            if len(live) == 1:
                gone.add(o)
                if not (is_lit(live[0]) and quick(lits + [bnot(live[0])])):
                    units.append(live[0])
        if units:
            return unsat(lits + [x for x in ors if x not in gone] + foralls + units, depth, goal)
        if gone:
            ors = [x for x in ors if x not in gone]
            os_ = [x for x in os_ if x not in gone]
            if not ors:
                return unsat(lits + foralls, depth - 1, goal)
        o = os_[0]
        rest = [x for x in ors if x is not o]
        ok = True
        for g in o.args[0]:
            if not unsat(lits + rest + foralls + [g], depth - 1, goal):
                ok = False
                break
        if ok:
            return True
        if depth >= 2 and len(os_) > 1:
            o = os_[1]
            rest = [x for x in ors if x is not o]
            return all(unsat(lits + rest + foralls + [g], depth - 2, goal) for g in o.args[0])
        return False
    for l in lits:
        if l.tag == "not" and l.args[0].tag == "eq":
            p = l.args[0].args[0]
            rest = [x for x in lits if x is not l]
            if T.atoms_of(p) & rel and depth >= 1:
                return (unsat(rest + foralls + [ge(psub(p, ONE))], depth - 1, goal)
                        and unsat(rest + foralls + [ge(psub(pscale(p, -1), ONE))], depth - 1, goal))
    return False


def rewrite_ite(fs, c, val):
    m = {}
    s = set()
    for f in fs:
        collect_nodes(f, "ite", s)
    nc = bnot(c)
    for a in s:
        if a.args[0] is c:
            m[a] = a.args[1] if val else a.args[2]
        elif a.args[0] is nc:
            m[a] = a.args[2] if val else a.args[1]
    if not m:
        return list(fs)
    return [T.subst_any(f, m) for f in fs]


def collect_nodes(f, tag, out, lams=False):
    stack = [f]
    seen = set()
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
            continue
        if not isinstance(x, N) or x in seen:
            continue
        seen.add(x)
        if x.tag == tag:
            out.add(x)
        if (x.tag == "lam" or leaf(x)) and not lams:
            continue
        stack.extend(x.args)


# ---------------------------------------------------------------- instantiation of element facts
def index_terms(fs):
    """index polys used in at() terms and free variables"""
    idx = []
    seen = set()
    for f in fs:
        s = set()
        collect_nodes(f, "at", s)
        for a in s:
            i = a.args[1]
            if i not in seen:
                seen.add(i)
                idx.append(i)
        s2 = set()
        collect_atoms(f, s2)
        for a in s2:
            if a.tag == "sv":
                p = atom(a)
                if p not in seen:
                    seen.add(p)
                    idx.append(p)
            elif a.tag == "find":
                p = atom(a)
                if p not in seen:
                    seen.add(p)
                    idx.append(p)
    return idx


def instantiate(lits, ors, foralls):
    if not foralls:
        return []
    out = []
    done = set()
    idx = index_terms(lits + ors)
    for rnd in range(2):
        new = []
        for f in foralls:
            n, l = f.args
            cand = list(idx)
            for c in (ZERO, psub(n, ONE)):
                if c not in cand:
                    cand.append(c)
            if len(cand) > 14:
                cand = cand[:14]
            for t in cand:
                if (f, t) in done:
                    continue
                done.add((f, t))
                lo, hi = ge(t), lt(t, n)
                if lo is False or hi is False:
                    continue
                b = app(l, t)
                if b is True:
                    continue
                # is the index known to be in range?
                inr = True
                for c in (lo, hi):
                    if c is True or c in lits:
                        continue
                    if not quick(lits + [bnot(c)]):
                        inr = False
                g = b if inr else bor(bnot(lo), bnot(hi), b)
                for h in flatten(g):
                    if h is not True:
                        if h is False:
                            return [mk("ge", const(-1))]
                        new.append(h)
        if not new:
            break
        out += [x for x in new if x not in out]
        more = [t for t in index_terms(new) if t not in idx]
        fas = [x for x in new if x.tag == "forall" and x not in foralls]
        if not more and not fas:
            break
        idx = more[:8]
        foralls = foralls + fas
    return out


# ---------------------------------------------------------------- arithmetic
def quick(lits):
    """linear contradiction among the literals (with axioms)"""
    ges, eqs, others = [], [], []
    for l in lits:
        if l.tag == "ge":
            ges.append(l.args[0])
        elif l.tag == "eq":
            eqs.append(l.args[0])
        else:
            others.append(l)
    S = set(lits)
    for l in others:
        if bnot(l) in S:
            return True
    key = (frozenset(ges), frozenset(eqs), frozenset(x for x in others if x.tag == "not" and x.args[0].tag == "eq"))
    r = _qmemo.get(key)
    if r is None:
        r = _quick(ges, eqs, others)
        if len(_qmemo) > 200000:
            _qmemo.clear()
        _qmemo[key] = r
    return r


_qmemo = {}


def monos(p):
    return [m for m, c in p.args[0] if m != ()]


def _quick(ges, eqs, others):
    tickw()
    atoms = set()
    for p in ges + eqs:
        collect_atoms(p, atoms)
    neqs = [l.args[0].args[0] for l in others if l.tag == "not" and l.args[0].tag == "eq"]
    for p in neqs:
        collect_atoms(p, atoms)
    ges, eqs = list(ges), list(eqs)
    done = set()
    extra_lits = []
    for _ in range(4):
        new = [a for a in atoms if a not in done]
        if not new:
            break
        for a in new:
            done.add(a)
            for ax in axioms(a):
                if ax is True:
                    continue
                if ax is False:
                    return True
                if ax.tag == "ge":
                    ges.append(ax.args[0])
                elif ax.tag == "eq":
                    eqs.append(ax.args[0])
                else:
                    extra_lits.append(ax)
                    continue
                collect_atoms(ax, atoms)
    # equalities first
    sub = solve_eqs(eqs)
    if sub is None:
        return True
    sub, rest = sub
    def ap(p):
        return apply_sub(p, sub)
    ges = [ap(p) for p in ges] + [ap(p) for p in rest] + [pscale(ap(p), -1) for p in rest]
    for m, r in sub:
        if len(m) > 1:
            q = psub(T._poly({m: 1}), r)
            ges += [q, pscale(q, -1)]
    neqs = [ap(p) for p in neqs]
    for p in neqs:
        if cval(p) == 0:
            return True
    if fm(ges):
        return True
    if extra_nonlin_needed(ges):
        ges = factors(ges)
        ges = products(ges)
        if fm(ges):
            return True
    # tighten with disequalities: p != 0 and p >= 0 gives p >= 1
    if neqs:
        gs = set(ges)
        for _ in range(2):
            ch = False
            for p in neqs:
                if cval(p) is not None:
                    continue
                for q in (p, pscale(p, -1)):
                    t = psub(q, ONE)
                    if t in gs:
                        continue
                    if q in gs or fm(ges + [psub(pscale(q, -1), ONE)]):
                        ges.append(t)
                        gs.add(t)
                        ch = True
            if not ch:
                break
            if fm(ges):
                return True
    return False


def axioms(a):
    out = []
    for f in AX:
        out += f(a)
    return out


def lin_div(p):
    """normalise coefficients; returns p"""
    g = 0
    for m, k in p.args[0]:
        if m != ():
            g = math.gcd(g, abs(k))
    if g > 1:
        return T._poly({m: (k // g) for m, k in p.args[0]})
    return p


def solve_eqs(eqs):
    """substitution mono -> poly from equalities with a unit-coefficient monomial; leftover equalities"""
    sub = []
    rest = []
    work = list(eqs)
    while work:
        p = work.pop()
        p = apply_sub(p, sub)
        c = cval(p)
        if c is not None:
            if c != 0:
                return None
            continue
        # integer gcd test
        g = 0
        for m, k in p.args[0]:
            if m != ():
                g = math.gcd(g, abs(k))
        if T.pconst(p) % g:
            return None
        p = T._poly({m: k // g for m, k in p.args[0]})
        best = None
        for m, k in p.args[0]:
            if m != () and abs(k) == 1:
                # prefer single atoms that do not occur in other monomials of p
                key = (len(m) != 1, -sum(a.id for a in m))
                others = [m2 for m2, _ in p.args[0] if m2 != m]
                if len(m) == 1 and any(m[0] in m2 for m2 in others):
                    continue
                if best is None or key < best[0]:
                    best = (key, m, k)
        if best is None:
            rest.append(p)
            continue
        _, m, k = best
        r = T._poly({m2: -c2 * k for m2, c2 in p.args[0] if m2 != m})
        sub = [(m1, apply_sub(r1, [(m, r)])) for m1, r1 in sub]
        sub.append((m, r))
    return sub, rest


def apply_sub(p, sub):
    for m, r in sub:
        d = {}
        ch = False
        acc = None
        for m2, c2 in p.args[0]:
            if m2 == m:
                ch = True
                t = pscale(r, c2)
            elif len(m) == 1 and m[0] in m2:
                l = list(m2)
                mult = 0
                while m[0] in l:
                    l.remove(m[0])
                    mult += 1
                t = T._poly({tuple(l): c2})
                for _ in range(mult):
                    t = pmul(t, r)
                ch = True
            else:
                d[m2] = d.get(m2, 0) + c2
                continue
            acc = t if acc is None else padd(acc, t)
        if ch:
            p = padd(T._poly(d), acc)
    return p


def extra_nonlin_needed(ges):
    return any(len(m) > 1 for p in ges for m, c in p.args[0])


def factors(ges):
    """a*q + r >= 0 with r <= a-1 gives q >= 0; with r <= -1 it gives q >= 1 (a >= 1)"""
    out = list(ges)
    have = set(out)
    for p in ges:
        if not any(len(m) > 1 for m, c in p.args[0]):
            continue
        fac = set()
        for m, c in p.args[0]:
            if len(m) > 1:
                fac.update(m)
        for a in sorted(fac, key=lambda x: x.id):
            q, r = split_by(p, a)
            if not any(len(m) > 0 for m, c in q.args[0]):
                continue
            A = atom(a)
            if cval(r) is not None and cval(r) < 0 or (cval(r) is None and fm(ges + [r])):
                # r <= -1: needs a >= 0 only (a*q >= 1)
                n = psub(q, ONE)
            elif fm(ges + [psub(r, A)]):
                n = q
            else:
                continue
            if n not in have:
                have.add(n)
                out.append(n)
    return out


def products(ges):
    """multiply linear facts by atoms known to be non-negative when the result stays within the monomials present"""
    ms = set()
    for p in ges:
        for m, c in p.args[0]:
            if len(m) > 1:
                ms.add(m)
    fac = set()
    for m in ms:
        fac.update(m)
    gs = set(ges)
    nonneg = {}
    for a in fac:
        if atom(a) in gs or any(p in gs for p in (psub(atom(a), ONE),)):
            nonneg[a] = True
        else:
            nonneg[a] = fm(ges + [psub(pscale(atom(a), -1), ONE)]) if len(ges) < 60 else False
    out = list(ges)
    have = set(out)
    lin = [p for p in ges if all(len(m) <= 1 for m, c in p.args[0])]
    for rnd in range(2):
        for a in sorted(fac, key=lambda x: x.id):
            if not nonneg.get(a):
                continue
            A = atom(a)
            for p in (lin if rnd == 0 else [q for q in out if any(len(m) > 1 for m, c in q.args[0])][:40]):
                q = pmul(p, A)
                if q in have:
                    continue
                ok = all(len(m) <= 1 or m in ms for m, c in q.args[0])
                nl = sum(1 for m, c in q.args[0] if len(m) > 1)
                if ok and nl >= 1:
                    out.append(q)
                    have.add(q)
                elif rnd == 0 and nl >= 1 and sum(1 for m, c in q.args[0] if len(m) > 1 and m in ms) >= 1 and \
                        sum(1 for m, c in q.args[0] if len(m) > 1 and m not in ms) <= 1 and len(out) < 120:
                    out.append(q)
                    have.add(q)
        if rnd == 0:
            for p in out:
                for m, c in p.args[0]:
                    if len(m) > 1:
                        ms.add(m)
            if not any(len(m) > 2 for m in ms):
                break
    return out


_sc = {}


def split_const(p):
    r = _sc.get(p)
    if r is None:
        d = [x for x in p.args[0] if x[0] != ()]
        c = T.pconst(p)
        r = _sc[p] = (d, c, not -(1 << 60) < c < (1 << 60) or any(not -(1 << 60) < k < (1 << 60) for m, k in d))
    return r


def fm(ges):
    """True if the system {p >= 0} has no integer (rational) solution"""
    tickw()
    cols = {}
    rows = {}
    for p in ges:
        if p in rows:
            continue
        d, c, big = split_const(p)
        if big:
            return fm_py(ges)
        if not d:
            if c < 0:
                return True
            continue
        for x in d:
            cols[x[0]] = 0
        rows[p] = (d, c)
    if not rows:
        return False
    if _FM is None or len(rows) > 400:
        return fm_py(ges)
    for j, m in enumerate(sorted(cols, key=lambda m: (len(m), tuple(a.id for a in m)))):
        cols[m] = j
    w = len(cols)
    n = len(rows)
    A = (_ct.c_int64 * (n * w))()
    C = (_ct.c_int64 * n)()
    for i, (d, c) in enumerate(rows.values()):
        C[i] = c
        o = i * w
        for m, k in d:
            A[o + cols[m]] = k
    return bool(_FM(n, w, A, C))


def _load_fm():
    """the elimination loop compiled (same algorithm as fm_py); None if there is no compiler"""
    import os, subprocess
    here = os.path.dirname(os.path.abspath(__file__))
    src = os.path.join(here, "fm.c")
    out = os.path.join(os.path.dirname(here), ".build", "fm.so")
    try:
        if not os.path.exists(out) or os.path.getmtime(out) < os.path.getmtime(src):
            os.makedirs(os.path.dirname(out), exist_ok=True)
            tmp = "%s.%d" % (out, os.getpid())
            subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-o", tmp, src], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            os.replace(tmp, out)
        f = _ct.CDLL(out).fm
        f.restype = _ct.c_int
        return f
    except (OSError, subprocess.SubprocessError):
        return None


import ctypes as _ct
_FM = _load_fm()


def fm_py(ges):
    """Fourier-Motzkin: True if the system {p >= 0} has no integer (rational) solution"""
    cons = {}
    for p in ges:
        d = dict(p.args[0])
        c = d.pop((), 0)
        if not d:
            if c < 0:
                return True
            continue
        g = 0
        for k in d.values():
            g = math.gcd(g, abs(k))
        if g > 1:
            d = {m: k // g for m, k in d.items()}
            c = c // g
        key = tuple(sorted(d.items(), key=lambda x: tuple(a.id for a in x[0])))
        if key not in cons or cons[key] > c:
            cons[key] = c
    while cons:
        tickw()
        # opposite constraints
        cnt = {}
        for key in cons:
            for m, k in key:
                a = cnt.setdefault(m, [0, 0])
                a[0 if k > 0 else 1] += 1
        best = None
        for m, (x, y) in cnt.items():
            w = x * y - x - y
            kk = (w, len(m), tuple(a.id for a in m))
            if best is None or kk < best[0]:
                best = (kk, m)
        m = best[1]
        pos, neg, rest = [], [], {}
        for key, c in cons.items():
            k = None
            for mm, kk in key:
                if mm == m:
                    k = kk
                    break
            if k is None:
                rest[key] = c
            elif k > 0:
                pos.append((key, c, k))
            else:
                neg.append((key, c, -k))
        if len(pos) * len(neg) > 900:
            return False
        for kp, cp, a in pos:
            for kn, cn, b in neg:
                d = {}
                for mm, k in kp:
                    if mm != m:
                        d[mm] = d.get(mm, 0) + k * b
                for mm, k in kn:
                    if mm != m:
                        d[mm] = d.get(mm, 0) + k * a
                c = cp * b + cn * a
                d = {x: k for x, k in d.items() if k}
                if not d:
                    if c < 0:
                        return True
                    continue
                g = 0
                for k in d.values():
                    g = math.gcd(g, abs(k))
                if g > 1:
                    d = {x: k // g for x, k in d.items()}
                    c = c // g
                key = tuple(sorted(d.items(), key=lambda x: tuple(q.id for q in x[0])))
                if key not in rest or rest[key] > c:
                    rest[key] = c
        cons = rest
        if len(cons) > 500:
            return False
    return False


# ---------------------------------------------------------------- equality of values
def equal(F, a, b, depth=3):
    """F entails that the values a and b are the same"""
    if a is b:
        return True
    if isinstance(a, bool) or isinstance(b, bool) or is_bool(a) or is_bool(b):
        return prove(F, bor(bnot(a), b), depth) and prove(F, bor(bnot(b), a), depth)
    if a.tag == "ite":
        c = a.args[0]
        return equal_under(F, c, a.args[1], b, depth) and equal_under(F, bnot(c), a.args[2], b, depth)
    if b.tag == "ite":
        return equal(F, b, a, depth)
    if a.tag == "poly" and b.tag == "poly":
        return prove(F, eqp(a, b), depth)
    if a.tag == "ref" and b.tag == "ref":
        return equal(F, a.args[0], b.args[0], depth)
    if a.tag == "agg" and b.tag == "agg" and len(a.args[1]) == len(b.args[1]):
        return all(equal(F, x, y, depth) for x, y in zip(a.args[1], b.args[1]))
    if a.tag == "en" and b.tag == "en":
        return a.args[1] == b.args[1] and all(equal(F, x, y, depth) for x, y in zip(a.args[2], b.args[2])) \
            or infeasible(F)
    if a.tag == "seq" and b.tag == "seq":
        if not prove(F, eqp(slen(a), slen(b)), depth):
            return False
        pa, pb = a.args[0], b.args[0]
        # part by part
        if len(pa) == len(pb) and all(x.tag == y.tag for x, y in zip(pa, pb)) and \
                all(prove(F, eqp(T.plen(x) if x.tag == "comp" else x.args[0], T.plen(y) if y.tag == "comp" else y.args[0]), depth)
                    for x, y in zip(pa, pb)):
            for x, y in zip(pa, pb):
                k = fresh()
                Fk = F.add(ge(atom(k)), lt(atom(k), x.args[0]))
                if not equal(Fk, app(x.args[1], atom(k)), app(y.args[1], atom(k)), depth):
                    break
            else:
                return True
        k = fresh()
        Fk = F.add(ge(atom(k)), lt(atom(k), slen(a)))
        d = decider(Fk)
        x, y = seq_at(a, atom(k), d), seq_at(b, atom(k), d)
        if x is None or y is None:
            return False
        return equal(Fk, x, y, depth)
    v = veq(a, b)
    if v is True:
        return True
    return prove(F, v, depth)


def equal_under(F, c, a, b, depth):
    F2 = F.add(c)
    if infeasible(F2):
        return True
    return equal(F2, a, b, depth)


# ---------------------------------------------------------------- simplification of values under facts
def simp_value(F, v, depth=2, _memo=None):
    """resolve conditionals the facts decide (also under binders, with the index range assumed)"""
    memo = {} if _memo is None else _memo

    def go(x, F):
        if isinstance(x, tuple):
            return tuple(go(y, F) for y in x)
        if not isinstance(x, N) or not has_ite(x):
            return x
        key = (x, F.key)
        if key in memo:
            return memo[key]
        t = x.tag
        if t == "ite":
            c = x.args[0]
            if prove(F, c, depth):
                r = go(x.args[1], F)
            elif prove(F, bnot(c), depth):
                r = go(x.args[2], F)
            else:
                a, b = go(x.args[1], F.add(c)), go(x.args[2], F.add(bnot(c)))
                r = x if a is x.args[1] and b is x.args[2] else T.ite(c, a, b)
        elif t == "poly":
            m = {}
            for mono, c in x.args[0]:
                for a in mono:
                    if a.tag == "ite" or has_ite(a):
                        b = go(a, F)
                        if b is not a:
                            m[a] = b if b.tag == "poly" else atom(b)
            if m:
                r = ZERO
                for mono, c in x.args[0]:
                    p = const(c)
                    for a in mono:
                        p = pmul(p, m.get(a) or atom(a))
                    r = padd(r, p)
            else:
                r = x
        elif t in ("comp", "flat", "cat"):
            n, l = x.args
            n2 = go(n, F)
            s = fresh()
            o = app(l, atom(s))
            if isinstance(o, N):
                o2 = go(o, F.add(ge(atom(s)), lt(atom(s), n2)))
                l2 = l if o2 is o else lam(s, o2)
            else:
                l2 = l
            if n2 is n and l2 is l:
                r = x
            elif t == "comp":
                r = comp(n2, l2)
            else:
                rb = T.REBUILD.get(t)
                r = rb(n2, l2) if rb else mk(t, n2, l2)
        elif t in ("lam", "forall", "exists"):
            r = x
        else:
            na = tuple(go(y, F) for y in x.args)
            if all(p is q for p, q in zip(na, x.args)) or na == x.args:
                r = x
            else:
                rb = T.REBUILD.get(t)
                r = rb(*na) if rb else mk(t, *na)
        memo[key] = r
        return r
    return go(v, F)


_hi = {}


def has_ite(x):
    if not isinstance(x, N):
        if isinstance(x, tuple):
            return any(has_ite(y) for y in x)
        return False
    r = _hi.get(x)
    if r is None:
        r = x.tag == "ite" or any(has_ite(y) for y in x.args)
        _hi[x] = r
    return r
