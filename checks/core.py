"""Shared machinery of the checks: obligations over function summaries, parallel execution, evidence."""
import sys, os, time, json, signal, traceback, multiprocessing as mp, re
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(VERIF, "engine"))
sys.setrecursionlimit(6000)
import summ
from terms import *
from values import *
import values as V
import facts as FX
import layout as LY
import interp as IP
import evalm as EV
import inv as INV
from facts import prove, infeasible, decider

PROVED, UNDECIDED, REFUTED = "proved", "undecided", "refuted"
P = None
TIER = "quick"


def limits():
    return dict(quick=dict(tl=50.0, wit=4.0, tries=1500, hard=140), thorough=dict(tl=120.0, wit=20.0, tries=12000, hard=500))[TIER]


def load():
    global P
    P = summ.load()
    return P


class Ob:
    """one obligation"""
    __slots__ = ("root", "what", "status", "why", "witness", "site")

    def __init__(self, root, what, status, why="", witness=None, site=None):
        self.root, self.what, self.status, self.why, self.witness, self.site = root, what, status, why, witness, site

    def js(self):
        return dict(root=self.root, what=self.what, status=self.status, why=str(self.why)[:600], witness=self.witness, site=self.site)


def where(f):
    return "%s:%s %s" % (f.get("file"), f.get("line"), f["name"])


def fns(pred):
    return [f for f in P.fns.values() if f["kind"] in ("Fn", "AssocFn") and f.get("body") and pred(f)]


def public(f):
    return f["exported"] and not f["unsafe"]


def discr(ty, k):
    ty = LY.unbox(ty) if ty is not None else None
    if ty is not None and ty[0] == "adt":
        if ty[1] == ORD:
            return k - 1
        a = P.adts.get(ty[1])
        if a:
            d = a["variants"][k].get("discr")
            if d is not None:
                return IP.norm_discr(d)
    return k


# ---------------------------------------------------------------- witnesses
def exit_exact(e, *vals):
    return IP.exact_state(e.st) and not any(IP.approx(v) for v in vals if isinstance(v, N))


def fmt_inputs(S, ins):
    out = {}
    for k, v in ins.items():
        m = re.match(r"p(\d+)$", k)
        if m:
            i = int(m.group(1))
            nm = dict((a, b) for a, b in (S.f["body"].get("names") or [])).get(i + 1)
            out[nm or "argument %d" % (i + 1)] = pretty(v, S.inputs[i].ty)
    return out


def pretty(v, ty):
    return repr(v)


def witness(S, e, goal, extra=(), short=False):
    """(description, inputs) of a valuation on which the exit is taken and goal(ev) reports a violation; or None"""
    lim = limits()
    fs = [f for f in list(e.st.facts.items) + list(extra) if f not in IP.DEFS]
    FX.DEADLINE[0] = time.process_time() + 60
    try:
        d, ins, ok = EV.find_witness(fs, goal, seed=int(os.environ.get("VERIF_SEED", "1")), tries=lim["tries"], discr=discr, budget=lim["wit"] / 2 if short else lim["wit"], about=[e.value] + list(e.finals.values()))
    except EV.GiveUp as g:
        return None, "no valuation: %s" % g
    if d:
        return (d, fmt_inputs(S, ins)), None
    return None, "no counter-valuation among %d that take this exit" % ok


def ctx_keys(keys):
    cx = INV.Ctx()
    cx.keys = keys
    return cx


# ---------------------------------------------------------------- running
def with_budget(seconds):
    FX.BUDGET[0] = 0
    FX.DEADLINE[0] = time.process_time() + seconds


HARD = "hard time limit"


def _onalarm(a, b):
    raise RuntimeError(HARD)


def _job(args):
    i, = args
    label, fid, fn = JOBS[i]
    signal.signal(signal.SIGALRM, _onalarm)
    signal.alarm(limits()["hard"])
    t0 = time.time()
    try:
        r = fn(P.fns[fid] if fid is not None else None)
        obs = [o.js() for o in r["obs"]]
        return i, dict(obs=obs, stats=r.get("stats"), error=r.get("error"), t=time.time() - t0)
    except (FX.Incomplete, EV.GiveUp) as e:
        return i, dict(obs=[], error="incomplete: %s" % e, t=time.time() - t0)
    except RecursionError:
        return i, dict(obs=[], error="recursion limit", t=time.time() - t0)
    except MemoryError:
        return i, dict(obs=[], error="memory", t=time.time() - t0)
    except Exception as e:
        tb = traceback.format_exc().strip().split("\n")
        return i, dict(obs=[], error="EXC %s | %s" % (tb[-1], " ".join(x.strip() for x in tb[-9:-1])[:500]), t=time.time() - t0)


JOBS = []


def run_jobs(jobs, total=780):
    """jobs: [(label, fn id, function)]; each in its own forked process"""
    JOBS[:] = jobs
    res = [None] * len(jobs)
    t0 = time.time()
    lim = int(limits()["tl"])
    with mp.Pool(8, maxtasksperchild=1) as pool:
        it = pool.imap_unordered(_job, [(i,) for i in range(len(jobs))], chunksize=1)
        while True:
            left = total - (time.time() - t0)
            try:
                i, r = it.next(timeout=max(left, 1))
            except StopIteration:
                break
            except mp.TimeoutError:
                pool.terminate()
                break
            res[i] = r
    for i, r in enumerate(res):
        if r is None:
            res[i] = dict(obs=[], error="check time limit", t=0)
    return res


def known(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("known:"):
                m = re.match(r"known: property=(\S+) root=(\S+) what=(.*)$", l.strip())
                if m and m.group(1) == prop:
                    out.append((m.group(2), m.group(3)))
    return out


def finish(prop, jobs, res, t0, rule, missing=(), extra_cov=None, level="other", extra_obs=()):
    obs = list(o.js() for o in extra_obs)
    errs = []
    inl = set()
    nblocks = 0
    for (label, fid, fn), r in zip(jobs, res):
        if r["error"]:
            errs.append((label, r["error"]))
            obs.append(dict(root=label, what="summary", status=UNDECIDED, why=r["error"], witness=None, site=None))
        obs += r["obs"]
        if r.get("stats"):
            inl |= set(r["stats"].get("inlined", ()))
            nblocks += r["stats"].get("blocks", 0)
    for m in missing:
        obs.append(dict(root=m, what="anchor", status=REFUTED, why="public item %s is missing: the property's anchor is gone" % m, witness=None, site=None))
    kn = known(prop)
    bad, seen_kn = [], set()
    for o in obs:
        if o["status"] == REFUTED:
            hit = [k for k in kn if k[0] == o["root"].replace(" ", "") and k[1] in o["what"]]
            if hit:
                seen_kn.add(hit[0])
                o["status"] = "known finding"
            else:
                bad.append(o)
    cnt = {}
    for o in obs:
        cnt[o["status"]] = cnt.get(o["status"], 0) + 1
    evd = os.path.join(VERIF, "evidence")
    os.makedirs(evd, exist_ok=True)
    und = [o for o in obs if o["status"] == UNDECIDED]
    cov = dict(explanation=rule, functions_analysed=len(jobs), functions_inlined=len(inl), blocks_interpreted=nblocks,
               obligations=len(obs), discharged=cnt.get(PROVED, 0), undecided=len(und), refuted=cnt.get(REFUTED, 0),
               known_findings=cnt.get("known finding", 0),
               roots=sorted(set(j[0] for j in jobs))[:400],
               undecided_list=[("%s: %s: %s" % (o["root"], o["what"], o["why"]))[:300] for o in und][:200])
    if extra_cov:
        cov.update(extra_cov)
    ev = dict(property=prop, tier=TIER, seed=int(os.environ.get("VERIF_SEED", "1")), level=level, coverage=cov, wall_s=round(time.time() - t0, 2))
    json.dump(ev, open(os.path.join(evd, prop + ".json"), "w"), indent=1, default=str)
    for k in sorted(seen_kn):
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, k[0], k[1]))
    print("%s: %d roots, %d obligations, %d proved, %d undecided, %d refuted (%.1fs)" % (
        prop, len(jobs), len(obs), cnt.get(PROVED, 0), len(und), len(bad), time.time() - t0))
    if os.environ.get("VERBOSE"):
        for o in und:
            print("  undecided %s: %s: %s" % (o["root"], o["what"], o["why"]))
    if bad:
        path = os.path.join(evd, prop + ".violation.txt")
        with open(path, "w") as fh:
            for o in bad:
                fh.write("%s\n  obligation: %s\n  site: %s\n  %s\n" % (o["root"], o["what"], o["site"], o["why"]))
                if o["witness"]:
                    fh.write("  witness: %s\n" % json.dumps(o["witness"], default=str))
                fh.write("\n")
        for o in bad[:20]:
            print("  %s: %s: %s %s" % (o["root"], o["what"], o["why"], o["witness"] or ""))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    return 0


def summarise(f, **kw):
    kw.setdefault("time_limit", limits()["tl"])
    return summ.summarise(P, f, **kw)


def resolve(f, t):
    """the type an associated-type projection of the function's own impl stands for"""
    if t[0] == "alias" and "impl" in f and f.get("impl") is not None:
        nm = t[1].rsplit("::", 1)[-1]
        for im in P.impls:
            if im["id"] == f["impl"] and nm in im["assoc_tys"]:
                return P.ty(im["assoc_tys"][nm])
    if t[0] == "adt" and len(t) > 2:
        return (t[0], t[1], tuple(resolve(f, x) if isinstance(x, tuple) else x for x in t[2])) + tuple(t[3:])
    return t


def item_of(f, t):
    """item type of an `impl Iterator<Item = X>` result"""
    if t[0] == "alias" and t[1].startswith("impl ") and "Item = " in t[1]:
        s = t[1][t[1].index("Item = ") + 7:]
        d = 0
        for i, c in enumerate(s):
            if c in "<([":
                d += 1
            elif c in ")]>":
                if d == 0:
                    s = s[:i]
                    break
                d -= 1
        s = s.replace("'_", "'a")
        x = summ.parse_type(P, s, set(f.get("generics") or []))
        return x
    return None


def outty(S):
    return fn_out(S.f)


def fn_out(f):
    if f.get("output") is None:
        return ("tuple", ())
    t = resolve(f, P.ty(f["output"]))
    x = item_of(f, t)
    return ("slice", x) if x else t


# ---------------------------------------------------------------- helpers on exits
def cases(F, v, depth=0):
    """the alternatives of a value: (facts, value without a leading ite)"""
    if isinstance(v, N) and v.tag == "ref":
        v = v.args[0]
    if isinstance(v, N) and v.tag == "ite" and depth < 6:
        c, a, b = v.args
        d = decider(F, 2)(c)
        if d is not False:
            yield from cases(F.add(c), a, depth + 1)
        if d is not True:
            yield from cases(F.add(bnot(c)), b, depth + 1)
        return
    yield F, v


def is_result(ty):
    return ty[0] == "adt" and ty[1] == "std::result::Result"


def is_option(ty):
    return ty[0] == "adt" and ty[1] == "std::option::Option"


OK, ERR, NONE, SOME = 0, 1, 0, 1


def stats(S):
    s = S.stats or {}
    if not isinstance(s, dict):
        return None
    return dict(inlined=list(s.get("inlined", ())), blocks=s.get("blocks", 0))


def same(F, a, b, depth=3):
    """are two values proved equal under F?"""
    if a is b:
        return True
    try:
        return FX.equal(F, a, b, depth) is True
    except FX.Incomplete:
        return None


FIRST = 10.0


def settle(S, e, proof, goal, extra=(), exact=True):
    """first a short attempt at the proof, then a short search for a counter-valuation, then the whole proof budget:
    (proved?, (description, inputs) of a counter-valuation / None)"""
    tl = limits()["tl"]
    if not exact or tl <= FIRST:
        with_budget(tl)
        return proof(), None
    t0 = time.process_time()
    with_budget(FIRST)
    r = proof()
    if r or time.process_time() - t0 < FIRST - 1:
        return r, None
    w, _ = witness(S, e, goal, extra, short=True)
    if w is not None:
        return False, w
    with_budget(tl)
    return proof(), None


def expect_equal(S, e, F, got, want, what, site=None):
    """obligation: on this exit (facts F) got equals want"""
    def goal(ev):
        a, b = ev.ev(got), ev.ev(want)
        if not conc_eq(a, b):
            return "%s: %s instead of %s" % (what, str(a)[:200], str(b)[:200])
    extra = [f for f in F.items if f not in e.st.facts.items]
    ok, w = settle(S, e, lambda: same(F, got, want), goal, extra, exit_exact(e, got, want))
    if ok:
        return Ob(S.name, what, PROVED)
    if w is not None:
        return Ob(S.name, what, REFUTED, w[0], w[1], where(S.f))
    if not exit_exact(e, got, want):
        return Ob(S.name, what, UNDECIDED, "not proved equal [over-approximated exit: %s]" % (e.st.notes,))
    w, reason = witness(S, e, goal, extra)
    if w is None:
        return Ob(S.name, what, UNDECIDED, "not proved equal [%s]" % reason)
    return Ob(S.name, what, REFUTED, w[0], w[1], where(S.f))


def conc_eq(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(conc_eq(x, y) for x, y in zip(a, b))
    if isinstance(a, str) != isinstance(b, str):
        raise EV.GiveUp("string form")
    return a == b


def expect_true(S, e, F, goal, what):
    """obligation: the boolean term goal holds on this exit"""
    why = ["not proved"]

    def proof():
        try:
            return goal is True or prove(F, goal, 4)
        except FX.Incomplete as x:
            why[0] = "proof budget: %s" % x
            return False

    def g(ev):
        return None if ev.ev(goal) else "%s fails" % what
    extra = [f for f in F.items if f not in e.st.facts.items]
    ok, w = settle(S, e, proof, g, extra, exit_exact(e, goal))
    why, = why
    if ok:
        return Ob(S.name, what, PROVED)
    if w is not None:
        return Ob(S.name, what, REFUTED, w[0], w[1], where(S.f))
    if not exit_exact(e, goal):
        return Ob(S.name, what, UNDECIDED, "%s [over-approximated exit: %s]" % (why, e.st.notes))
    w, reason = witness(S, e, g, extra)
    if w is None:
        return Ob(S.name, what, UNDECIDED, "%s [%s]" % (why, reason))
    return Ob(S.name, what, REFUTED, w[0], w[1], where(S.f))


def expect_unreachable(S, e, what):
    """obligation: the exit is infeasible"""
    return expect_none(S, e, e.st.facts, what)


def expect_none(S, e, F, what):
    """obligation: no input meets F"""
    def proof():
        try:
            return infeasible(F, 3)
        except FX.Incomplete:
            return False
    extra = [f for f in F.items if f not in e.st.facts.items]
    ok, w = settle(S, e, proof, lambda ev: what, extra, exit_exact(e))
    if ok:
        return Ob(S.name, what, PROVED)
    if w is not None:
        return Ob(S.name, what, REFUTED, w[0], w[1], where(S.f))
    if not exit_exact(e):
        return Ob(S.name, what, UNDECIDED, "not excluded [over-approximated exit: %s]" % (e.st.notes,))
    w, reason = witness(S, e, lambda ev: what, extra)
    if w is None:
        return Ob(S.name, what, UNDECIDED, "not excluded [%s]" % reason)
    return Ob(S.name, what, REFUTED, w[0], w[1], where(S.f))


def simple_job(judge, **kw):
    """job that summarises a function and judges every exit: judge(S, e) yields obligations"""
    def run(f):
        S = summarise(f, **kw)
        if S.error and not S.exits:
            return dict(obs=[], error=S.error, stats=stats(S))
        obs = []
        try:
            for e in S.exits:
                for o in judge(S, e):
                    obs.append(o)
        except RuntimeError as x:
            if str(x) != HARD:
                raise
            # what was decided before the time ran out stands
            return dict(obs=obs, error=HARD, stats=stats(S))
        return dict(obs=obs, error=S.error, stats=stats(S))
    return run
