"""C10: the internals of the invariant-carrying types cannot be reached by safe code outside the crate (structural query over the type-checked program)."""
from core import *
import core

TYPES = ("Row", "RowBuf", "RowAccumulator", "SameStageVec", "Iter", "AnnotBlock", "PlaceNot", "PnBlock", "Regex", "Stage")


def last(n):
    return n.split("::")[-1]


def inv_adt(name):
    if last(name) not in TYPES:
        return False
    return last(name) != "Iter" or "same_stage_vec" in name or "std" not in name.split("::")[0]


def subtypes(t):
    """t and every type it mentions"""
    yield t
    for x in t[1:]:
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield from subtypes(x)
            else:
                for y in x:
                    if isinstance(y, tuple) and y:
                        yield from subtypes(y)


def mut_targets(t):
    """what a value of type t gives mutable access to"""
    for x in subtypes(t):
        if x[0] == "ref" and x[1]:
            yield x[2]
        elif x[0] == "ptr" and x[1]:
            yield x[2]
        elif x[0] == "adt" and x[1].startswith("std::") and ("IterMut" in x[1] or "ChunksMut" in x[1] or "ChunksExactMut" in x[1] or last(x[1]) in ("Drain", "RefMut", "MutexGuard", "PeekMut")):
            for y in x[2]:
                yield y
        elif x[0] == "alias" and "&" in x[1] and "mut " in x[1]:
            m = re.search(r"&(?:'\w+ )?mut ([^,>)]+)", x[1])
            if m:
                y = summ.parse_type(core.P, m.group(1).replace("'_", "'a"), set())
                yield y if y else ("str",)


def field_types(adt, seen=None):
    """types of the storage of an invariant type: what raw mutable access must not reach"""
    seen = set() if seen is None else seen
    out = set()
    if adt["name"] in seen:
        return out
    seen.add(adt["name"])
    for v in adt["variants"]:
        for fl in v["fields"]:
            t = core.P.ty(fl["ty"])
            for x in subtypes(t):
                if x[0] in ("param", "region"):
                    continue
                out.add(x)
    return out


def ob(out, root, what, bad, site=None):
    out.append(Ob(root, what, REFUTED if bad else PROVED, bad or "", None, site))


def owners(t):
    """the invariant types a type refers to"""
    return set(last(x[1]) for x in subtypes(t) if x[0] == "adt" and inv_adt(x[1]))


def raw(x, raws):
    """is mutable access to x access to raw storage?"""
    if x[0] == "param":
        return None
    if LY.is_ty(x, "Row"):
        return None
    if x[0] == "alias":
        return None
    if x in raws:
        return "the storage type %s" % (x,)
    if x[0] == "slice" and any(y[0] == "slice" and y == x or y[0] == "adt" and y[1] == "std::vec::Vec" and y[2] and y[2][0] == x[1] for y in raws):
        return "a slice of the storage"
    return None


def structural(_):
    P = core.P
    out = []
    adts = [a for a in P.adts.values() if a["local"] and inv_adt(a["name"]) and a["reachable"]]
    for n in TYPES:
        ob(out, n, "the type exists", None if any(last(a["name"]) == n for a in adts) else "the invariant type %s is gone: the property's anchor" % n)
    raws = set()
    for a in adts:
        raws |= field_types(a)
        for v in a["variants"]:
            for fl in v["fields"]:
                vis = fl["vis"]
                ob(out, a["name"], "field %s is not visible outside the crate" % fl["name"],
                   "field is %s" % vis if vis in ("pub", "public", "Public") else None, "line %s" % a["line"])
                for x in subtypes(P.ty(fl["ty"])):
                    if x[0] == "adt" and last(x[1]) in ("UnsafeCell", "Cell", "RefCell", "Mutex", "RwLock", "OnceCell"):
                        ob(out, a["name"], "field %s has no interior mutability" % fl["name"], "%s" % (x,))
        if a["kind"] == "union":
            ob(out, a["name"], "is not a union", "is a union")
    # what exported safe functions give out
    for f in P.fns.values():
        if f["kind"] not in ("Fn", "AssocFn") or not f["exported"] or f["unsafe"]:
            continue
        site = where(f)
        ins = [P.ty(t) for t in f["inputs"]]
        if f["output"] is not None:
            t = core.resolve(f, P.ty(f["output"]))
            x = core.item_of(f, t)
            t = ("slice", x) if x else t
            srcs = set()
            for i in ins:
                if any(y[0] == "ref" and y[1] or y[0] == "ptr" and y[1] for y in subtypes(i)) or LY.is_ty(dty_(i), "RepeatIter"):
                    srcs |= owners(i)
            tg = list(mut_targets(t))
            if tg and srcs:
                for x in tg:
                    r = raw(x, raws)
                    # the storage of exactly the types handed in
                    ob(out, f["name"], "the result gives no mutable access to raw storage of %s" % ", ".join(sorted(srcs)), r, site)
        # closures that receive raw storage
        for p in f["preds"]:
            s = p if isinstance(p, str) else str(p)
            if "Fn" not in s:
                continue
            m = re.search(r"&(?:'\w+ )?mut ([^,>)]+)", s)
            if m:
                y = summ.parse_type(P, m.group(1).replace("'_", "'a"), set(f.get("generics") or []))
                srcs = set()
                for i in ins:
                    srcs |= owners(i)
                if srcs and y:
                    ob(out, f["name"], "closures receive no raw storage", raw(y, raws), site)
        # by name, by contract: unchecked constructors and setters are unsafe to call
        if "unchecked" in f["name"].split("::")[-1]:
            touched = set()
            if f["output"] is not None:
                touched |= owners(P.ty(f["output"]))
            for i in ins:
                if i[0] == "ref" and i[1]:
                    touched |= owners(i)
            if touched:
                ob(out, f["name"], "an unchecked entry point is `unsafe`", "safe code can call it and build %s from unvalidated parts" % ", ".join(sorted(touched)), site)
    n_unsafe = 0
    for f in P.fns.values():
        if f["exported"] and f["unsafe"] and f["kind"] in ("Fn", "AssocFn"):
            n_unsafe += 1
            if "unchecked" in f["name"] or True:
                ob(out, f["name"], "unvalidated entry point is `unsafe`", None)
    # impls
    for im in P.impls:
        t = P.ty(im["self"])
        st = dty_(t)
        mine = st[0] == "adt" and inv_adt(st[1]) and P.adts.get(st[1], {}).get("local")
        tr = im["trait"] or ""
        if mine:
            nm = last(st[1])
            if im["derived"] and last(tr.split("<")[0]) in ("Deserialize", "DeserializeOwned", "FromStr", "Arbitrary"):
                ob(out, st[1], "no derived %s" % tr, "the derived impl builds %s from unvalidated data (line %s)" % (nm, im["line"]))
            if im["unsafe"] and last(tr) not in ("TrivialClone", "StructuralPartialEq", "Freeze"):
                ob(out, st[1], "no hand-written unsafe impl", "unsafe impl %s (line %s)" % (tr, im["line"]) if not im["derived"] else None)
            for n, i in im["assoc_tys"].items():
                if n == "Target" and last(tr) == "Deref":
                    has_mut = any(j["trait"] and last(j["trait"]) == "DerefMut" and P.ty(j["self"]) == t for j in P.impls)
                    if has_mut:
                        ob(out, st[1], "DerefMut target is not raw storage", raw(P.ty(i), raws))
                for x in mut_targets(P.ty(i)):
                    ob(out, st[1], "associated type %s gives no raw storage" % n, raw(x, raws))
            if last(tr.split("<")[0]) == "IndexMut":
                outs = [P.ty(i) for j in P.impls if P.ty(j["self"]) == t and j["trait"] and last(j["trait"].split("<")[0]) == "Index" for n, i in j["assoc_tys"].items() if n == "Output"]
                for x in outs:
                    ob(out, st[1], "IndexMut gives no raw storage", raw(x, raws) or ("an element of the storage" if x in raws else None))
            if last(tr.split("<")[0]) in ("AsMut", "BorrowMut"):
                for a in im["targs"][1:]:
                    if a is not None:
                        ob(out, st[1], "%s target is not raw storage" % last(tr.split("<")[0]), raw(P.ty(a), raws))
    # pointer casts
    casts = 0
    for f in P.fns.values():
        b = f.get("body")
        if not b:
            continue
        for bl in b["blocks"]:
            for s in bl["s"]:
                if s[0] != "assign" or s[2][0] != "cast" or s[2][1] not in ("PtrToPtr", "Transmute"):
                    continue
                a, c = pointee(P.ty(s[2][4])), pointee(P.ty(s[2][3]))
                if a is None or c is None or a == c:
                    continue
                if not (owned_layout(a) or owned_layout(c)):
                    continue
                casts += 1
                bad = None
                if not (a[0] == "slice" and c[0] == "slice" and False) and transparent_core(a) != transparent_core(c):
                    bad = "%s is reinterpreted as %s, which has a different layout" % (a, c)
                ob(out, f["name"], "pointer cast between types of identical layout", bad, "%s:%s" % (f.get("file"), s[3] if len(s) > 3 else f.get("line")))
    out.append(Ob("crate", "casts of bell storage examined: %d" % casts, PROVED if casts else UNDECIDED, "" if casts else "no cast found, so the layout rule examines nothing"))
    return dict(obs=out, error=None, stats=None)


def dty_(t):
    while t[0] in ("ref", "ptr"):
        t = t[2]
    return t


def pointee(t):
    return t[2] if t[0] in ("ptr", "ref") else None


def owned_layout(t):
    while t[0] in ("slice", "array"):
        t = t[1]
    return t[0] == "adt" and bool((core.P.adts.get(t[1]) or {}).get("local"))


def transparent_core(t):
    """follow repr(transparent) wrappers"""
    while t[0] == "adt":
        a = core.P.adts.get(t[1])
        if not a or not a["local"] or not a["transparent"]:
            break
        fl = [x for x in a["variants"][0]["fields"] if core.P.ty(x["ty"]) != ("tuple", ()) and not (core.P.ty(x["ty"])[0] == "adt" and last(core.P.ty(x["ty"])[1]) == "PhantomData")]
        if len(fl) != 1:
            break
        t = core.P.ty(fl[0]["ty"])
    if t[0] == "slice":
        return ("slice", transparent_core(t[1]))
    return t


RULE = ("structural query over the type-checked program: visibility and interior mutability of every field of the invariant types, every mutable "
        "place reachable through the signature of an exported safe function, associated type or closure bound, derived or unsafe impls that build "
        "these types, safety of unchecked entry points, and layout of every pointer cast between bell storage and rows")


def check(prop):
    return [("structure", None, structural)], RULE, []
