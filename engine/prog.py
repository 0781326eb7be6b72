"""The dumped program: types, ADTs, impls, functions."""
import json


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.tys = [tuple(t) if not isinstance(t, str) else t for t in d["tys"]]
        self.adts = {a["name"]: a for a in d["adts"]}
        self.impls = d["impls"]
        for im in self.impls:
            for k, v in (("trait", None), ("targs", []), ("items", {}), ("assoc_tys", {}),
                         ("generics", []), ("derived", False), ("unsafe", False), ("neg", False)):
                im.setdefault(k, v)
        for f in d["fns"]:
            for k, v in (("exported", False), ("reachable", False), ("derived", False),
                         ("unsafe", False), ("inputs", []), ("output", None), ("generics", []),
                         ("preds", []), ("impl", None), ("impl_self", None), ("trait", None),
                         ("method", None), ("parent", None), ("body", None), ("promoted", [])):
                f.setdefault(k, v)
        self.fns = {f["id"]: f for f in d["fns"]}
        self.traits = d["traits"]
        self.by_name = {}
        for f in d["fns"]:
            self.by_name.setdefault(f["name"], []).append(f)
        self._tc = {}

    def ty(self, k):
        """structural type: nested tuples"""
        if k in self._tc:
            return self._tc[k]
        t = self.tys[k]
        h = t[0]
        if h == "prim":
            r = ("prim", t[1])
        elif h == "adt":
            r = ("adt", t[1], tuple(self.ty(x) if isinstance(x, int) else ("const", x) for x in t[2]))
        elif h in ("ref", "ptr"):
            r = (h, t[1], self.ty(t[2]))
        elif h == "slice":
            r = ("slice", self.ty(t[1]))
        elif h == "array":
            r = ("array", self.ty(t[1]), t[2])
        elif h == "tuple":
            r = ("tuple", tuple(self.ty(x) for x in t[1]))
        elif h == "param":
            r = ("param", t[1])
        elif h == "fndef":
            r = ("fndef", t[1], t[2], tuple(self.ty(x) if isinstance(x, int) else ("const", x) for x in t[3]))
        elif h == "closure":
            r = ("closure", t[1], tuple(self.ty(x) for x in t[2]), tuple(self.ty(x) for x in t[3]))
        else:
            r = tuple(t)
        self._tc[k] = r
        return r


def tstr(t):
    h = t[0]
    if h == "prim":
        return t[1]
    if h == "adt":
        n = t[1].split("::")[-1]
        return n + ("<" + ",".join(tstr(a) for a in t[2]) + ">" if t[2] else "")
    if h == "ref":
        return "&" + ("mut " if t[1] else "") + tstr(t[2])
    if h == "ptr":
        return "*" + ("mut " if t[1] else "const ") + tstr(t[2])
    if h == "slice":
        return "[" + tstr(t[1]) + "]"
    if h == "array":
        return "[%s;%s]" % (tstr(t[1]), t[2])
    if h == "tuple":
        return "(" + ",".join(tstr(a) for a in t[1]) + ")"
    if h == "param":
        return t[1]
    if h == "fndef":
        return "fn{" + t[2] + "}"
    if h == "closure":
        return "closure{" + t[1].split("::", 1)[1] + "}"
    return str(t[-1]) if len(t) > 1 else h


def show_place(p):
    s = "_%d" % p["l"]
    for e in p["p"]:
        k = e[0]
        if k == "deref":
            s = "(*%s)" % s
        elif k == "field":
            s += ".%d" % e[2]
        elif k == "index":
            s += "[_%d]" % e[2]
        elif k == "downcast":
            s += " as v%d" % e[2]
        else:
            s += str(e[2:]) + k
    return s


def show_op(P, o):
    if o[0] == "const":
        c = o[1]
        if "fn" in c:
            f = c["fn"]
            return f.get("rname", f["name"]) + "<" + ",".join(tstr(P.ty(a)) if isinstance(a, int) else a for a in f.get("rargs", f["args"])) + ">" + ("!local" if f.get("rlocal", f["local"]) else "")
        if "str" in c:
            return repr(c["str"])
        if "v" in c and "uneval" not in c:
            return "%s_%s" % (c["v"], tstr(P.ty(c["ty"])))
        return "const{%s}" % (c.get("uname", "") + (":p%d" % c["promoted"] if "promoted" in c else "") + ("=%s" % c["v"] if "v" in c else "") + ("zst " + tstr(P.ty(c["ty"])) if c.get("zst") else "") + c.get("other", ""))
    if o[0] in ("copy", "move"):
        return ("" if o[0] == "copy" else "move ") + show_place(o[1])
    return str(o)


def show_rv(P, r):
    k = r[0]
    if k == "use":
        return show_op(P, r[1])
    if k == "ref":
        return "&" + ("mut " if r[1] else "") + show_place(r[2])
    if k == "rawptr":
        return "&raw " + show_place(r[2])
    if k == "cast":
        return "%s as %s (%s)" % (show_op(P, r[2]), tstr(P.ty(r[4])), r[1])
    if k == "bin":
        return "%s(%s, %s)" % (r[1], show_op(P, r[2]), show_op(P, r[3]))
    if k == "un":
        return "%s(%s)" % (r[1], show_op(P, r[2]))
    if k == "discr":
        return "discr(%s)" % show_place(r[1])
    if k == "agg":
        return "%s{%s}" % (":".join(str(x) for x in r[1][:3]), ", ".join(show_op(P, o) for o in r[2]))
    return str(r)


def show_fn(P, f, body=None):
    b = body or f["body"]
    out = ["fn %s  [%s] %s" % (f["name"], f["id"], f.get("file"))]
    names = {k: n for k, n in b["names"]}
    for k, t in enumerate(b["locals"]):
        out.append("  let _%d: %s%s" % (k, tstr(P.ty(t)), "  // " + names[k] if k in names else ""))
    for k, bb in enumerate(b["blocks"]):
        if bb["cleanup"]:
            continue
        out.append(" bb%d:" % k)
        for s in bb["s"]:
            if s[0] == "assign":
                out.append("    %s = %s" % (show_place(s[1]), show_rv(P, s[2])))
            elif s[0] != "dead":
                out.append("    " + str(s))
        t = bb["t"]
        if t[0] == "call":
            out.append("    %s = call %s(%s) -> %s" % (show_place(t[3]), show_op(P, t[1]), ", ".join(show_op(P, a) for a in t[2]), t[4]))
        elif t[0] == "switch":
            out.append("    switch %s %s else %s" % (show_op(P, t[1]), t[2], t[3]))
        elif t[0] == "assert":
            out.append("    assert %s == %s (%s) -> %s" % (show_op(P, t[1]), t[2], t[3][0], t[4]))
        elif t[0] == "drop":
            out.append("    drop %s -> %s" % (show_place(t[1]), t[2]))
        else:
            out.append("    " + str(t))
    return "\n".join(out)


if __name__ == "__main__":
    import sys, build
    P = Prog(build.dump())
    pat = sys.argv[1:] 
    for f in P.fns.values():
        for q in pat:
            if q in f["name"] or q in f["id"]:
                print(show_fn(P, f))
                for k, pb in enumerate(f["promoted"]):
                    print("PROMOTED", k)
                    print(show_fn(P, f, pb))
                break
    if not pat:
        print(len(P.fns), len(P.adts), len(P.impls), len(P.tys))
        for f in P.fns.values():
            print(f["id"], f["name"], f["kind"], "exp" if f["exported"] else "", "unsafe" if f.get("unsafe") else "", "derived" if f["derived"] else "")
