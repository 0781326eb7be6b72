"""C06 C07 C22: no feasible panic exit."""
from views import *
import core

LOOKUPS = [("Bell", "from_name"), ("Bell", "from_number"), ("Bell", "to_char"), ("Bell", "name"), ("Stage", "name"), ("Stage", "from_lower_case_name"),
           ("Stage", "try_from"),
           ("AnnotBlock", "get_row"), ("AnnotBlock", "get_annot"), ("AnnotBlock", "get_annot_mut"), ("AnnotBlock", "get_annot_row"),
           ("AnnotBlock", "first_annot_row"), ("AnnotBlock", "path_of"), ("AnnotBlock", "full_path_of"), ("AnnotBlock", "split"),
           ("Mask", "place_of"), ("Mask", "as_row"), ("RegexElem", "bell"), ("Class", "hunt_bell_class"), ("Class", "name_in_title"),
           ("RowAnnot", "label"), ("PlaceNot", "cross"), ("PlaceNot", "pn_between"), ("Row", "place_of"), ("Row", "is_rounds"), ("Row", "is_backrounds"),
           ("SameStageVec", "get"), ("SameStageVec", "get_mut"), ("SameStageVec", "first"), ("SameStageVec", "first_mut"), ("SameStageVec", "last"),
           ("SameStageVec", "last_mut"), ("SameStageVec", "path_of"), ("SameStageVec", "pop"), ("SameStageVec", "split"),
           ("MethodLib", "get_by_title"), ("MethodLib", "get_by_title_with_suggestions")]
OPTIONAL = {("Bell", "name"), ("Stage", "try_from"), ("Class", "name_in_title")}
PARSERS = [("AnnotBlock", "parse", None), ("Mask", "parse", None), ("PlaceNot", "parse", None), ("PnBlock", "parse", None),
           ("RowBuf", "parse", None), ("RowBuf", "parse_with_stage", None), ("RowBuf", "from_str", "FromStr"), ("SameStageVec", "parse", None),
           ("Regex", "parse", None), ("Stage", "from_lower_case_name", None), ("Bell", "from_name", None), ("Method", "from_place_not_string", None)]


def judge(S, e):
    if e.tag == "ret":
        return
    yield expect_unreachable(S, e, "panic: %s" % (str(e.value)[:160],))


def job(f):
    S = summarise(f, overflow=True)
    if S.error and not S.exits:
        return dict(obs=[], error=S.error, stats=stats(S))
    obs = []
    for e in S.exits:
        obs += list(judge(S, e))
    if not obs and not S.error:
        obs.append(Ob(S.name, "no panic exit among %d exits" % len(S.exits), PROVED))
    return dict(obs=obs, error=S.error, stats=stats(S))


RULE = ("every exit of the listed functions is enumerated over the interpreted MIR (bounds checks, unwraps, overflow assertions, explicit panics, "
        "string slicing, division), for arbitrary arguments; each panicking exit must be infeasible")


def check(prop):
    jobs, missing = [], []
    if prop == "C22":
        tab = [(o, m, None) for o, m in LOOKUPS]
    elif prop == "C06":
        tab = PARSERS
    else:
        tab = []
        for f in core.P.fns.values():
            if f["kind"] in ("Fn", "AssocFn") and f.get("body") and f["trait"] and f["trait"].split("<")[0].split("::")[-1] in ("Deserialize", "TryFrom", "Visitor"):
                jobs.append((f["name"], f["id"], job))
        # string builders are opaque where they are called (their result is their arguments' function): judged here
        for name in sorted(core.summ.string_fns(core.P)):
            for f in core.P.fns.values():
                if f["name"] == name and not f["unsafe"]:
                    jobs.append((f["name"], f["id"], job))
    for o, m, tr in tab:
        fs = [f for f in api(o, m, tr) if not f["unsafe"]]
        if not fs and (o, m) not in OPTIONAL and tr is None:
            missing.append("%s::%s" % (o, m))
        for f in fs:
            jobs.append((f["name"], f["id"], job))
    return jobs, RULE, missing
