"""writes MANIFEST.json from the table of claimed properties; the rest of properties.jsonl goes under not_applicable"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = "abstract interpretation of MIR (relational numeric + value-numbering + array-segment domain, trace partitioning)"
NOTE = ("Static: the deciding step interprets the type-checked MIR of /repo's current source with symbolic inputs; nothing is executed and no solver is used. "
        "Obligations the domain cannot prove are listed as undecided in the evidence and raise no alarm; an obligation is reported only when the abstract exit "
        "is exact and a valuation of its terms violates the obligation. Trusted: the rustc MIR, the models of std/itertools functions (engine/models.py).")
CLAIMED = {
    "C01": (AI + ": permutation invariant of every exit value", NOTE),
    "C02": (AI + ": whole-rows invariant of row collections", NOTE),
    "C03": (AI + ": length relation between rows and annotations", NOTE),
    "C04": (AI + ": stage-equality facts on every combining exit", NOTE),
    "C05": (AI + ": error exits leave mutable operands equal to their initial value number", NOTE),
    "C06": (AI + ": panic exits of the text parsers are infeasible", NOTE),
    "C07": (AI + ": panic exits of the deserialisers are infeasible", NOTE),
    "C08": (AI + ": the reader is interpreted on the writer's symbolic output and gives back the value number that was written; derived record keys are compared", NOTE),
    "C15": (AI + ": keys of map insertions and lookups equal the lower-case form of the title; reader composed with writer returns the written title", NOTE),
    "C09": (AI + ": the summaries of the name tables are compared entry by entry", NOTE),
    "C16": (AI + ": path facts at every file write entail that the data was parsed; value number of the path written equals the one read", NOTE),
    "C17": (AI + ": comparisons and hash histories of the owned type equal, by value number, those of the borrowed type", NOTE),
    "C10": ("structural query over the type-checked program (visibility, mutable access paths, unsafe boundary, layout of casts)",
            "Purely syntactic/type-level and complete for the listed rules; decides accessibility, not what validating functions compute (C01, C02, C11-C13 do)."),
    "C11": (AI + ": non-zero stage invariant", NOTE),
    "C12": (AI + ": place-notation well-formedness invariant", NOTE),
    "C13": (AI + ": regex normal-form invariant", NOTE),
    "C18": (AI + ": the composed/solved row equals, as a value number, the group-theoretic product of its operands", NOTE),
    "C20": (AI + ": iterator views yield, by value number, the promised segment of the underlying sequence; position fields stay in range", NOTE),
    "C21": (AI + ": getters return the value number of the constructor argument they promise", NOTE),
    "C23": (AI + ": appended/split/repeated rows and annotations equal, by value number, the documented segments", NOTE),
    "C24": (AI + ": mask predicates and products equal, by value number, the place-by-place definition", NOTE),
    "C19": (AI + ": two-run (non-interference) dependence of output buffers", NOTE),
    "C22": (AI + ": panic exits of the lookups are infeasible", NOTE),
}
REASON = {
    "C14": "The reported start of a range is carried by the character loop of the block parser under an invariant conditional on the place buffer (and on sub-block pointers), so the interpreter reaches every error exit only over-approximated: it could neither prove the bounds nor ever raise an alarm. Panics of the same parser are covered by C06, the notations it returns by C12.",
    "C25": "The closure, least group, group test and multi-way product are fixpoints over hash sets and stacks of rows whose trip count is the order of the generated group; no static domain in reach bounds or characterises the enumerated set, and running the code on sampled rows would not be static analysis.",
    "C26": "Matching builds a place array by data-dependent backtracking over runs of the row; relating its result to the pattern's language needs an inductive proof over pattern and row that no static domain here expresses. Absence of panics in matching is covered by C13.",
    "C27": "The count is a combinatorial formula; equating it with the number of matching rows is a theorem about languages of permutations, out of reach of static analysis of the source. (Reading shows the formula is wrong for some patterns with repeated bells; see DESIGN.md.)",
    "C28": "The classification is a nest of numerical conditions over cycles of the lead head and treble path; the framework it should agree with exists only as external prose, so there is no source-level oracle to analyse against.",
    "C29": "Round trips between a place notation and the rows it relates pair two loops over run-time places by an invariant on the number of internal swaps; proving equality of the composed permutation needs induction outside the abstract domain. Well-formedness of every notation produced is covered by C12, panics of parsing by C06.",
    "C30": "Parity, powers, factorial-base hashes and run lengths are numerical functions of a permutation defined by data-dependent loops (cycle walks, exponentiation by repetition); their correctness is an inductive fact about permutations that the domain cannot state.",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        t, n = CLAIMED[i]
        checks.append(dict(property=i, quick_cmd="python3 checks/run.py %s --tier quick" % i, thorough_cmd="python3 checks/run.py %s --tier thorough" % i,
                           technique=t, level="other", level_note=n))
    else:
        na.append(dict(property=i, reason=REASON.get(i, "Not decided yet by the analyses built so far; under construction (see DESIGN.md).")))
json.dump(dict(version=1, setup_cmd="python3 engine/build.py", checks=checks, not_applicable=na,
               notes="Static analysis only. engine/ is the abstract interpreter over MIR dumped by driver/ (a rustc driver); checks/ holds one module per family of properties."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print("claimed", sorted(CLAIMED), "na", [x["property"] for x in na])
