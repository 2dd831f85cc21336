"""Writes MANIFEST.json: one check per property that sa/main.py knows, the others under not_applicable with the reason."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa.main import MODULES
VALUE = "abstract interpretation of the source to value-number terms, compared with a specification term"
TECH = {p: VALUE for p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C10", "C11", "C12", "C13", "C15", "C24", "C25")}
TECH.update({
    "C09": "constant propagation of the unit tables and a who-writes-what analysis of set_units",
    "C14": "abstract interpretation of the time loop (row-count domain) and typestate of the histories",
    "C16": "effect analysis: read sets of memoised functions against writes of public mutators",
    "C17": "alias and escape analysis over the abstract heap",
    "C18": "typestate analysis of compile/set_solution with exception edges",
    "C19": "constant propagation through the dispatch tables, one branch per documented name",
    "C20": "abstract interpretation of the table builders (column layout domain)",
    "C21": "information-flow analysis of the verbose flag, exception-edge typestate of its suspension, and abstract interpretation with the flag on and off",
    "C22": "effect analysis of the thread-pool workers over the call graph, and abstract interpretation of assembly with and without threads",
    "C23": "exception-flow analysis: unfinished components raise NotImplementedError on every path",
    "C26": "call-graph effect analysis (randomness, processes, network, environment, files under default options), information-flow analysis of clock readings, and heap comparison before and after every query by abstract interpretation",
})
NOTE = {
    "default": "Decided from the current source only; nothing of the repository is run. Where both sides have the same normal form the obligation is proved for all inputs the model admits; otherwise equality of the two terms is tested by random interpretation (evaluating both terms at random points, one-sided error), which shows agreement only at those points. Values outside the analysis are reported as undecided in the evidence and never alarm. Trusted: summaries of numpy/scipy/sympy calls in sa/models.py; real arithmetic.",
    "effect": "Decided from the current source only, over the call graph and effect summaries of every reachable function; dynamic features the resolver cannot see (none are used in the analysed paths) would be missed. Undecided items are listed in the evidence and never alarm.",
}
NA = {
    "C27": "Convergence of the discretisation to the exact solution is a limit of run-time numbers; no static argument over the source bounds it.",
    "C28": "Whether an iterative solver meets its tolerance depends on run-time spectra and third-party iterations; a static analysis of the call site cannot bound the residual.",
    "C29": "What a rendered picture shows is decided inside VTK/pyvista and a display at run time; not visible in this source.",
    "C30": "Running cost is a run-time quantity; an asymptotic bound would need cost models of numpy, scipy and sympy internals.",
}
PENDING = "Machinery for this property is still being built; not claimed yet."
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in MODULES:
        checks.append(dict(property=p, quick_cmd=f"VERIF_TIER=quick python3 -m sa.main {p}", thorough_cmd=f"VERIF_TIER=thorough python3 -m sa.main {p}", evidence_file=f"evidence/{p}.json", technique=TECH[p], level="other",
                           level_note=NOTE["effect" if p in ("C09", "C16", "C17", "C18", "C19", "C21", "C22", "C23", "C26") else "default"]))
    else:
        na.append(dict(property=p, reason=NA.get(p, PENDING)))
m = dict(version=1, setup_cmd="python3 -m compileall -q sa", checks=checks, not_applicable=na,
         notes="Pure static analysis with the standard library only: sa/ parses /repo/reservoirflow on every run and executes nothing of it. See DESIGN.md.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
