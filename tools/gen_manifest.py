#!/usr/bin/env python3
"""Development: writes MANIFEST.json."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from plan import PLAN
SYS = "TLA+ system specification (RawBTree) model-checked with TLC"
ALG = "TLA+ algorithm specification (BTreeAlg) model-checked with TLC"
REC = "recorded executions of the crate validated against it with TLC (Trace)"
T = {
    "C01": f"{SYS}; keyed histories replayed from its shape corpora and at random; {REC}",
    "C02": f"{SYS}; content, length and ends observed after each operation; {REC}",
    "C03": f"{ALG}: balance invariants; structure dumped after each operation; {REC}",
    "C04": "TLA+ bounds on comparisons and height (Views); counted comparisons of the crate validated with TLC",
    "C05": f"{SYS}; interleavings of front and back requests; {REC}",
    "C06": f"{SYS}: ownership invariants (Linear, Ownership); destructor events; {REC}",
    "C07": f"{ALG}: address tracking; insertions at every address of the corpus shapes; {REC}",
    "C08": f"{ALG}: address tracking; removals at every address of the corpus shapes; {REC}",
    "C09": f"{ALG}: address walks agree with the total order; navigation tables of the crate validated with TLC",
    "C10": "TLA+ definition of search (Views, AlgViews) model-checked; searches of the crate validated with TLC",
    "C11": f"{SYS}; histories over a tree and its clone; {REC}",
    "C12": f"{ALG}: no node leaks; storage calls of the crate over instrumented storages validated against NodeStore with TLC",
    "C13": f"{SYS}: lax and aborted keyed actions; lawless and panicking comparisons; {REC}",
    "C14": f"{SYS}: aborted destruction and clone actions; each panic point enumerated; {REC}",
    "C15": f"{SYS}; writes through every kind of mutable access; {REC}",
    "C16": "TLA+ definition of visits and node views (Views, AlgViews) model-checked; those of the crate validated with TLC",
    "C17": "TLA+ definition of the graph of a tree (Views); parsed DOT output of the crate validated with TLC",
    "C18": "TLA+ definition of valid trees (Validates, agreeing with the algorithm's trees); verdicts of the crate on valid and tampered trees validated with TLC",
    "C19": "TLA+ definition of offsets and addresses (Values); results of the crate validated with TLC",
    "C20": "TLA+ definition of key/value items (Values); results of the crate validated with TLC",
    "C21": "TLA+ definition of the node primitives (NodePrim); every primitive on every small node, validated with TLC",
    "C22": f"{SYS}; histories after clear and forget; {REC}",
    "C23": f"{SYS}; one history over several storages, recordings compared event by event with TLC",
    "C25": "TLA+ specification of the item arrays (ItemArray, over RawBTree) model-checked with TLC; every call on every small array, and histories, of the crate validated against it with TLC (Trace)",
    "C26": "TLA+ specification of what threads may hold (Threads, MCThreads) model-checked with TLC; the crate's markers and histories run on several threads validated against it with TLC (Trace)",
    "C27": f"TLA+ specification of trees in one storage (Forest, over BTreeAlg; Graft and Burst in RawBTree) model-checked with TLC; grafts into every corpus shape and random histories; {REC}",
    "C28": f"TLA+ specification of refused allocations (Full, over BTreeAlg; InsertCut, CloneAborted in RawBTree) model-checked with TLC; insertions and clones refused a node at each step; {REC}",
}
NOTE = ("TLC checks the specification exhaustively within small constants, and every recorded execution of the real code (orders "
        "4, 5, 6 and the shipped 8) step by step. Executions are a sample: bounded shape corpora generated from the specification, and "
        "seeded random histories. Trusts TLC, rustc and the recording of calls, results and accessors by the harness.")
checks = []
for p in sorted(PLAN):
    checks.append({"property": p, "quick_cmd": f"python3 check.py {p}", "thorough_cmd": f"python3 check.py {p} --tier thorough",
                   "evidence_file": f"evidence/{p}.json", "technique": T[p], "level": "model_checking", "level_note": NOTE})
m = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "hooks": {
        "guard": "cfg raw_btree_order (with the variable RAW_BTREE_ORDER at build time)",
        "enable": "RUSTFLAGS='--cfg raw_btree_order' RAW_BTREE_ORDER=4 cargo build (order 8 is built without the hook)",
        "source_commits": ["dfc0c38f7dfc15b1422fa9f6e3b2aeb0497a20f3"],
    },
    "checks": checks,
    "not_applicable": [{"property": "C24", "reason":
        "Undefined behaviour under an aliasing model is a property of single memory accesses below the API; a TLA+ specification "
        "neither models Rust's borrow stacks nor observes them in recorded executions."}],
    "notes": "Known findings (all repaired) are in KNOWN_FINDINGS; see DESIGN.md.",
}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
