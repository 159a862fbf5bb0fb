#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from props import PROPS

TECH = {
    "C01": "model-based property testing of operation histories (rapid) against a plain record",
    "C02": "model-based property testing of histories under a fake clock (rapid, synctest) against a plain record",
    "C03": "model-based property testing of multi-session histories with restarts (rapid, fake clock)",
    "C04": "crash-point enumeration over generated histories: the folder before and in the middle of every file operation is reopened",
    "C05": "round-trip property testing of encodings and compression",
    "C06": "property testing of merges with fragments injected at chosen file operations, against set union",
    "C07": "differential property testing of search against a reference ranking, both stores, several processor counts",
    "C08": "property testing of a formula and of metamorphic relations",
    "C09": "property testing of each stage against a reference",
    "C10": "end-to-end property testing with a reference chain and metamorphic query changes",
    "C11": "property testing against a reference flattening",
    "C12": "model-based property testing of operation sequences, and generated goroutine scripts under the race detector",
    "C13": "model-based property testing under a fake clock and the race detector",
    "C14": "model-based property testing, and generated goroutine scripts under the race detector",
    "C15": "property testing with adversarial names, every file operation judged before it happens",
    "C16": "generated goroutine scripts under the race detector and a fake clock, and injected interleavings, against a history oracle",
    "C17": "black-box property testing of the server binary with generated request sessions against a reference",
    "C18": "model-based property testing of histories that save fields again",
    "C19": "file-operation enumeration with injected faults over generated saves, and generated concurrent savers and readers",
    "C20": "round-trip property testing",
    "C21": "model-based and differential property testing of the index layer on both stores",
    "C22": "model-based property testing",
    "C23": "property testing of non-interference: returned values are overwritten, everything is compared after every read",
    "C24": "fault injection into generated histories: chosen file operations fail, then the folder is opened without failures and compared with what was durable",
    "C25": "round-trip property testing with generated feeds over a fake network, and injected network failures",
    "C26": "model-based property testing of interleaved histories on several stores",
    "C27": "metamorphic property testing: repeating work must not change the resources in use",
    "C28": "model-based property testing of histories, and generated goroutine scripts under the race detector",
    "C29": "fault injection: generated damage to the files of generated stores, every answer compared with the record",
    "C30": "differential property testing against an independent encoder and decoder of the folder format, over generated histories",
}
NOTE = {
    "C24": "Search, not proof. Failures are injected into operations of package os on the store's folder; a failing operation has no effect, except that a write may be done in part. Answers while operations fail are not judged.",
    "C27": "Search, not proof. Counts may grow by less than half of the repetitions, so only what is left behind by (about) every repetition is seen.",
    "C04": "Search, not proof. Crash states are prefixes of the sequence of file operations (torn writes included), as a killed process leaves them; a power loss that reorders writes is out of scope. At most 48 states per life are tried.",
    "C16": "Search, not proof: schedules are those the Go scheduler and the race detector produce for the generated scripts, plus saves placed between the reads of a search. Domain: one process on a folder.",
    "C17": "Search, not proof. The server binary is built from the tree and driven over loopback as an unprivileged user. Ids are posted once (see C18).",
    "C18": "Search, not proof. A listed finding: histories whose answers are exactly those of the additive record are reported as KNOWN-FINDING; anything else is a violation.",
    "C19": "Search, not proof. Crashes and faults are at file operations of package os; readers run concurrently in the same process.",
}
DEFAULT = "Search, not proof: the property held on every generated case. Trusts the reference models in harness/h and the Go tool chain; the code under test is compiled unchanged from /repo."
checks = []
for pid in sorted(PROPS):
    checks.append(dict(property=pid, quick_cmd="python3 check.py " + pid, thorough_cmd="VERIF_TIER=thorough python3 check.py " + pid,
        evidence_file="evidence/%s.json" % pid, technique=TECH[pid], level=PROPS[pid]["level"], level_note=NOTE.get(pid, DEFAULT)))
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
na = [dict(property=i, reason="the check is not built yet") for i in ids if i not in PROPS]
json.dump(dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
    notes="No hooks in /repo: checks observe file operations through a build overlay of Go's own package os (overlay.py)."),
    open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
