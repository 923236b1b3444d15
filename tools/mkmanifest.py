#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
TECH = {
    "C12": "TLA+ model of growing streams (StreamMC, TLC) + TLC validation of recorded streams (BanyanTrace)",
    "C16": "TLA+ model of the caches (StoreMC, TLC) + TLC validation of recorded cache traces and of paired runs with different caches",
    "C19": "TLA+ model of tag expressions (TagMC, TLC) + TLC validation of recorded conversions (TagTrace)",
    "C20": "TLA+ model of tag queries (TagMC, TLC) + TLC validation of recorded index and stream queries (TagTrace)",
    "C22": "TLA+ model of the block stores (StoreMC, TLC) + TLC validation of recorded store traces (StoreTrace)",
    "C25": "TLA+ model of interleaved readers and writer (ConcMC, TLC) + TLC validation of recorded concurrent runs (BanyanTrace)",
    "C27": "TLA+ model of the tree algorithms (BanyanMC, TLC) + TLC trace validation of exported (BanyanTrace) and printed graphs (KeyTrace)",
    "C28": "TLA+ model of the stored form of tag keys and their summaries in all trees (KeyMC, TLC) + TLC histories and walks executed by the real code + TLC trace validation of stored blocks and of what is read back (KeyTrace)",
    "C30": "TLA+ model of filling sequences in batches (SeqMC, TLC) + TLC histories and walks executed by the real code + TLC trace validation (SeqTrace)",
    "C31": "TLA+ model of an ipfs node, its subscriptions and a client (IpfsMC, TLC) + TLC histories and walks executed by the real client + TLC validation of the client's traces against a node that cuts up, fails and breaks its replies (IpfsTrace)",
    "C32": "TLA+ model of commands on a store with lost blocks (CliMC, TLC) + TLC histories and walks executed by the real tool + TLC validation of recorded sequences of commands (CliTrace)",
    "C33": "TLA+ model of several streams over one store and cache (MultiMC, TLC) + TLC histories and interleaved walks executed by the real code + TLC trace validation (BanyanTrace)",
    "C29": "TLA+ model of blocks, keys and dumps (KeyMC, TLC) + TLC histories and walks executed by the real code + TLC trace validation of what is printed (KeyTrace)",
}
DEF = "TLA+ model of the tree algorithms (BanyanMC, TLC) + TLC histories and walks executed by the real code + TLC trace validation (BanyanTrace)"
NOTE = ("The model is explored exhaustively within its bounds (constants in the evidence file); the real code is bound to it by executing generated "
        "histories and by checking every recorded result and every block written against the specification. Trusted: TLC, the independent block "
        "decoder and the recording store of the harness. The conformance part samples histories beyond the model's bounds.")
checks = []
for i in ids:
    checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                   "evidence_file": "evidence/%s.json" % i, "technique": TECH.get(i, DEF), "level": "model_checking", "level_note": NOTE})
m = {"version": 1, "setup_cmd": "bash tools/build.sh harness harness-utils cli", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: the harnesses use the public API with an own block store and an independent decoder of the block format."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
