#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/checks.py and properties.jsonl."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
ids = [p["id"] for p in props]
assert len(set(ids)) == len(ids)
assert set(ids) == set(CHECKS) | set(NOT_APPLICABLE), set(ids) ^ (set(CHECKS) | set(NOT_APPLICABLE))
hooks = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines()
hooks = [l.split()[0] for l in hooks if "hook" in l]
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "hooks": {
        "guard": "cfg(kani), cfg(p2p_verif)",
        "enable": "Kani sets cfg(kani); the native replay is built with RUSTFLAGS=\"--cfg p2p_verif\"",
        "source_commits": hooks,
    },
    "checks": [{
        "property": i,
        "quick_cmd": "python3 check.py %s" % i,
        "thorough_cmd": "python3 check.py %s" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": "bounded symbolic execution of the real code with Kani/CBMC, SAT-decided, native replay",
        "level": "other",
        "level_note": "Decided by a SAT solver for all values within: %s. Trusts Kani/CBMC, the stubs of harness/common/proof.rs and the dependency models; nothing is claimed beyond the bounds." % CHECKS[i]["bounds"],
    } for i in ids if i in CHECKS],
    "not_applicable": [{"property": i, "reason": NOT_APPLICABLE[i]} for i in ids if i in NOT_APPLICABLE],
}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
