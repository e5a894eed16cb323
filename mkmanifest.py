#!/usr/bin/env python3
"""Writes MANIFEST.json (run by hand after changing the list of checks)."""
import json
ALL = [f'C{i:02d}' for i in range(1, 20)]
CLAIMED = ALL
NOTE = ("Laws of the property are model-checked on the TLA+ specification over every small operand; the code is "
        "bound to the specification by validating recorded executions, call by call, with TLC. Exhaustive for the "
        "smallest types, sampled with boundary-biased contents for the others. Trusts TLC, g++, and the recording "
        "harness.")
M = {
    "version": 1,
    "setup_cmd": "python3 check.py --selftest",
    "hooks": {"guard": "none", "enable": "no hooks: the public API of the headers in /repo/include is called", "source_commits": []},
    "checks": [{
        "property": p,
        "quick_cmd": f"python3 check.py {p} --tier quick",
        "thorough_cmd": f"python3 check.py {p} --tier thorough",
        "evidence_file": f"evidence/{p}.json",
        "technique": "TLA+ specification: TLC model checking and TLC trace validation of recorded executions",
        "level": "model_checking",
        "level_note": NOTE,
    } for p in CLAIMED],
    "not_applicable": [],
}
json.dump(M, open('MANIFEST.json', 'w'), indent=1)
