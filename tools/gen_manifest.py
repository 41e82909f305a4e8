#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ("TLC decides for every recorded history of the real code whether the TLA+ specification has a behaviour with it; the histories come from controlled schedules (systematic preemption at "
        "shared-memory accesses, random, PCT)%s of generated programs on real processes and real shared memory, and the specification itself is model checked for this property on small menus. "
        "Holds for what was explored (bounds in the evidence file); assumes sequentially consistent memory; trusts TLC and harness/explore.cc.")
CR = {"C03", "C08", "C09", "C10", "C13", "C14", "C15", "C18", "C19"}
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "python3 check.py setup",
    "hooks": {"guard": "none", "enable": "no hooks: the checks compile /repo's library sources unchanged, instrumented by the compiler (-fsanitize=thread with a runtime of our own)", "source_commits": []},
    "checks": [{
        "property": p,
        "quick_cmd": "python3 check.py %s --tier quick" % p,
        "thorough_cmd": "python3 check.py %s --tier thorough" % p,
        "technique": "TLA+ specification, TLC: trace validation of controlled executions of the real code, and model checking of the specification",
        "level": "model_checking",
        "level_note": NOTE % (", with a crash at each access" if p in CR else ""),
    } for p in ids],
    "not_applicable": [],
    "notes": "DESIGN.md describes the specification, the harness and the findings; KNOWN_FINDINGS lists the defects found.",
}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
