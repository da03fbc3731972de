#!/usr/bin/env python3
# Writes MANIFEST.json from properties.jsonl.
import json, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
props = [json.loads(l) for l in open('properties.jsonl')]
LATER = "no simulated workload for it yet"
NA = {}
TODO = os.environ.get('TODO', '').split()
for p in TODO: NA[p] = LATER
checks = []
for p in props:
    if p['id'] in NA: continue
    note = {
        'P15': "Sampled: caller goroutines, map seeds and schedules are simulated; the oracle is equality with the first result of the same split.",
        'P16': "Sampled: the map iteration order inside the solver is the simulated nondeterminism, the inputs are generated; the oracle is the definition of a proper split.",
    }.get(p['id'], "Sampled, seeded search over schedules, inputs and faults with the real code of the repository under a simulated runtime, kernel, terminal and clock; no violation found is evidence, not proof. Trusts the simulated terminal and kernel and the oracle's model.")
    checks.append({
        "property": p['id'],
        "quick_cmd": f"bash check.sh {p['id']} quick",
        "thorough_cmd": f"bash check.sh {p['id']} thorough",
        "technique": "deterministic simulation with fault injection: seeded search over schedules and faults, replayable and minimised",
        "level": "exploration",
        "level_note": note,
    })
doc = {
    "version": 1,
    "setup_cmd": "bash check.sh build",
    "hooks": {"guard": "verif", "enable": "none needed: the checks build /repo's working tree with a Go build overlay (simulated runtime, system calls and signals; preemption points inserted into copies of the sources), nothing of which is in /repo", "source_commits": []},
    "checks": checks,
    "not_applicable": [{"property": p['id'], "reason": NA[p['id']]} for p in props if p['id'] in NA],
    "notes": "See DESIGN.md. known_findings.json lists repaired defects (and known findings, if any). 'bash check.sh replay FILE' reproduces a violation.",
}
json.dump(doc, open('MANIFEST.json', 'w'), indent=1)
open('MANIFEST.json', 'a').write('\n')
