#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the list of checks."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
src = open(os.path.join(here, 'simgen', 'props.go')).read()
claimed = re.findall(r'^\t"(C\d\d)":', src, re.M)
NOTE = ("Seeded exploration of simulated executions of the real code: evidence of absence over the schedules, inputs "
        "and faults that were sampled, no proof. Trusts the simulator's model of Go's scheduler, channels, sync, "
        "timers and TCP")
EXTRA = {
    'wasm': ", and the stand-in for wazero in which guests are instrumented Go copies of the repository's guest code",
    'mesh': ", and the stand-in for wazero in which guests are instrumented Go copies of the repository's guest code",
}
def worlds(i):
    m = re.search(r'"%s":\s*\{(.*)\},' % i, src)
    return re.findall(r'"(\w+)", \d', m.group(1))
NA = {
    'C31': "pure sequential encoding and fragmentation of one frame; what concurrency and the network add to it is decided by C07 and C08",
    'C32': "pure sequential parsing and printing of UUID text",
    'C33': "pure sequential parsing of a byte slice",
}
m = {
    "version": 1,
    "setup_cmd": "./check setup",
    "checks": [],
    "not_applicable": [],
    "notes": "./check ID builds the simulation world from /repo's working tree into a scratch directory, explores it with 8 worker processes and removes it. ./check replay FILE reproduces a violation. VERIF_DUR overrides the seconds of exploration. No hooks in /repo: simgen rewrites a copy of the sources.",
}
for p in props:
    i = p['id']
    if i in claimed:
        extra = ''.join(sorted({EXTRA.get(w, '') for w in worlds(i)}))
        m["checks"].append({
            "property": i,
            "quick_cmd": f"./check {i}",
            "thorough_cmd": f"./check {i} thorough",
            "technique": "deterministic simulation with fault injection, seeded schedule search",
            "level": "exploration",
            "level_note": NOTE + extra + ".",
        })
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check under construction")})
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(m["checks"]), "checks")
