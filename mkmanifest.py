#!/usr/bin/env python3
"""Write MANIFEST.json: every property with a scenario is claimed."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
conf = json.load(open(here + "/scen/conf.json"))
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
NOTE = ("Seeded search over schedules and faults of the real code under the simulator in /verif/sim: no violation in the runs explored; "
        "evidence, not proof. Trusts the simulator's model of threads, time, heap and sockets, sequentially consistent between scheduling points.")
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(f"{here}/scen/{i}.cpp") and i in conf["properties"]:
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i} quick", "thorough_cmd": f"python3 check.py {i} thorough",
                       "evidence_file": f"evidence/{i}.json",
                       "technique": "deterministic simulation with fault injection: seeded schedule and fault search over the real code, " + conf["properties"][i].get("oracle", "invariants and history oracle"),
                       "level": "exploration", "level_note": NOTE + (" " + conf["properties"][i]["note"] if "note" in conf["properties"][i] else "")})
    else:
        na.append({"property": i, "reason": "no check has been built for it yet"})
json.dump({"version": 1, "setup_cmd": "python3 check.py --build", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the simulator takes the place of libpthread, the clocks, the heap, the socket calls and the ThreadSanitizer runtime at link time."},
          open(here + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
