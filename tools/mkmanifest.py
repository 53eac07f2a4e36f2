#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
import sys
sys.path.insert(0, os.path.join(V, "bin"))
claimed = {}
import eng_link
for p in eng_link.PROPS:
    claimed[p] = ("TLA+: trace validation of the real library against Link.tla, model checking of LinkImpl.tla",
                  "Every recorded execution of the real code (model-generated and generated scenarios, virtual time, "
                  "perturbed schedules) is a behaviour of the specification; TLC checks the design exhaustively within small "
                  "bounds. Trusts the simulated connection, TLC, Go's faketime runtime.")
try:
    import eng_server
    for p in eng_server.PROPS:
        claimed[p] = ("TLA+: trace validation of the real server package against Server.tla, model checking of ServerImpl.tla",
                      "Every recorded execution of the real server over a simulated unit is a behaviour of the specification; "
                      "TLC checks the design exhaustively within small bounds. Trusts the simulated unit, TLC, Go's faketime runtime.")
except ImportError:
    pass
RT = "Every recorded run is a behaviour of the specification; TLC checks the design exhaustively within small bounds. "
import eng_http, eng_boot, eng_py
claimed["C23"] = ("TLA+: trace validation of the running program against Http.tla and Proto.tla, model checking of HttpImpl.tla",
                  RT + "Trusts the simulated unit on loopback TCP and TLC; real time.")
claimed["C24"] = ("TLA+: trace validation of the program's start against Boot.tla, model checking of BootImpl.tla",
                  RT + "Trusts the simulated units (TCP, pseudo terminals) and TLC; the default device and address need user namespaces.")
claimed["C25"] = ("TLA+: trace validation of the Python client against PyClient.tla and Proto.tla, model checking of PyImpl.tla",
                  RT + "google.protobuf and twirp are not installed: trusts the imitations in harness/py, and TLC.")
m = {"version": 1, "setup_cmd": "bash bin/setup.sh", "checks": [], "not_applicable": [],
     "notes": "All checks are bin/check.py PROPERTY; VERIF_TIER and VERIF_SEED select depth and randomness. See DESIGN.md."}
for p in props:
    i = p["id"]
    if i in claimed:
        m["checks"].append({"property": i, "quick_cmd": "python3 bin/check.py " + i,
                            "thorough_cmd": "python3 bin/check.py " + i + " thorough", "technique": claimed[i][0],
                            "level": "model_checking", "level_note": claimed[i][1]})
    else:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
