#!/usr/bin/env python3
"""Writes MANIFEST.json (run by hand when the set of claimed properties changes)."""
import json
LEVEL = "exploration"
T = "deterministic simulation with fault injection: seeded search over schedules, network behaviour and faults"
BROKER = ("Seeded search: no run that was explored breaks the property; nothing is claimed about runs that were not. "
          "The broker, packet stream and codec are the real code, compiled against a simulated tokio (executor, timers, TCP); "
          "trusted: that simulation, the scripted peers and the history checks.")
STREAM = ("Seeded search over byte sequences, chunkings, delays and cancellation points on the real PacketStream and codec; "
          "trusted: the simulated TCP stream and the independent reference encoder.")
CLIENT = ("Seeded search: the real client (vaux-client, packet stream, codec) against a scripted server, compiled against a simulated "
          "tokio and async-std; trusted: that simulation, the scripted server and the history checks.")
E2E = ("Seeded search with the real client and the real broker in one simulation; trusted: the simulated tokio and the history checks.")
claimed = {}
for k in range(1, 20):
    claimed[f"B{k:02}"] = BROKER
claimed["B17"] = STREAM
for k in range(1, 12):
    claimed[f"C{k:02}"] = CLIENT
claimed["E01"] = E2E
import sys
only = open("claimed.txt").read().split()
na = [
    {"property": "X01", "reason": "pure function of its input: no schedule, clock, fault or interleaving is involved"},
    {"property": "X02", "reason": "pure function of its input (the concurrent use of the matcher is covered by B01)"},
]
checks = []
for p, note in sorted(claimed.items()):
    if p not in only:
        na.append({"property": p, "reason": "no check built yet"})
        continue
    checks.append({
        "property": p,
        "quick_cmd": f"./check.sh {p}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {p}",
        "technique": T,
        "level": LEVEL,
        "level_note": note,
    })
json.dump({
    "version": 1,
    "setup_cmd": "./build.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: the code is compiled unchanged against a tokio and an async-std that are simulated (/verif/sim). "
             "Replay: ./target/debug/vsim replay FILE.",
}, open("MANIFEST.json", "w"), indent=1)
