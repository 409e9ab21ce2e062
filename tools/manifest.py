#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {"C19": "Quint specification of the price aggregator; its random behaviours replayed on the contract",
     "C28": "Quint specification of the fixed-point and rate functions; generated calls replayed on the code"}
NOTE = ("Behaviours of the explicit Quint specification, generated by weighted random simulation with boundary-seeking operations and checked "
        "against the property as a step invariant of the specification, are replayed transaction by transaction on the contracts compiled from /repo "
        "in the MultiversX debug VM; every result, every storage value, every balance and every view is compared. Sampled, not exhaustive. "
        "Trusted: the debug VM, and the mocks standing for external protocols (DEX pairs, liquid-staking contracts, router).")
checks = []
for l in open(os.path.join(R, "properties.jsonl")):
    i = json.loads(l)["id"]
    checks.append(dict(property=i, quick_cmd=f"python3 check.py {i} quick", thorough_cmd=f"python3 check.py {i} thorough",
                       technique=T.get(i, "Quint specification; its random behaviours replayed on the contracts, all state compared"),
                       level="model_checking", level_note=NOTE))
json.dump(dict(version=1, setup_cmd="python3 check.py --prepare",
               checks=checks, not_applicable=[]), open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
