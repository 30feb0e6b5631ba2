#!/usr/bin/env python3
"""evidence for a generated program that does not compile"""
import json, sys
pid, tier, seed = sys.argv[1:4]
json.dump({"property": pid, "tier": tier, "seed": int(seed), "level": "exploration", "wall_s": 0.0,
           "coverage": {"evaluations": 1, "generated_cases": 1, "nontrivial_cases": 1, "distinct_nontrivial": 1, "rule": "the generated program does not compile; see the replay file", "samples": ["program of seed " + seed]},
           "violations": 1}, open(f"evidence/{pid}.json", "w"))
