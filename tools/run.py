#!/usr/bin/env python3
"""debug helper: run steps (json list on stdin) on h_lib and print the answers"""
import sys, json
sys.path.insert(0, "/verif")
from vf.core import run_harness
for a in run_harness("h_lib", [{"steps": json.load(sys.stdin)}])[0]["out"]:
    print(json.dumps(a)[:3000])
