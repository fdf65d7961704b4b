#!/usr/bin/env python3
"""Writes sa/signatures.json: the signatures of private functions the contracts in sa/ are written for.

usage: gen_signatures.py DUMP   (a dump of the reference tree)"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from sa.prog import Program, norm_sig  # noqa: E402

P = Program(sys.argv[1])
out = {}
for k, rs in sorted(P.by_key.items()):
    r = rs[0]
    if not r["reachable"] and not k.startswith("<("):
        out[k] = norm_sig(r["sig"])
json.dump(out, open(os.path.join(HERE, "sa/signatures.json"), "w"), indent=0, sort_keys=True)
