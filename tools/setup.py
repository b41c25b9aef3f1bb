#!/usr/bin/env python3
"""setup_cmd: verifies the toolchain and warms the build (the checks rebuild whatever they need themselves)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B, registry
need = {}
for p in registry.PROPS.values():
    for t in p["tests"] + p["probes"]:
        n = need.setdefault(t["flavour"], (set(), set())); n[0].update(t["targets"])
        if t["kind"] == "cpp": n[1].add(t["harness"])
for fl, (tg, hs) in need.items(): print(B.build(fl, sorted(tg), sorted(hs)))
