#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md from seeded/*/meta.json (a development tool)."""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
print("| bug | needs |\n|---|---|")
for f in sorted(glob.glob(HERE + "/seeded/*/meta.json")):
    print(f"| {f.split('/')[-2]} | {json.load(open(f))['needs']} |")
