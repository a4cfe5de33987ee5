#!/usr/bin/env python3
"""Checks that the toolchain is there and every specification parses."""
import os, subprocess, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib
bad = 0
mods = sorted(f for f in os.listdir(lib.SPECS) if f.endswith(".tla"))
p = subprocess.run(["java", "-cp", lib.JAR + ":" + lib.CM, "tla2sany.SANY"] + mods, cwd=lib.SPECS, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
if p.returncode != 0 or "*** Errors" in p.stdout or "Fatal" in p.stdout:
    print(p.stdout[-3000:])
    bad = 1
for tool in (["cargo", "--version"], ["java", "-version"]):
    bad |= subprocess.run(tool, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode != 0
print("setup", "failed" if bad else f"ok: {len(mods)} specifications parse")
sys.exit(1 if bad else 0)
