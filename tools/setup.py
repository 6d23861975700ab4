#!/usr/bin/env python3
"""Sanity of the sandbox: the tools are there and every specification parses."""
import glob, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for tool in (["cargo", "--version"], ["java", "-version"]):
    subprocess.run(tool, check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
mods = sorted(glob.glob(os.path.join(V, "spec", "*.tla")))
p = subprocess.run(["tla-sany"] + mods, cwd=os.path.join(V, "spec"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
bad = p.returncode != 0 or "*** Errors" in p.stdout or "Fatal" in p.stdout
print("%d specification modules parse" % len(mods) if not bad else p.stdout[-3000:])
sys.exit(1 if bad else 0)
