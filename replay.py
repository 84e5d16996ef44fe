#!/usr/bin/env python3
"""replay.py [--no-build] [--verbose] FILE: repeats a violation from its replay file.
exit 1: reproduced exactly, 4: another violation, 0: no violation, 3: error"""
import os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build as B
args = sys.argv[1:]
nb = "--no-build" in args; vb = "--verbose" in args
path = os.path.abspath([x for x in args if not x.startswith("--")][0])
h = {}
for l in open(path):
    if l.startswith("work"):
        break
    k, _, v = l.strip().partition(" ")
    h[k] = v
if not nb and B.build([h["variant"]]):
    sys.exit(3)
cmd = [B.OUT + "/simrun", "--mode", "replay", "--so", "%s/k52%s.so" % (B.OUT, h["variant"]), "--scenario", h["scenario"],
       "--prop", h["property"], "--replay", path]
if int(h["ranks"]):
    cmd += ["--ranks", h["ranks"]]
if vb:
    cmd.append("--verbose")
sys.exit(subprocess.run(cmd, env=dict(os.environ, LC_ALL="C", TZ="UTC", MALLOC_ARENA_MAX="1")).returncode)
