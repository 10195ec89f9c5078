#!/usr/bin/env python3
"""Checks the checker: explores every scenario of the given properties at a small bound with and without the pruning of
equivalent prefixes and compares the outcomes.  usage: nocache.py BOUND SECONDS PROP..."""
import re, subprocess, sys
bound, secs, props = sys.argv[1], sys.argv[2], sys.argv[3:]
V = "/verif/build/"
def run(p, extra):
    r = subprocess.run([V + p, "--bound", bound, "--time", secs] + extra, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    d = {}
    for l in r.stdout.splitlines():
        m = re.match(r"(\w+)\s+(\w+)\s+bound (-?\d+)/(\d+) execs (\d+) pruned (\d+) states (\d+) outcomes (\d+)", l)
        if m:
            d[m[1]] = (m[2], int(m[3]), int(m[5]), int(m[8]))
    return d
bad = 0
for p in props:
    a, b = run(p, []), run(p, ["--nocache"])
    for s in a:
        if s not in b or b[s][1] != int(bound):
            print(p, s, "not completed without pruning", b.get(s)); continue
        if a[s][0] != b[s][0] or a[s][3] != b[s][3]:
            print("DIFFERENT", p, s, a[s], b[s]); bad = 1
    print(p, len(a), "scenarios", sum(x[2] for x in a.values()), "with,", sum(x[2] for x in b.values()), "executions without pruning")
sys.exit(bad)
