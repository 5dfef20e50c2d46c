#!/usr/bin/env python3
"""hrun.py PROP [mode] [seed] [tier]: run the harness of one property alone and print what it found."""
import sys, os, json
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check
p = sys.argv[1]; mode = sys.argv[2] if len(sys.argv) > 2 else 'bounded'; seed = int(sys.argv[3]) if len(sys.argv) > 3 else 1
tier = sys.argv[4] if len(sys.argv) > 4 else 'quick'
conf = json.load(open(os.path.join(check.V, 'props.json')))[p]
found, stats, text = check.run_harness(p, conf, mode, seed, tier)
if not found and (not stats or 'harness_error' in stats): print(text[-6000:])
for x in found: print('FOUND', x[:600])
print(stats)
