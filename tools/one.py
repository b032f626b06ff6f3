#!/usr/bin/env python3
"""one.py h_file entry params(csv) text [text...]: explores one job, prints its stat and violations (development aid)"""
import sys, os, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vx, props
from collections import Counter
b = vx.Build()
try:
    b.prepare(); lint = 'lint' in os.environ.get('VX_OPT', ''); b.bitcode(sys.argv[1].split(','), lint=lint)
    j = props.J('one', sys.argv[2], [int(x) for x in sys.argv[3].split(',') if x], *sys.argv[4:], maxsteps=60000000, samples=3)
    rc, out, recs, cov, blocks = vx.symx(b, [j], float(os.environ.get('VX_TL', '60')))
    print(rc, out[-500:])
    for r in recs:
        if r['t'] == 'sample': print('sample', repr(r['rec'][:300]))
        else: print({k: (v[:400] if isinstance(v, str) else v) for k, v in r.items()})
finally: b.close()
