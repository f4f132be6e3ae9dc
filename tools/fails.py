#!/usr/bin/env python3
"""Prints the first lines of the recorded violations of a property."""
import json,glob,sys,os
n=int(sys.argv[2]) if len(sys.argv)>2 else 300
for f in sorted(glob.glob(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'replays/%s-*.json'%sys.argv[1]))):
    v=json.load(open(f)); print(v['unit'], v['case'], v['desc'][:300]); print('   ', v['msg'][:n], '...', v['msg'][-100:]); print()
