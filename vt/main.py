"""python3 main.py PID MIRFILE REPO OUT.json [TIER]: discharge the obligations of one property."""
import importlib
import json
import os
import sys
import time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import exe
import verify


def run(pid, mir, repo, tier='quick', only=None):
    t = time.time()
    prog = exe.Program(open(mir).read(), repo)
    v = verify.V(prog, 400 if tier == 'quick' else 600)
    v.only = only
    v.tier = tier
    mod = importlib.import_module('spec_' + pid.lower())
    mod.run(v)
    r = v.report()
    r['parse_s'] = round(v.t0 - t, 2)
    r['assumptions'] = list(getattr(mod, 'ASSUMPTIONS', [])) + r['assumptions']
    return r


if __name__ == '__main__':
    pid, mir, repo, out = sys.argv[1:5]
    tier = sys.argv[5] if len(sys.argv) > 5 else 'quick'
    r = run(pid, mir, repo, tier, os.environ.get('VT_ONLY'))
    json.dump(r, open(out, 'w'), indent=1)
    if os.environ.get('VT_SHOW'):
        for o in r['obligations']:
            print(o['status'], o['name'], o['s'], o['why'][:int(os.environ['VT_SHOW'])])
        n = len(r['obligations'])
        print(sum(o['status'] == 'discharged' for o in r['obligations']), '/', n, 'solver', r['solver_s'])
