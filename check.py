#!/usr/bin/env python3
"""Run the check of one property: `python3 check.py PID [quick|thorough]`.

1. emits MIR from /repo's current source and discharges the property's obligations
   (vt/ -- contracts over the real functions, z3 as the back end);
2. replays the same property against the real code with the harness (/verif/harness):
   a failing input is the replay of a violation; for functions out of the verifier's
   reach it is the bounded stand-in.
Exit 0, or exit 1 with a VIOLATION line.  See DESIGN.md."""
import fcntl
import hashlib
import json
import resource
import os
import re
import struct
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('OSMIO_REPO', '/repo')
BUILD = os.environ.get('OSMIO_VERIF_BUILD', os.path.join(HERE, '.build'))
PY = '/opt/veriftools/pyvenv/bin/python3'
FLAGS = '--cfg osmio_verif'


def log(*a):
    print(*a, flush=True)


def env(target):
    e = dict(os.environ)
    e['RUSTFLAGS'] = FLAGS
    e['CARGO_TARGET_DIR'] = target
    e['CARGO_NET_OFFLINE'] = 'true'
    for k in ('RUSTC_WRAPPER', 'CARGO_ENCODED_RUSTFLAGS'):
        e.pop(k, None)
    return e


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + '.lock'), 'w')

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def build_harness():
    """-> path of a private copy of vh built from the current tree, or None with the compiler's message"""
    tgt = os.path.join(BUILD, 'harness')
    with Lock('harness'):
        r = subprocess.run(['cargo', '+stable', 'build', '--offline'], cwd=os.path.join(HERE, 'harness'), env=env(tgt),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            return None, r.stdout[-3000:]
        d = tempfile.mkdtemp(prefix='vh-', dir=BUILD)
        dst = os.path.join(d, 'vh')
        subprocess.run(['cp', os.path.join(tgt, 'debug', 'vh'), dst], check=True)
    return dst, ''


def emit_mir():
    """-> text of the MIR of /repo's crate, or None with the compiler's message"""
    tgt = os.path.join(BUILD, 'mir')
    with Lock('mir'):
        deps = os.path.join(tgt, 'debug', 'deps')
        old = set(f for f in os.listdir(deps) if f.endswith('.mir')) if os.path.isdir(deps) else set()
        for f in old:
            os.remove(os.path.join(deps, f))
        cmd = ['cargo', '+stable', 'rustc', '--lib', '--offline', '--', '--emit=mir', '-Cdebug-assertions=off', '-Coverflow-checks=on']
        for attempt in (0, 1):
            r = subprocess.run(cmd, cwd=REPO, env=env(tgt), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                return None, r.stdout[-3000:]
            ms = [f for f in os.listdir(deps) if f.endswith('.mir') and f.startswith('osmio')]
            if ms:
                return open(os.path.join(deps, ms[0])).read(), ''
            # cargo thought it was fresh: force the crate itself to be rebuilt
            fp = os.path.join(tgt, 'debug', '.fingerprint')
            for f in os.listdir(fp):
                if f.startswith('osmio-'):
                    subprocess.run(['rm', '-r', os.path.join(fp, f)])
        return None, 'no MIR emitted'


def run_search(vh, pid, seed, cases, secs):
    """-> (list of failures, cases done)"""
    d = os.path.dirname(vh)
    st = os.path.join(d, 'status')
    e = dict(os.environ)
    e['VH_STATUS'] = st
    e['VH_SCRATCH'] = d
    # runaway allocation ends the process (reported as -abort), not the sandbox
    lim = lambda: resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    p = subprocess.run([vh, 'search', pid, str(seed), str(cases), str(secs)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                       env=e, timeout=secs + 60, preexec_fn=lim)
    out = p.stdout.decode('utf8', 'replace')
    fails = []
    done = 0
    for l in out.split('\n'):
        m = re.match(r'FAIL property=(\S+) seed=(\d+) case=(\d+) sig=(\S+) detail=(.*)$', l)
        if m:
            fails.append({'property': m.group(1), 'seed': int(m.group(2)), 'case': int(m.group(3)), 'sig': m.group(4), 'detail': m.group(5)[:4000]})
        m = re.match(r'DONE .* cases=(\d+)', l)
        if m:
            done = int(m.group(1))
    if p.returncode not in (0, 1):
        # the process died: attribute to the current case
        try:
            c = struct.unpack('<Q', open(st, 'rb').read(8))[0]
        except Exception:
            c = 0
        fails.append({'property': pid, 'seed': seed, 'case': c, 'sig': pid + '-abort', 'detail': f'process ended with {p.returncode}'})
    return fails, done


def known():
    fs = {}
    p = os.path.join(HERE, 'known_findings.txt')
    for l in open(p):
        m = re.match(r'known: property=(\S+) sig=(\S+) (.*)$', l.strip())
        if m:
            fs[(m.group(1), m.group(2))] = m.group(3)
    return fs


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    cfg = json.load(open(os.path.join(HERE, 'vt', 'checks.json')))[pid]
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    rdir = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)

    # ---- deductive part
    proof = {'obligations': [], 'functions': [], 'trusted': [], 'assumptions': [], 'solver_s': 0.0, 'note': '', 'emit_s': 0.0}
    if cfg.get('spec'):
        t1 = time.time()
        mir, err = emit_mir()
        proof['emit_s'] = round(time.time() - t1, 2)
        if mir is None:
            proof['note'] = 'MIR could not be emitted: ' + err[-500:]
        else:
            with tempfile.TemporaryDirectory(dir=BUILD) as td:
                mp = os.path.join(td, 'm.mir')
                open(mp, 'w').write(mir)
                op = os.path.join(td, 'out.json')
                lim = 470 if tier == 'quick' else 660
                try:
                    r = subprocess.run([PY, os.path.join(HERE, 'vt', 'main.py'), pid, mp, REPO, op, tier], stdout=subprocess.PIPE,
                                       stderr=subprocess.STDOUT, text=True, timeout=lim)
                    if os.path.exists(op):
                        proof.update(json.load(open(op)))
                    else:
                        proof['note'] = 'verifier stopped: ' + r.stdout[-800:]
                except subprocess.TimeoutExpired:
                    proof['note'] = 'verifier ran out of time'
    obs = proof['obligations']
    disch = [o for o in obs if o['status'] == 'discharged']
    refuted = [o for o in obs if o['status'] in ('refuted', 'failed')]     # with / without a counter-model
    undec = [o for o in obs if o['status'] not in ('discharged', 'refuted', 'failed')]
    full = bool(obs) and len(disch) == len(obs) and not proof['note']

    # ---- replay / bounded stand-in
    vh, err = build_harness()
    fails = []
    done = 0
    hnote = ''
    if vh is None:
        hnote = 'harness did not build: ' + err[-500:]
    else:
        cases, secs = cfg['cases'][tier]
        if not full:
            secs *= 3
            cases *= 6
        try:
            fails, done = run_search(vh, pid, seed, cases, secs)
            kn = known()
            if tier == 'thorough' or ((refuted or undec) and not [f for f in fails if (f['property'], f['sig']) not in kn]):
                f2, d2 = run_search(vh, pid, seed + 1000003, cases * 2, secs)
                fails += [f for f in f2 if f['sig'] not in {g['sig'] for g in fails}]
                done += d2
        except subprocess.TimeoutExpired:
            hnote = 'replay harness ran out of time'
        subprocess.run(['rm', '-r', os.path.dirname(vh)])

    kn = known()
    newf = [f for f in fails if (f['property'], f['sig']) not in kn]
    for f in fails:
        if (f['property'], f['sig']) in kn:
            log(f"KNOWN-FINDING: property={pid} {f['sig']}: {kn[(f['property'], f['sig'])]}")

    viol = bool(newf) or bool(refuted)
    rp = os.path.join(rdir, f'{pid}.json')
    if viol:
        json.dump({'property': pid, 'failing_inputs': newf,
                   'replay_cmd': [f"{BUILD}/harness/debug/vh replay {pid} {f['seed']} {f['case']}" for f in newf],
                   'failed_obligations': refuted, 'undecided_obligations': undec, 'note': proof['note']},
                  open(rp, 'w'), indent=1)

    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': cfg['level'], 'wall_s': 0.0, 'violations': len(newf) + len(refuted),
          'assumptions': proof['assumptions'] + cfg.get('assumptions', []), 'coverage': {}}
    cov = ev['coverage']
    rule = ('pseudo-random structured inputs (boundary-biased) derived from the seed, executed on the real code and compared with an independent '
            'oracle; every case is distinct by construction of its random stream; a case is non-trivial when it builds and checks at least one object/value')
    if cfg['level'] == 'proof':
        cov.update({'obligations': len(obs), 'discharged': len(disch),
                    'checker_cmd': f'python3 check.py {pid} {tier}   (rustc --emit=mir on /repo; vt/ generates the obligations; z3 and the term normaliser discharge them)',
                    'trusted_base': proof['trusted']})
    else:
        cov['explanation'] = cfg.get('explanation', 'contracts discharged where listed; remaining functions checked bounded by the replay harness')
        cov.update({'obligations': len(obs), 'discharged': len(disch), 'trusted_base': proof['trusted']})
    cov.update({'undecided': [o['name'] + ': ' + o.get('why', '')[:300] for o in undec],
                'failed': [o['status'] + ' ' + o['name'] + ': ' + o.get('why', '')[:300] for o in refuted],
                'obligation_list': [{k: o[k] for k in ('name', 'status', 'backend', 's') if k in o} for o in obs],
                'functions_under_contract': proof['functions'], 'solver_s': proof['solver_s'], 'mir_emit_s': proof['emit_s'], 'note': proof['note'] or hnote,
                'bounded_replay': {'label': 'bounded (never counted as proved)', 'evaluations': done, 'distinct_nontrivial': done, 'rule': rule,
                                   'failing_signatures': [f['sig'] for f in fails], 'samples': [f'{pid} seed={seed} case={i}' for i in range(min(3, done))]}})
    if cfg['level'] == 'exploration':
        cov.update({'evaluations': done, 'distinct_nontrivial': done, 'rule': rule, 'samples': [f'{pid} seed={seed} case={i}' for i in range(min(3, done))]})
    ev['wall_s'] = round(time.time() - t0, 2)
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)

    log(f"{pid} {tier}: obligations {len(disch)}/{len(obs)} discharged, {len(refuted)} failed, {len(undec)} undecided; replay cases {done}, "
        f"failures {len(newf)} new / {len(fails)} all; {ev['wall_s']} s {proof['note'] or hnote}"[:1500])
    for o in undec:
        log(f"  undecided (bounded stand-in applies): {o['name']}: {o.get('why', '')[:200]}")
    if viol:
        for f in newf[:5]:
            log(f"  failing input: sig={f['sig']} seed={f['seed']} case={f['case']} {f['detail'][:600]}")
        for o in refuted[:5]:
            log(f"  failed obligation: {o['name']}: {o.get('why', '')[:600]}")
        log(f'VIOLATION property={pid} replay={rp}' + ('' if newf else ' no-failing-input-found'))
        sys.exit(1)
    sys.exit(0)


if __name__ == '__main__':
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(3)
