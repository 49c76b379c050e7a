"""Setup: verifies that what the checks need is present and that simulated runs are deterministic."""

import hashlib
import json
import os
import subprocess
import sys

from . import core, fsim, mods, runner


def digest(check, seed, idx):
    """Digest of everything observable of some runs, each executed in a fresh child."""
    h = hashlib.sha256()
    for i in idx:
        scn = runner.scenario(check, seed, i, 'quick')
        r = runner.in_child(lambda: runner.execute(check, scn, None, keep=True), 300)
        if r is None:
            raise core.HarnessError('%s run %d gave no answer' % (check.ID, i))
        h.update(json.dumps([r['outcome'], r['kind'], r['msg'], r['sched'], r['stats'], r['sigs'], r['log']],
                            sort_keys=True).encode())
    return h.hexdigest()


def child(ids, seed, n):
    from .registry import CHECKS
    mods.setup(need_swim=any(CHECKS[i].NEED_SWIM for i in ids))
    out = {}
    for i in ids:
        c = CHECKS[i]()
        c.prepare()
        out[i] = digest(c, seed, range(n))
    print('DIGESTS ' + json.dumps(out))
    return 0


def main():
    if '--child' in sys.argv:
        k = sys.argv.index('--child')
        return child(sys.argv[k + 1].split(','), int(sys.argv[k + 2]), int(sys.argv[k + 3]))
    from .registry import CHECKS
    n = int(os.environ.get('CRYSIM_SELFTEST', '4'))
    ids = sorted(CHECKS)
    ps = []
    for hs in ('0', '12345'):
        env = dict(os.environ, PYTHONHASHSEED=hs)
        ps.append(subprocess.Popen([sys.executable, os.path.join(runner.VERIF, 'check.py'), '--self-test', '--child',
                                    ','.join(ids), '7', str(n)], env=env, stdout=subprocess.PIPE))
    outs = []
    for p in ps:
        o, _ = p.communicate()
        d = [l for l in o.decode().splitlines() if l.startswith('DIGESTS ')]
        if p.returncode != 0 or not d:
            print(o.decode()[-2000:])
            print('ERROR: self-test run failed')
            return 2
        outs.append(json.loads(d[0][8:]))
    bad = [i for i in ids if outs[0][i] != outs[1][i]]
    if bad:
        print('WARNING: runs are not deterministic for %s' % bad)
        return 0 if os.environ.get('VERIF_TIER') else 2
    print('self-test: %d checks, %d runs each, identical event logs in two processes with different hash seeds'
          % (len(ids), n))
    return 0
