#!/usr/bin/env python3
"""runseeds.py [id-prefix...] : run the check of each planted bug against a copy
of /repo with the bug applied (PYVC_REPO) and print whether it is caught."""
import sys, os, json, subprocess, tempfile, shutil
V = '/verif'
for sid in sorted(os.listdir(V + '/seeded')):
    if sys.argv[1:] and not any(sid.startswith(a) for a in sys.argv[1:]):
        continue
    m = json.load(open('%s/seeded/%s/meta.json' % (V, sid)))
    t = tempfile.mkdtemp(prefix='rs-', dir='/tmp')
    try:
        subprocess.run(['cp', '-a', '/repo', t + '/repo'], check=True)
        subprocess.run(['cp', '-a', V, t + '/verif'], check=True)
        subprocess.run(['git', '-C', t + '/repo', 'apply', '%s/seeded/%s/patch.diff' % (V, sid)], check=True)
        p = subprocess.run(['python3-vt', 'check.py', m['property']], cwd=t + '/verif', capture_output=True, text=True,
                           env=dict(os.environ, PYVC_REPO=t + '/repo', VERIF_SEED='1', VERIF_TIER='quick'))
        viol = [l for l in p.stdout.split('\n') if l.startswith('VIOLATION')]
        last = p.stdout.strip().split('\n')[-1][:150]
        print('%-40s %s rc=%d %s | %s' % (sid, 'CAUGHT' if p.returncode == 1 and viol else 'MISSED', p.returncode,
                                          'no-input' if viol and viol[0].endswith('found') else '', last), p.stderr[-300:] if p.returncode == 2 else '', flush=True)
    finally:
        shutil.rmtree(t)
