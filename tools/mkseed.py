#!/usr/bin/env python3
"""mkseed.py SPEC.py : build one planted bug under /verif/seeded/<id>/ and confirm it.

SPEC.py defines id, property, needs, breaks, edits=[(file, old, new)...] and demo
(Python source, run with cwd = the repository). Works on a scratch copy of /repo."""
import sys, os, subprocess, shutil, json, tempfile, re
BASE = '2208a4c'
ns = {}
exec(open(sys.argv[1]).read(), ns)
sid = ns['id']
dst = '/verif/seeded/' + sid
tmp = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
repo = tmp + '/repo'
PY = '/opt/venv/bin/python'
try:
    subprocess.run(['cp', '-a', '/repo', repo], check=True)
    orig_lines = {}
    for f, old, new in ns['edits']:
        p = repo + '/' + f
        s = open(p, newline='').read()
        if '\r\n' in s:
            old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
        assert s.count(old) == 1, '%s: %d occurrences of %r' % (f, s.count(old), old)
        open(p, 'w', newline='').write(s.replace(old, new))
    diff = subprocess.run(['git', '-C', repo, 'diff', '-U3'], check=True, capture_output=True).stdout
    # removed lines must come from the original repository
    cur = None
    removed = []
    for l in diff.decode('utf-8', 'replace').split('\n'):
        if l.startswith('--- a/'):
            cur = l[6:].strip()
        m = re.match(r'@@ -(\d+)', l)
        if m:
            n = int(m.group(1))
        elif l.startswith('-') and not l.startswith('---'):
            removed.append((cur, n)); n += 1
        elif l.startswith(' '):
            n += 1
    bad = 0
    for f, n in removed:
        b = subprocess.run(['git', '-C', '/repo', 'blame', '-s', '-L%d,%d' % (n, n), BASE + '..HEAD', '--', f], capture_output=True, text=True).stdout
        if not b.startswith('^'):
            bad += 1
    assert removed and bad < len(removed), 'no changed line is original (%d of %d are not)' % (bad, len(removed))
    os.makedirs(dst, exist_ok=True)
    open(dst + '/patch.diff', 'wb').write(diff)
    open(dst + '/demo.py', 'w').write('import os, sys\nsys.dont_write_bytecode = True\nsys.path.insert(0, os.getcwd())\nimport logging\nlogging.disable(logging.CRITICAL)\n' + ns['demo'])
    open(dst + '/demo.sh', 'w').write('#!/bin/bash\n# cwd: the repository; exit 0 when the property holds\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump(dict(property=ns['property'], needs=ns['needs'], what_it_breaks=ns['breaks']), open(dst + '/meta.json', 'w'), indent=1)
    ok = subprocess.run(['git', '-C', '/repo', 'apply', '--check', dst + '/patch.diff']).returncode == 0
    assert ok, 'patch does not apply'
    r0 = subprocess.run(['bash', dst + '/demo.sh'], cwd='/repo', capture_output=True, text=True)
    assert r0.returncode == 0, 'demo fails on the unchanged tree:\n' + r0.stdout + r0.stderr
    r1 = subprocess.run(['bash', dst + '/demo.sh'], cwd=repo, capture_output=True, text=True)
    assert r1.returncode != 0, 'demo passes with the patch'
    # stable tests on the patched copy
    env = dict(os.environ, PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    x = subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300', '--continue-on-collection-errors'], cwd=repo, env=env, capture_output=True, text=True)
    last = x.stdout.strip().split('\n')[-1]
    y = subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300', '--continue-on-collection-errors'], cwd='/repo', env=dict(env, PYTHONPATH='/repo'), capture_output=True, text=True)
    cnt = lambda t: re.sub(r' in [\d.]+s.*', '', t)
    assert cnt(last) == cnt(y.stdout.strip().split('\n')[-1]), 'tests: %s' % last
    print(sid, 'kept; demo says:', (r1.stdout + r1.stderr).strip().split('\n')[-1][:150], '| tests', last)
except AssertionError as e:
    print(sid, 'REJECTED:', e)
    if os.path.isdir(dst) and not os.path.exists(dst + '/.keep'):
        shutil.rmtree(dst)
    sys.exit(1)
finally:
    shutil.rmtree(tmp)
