#!/usr/bin/env python3
"""mkseed.py ID: take the change in the scratch worktree /tmp/seedwt (against /repo HEAD) and the demo in
/tmp/seed-ID/demo_test.go + meta.json, check that it builds, passes the tests, and that the demo separates, and
store it as /verif/seeded/ID."""
import json, os, shutil, subprocess, sys
sid = sys.argv[1]
WT = '/tmp/seedwt'
src = '/tmp/seed-' + sid
dst = '/verif/seeded/' + sid
env = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', CGO_ENABLED='1')
def run(cmd, cwd=WT, **k):
    return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, shell=isinstance(cmd, str), **k)
diff = run('git diff').stdout
assert diff.strip(), 'no change'
os.makedirs(dst, exist_ok=True)
open(dst + '/patch.diff', 'w').write(diff)
for f in ('demo.sh', 'lib_test.go'):
    if not os.path.exists(src + '/' + f):
        shutil.copy('/verif/tools/demo/' + f, dst)
for f in os.listdir(src):
    shutil.copy(src + '/' + f, dst)
os.chmod(dst + '/demo.sh', 0o755)
for tags in ('', '-tags "pam moderncsqlite"', '-tags nosqlite', '-tags verif'):
    b = run('go build %s ./...' % tags)
    assert b.returncode == 0, b.stderr
t = run('go test -vet=off -count=1 -cpu 1 ./...')
assert t.returncode == 0, t.stdout + t.stderr
bad = run(['bash', dst + '/demo.sh'])
assert bad.returncode != 0, 'the demo passes with the change'
good = run(['bash', dst + '/demo.sh'], cwd='/repo')
assert good.returncode == 0, 'the demo fails without the change:\n' + good.stdout + good.stderr
print('\n'.join([l for l in bad.stdout.splitlines() if 'demo' in l][:4]))
print('ok', sid)
