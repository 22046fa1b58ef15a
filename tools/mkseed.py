#!/usr/bin/env python3
"""mkseed.py ID PROP FILE 'needs' 'what' <<< demo.cpp ; the edited tree is a worktree in /tmp/seedwt.
usage: mkseed.py spec.py   where spec.py defines ID, PROP, EDITS=[(file, old, new)], NEEDS, BREAKS, SRCS, DEMO
Applies the edits in a scratch copy, builds, runs tests, runs the demo on both trees, and keeps the seed if all is confirmed."""
import json, os, re, shutil, subprocess, sys
spec = {}
exec(open(sys.argv[1]).read(), spec)
ID = spec['ID']
W = '/tmp/seedwt'
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
shutil.rmtree(W, ignore_errors=True)
sh(f'git -C /repo worktree prune; mkdir -p {W}; git -C /repo archive HEAD | tar x -C {W}')
sh(f'cd {W} && git init -q && git add -A && git -c user.name=a -c user.email=a@b commit -qm base')
for f, old, new in spec['EDITS']:
    p = f'{W}/{f}'
    s = open(p).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    open(p, 'w').write(s.replace(old, new))
diff = sh(f'git -C {W} diff').stdout
out = f'/verif/seeded/{ID}'
os.makedirs(out, exist_ok=True)
open(f'{out}/patch.diff', 'w').write(diff)
open(f'{out}/demo.cpp', 'w').write(spec['DEMO'])
srcs = ' '.join(spec.get('SRCS', []))
open(f'{out}/demo.sh', 'w').write(f'''#!/bin/bash
# builds the demonstration against the sources in the current directory (/repo) and runs it
H="$(cd "$(dirname "$0")" && pwd)"
D=$(mktemp -d) || exit 2
trap 'rm -rf "$D"' EXIT
g++ -std=c++17 -O0 -DEDYN_DEBUG {spec.get('FLAGS', '')} -Iinclude -I_build/include "$H/demo.cpp" {srcs} -o "$D/demo" -lpthread || exit 2
"$D/demo"
''')
os.chmod(f'{out}/demo.sh', 0o755)
json.dump({'property': spec['PROP'], 'needs': spec['NEEDS'], 'what_it_breaks': spec['BREAKS']}, open(f'{out}/meta.json', 'w'), indent=1)
# confirm: tests pass with patch (swap into /repo), demo distinguishes
def build_test():
    b = sh('bash /opt/vp/build.sh')
    t = sh('bash /opt/vp/test.sh /tmp/o.json')
    r = json.load(open('/tmp/o.json'))
    base = json.load(open('/opt/vp/BASELINE.json'))
    return b.returncode, r
st = sh('git -C /repo status --porcelain --untracked-files=no').stdout
assert not st.strip(), st
ok = True
d0 = sh(f'cd /repo && bash {out}/demo.sh')
print('demo on clean:', d0.returncode, d0.stdout[-300:])
try:
    a = sh(f'git -C /repo apply {out}/patch.diff'); assert a.returncode == 0, a.stdout
    rc, r = build_test()
    failed = r.get('failed') or []
    print('build', rc, 'passed', len(r.get('passed', [])), 'failed', failed)
    d1 = sh(f'cd /repo && bash {out}/demo.sh')
    print('demo on patched:', d1.returncode, d1.stdout[-300:])
    ok = rc == 0 and not failed and len(r['passed']) >= 26 and d0.returncode == 0 and d1.returncode not in (0, 2)
    if '--nocheck' not in sys.argv:
        c = sh(f"cd /verif && python3-vt -m vcg.check {spec['PROP']}")
        print('check:', c.returncode, '\n'.join(x[:250] for x in c.stdout.splitlines() if 'VIOL' in x or 'failing' in x or 'ERROR' in x or 'not disch' in x or 'BOUNDED' in x or x.startswith('property=')))
finally:
    sh('git -C /repo checkout -- .')
    sh('bash /opt/vp/build.sh')
shutil.rmtree(W, ignore_errors=True)
print(ID, 'CONFIRMED' if ok else 'REJECTED')
if not ok:
    shutil.rmtree(out)
