#!/usr/bin/env python3
"""mkseed.py ID PROPERTY PKG < spec: plants a bug and confirms it.

spec: 'needs: ...', 'breaks: ...', 'flags: ...' lines, then blocks
@@ FILE / old / ==== / new, and finally '@@test' and the Go test."""
import sys, os, re, json, subprocess, shutil
here = os.path.dirname(os.path.abspath(__file__))
sid, prop, pkg = sys.argv[1:4]
head, *blocks = re.split(r'^@@', sys.stdin.read(), flags=re.M)
meta = dict(re.findall(r'^(needs|breaks|flags): (.*)$', head, re.M))
d = '/tmp/seed/%s' % sid
shutil.rmtree(d, ignore_errors=True)
subprocess.run(['git', '-C', '/repo', 'worktree', 'prune'], check=True)
subprocess.run(['cp', '-a', '/repo', d], check=True)
test = None
for b in blocks:
    if b.startswith('test'):
        test = b.split('\n', 1)[1]
        continue
    f, rest = b.split('\n', 1)
    f = f.strip()
    old, new = rest.split('\n====\n') if '\n====\n' in rest else rest.split('\n====', 1)
    old, new = old.rstrip('\n'), new.rstrip('\n')
    s = open(d + '/' + f).read()
    if s.count(old) != 1:
        sys.exit('%d occurrences in %s of:\n%s' % (s.count(old), f, old))
    open(d + '/' + f, 'w').write(s.replace(old, new))
subprocess.run(['gofmt', '-l', d + '/apt', d + '/cacher', d + '/mirror', d + '/cmd'])
out = '/verif/seeded/' + sid
os.makedirs(out, exist_ok=True)
patch = subprocess.run(['git', '-C', d, 'diff'], capture_output=True, text=True).stdout
open(out + '/patch.diff', 'w').write(patch)
open(out + '/demo_seed_test.go', 'w').write(test)
demo = open(here + '/demo.sh.in').read().replace('@PKG@', pkg).replace('@FLAGS@ ', (meta.get('flags', '') + ' ').lstrip())
open(out + '/demo.sh', 'w').write(demo)
os.chmod(out + '/demo.sh', 0o755)
json.dump({'property': prop, 'needs': meta['needs'], 'what_it_breaks': meta['breaks']}, open(out + '/meta.json', 'w'), indent=1)
ok = True
r = subprocess.run(['bash', out + '/demo.sh'], cwd='/repo', capture_output=True, text=True)
if r.returncode != 0:
    ok = False
    print('DEMO FAILS ON CLEAN TREE\n', r.stdout[-3000:], r.stderr[-2000:])
r = subprocess.run(['bash', out + '/demo.sh'], cwd=d, capture_output=True, text=True)
if r.returncode == 0:
    ok = False
    print('DEMO PASSES WITH THE BUG')
print('demo with bug: rc', r.returncode, (r.stdout + r.stderr)[:600])
env = dict(os.environ, HOME='/root', GOTOOLCHAIN='local', GOPROXY='off', GOSUMDB='off',
           GOFLAGS='-mod=mod -modfile=/tmp/seed/x.mod', PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'])
shutil.copy('/repo/go.mod', '/tmp/seed/x.mod'); open('/tmp/seed/x.sum', 'a').close()
r = subprocess.run(['go', 'test', '-race', '-json', '-vet=off', '-count=1', './...'], cwd=d, env=env, capture_output=True, text=True)
passed = set()
for l in r.stdout.splitlines():
    try:
        e = json.loads(l)
    except ValueError:
        continue
    if e.get('Action') == 'pass' and e.get('Test'):
        passed.add(e['Package'] + '/' + e['Test'])
miss = [t for t in json.load(open('/opt/vp/BASELINE.json'))['stable'] if t not in passed]
if miss:
    ok = False
    print('STABLE TESTS FAIL', miss[:5], r.stderr[-500:])
props = sys.argv[4:] or [prop]
for pr in props:
    r = subprocess.run(['/verif/bin/aptverif', '-property', pr, '-repo', d, '-out', '/tmp/seed/ev'], capture_output=True, text=True)
    o = r.stdout + r.stderr
    print('CHECK', pr, 'exit', r.returncode, o[:700])
shutil.rmtree(d)
print('OK' if ok else 'NOT OK', sid)
if not ok:
    os.rename(out, '/tmp/seed/bad-' + sid) if not os.path.exists('/tmp/seed/bad-' + sid) else shutil.rmtree(out)
