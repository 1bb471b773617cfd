"""mk(id, property, [(file, old, new)...], demo_cpp, needs, breaks): writes seeded/<id>/ ; try_(id): apply, build, test, demo, check, undo"""
import os, sys, json, subprocess, difflib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R = '/repo'
SH = '''#!/bin/bash
# builds the demonstration against the headers in the current directory and runs it
D=$(cd "$(dirname "$0")"; pwd); R=$PWD; T=$(mktemp -d); trap 'find "$T" -delete' EXIT
g++ -std=c++11 -w -g -fsanitize=address,undefined -fno-sanitize=null,alignment,vptr -fno-sanitize-recover=undefined -I"$R" "$D/demo.cpp" -o "$T/demo" || exit 3
cd "$T"; ulimit -c 0; ASAN_OPTIONS=detect_leaks=0 timeout 60 ./demo
'''
def mk(id, prop, edits, demo, needs, breaks, sh=SH):
    d = os.path.join(V, 'seeded', id); os.makedirs(d, exist_ok=True); out = ''; byf = {}
    for f, a, b in edits:
        src = byf.get(f) or (subprocess.check_output(['git', '-C', R, 'show', 'HEAD:' + f], text=True),) * 2
        assert src[1].count(a) == 1, (id, f, a, src[1].count(a))
        byf[f] = (src[0], src[1].replace(a, b))
    for f, (o, n) in byf.items():
        import tempfile
        with tempfile.TemporaryDirectory() as t:
            for s, c in (('a', o), ('b', n)):
                p = os.path.join(t, s, f); os.makedirs(os.path.dirname(p)); open(p, 'w').write(c)
            out += subprocess.run(['git', 'diff', '--no-index', '--no-prefix', 'a/' + f, 'b/' + f], cwd=t, text=True, capture_output=True).stdout
    open(d + '/patch.diff', 'w').write(out)
    open(d + '/demo.sh', 'w').write(sh); os.chmod(d + '/demo.sh', 0o755)
    if demo: open(d + '/demo.cpp', 'w').write(demo)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
def sh(c, **k): return subprocess.run(c, shell=True, text=True, capture_output=True, **k)
def try_(id, checks=True):
    d = os.path.join(V, 'seeded', id); prop = json.load(open(d + '/meta.json'))['property']
    assert not sh('git -C /repo status --porcelain -uno').stdout.strip(), 'repo dirty'
    r0 = sh(d + '/demo.sh', cwd=R).returncode
    a = sh('git -C /repo apply ' + d + '/patch.diff')
    if a.returncode: print(id, 'APPLY FAILS', a.stderr); return
    try:
        sh('bash /opt/vp/test.sh /tmp/seed_t.json'); t = sh("cat /tmp/seed_t.json").stdout
        n = sh('grep -c ^PASS /repo/build/vp-report/results.lines').stdout.strip()
        r1 = sh(d + '/demo.sh', cwd=R).returncode
        m = json.load(open(V + '/MANIFEST.json')); c = [x for x in m['checks'] if x['property'] == prop]
        o = 'not claimed'
        if c and checks:
            q = sh(c[0]['quick_cmd'], cwd=V); o = 'CAUGHT' if q.returncode == 1 and 'VIOLATION property=' + prop in q.stdout else 'MISSED rc=%d' % q.returncode
            o += '\n     ' + q.stdout.strip().replace('\n', '\n     ')[-900:]
        print(id, prop, 'tests', n, 'demo', r0, r1, 'OK' if n == '20' and r0 == 0 and r1 else 'BAD-SEED', o, flush=True)
    finally:
        sh('git -C /repo checkout -- .')
if __name__ == '__main__':
    ids = sys.argv[1:] or sorted(os.listdir(V + '/seeded'))
    for i in ids: try_(i)
    sh('bash /opt/vp/build.sh')
