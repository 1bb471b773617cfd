"""Shared by every check: compilation of driver units, evidence, verdict lines, known findings."""
import json, os, subprocess, sys, tempfile, time, shutil, atexit, re
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('DS_REPO', '/repo')
CLANG = next((p for p in ('/usr/bin/clang++-18', '/usr/bin/clang++') if os.path.exists(p)), 'clang++')
OPT = next((p for p in ('/usr/bin/opt-18', '/usr/bin/opt') if os.path.exists(p)), 'opt')
BASE = ['-std=c++11', '-fno-exceptions', '-fno-rtti', '-fno-threadsafe-statics', '-gline-tables-only', '-w', '-I' + REPO]
T0 = time.time()
class Broken(Exception): pass
_tmp = None
def tmp():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix='dsv.'); atexit.register(lambda: shutil.rmtree(_tmp, ignore_errors=True))
    return _tmp
def run(cmd, **k): return subprocess.run(cmd, capture_output=True, text=True, timeout=600, **k)
def compile_ll(src, defs=(), opt='function(sroa,simplifycfg)', o='-O0', extra=(), inc=()):
    """driver source -> textual IR; raises Broken with the diagnostics if it does not compile"""
    base = os.path.join(tmp(), 'u%d' % len(os.listdir(tmp())))
    cmd = [CLANG] + BASE + list(defs) + list(extra) + ['-I' + os.path.join(VERIF, 'drivers'), o]
    if o == '-O0': cmd += ['-Xclang', '-disable-O0-optnone']
    cmd += ['-S', '-emit-llvm', src, '-o', base + '.0.ll']
    r = run(cmd)
    if r.returncode and 'with exceptions disabled' in r.stderr:
        r = run(cmd + ['-include', os.path.join(VERIF, 'drivers', 'thrown.hpp')])
    if r.returncode: raise Broken('does not compile: %s %s\n%s' % (os.path.basename(src), ' '.join(defs), r.stderr[:3000]))
    if not opt: return open(base + '.0.ll').read()
    r = run([OPT, '-S', '-passes=' + opt, base + '.0.ll', '-o', base + '.ll'])
    if r.returncode: raise Broken('opt: ' + r.stderr[:2000])
    return open(base + '.ll').read()
def demangle(names):
    names = list(names)
    if not names: return {}
    r = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
    return dict(zip(names, r.stdout.split('\n')))
def tier(): return os.environ.get('VERIF_TIER', 'quick') if '--thorough' not in sys.argv else 'thorough'
def known(pid):
    """[(fragment, text)] of findings recorded for pid: 'finding: property=<id> key=<key> <text>'"""
    out = []
    p = os.path.join(VERIF, 'findings', 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l)
            if m and m.group(1) == pid: out.append((m.group(2), m.group(3).strip()))
    return out
def finish(pid, level, coverage, violations, assumptions=()):
    """violations: [(key, text)]; prints verdict, writes evidence, exits"""
    kn = dict(known(pid)); new = []; seen = set()
    for key, text in violations:
        if key in kn:
            if key not in seen: print('KNOWN-FINDING: property=%s %s' % (pid, kn[key])); seen.add(key)
        else: new.append((key, text))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    ev = {'property': pid, 'tier': tier(), 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': level, 'coverage': coverage,
          'assumptions': list(assumptions), 'wall_s': round(time.time() - T0, 2), 'violations': len(new)}
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1, default=str)
    if new:
        rp = os.path.join(VERIF, 'evidence', pid + '.violations.txt')
        with open(rp, 'w') as f:
            for k, t in new: f.write('[%s] %s\n\n' % (k, t))
        for k, t in new[:5]: print('  ' + t.replace('\n', '\n  '))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        sys.exit(1)
    print('OK property=%s %s' % (pid, ' '.join('%s=%s' % (k, v) for k, v in coverage.items() if isinstance(v, (int, float)))))
    sys.exit(0)
def broken(pid, text):
    print('ANALYSIS-BROKEN property=%s %s' % (pid, text)); sys.exit(2)
