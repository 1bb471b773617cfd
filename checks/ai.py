"""runs the scenarios of one property through the abstract interpreter"""
import sys, os, re, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'engine'))
import vlib, absint, num, ir
import multiprocessing, threading, json, hashlib
DRV = os.path.join(vlib.VERIF, 'drivers')
def run_scenario(m, name, budget, depth=12):
    it, end = run_once(m, name, budget, int(os.environ.get('DS_REFUTE', '0')))
    if it.und and not it.viol:      # not decided: look for a violation among the exact states with few loop phases
        t = time.time(); limit = budget * 0.6; depth = it.maxd or depth; it.reached = 0
        for d in ([d for d in (2, 3, 4, 5, 6, 8) if d < depth] if depth < 12 else []) + [depth]:
            left = limit - (time.time() - t)
            if left < 1: break
            it2, e2 = run_once(m, name, left, d); end += e2; it.viol = it2.viol; it.nobl += it2.nobl; it.ndis += it2.ndis; it.ends += it2.ends; it.drops = it2.drops
            if not it2.und: it.reached = d
            if it.viol: break
    return it, end
def run_once(m, name, budget, refute):
    num.reset()
    it = absint.Interp(m, name, budget); it.refute = refute; st = absint.State(); f = m.fns[name]; end = 0
    try:
        outs = it.run_fn(f, st, [], None)
        for q, _ in outs:
            end += 1
            for i, r in q.R.items():
                if r.kind == 'heap':
                    it.obl('ledger', False); it.fail(q, 'leak', 'a block is never returned to its allocator (%s)' % it.rnames.get(i, ''), None)
                elif r.kind == 'heap': it.obl('ledger', True)
            for i, x in q.S.items():
                if not q.cons.ent_eq(x.len):
                    b = q.fork()
                    if b.ge(x.len - 1): it.fail(b, 'leak', 'list nodes are never returned to their allocator', None)
            for i, x in q.T.items():
                if not q.cons.ent_eq(x.count()):
                    b = q.fork()
                    if b.ge(x.count() - 1): it.fail(b, 'leak', 'tree nodes are never returned to their allocator', None)
    except (absint.Unsup, absint.Undecided, KeyError, AttributeError, TypeError, ValueError, IndexError, RecursionError, SyntaxError) as e:
        if os.environ.get('DS_TB'): import traceback; traceback.print_exc()
        it.undec('%s: %s at %s in %s' % (type(e).__name__, e, it.where(it.cur), '/'.join(it.stack[-3:])))
    return it, end

UNITS = sorted(f for f in os.listdir(DRV) if f.startswith('sc_') and f.endswith('.cpp'))
ALSO = {'C37': 't_C18_'}        # scenarios that also decide a part of the property: a tree that is not balanced is not searched in logarithmic time
KINDS = {'C02': ('life', 'uninit'), 'C03': ('mem', 'leak')}
SKIP = re.compile(r't_C1[5-8]_long(asc|desc)|t_C18_|t_C37_|t_C2[456]_|t_C35_|t_C34_deque|t_C12_fifo|t_C15_|t_C11_idx|t_C14_(max|range[26]|push6)|t_C21_hist4')      # same code as other scenarios, for the properties that use all of them
try: LEVEL = {c['property']: c['level'] for c in json.load(open(os.path.join(vlib.VERIF, 'MANIFEST.json')))['checks']}
except Exception: LEVEL = {}
def scen_names(unit):
    src = open(os.path.join(DRV, unit)).read()
    if re.search(r'API void t_C\d\d_\w*##', src):            # scenarios made by macros
        r = vlib.run([vlib.CLANG] + vlib.BASE + unit_flags(unit) + ['-I' + DRV, '-E', '-P', os.path.join(DRV, unit)])
        if r.returncode == 0: return re.findall(r'extern "C" void (t_C\d\d_\w+)\(\)', r.stdout)
    return re.findall(r'^(?:API void|T) *\(?(t_C\d\d_\w+)', src, re.M) + ['t_%s_%s' % (c, n) for n in re.findall(r'\bBOTH\((?!name)(\w+)\)', src) for c in ('C17', 'C18')]
def unit_flags(unit):
    m_ = re.search(r'^// flags: (.*)$', open(os.path.join(DRV, unit)).read(), re.M)
    return m_.group(1).split() if m_ else []
def unit_depth(unit):
    m_ = re.search(r'^// refute: (\d+) (\d+)$', open(os.path.join(DRV, unit)).read(), re.M)
    return int(m_.group(2 if vlib.tier() == 'thorough' else 1)) if m_ else 12
def result(it, end, name, unit, t):
    fns = sorted(it.stats['funcs'])
    return {'name': name, 'unit': unit, 'ends': end, 'stops': len(it.ends), 'obl': it.nobl, 'dis': it.ndis, 'kinds': it.obl_kinds, 'loops': it.stats['loops'], 'unrolled': it.stats['unrolled'], 'instr': it.stats['instr'],
            'callsites': len(it.stats['callsites']), 'funcs': fns, 'und': dict(it.und), 'depth': it.reached, 'drops': dict(it.drops), 'secs': round(time.time() - t, 2),
            'viol': [{'kind': v.kind, 'msg': v.msg, 'loc': v.loc, 'model': v.model, 'trace': list(v.trace), 'stack': list(v.stack)} for v in it.viol[:40]]}
def work(m, name, unit, budget, conn):
    t = time.time()
    try:
        it, end = run_scenario(m, name, budget, unit_depth(unit)); conn.send(result(it, end, name, unit, t))
    except BaseException as e:
        import traceback
        conn.send({'name': name, 'unit': unit, 'crash': '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:])})
    conn.close()
def run_all(todo, mods, budget, total):
    """todo: [(unit, scenario)]; each scenario in its own process, 8 at a time"""
    t0 = time.time(); out = []; act = {}; q = list(todo); first = os.environ.get('DS_FIRST')   # development: stop at the first violation
    ctx = multiprocessing.get_context('fork')
    while q or act:
        while q and len(act) < 8:
            u, n = q.pop(0); left = total - (time.time() - t0)
            if left < 2: out.append({'name': n, 'unit': u, 'skipped': True}); continue
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=work, args=(mods[u], n, u, min(budget, left), b)); p.start(); b.close()
            act[p.pid] = (p, a, u, n, time.time())
        if not act: break
        if first and any(r.get('viol') for r in out):
            for p, *_ in act.values(): p.kill(); p.join()
            break
        multiprocessing.connection.wait([x[1] for x in act.values()], 1.0)
        for pid, (p, a, u, n, t) in list(act.items()):
            if a.poll():
                try: out.append(a.recv())
                except EOFError: out.append({'name': n, 'unit': u, 'crash': 'analysis process ended'})
                p.join(); del act[pid]
            elif not p.is_alive():
                out.append({'name': n, 'unit': u, 'crash': 'analysis process ended'}); del act[pid]
            elif time.time() - t > budget * 2 + 30:
                p.kill(); p.join(); out.append({'name': n, 'unit': u, 'und': {'time budget (killed)': 1}, 'viol': [], 'obl': 0, 'dis': 0, 'kinds': {}, 'loops': 0, 'instr': 0, 'callsites': 0, 'funcs': [], 'ends': 0, 'stops': 0, 'secs': 0}); del act[pid]
    return out
import multiprocessing.connection
def load(units):
    mods = {}; err = {}
    def one(u):
        try: mods[u] = vlib.compile_ll(os.path.join(DRV, u), extra=unit_flags(u))
        except Exception as e: err[u] = str(e)
    vlib.tmp()
    for u in units: one(u)
    out = {}
    for u, t in mods.items():
        try: out[u] = ir.Module(t)
        except Exception as e: err[u] = '%s: %s' % (type(e).__name__, e)
    return out, err
def key_of(v): return hashlib.sha1(('%s|%s|%s' % (v['kind'], v['msg'], v['stack'][-1] if v['stack'] else '')).encode()).hexdigest()[:10]
def main(pid):
    thorough = vlib.tier() == 'thorough'
    budget, total = (300, 700) if thorough else (150, 700)
    todo = []
    for u in UNITS:
        for n in scen_names(u):
            if pid in KINDS and not SKIP.match(n) or n.startswith(('t_%s_' % pid, ALSO.get(pid, 't_%s_' % pid))): todo.append((u, n))
    if not todo: vlib.broken(pid, 'no scenario')
    mods, err = load(sorted({u for u, _ in todo}))
    bad = ['%s: not analysed: %s' % (u, e.strip().splitlines()[0][:200] if e.strip() else '?') for u, e in err.items()]
    slow = {}
    try: slow = json.load(open(os.path.join(vlib.VERIF, 'tools', 'times.json')))
    except Exception: pass
    todo.sort(key=lambda x: -slow.get(x[1], 1))
    todo0 = todo; todo = [(u, n) for u, n in todo if u in mods]
    bad += ['%s: missing' % n for u, n in todo if n not in mods[u].fns]; todo = [(u, n) for u, n in todo if n in mods[u].fns]
    num._load()
    res = run_all(todo, mods, budget, total)
    bad += ['%s: analysis failed: %s' % (r['name'], r['crash'][:200]) for r in res if 'crash' in r]
    done = [r for r in res if 'skipped' not in r and 'crash' not in r]
    viol = {}; dm = vlib.demangle({f for r in done for v in r['viol'] for f in v['stack']} | {f for r in done for f in r['funcs']})
    for r in done:
        for v in r['viol']:
            own = r['name'].startswith(('t_%s_' % pid, ALSO.get(pid, 't_%s_' % pid)))
            if not (v['kind'] in KINDS.get(pid, ()) or own): continue
            k = key_of(v)
            if k in viol: continue
            viol[k] = '%s: %s\n  at %s in %s\n  scenario %s (%s) with %s\n  path %s' % (v['kind'], v['msg'], v['loc'], ' <- '.join(dm.get(x, x) for x in reversed(v['stack'][-4:])), r['name'], r['unit'], v['model'], ' '.join(v['trace']))
    kinds = {}
    for r in done:
        for k, n in r['kinds'].items(): kinds[k] = kinds.get(k, 0) + n
    fns = sorted({dm.get(f, f) for r in done for f in r['funcs'] if f.startswith('_Z')})
    und = sorted({'%s: %s' % (r['name'], w) for r in done for w in r['und']}) + ['%s: not started (time)' % r['name'] for r in res if 'skipped' in r] + bad
    for w in bad: print('UNDECIDED', w)
    cov = {'scenarios': len(todo0), 'scenarios_fully_decided': sum(1 for r in done if not r['und'] and not r['viol']), 'obligations': sum(r['obl'] for r in done), 'obligations_discharged': sum(r['dis'] for r in done),
           'obligations_by_kind': kinds, 'loops_with_inductive_invariant': sum(r['loops'] for r in done), 'loop_entries_followed_iteration_by_iteration': sum(r.get('unrolled', 0) for r in done), 'call_sites': sum(r['callsites'] for r in done), 'abstract_steps': sum(r['instr'] for r in done),
           'functions_analysed': len(fns), 'undecided': und, 'functions': fns, 'scenario_results': {r['name']: ('ok' if not r['und'] and not r['viol'] else 'violation' if r['viol'] else 'undecided; no violation with structures unfolded to depth %s' % r.get('depth')) for r in done},
           'rule': 'abstract interpretation of the compiled scenario and everything it calls: every obligation of the kinds above holds in every abstract state reaching it; loops by inductive generalised states; alarms only from exact states with a witness'}
    if '--times' in sys.argv: slow.update({r['name']: r['secs'] for r in done}); json.dump(slow, open(os.path.join(vlib.VERIF, 'tools', 'times.json'), 'w'), indent=0)
    cov['discharged'] = cov.pop('obligations_discharged'); cov['checker_cmd'] = 'python3 checks/ai.py ' + pid; cov['trusted_base'] = TRUST
    cov['explanation'] = 'abstract interpretation of LLVM IR; scenarios listed under undecided were analysed but some state could not be decided, they raise no alarm'
    vlib.finish(pid, LEVEL.get(pid, 'other') if not und else 'other', cov, sorted(viol.items()), ASSUME)
TRUST = ['clang 18 front end and SROA', 'the transfer functions and loop generalisation of engine/absint.py', 'linear arithmetic of engine/num.py', 'the scenario units under drivers/ state the property']
ASSUME = ['sizes and element counts up to 10^6 (no integer overflow above that)', 'allocators return distinct fresh blocks and never fail (exhaustion of the static memory is C24-C26)', 'element operations terminate normally (the library is built without exception safety)', 'clang 18 front end and SROA preserve the meaning of the source']
if __name__ == '__main__':
    if not sys.argv[1].endswith('.cpp'): main(sys.argv[1]); sys.exit(0)
    # development entry: ai.py unit.cpp [scenario...]
    num._load(); m = ir.Module(vlib.compile_ll(os.path.join(DRV, sys.argv[1]), extra=unit_flags(sys.argv[1])))
    names = sys.argv[2:] or [x for x in m.fns if x.startswith('t_')]
    u = sys.argv[1]; B = float(os.environ.get('DS_BUDGET', '60'))
    if os.environ.get('DS_DBG') or os.environ.get('DS_TB') or len(names) == 1:
        res = []
        for n in names: t = time.time(); it, end = run_scenario(m, n, B, unit_depth(u)); res.append(result(it, end, n, u, t))
    else:
        if os.environ.get('DS_FIRST'): slow = json.load(open(os.path.join(vlib.VERIF, 'tools', 'times.json'))); names.sort(key=lambda n: slow.get(n, 1))
        res = run_all([(u, n) for n in names], {u: m}, B, 3000)
    for r in sorted(res, key=lambda r: names.index(r['name'])):
        if 'crash' in r: print(r['name'], 'CRASH', r['crash']); continue
        print('%-28s %5.1fs ends=%d stops=%d obl=%d/%d loops=%d depth=%s %s' % (r['name'], r['secs'], r['ends'], r['stops'], r['dis'], r['obl'], r['loops'], r.get('depth'), 'VIOL' if r['viol'] else 'und' if r['und'] else 'ok'))
        for w, c in list(r['und'].items())[:int(os.environ.get('DS_N', '2'))]: print('     und x%d: %s' % (c, w[:230]))
        if not r['ends'] and not r['stops'] and not r['viol']: print('     NOTHING REACHED')
        for w, c in list(r.get('drops', {}).items())[:int(os.environ.get('DS_N', '2'))]: print('     dropped x%d: %s' % (c, w[:230]))
        seen = set()
        for v in r['viol']:
            if (v['msg'], v['loc']) in seen: continue
            seen.add((v['msg'], v['loc'])); print('     VIOL %s: %s at %s model=%s\n        stack=%s trace=%s' % (v['kind'], v['msg'], v['loc'], v['model'], v['stack'][-3:], v['trace'][-6:]))
