"""C27 allocator routing, C28 freestanding core, C36 no shared mutable state, C30 interface instantiation, C29 const-correctness.
Rules over the resolved program: the LLVM IR (call graph, effects) and the type checker's verdict on witnesses."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'engine'))
from vlib import *
import vlib, ir
API = os.path.join(VERIF, 'drivers', 'api_all.cpp')
MODES = {'default': ['-DM_DEFAULT'], 'smaport': ['-DM_SMAPORT', '-DENABLE_SMA'], 'user': ['-DM_USER'], 'static': ['-DM_STATIC']}
KINDS = ['-DT_ELEM', '-DT_INT', '-DT_PTR']
LANG = re.compile(r'^(llvm\.|__cxa_guard_|__cxa_atexit$|__cxa_pure_virtual$|__gxx_personality|memcpy$|memset$|memmove$|__stack_chk)')
def own(d): return re.match(r'^(Elem::|.*\blv<|.*\bsink<|void sink|.*& lv<)', d) is not None
def modules(modes, kinds, **k):
    out = []
    for m in modes:
        for t in kinds: out.append((m + ' ' + t[2:], ir.Module(compile_ll(API, MODES[m] + [t], **k))))
    return out
def deleting_dtor(n): return re.search(r'D0Ev$', n) is not None
def callees(f):
    for b in f.blocks.values():
        for i in b:
            if i.op in ('call', 'invoke'):
                yield i
def sites(m):
    """(caller, callee name or None if indirect, line) for all call sites of all functions except deleting destructors"""
    for n, f in m.fns.items():
        if deleting_dtor(n): continue
        for i in callees(f):
            c = i.a[1]
            yield f, (c[1] if c[0] == 'glob' else None), i
def loc(m, i):
    try:
        l = m.loc(i.dbg); return '%s:%s' % (os.path.relpath(l[0], REPO) if l and l[0].startswith('/') else l and l[0], l and l[1])
    except Exception: return '?'
def c27():
    viol = []; nsites = 0; ninst = 0; alloc_sites = 0
    for tag, m in modules(['user', 'static', 'default', 'smaport'], KINDS):
        mode = tag.split()[0]
        names = {c for _, c, _ in sites(m) if c} | set(m.fns)
        dm = demangle(names); ninst += len(m.fns)
        for f, c, i in sites(m):
            nsites += 1
            if c is None or c in m.fns: continue
            d = dm.get(c, c)
            if LANG.match(c) or own(d) or d.startswith('__assert'): continue
            if mode == 'user' and re.match(r'TA::(de)?allocate\(', d): alloc_sites += 1; continue
            heapish = re.match(r'^(malloc|calloc|realloc|free|aligned_alloc|posix_memalign|operator new|operator delete|alloca|mmap|strdup)', d)
            if mode == 'default' and heapish:
                fd = dm.get(f.name, f.name)
                if fd.startswith('dstruct::port::'): alloc_sites += 1; continue
                viol.append(('heap:' + fd.split('(')[0], '%s: %s calls %s directly instead of its allocator (instantiation %s)' % (loc(m, i), fd, d, tag)))
            elif heapish:
                viol.append(('heap:' + dm.get(f.name, f.name).split('(')[0], '%s: %s reaches the heap (%s) although its allocator is %s' % (loc(m, i), dm.get(f.name), d, {'user': 'the user allocator', 'static': 'the static allocator', 'smaport': 'the static-memory port'}[mode])))
            # other externals are C28's business
        # who may call the default allocator: only containers instantiated with it
        if mode in ('user', 'static'):
            for f, c, i in sites(m):
                d = dm.get(c or '', '')
                if d.startswith('dstruct::Alloc::') or d.startswith('dstruct::port::'):
                    if not dm[f.name].startswith(('dstruct::Alloc::', 'dstruct::port::')):
                        viol.append(('default:' + dm[f.name].split('(')[0], '%s: %s calls %s although it was instantiated with another allocator (%s)' % (loc(m, i), dm[f.name], d, tag)))
    if alloc_sites < 2 or nsites < 1000: broken('C27', 'only %d call sites, %d allocator sites' % (nsites, alloc_sites))
    finish('C27', 'proof', {'obligations': nsites, 'discharged': nsites - len(viol), 'functions_analysed': ninst, 'allocator_call_sites': alloc_sites,
        'checker_cmd': 'python3 checks/rules.py C27', 'trusted_base': ['clang 18 front end', 'call graph from IR: every function emitted for the instantiated API counts as reachable', 'c++filt'],
        'rule': 'in the instantiation of the whole API with allocator A, the only allocation/deallocation entry points called are A\'s'}, viol,
        ['element operations (opaque here) are the user\'s', 'vtable slots of deleting destructors (operator delete) are reached only by a user\'s delete expression'])
def c28():
    viol = []; nsites = 0; ext = {}; units = 0
    for tag, m in modules(['default', 'smaport', 'user', 'static'], KINDS):
        mode = tag.split()[0]; units += 1
        names = {c for _, c, _ in sites(m) if c} | set(m.fns); dm = demangle(names)
        for f, c, i in sites(m):
            nsites += 1
            if c is None or c in m.fns: continue
            d = dm.get(c, c)
            if LANG.match(c) or own(d): continue
            if mode == 'user' and d.startswith('TA::'): continue
            if d == '__assert_fail' and mode != 'smaport': continue
            fd = dm.get(f.name, f.name)
            if mode == 'default' and d in ('malloc', 'free') and fd.startswith('dstruct::port::'): continue
            if mode in ('user',) and d in ('malloc', 'free') and fd.startswith('dstruct::port::'): continue
            viol.append(('ext:' + d, '%s: %s depends on external %s outside the port layer (%s)' % (loc(m, i), fd, d, tag)))
    # headers: files outside port/ include no hosted standard header
    FREE = {'cstddef', 'cstdint', 'stddef.h', 'stdint.h', 'climits', 'limits.h', 'cfloat', 'float.h', 'limits', 'new', 'type_traits', 'initializer_list', 'cstdarg', 'stdarg.h', 'atomic', 'bits/c++config.h'}
    HDR_OK = {('memory/StaticMemAllocator.hpp', 'cstdio')}   # pulled in for the optional SMA_LOGD hook, nothing of it is used
    nh = 0; files = []
    for root, _, fs in os.walk(REPO):
        rel = os.path.relpath(root, REPO)
        if rel.split(os.sep)[0] in ('core', 'spec', 'memory'):
            files += [os.path.join(root, x) for x in fs if x.endswith(('.hpp', '.h'))]
    r = run([CLANG] + BASE + MODES['smaport'] + ['-DT_INT', '-fsyntax-only', '-H', API]); stack = []; incs = []
    r2 = run([CLANG] + BASE + MODES['default'] + ['-DT_INT', '-E', API])
    # resolved include edges: walk the preprocessor's line markers
    for out in (r2.stdout, run([CLANG] + BASE + MODES['smaport'] + ['-DT_INT', '-E', API]).stdout):
        st = []
        for l in out.split('\n'):
            mm = re.match(r'# (\d+) "([^"]*)"(.*)', l)
            if not mm: continue
            fl = mm.group(3).split()
            if '1' in fl:
                if st: incs.append((st[-1], mm.group(2)))
                st.append(mm.group(2))
            elif '2' in fl and len(st) > 1: st.pop()
            elif not st: st.append(mm.group(2))
    for a, b in sorted(set(incs)):
        ra = os.path.relpath(a, REPO)
        if a.startswith(REPO) and ra.split(os.sep)[0] in ('core', 'spec', 'memory'):
            nh += 1
            if b.startswith(REPO): continue
            name = re.sub(r'^.*/include/(c\+\+/\d+/)?', '', b)
            if name in FREE or (ra, name) in HDR_OK: continue
            viol.append(('hdr:%s:%s' % (ra, name), '%s includes the hosted standard header <%s>: the core depends on more than its port' % (ra, name)))
    if nsites < 1000 or nh < 12: broken('C28', '%d sites %d include edges' % (nsites, nh))
    finish('C28', 'proof', {'obligations': nsites + nh, 'discharged': nsites + nh - len(viol), 'units': units, 'include_edges': nh, 'call_sites': nsites,
        'checker_cmd': 'python3 checks/rules.py C28', 'trusted_base': ['clang 18 front end'], 'rule': 'external callees of the instantiated API within the port set; include edges of core/, spec/, memory/ stay freestanding'}, viol)
def root_of(m, f, v, depth=0, seen=None):
    """globals a pointer operand may be derived from, by use-def chains"""
    seen = seen if seen is not None else set()
    if v[0] == 'glob': return {v[1]}
    if v[0] == 'cgep': return root_of(m, f, v[2], depth, seen)
    if v[0] == 'cast': return root_of(m, f, v[3], depth, seen)
    if v[0] == 'reg':
        if v[1] in seen: return set()
        seen.add(v[1]); i = f_defs(f).get(v[1])
        if i is None: return set()
        txt = i.line
        if i.op in ('getelementptr', 'bitcast', 'phi', 'select', 'addrspacecast', 'freeze'):
            out = set()
            for g in re.findall(r'@("[^"]+"|[-\w$.]+)', txt): out.add(g.strip('"'))
            for rg in re.findall(r'%[-\w$.]+', txt.split('=', 1)[1]): out |= root_of(m, f, ('reg', rg), depth, seen)
            return out
    return set()
_defs = {}
def f_defs(f):
    if id(f) not in _defs: _defs[id(f)] = {i.res: i for b in f.blocks.values() for i in b if i.res}
    return _defs[id(f)]
def c36():
    viol = []; nst = 0; nf = 0
    # positive control: the rule must fire on a function that does keep shared state
    ctl = os.path.join(tmp(), 'ctl.cpp'); open(ctl, 'w').write('void ext(int*); static int cnt; int f(){ static int k; k++; cnt+=2; return k+cnt; } int g(){ ext(&cnt); return cnt; }')
    def scan(m, dm, tag):
        nonlocal nst, nf
        bad = []
        for n, f in m.fns.items():
            if deleting_dtor(n) or dm.get(n, n).startswith(('dstruct::port::', 'use_', '_GLOBAL__')) or n.startswith(('use_', '_GLOBAL__', '__cxx_global')): continue
            nf += 1
            for b in f.blocks.values():
                for i in b:
                    gs = set()
                    if i.op == 'store':
                        nst += 1
                        ptr = i.line.rsplit('ptr ', 1)[1]
                        gs = {g.strip('"') for g in re.findall(r'@("[^"]+"|[-\w$.]+)', ptr)}
                        mm = re.match(r'\s*(%[-\w$.]+)', ptr)
                        if mm: gs |= root_of(m, f, ('reg', mm.group(1)))
                    elif i.op in ('atomicrmw', 'cmpxchg'): nst += 1; gs = {g.strip('"') for g in re.findall(r'@("[^"]+"|[-\w$.]+)', i.line)}
                    elif i.op == 'call':
                        args = i.line.split('(', 1)[1] if '(' in i.line else ''
                        nst += 1
                        gs = {g.strip('"') for g in re.findall(r'ptr [^,()]*@("[^"]+"|[-\w$.]+)', args)}
                        gs |= {g.strip('"') for g in re.findall(r'getelementptr[^()]*\([^()]*@("[^"]+"|[-\w$.]+)', args)}
                        for rg in re.findall(r'ptr [^,()]*?(%[-\w$.]+)', args): gs |= root_of(m, f, ('reg', rg))
                    for g in gs:
                        G = m.globals.get(g)
                        if G is None or g in m.fns: continue
                        txt = gtext(m, g)
                        if re.search(r'\bconstant\b', txt) or 'thread_local' in txt: continue
                        bad.append((g, f, i))
        return bad
    def gtext(m, g): return m.gtext.get(g, '')
    text = compile_ll(ctl, o='-O1', opt=None, extra=['-fno-inline-functions']); mm = ir.Module(text); mm.gtext = gl(text)
    if len({g for g, _, _ in scan(mm, {}, 'ctl')}) < 2: broken('C36', 'positive control did not fire')
    nst = nf = 0
    for mode in ('default', 'user'):
        for t in KINDS:
            text = compile_ll(API, MODES[mode] + [t], o='-O1', opt=None); m = ir.Module(text); m.gtext = gl(text); _defs.clear()
            dm = demangle(list(m.fns) + list(m.globals))
            for g, f, i in scan(m, dm, mode + t):
                fn = dm.get(f.name, f.name)
                viol.append(('glob:' + dm.get(g, g), '%s: %s modifies (or hands out for modification) the process-wide object %s; distinct containers then share mutable state' % (loc(m, i), fn, dm.get(g, g))))
    if nst < 500: broken('C36', 'only %d effect sites' % nst)
    finish('C36', 'proof', {'obligations': nst, 'discharged': nst - len(viol), 'functions_analysed': nf, 'checker_cmd': 'python3 checks/rules.py C36',
        'trusted_base': ['clang 18 front end and -O1 (dead stores to never-read statics are not effects)', 'malloc/free are thread-safe'],
        'rule': 'no store, atomic or by-reference hand-out whose pointer derives from a mutable non-thread-local global, in any function of the instantiated API outside the port layer'}, viol,
        ['decided part: absence of shared mutable state; element operations are the user\'s'])
def gl(text):
    out = {}
    for l in text.split('\n'):
        mm = re.match(r'@("[^"]+"|[-\w$.]+) = (.*)', l)
        if mm: out[mm.group(1).strip('"')] = mm.group(2)
    return out
def c30():
    viol = []; n = 0; comp = []
    CXX = [[CLANG, '-std=c++11']]
    if os.path.exists('/usr/bin/g++'): CXX.append(['/usr/bin/g++', '-std=c++11'])
    from concurrent.futures import ThreadPoolExecutor
    jobs = [(cx, m, t) for cx in CXX for m in MODES for t in KINDS]
    def job(j):
        cx, m, t = j
        return j, run(cx + ['-w', '-fsyntax-only', '-I' + REPO, '-I' + os.path.join(VERIF, 'drivers')] + MODES[m] + [t, API])
    with ThreadPoolExecutor(8) as ex: res = list(ex.map(job, jobs))
    src = open(os.path.join(VERIF, 'drivers', 'api_uses.hpp')).read(); nuse = src.count(';')
    for (cx, m, t), r in res:
        n += 1
        if r.returncode:
            errs = [l for l in r.stderr.split('\n') if 'error:' in l][:3]
            viol.append(('inst:%s:%s' % (m, t), 'an operation of the public interface does not instantiate (%s, mode %s, elements %s): %s' % (os.path.basename(cx[0]), m, t[2:], ' | '.join(errs))))
    # every header is usable as documented through the two umbrella headers together
    both = os.path.join(tmp(), 'both.cpp'); open(both, 'w').write('#include <dstruct.hpp>\n#include <dstruct-static.hpp>\ndstruct::Vector<int> a; dstruct::smemory::Vector<int> b; int main(){}\n')
    for cx in CXX:
        n += 1; r = run(cx + ['-w', '-fsyntax-only', '-I' + REPO, both])
        if r.returncode: viol.append(('both', 'dstruct.hpp and dstruct-static.hpp cannot be used together: ' + r.stderr[:300]))
    ops = [x for x in re.findall(r'[^;{}]+;', src)]
    finish('C30', 'proof', {'obligations': n * len(ops), 'discharged': (n - len(viol)) * len(ops), 'compilations': n, 'api_statements': len(ops), 'checker_cmd': 'python3 checks/rules.py C30',
        'trusted_base': ['clang 18 and gcc 13 front ends'], 'rule': 'every statement of drivers/api_uses.hpp instantiates for each memory model and element kind'}, viol)
def c29():
    E = []   # (id, prelude type alias, expression, must_be_valid)
    W = open(os.path.join(VERIF, 'drivers', 'const_witness.txt')).read().split('\n')
    types = {}; rows = []
    for l in W:
        l = l.strip()
        if not l or l.startswith('#'): continue
        if l.startswith('type '): k, v = l[5:].split('=', 1); types[k.strip()] = v.strip(); continue
        if l.startswith('for '):
            cs, rest = l[4:].split(':', 1); kind, expr = rest.strip().split(' ', 1)
            for c in cs.split(','): rows.append((c.strip(), kind, expr.strip()))
    out = ['#include <dstruct.hpp>', '#include <dstruct-static.hpp>', 'struct Elem { long v[3]; Elem(); Elem(const Elem&); Elem(Elem&&) noexcept; Elem&operator=(const Elem&); Elem&operator=(Elem&&) noexcept; ~Elem(); bool operator<(const Elem&) const; bool operator>(const Elem&) const; bool operator==(const Elem&) const; };',
           'template<class T> T dv();', 'template<class...> struct mk { typedef void t; };']
    for k, v in types.items(): out.append('typedef %s %s;' % (v, k))
    base = len(out); idx = {}
    for n, (c, kind, expr) in enumerate(rows):
        ex = expr.replace('C', 'dv<const L&>()').replace('@M', 'dv<L&>()').replace('@X', 'dv<const X&>()')
        out.append('template<class L,class X,class=void> struct w%d { static const bool ok=false; }; template<class L,class X> struct w%d<L,X,typename mk<decltype(%s)>::t> { static const bool ok=true; };' % (n, n, ex))
        et = types.get('elem_' + c, 'Elem')
        out.append('static_assert(w%d<%s,%s>::ok == %s, "witness %d");' % (n, c, et, 'true' if kind == 'ok' else 'false', n))
        idx[n] = (c, kind, expr)
    p = os.path.join(tmp(), 'cw.cpp'); open(p, 'w').write('\n'.join(out) + '\n')
    r = run([CLANG, '-std=c++11', '-w', '-fsyntax-only', '-ferror-limit=0', '-I' + REPO, p])
    viol = []; other = []
    for l in r.stderr.split('\n'):
        if 'error:' in l:
            mm = re.search(r'witness (\d+)', l)
            if mm:
                c, kind, expr = idx[int(mm.group(1))]; text = expr.replace('C', 'const %s' % c).replace('@M', c).replace('@X', 'x')
                if kind == 'ok': viol.append(('ok:%s:%s' % (c, expr), 'observing expression rejected by the type checker: %s' % text))
                else: viol.append(('no:%s:%s' % (c, expr), 'modification through read-only access is accepted by the type checker: %s' % text))
            else: other.append(l)
    # bodies: an accepted const observer must also instantiate, which C30's units do; non-SFINAE errors are analysis failures
    if other: broken('C29', 'witness unit does not compile: ' + other[0])
    nno = sum(k == 'no' for _, k, _ in rows); nok = len(rows) - nno
    if nno < 60 or nok < 40: broken('C29', 'too few witnesses')
    finish('C29', 'proof', {'obligations': len(rows), 'discharged': len(rows) - len(viol), 'must_not_compile': nno, 'must_compile': nok, 'checker_cmd': 'python3 checks/rules.py C29',
        'trusted_base': ['clang 18 type checker'], 'rule': 'SFINAE witness per (container, expression): drivers/const_witness.txt'}, viol,
        ['casts (const_cast) by the user are outside the property'])
if __name__ == '__main__':
    pid = sys.argv[1]
    try: {'C27': c27, 'C28': c28, 'C36': c36, 'C30': c30, 'C29': c29}[pid]()
    except Broken as e: broken(pid, str(e))
