"""Parser for the textual LLVM IR (opaque pointers) that clang-18 emits for the driver units."""
import re

TOK = re.compile(r'''\s*(?:(?P<str>c?"(?:[^"\\]|\\.)*")|(?P<loc>[%@](?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))|(?P<num>-?\d+(?:\.\d+e[+-]?\d+)?|0x[0-9A-Fa-f]+)|(?P<meta>![-a-zA-Z$._0-9]*)|(?P<attr>\#\d+)|(?P<word>[a-zA-Z_][-a-zA-Z_0-9.]*)|(?P<dots>\.\.\.)|(?P<p>[(){}\[\]<>,=*:]))''')

def tokenize(s):
    out = []; i = 0; n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '': break
            raise SyntaxError('tok: ' + s[i:i+60] + ' in ' + s[:200])
        k = m.lastgroup; v = m.group(k)
        if k == 'str' and v[0] == 'c': out.append(('cstr', v[2:-1]))
        elif k == 'str': out.append(('str', v[1:-1]))
        elif k == 'loc': out.append(('loc', v.replace('"', '')))
        else: out.append((k, v))
        i = m.end()
    return out

class P:
    def __init__(s, toks, mod): s.t = toks; s.i = 0; s.mod = mod
    def peek(s, k=0): return s.t[s.i+k][1] if s.i+k < len(s.t) else None
    def kind(s): return s.t[s.i][0] if s.i < len(s.t) else None
    def next(s): v = s.t[s.i][1]; s.i += 1; return v
    def acc(s, v):
        if s.i < len(s.t) and s.t[s.i][1] == v and s.t[s.i][0] not in ('str', 'cstr'): s.i += 1; return True
        return False
    def exp(s, v):
        if not s.acc(v): raise SyntaxError('expected %r at %r in %r' % (v, s.t[s.i:s.i+5], [x[1] for x in s.t][:40]))
    def type(s):
        t = s._type1()
        while True:
            if s.peek() == '(' and s.kind() == 'p':   # function type
                s.next()
                while not s.acc(')'):
                    if s.acc('...'): pass
                    else: s.type()
                    s.acc(',')
                t = ('fn', t)
            else: return t
    def _type1(s):
        k = s.kind(); v = s.next()
        if k == 'word':
            if v[0] == 'i' and v[1:].isdigit(): return ('i', int(v[1:]))
            if v in ('ptr',): return ('ptr',)
            if v in ('void', 'label', 'metadata', 'token'): return (v,)
            if v in ('float', 'double', 'x86_fp80'): return ('f', {'float': 4, 'double': 8, 'x86_fp80': 16}[v])
            if v == 'opaque': return ('struct', ())
        if k == 'loc': return ('named', v)
        if v == '[':
            n = int(s.next()); s.exp('x'); t = s.type(); s.exp(']'); return ('arr', n, t)
        if v == '{':
            f = []
            while not s.acc('}'): f.append(s.type()); s.acc(',')
            return ('struct', tuple(f))
        if v == '<':
            if s.acc('{'):
                f = []
                while not s.acc('}'): f.append(s.type()); s.acc(',')
                s.exp('>'); return ('pstruct', tuple(f))
            n = int(s.next()); s.exp('x'); t = s.type(); s.exp('>'); return ('vec', n, t)
        raise SyntaxError('type? %r in %r' % (v, [x[1] for x in s.t][:30]))
    ATTRS = {'noundef', 'nonnull', 'zeroext', 'signext', 'noalias', 'nocapture', 'readonly', 'writeonly', 'returned', 'immarg', 'inreg', 'nest', 'nofpclass', 'readnone', 'noreturn', 'allocptr', 'swiftself', 'dead_on_unwind', 'writable'}
    def attrs(s):
        while s.i < len(s.t):
            v = s.peek()
            if s.kind() == 'word' and v in P.ATTRS: s.next()
            elif s.kind() == 'word' and v in ('align',):
                s.next()
                if s.acc('('): s.next(); s.exp(')')
                else: s.next()
            elif s.kind() == 'word' and v in ('dereferenceable', 'dereferenceable_or_null', 'captures', 'range', 'memory', 'alignstack'):
                s.next(); s.exp('('); d = 1
                while d: 
                    x = s.next()
                    d += (x == '(') - (x == ')')
            elif s.kind() == 'word' and v in ('sret', 'byval', 'elementtype', 'byref', 'preallocated', 'inalloca'):
                s.next(); s.exp('('); s.type(); s.exp(')')
            else: return
    def value(s, ty):
        k = s.kind(); v = s.next()
        if k == 'loc': return ('reg', v) if v[0] == '%' else ('glob', v[1:])
        if k == 'num': return ('f', v) if ('.' in v or v.startswith('0x')) else ('int', int(v))
        if k == 'cstr': return ('cstr', v)
        if k == 'word':
            if v == 'null': return ('null',)
            if v == 'true': return ('int', 1)
            if v == 'false': return ('int', 0)
            if v in ('undef', 'poison'): return ('undef',)
            if v == 'zeroinitializer': return ('zero', ty)
            if v == 'getelementptr':
                while s.kind() == 'word' and s.peek() in ('inbounds', 'nuw', 'nusw', 'inrange'): s.next()
                s.exp('(')
                t = s.type(); s.exp(',')
                bt = s.type(); b = s.value(bt); idx = []
                while s.acc(','):
                    while s.acc('inrange'): pass
                    it = s.type(); idx.append((it, s.value(it)))
                s.exp(')'); return ('cgep', t, b, idx)
            if v in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'zext', 'sext'):
                s.exp('('); t = s.type(); x = s.value(t); s.exp('to'); t2 = s.type(); s.exp(')'); return ('cast', v, t, x, t2)
            if v in ('sub', 'add', 'mul'):
                while s.peek() in ('nuw', 'nsw'): s.next()
                s.exp('('); t = s.type(); a = s.value(t); s.exp(','); t2 = s.type(); b = s.value(t2); s.exp(')'); return ('cbin', v, t, a, b)
        if v in ('{', '[', '<'):
            el = []
            close = {'{': '}', '[': ']', '<': '>'}[v]
            if v == '<' and s.acc('{'): close = '}'; pk = True
            else: pk = False
            while not s.acc(close):
                t = s.type(); el.append((t, s.value(t))); s.acc(',')
            if pk: s.exp('>')
            return ('agg', el)
        raise SyntaxError('value? %r in %r' % (v, [x[1] for x in s.t][:30]))

class Fn:
    __slots__ = ('name', 'params', 'blocks', 'entry', 'ret', 'dbg', 'loops', 'live', 'preds', 'header_of', 'order', 'byval')

class Instr:
    __slots__ = ('op', 'res', 'a', 'ty', 'dbg', 'line')
    def __repr__(s): return '%s = %s %s' % (s.res, s.op, s.a)

class Module:
    def __init__(m, text):
        m.types = {}; m.fns = {}; m.globals = {}; m.decls = {}; m.meta = {}; m._sz = {}
        lines = text.split('\n'); i = 0
        while i < len(lines):
            ln = lines[i]
            if ln.startswith('%') and ' = type ' in ln:
                name, rest = ln.split(' = type ', 1)
                m.types[name.replace('"', '')] = rest
            elif ln.startswith('@'): m._glob(ln)
            elif ln.startswith('define '):
                j = i
                while lines[j] != '}': j += 1
                m._fn(lines[i:j]); i = j
            elif ln.startswith('declare '):
                mm = re.search(r'@("?[^\s(]+)\(', ln)
                if mm: m.decls[mm.group(1).strip('"')] = ln
            elif ln.startswith('!'):
                mm = re.match(r'!(\d+) = (.*)', ln)
                if mm: m.meta[int(mm.group(1))] = mm.group(2)
            i += 1
        for k in list(m.types):
            v = m.types[k]
            if isinstance(v, str): m.types[k] = P(tokenize(v), m).type()
        m._loccache = {}
    def _glob(m, ln):
        mm = re.match(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+) = (.*)$', ln)
        name = mm.group(1).strip('"'); rest = mm.group(2)
        p = P(tokenize(rest), m)
        ext = False; const = False; alias = False
        while True:
            v = p.peek()
            if v in ('constant', 'global'): const = p.next() == 'constant'; break
            if v == 'alias': alias = True; p.next(); break
            if v == 'external': ext = True
            p.next()
            if v == '(':  # unnamed_addr etc never take parens, but thread_local(...) might
                while p.next() != ')': pass
        t = p.type()
        if alias: 
            p.exp(','); p.type(); m.globals[name] = ('alias', p.value(('ptr',))); return
        init = None
        if not ext and p.i < len(p.t) and p.peek() != ',': init = p.value(t)
        m.globals[name] = ('var', t, init, const)
    def resolve(m, t):
        while t[0] == 'named': t = m.types[t[1]]
        return t
    def size(m, t):
        r = m._sz.get(t)
        if r is None: r = m._sz[t] = m._size(t)
        return r
    def _size(m, t):
        t = m.resolve(t); k = t[0]
        if k == 'i':
            return max(1, (t[1]+7)//8) if t[1] <= 64 else 16
        if k == 'ptr': return 8
        if k == 'f': return t[1]
        if k == 'arr': return t[1]*m.size(t[2])
        if k == 'vec': return t[1]*m.size(t[2])
        if k in ('struct', 'pstruct'):
            o = 0
            for f in t[1]:
                if k == 'struct': a = m.align(f); o = (o+a-1)//a*a
                o += m.size(f)
            if k == 'struct': a = m.align(t); o = (o+a-1)//a*a
            return o
        raise ValueError(t)
    def align(m, t):
        t = m.resolve(t); k = t[0]
        if k == 'i': return max(1, min(16, (t[1]+7)//8))
        if k == 'ptr': return 8
        if k == 'f': return t[1]
        if k in ('arr', 'vec'): return m.align(t[2])
        if k == 'pstruct': return 1
        return max([1]+[m.align(f) for f in t[1]])
    def field(m, t, i):
        t = m.resolve(t); o = 0
        for j, f in enumerate(t[1]):
            if t[0] == 'struct': a = m.align(f); o = (o+a-1)//a*a
            if j == i: return o, f
            o += m.size(f)
        raise IndexError
    # ---- functions
    def _fn(m, lines):
        hdr = lines[0]
        mm = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(', hdr)
        f = Fn(); f.name = mm.group(1).strip('"')
        p = P(tokenize(hdr[mm.end():]), m)
        f.params = []; f.byval = {}; k = 0
        while not p.acc(')'):
            if p.acc('...'): continue
            t = p.type()
            j = p.i; p.attrs()
            for q in range(j, p.i):
                if p.t[q][1] == 'byval': f.byval[len(f.params)] = True
            if p.kind() == 'loc': n = p.next()
            else: n = '%%%d' % k
            f.params.append((n, t)); k += 1
            p.acc(',')
        d = re.search(r'!dbg !(\d+)', hdr); f.dbg = int(d.group(1)) if d else None
        pre = hdr[:mm.start()]
        f.ret = None
        f.blocks = {}; f.order = []
        cur = None; buf = None
        # the unnamed entry block takes the next number after the parameters
        i = 1
        while i < len(lines):
            ln = lines[i]; i += 1
            if not ln.strip() or ln.lstrip().startswith(';'): continue
            mm = re.match(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):', ln)
            if mm:
                cur = '%' + mm.group(1).strip('"'); f.blocks[cur] = []; f.order.append(cur); continue
            if cur is None:
                n = sum(1 for x, _ in f.params if x[1:].isdigit())
                cur = '%' + str(n); f.blocks[cur] = []; f.order.append(cur)
            s = ln.strip()
            if s.startswith('switch ') and not s.endswith(']') and ']' not in s:
                while True:
                    s += ' ' + lines[i].strip(); i += 1
                    if ']' in lines[i-1]: break
            if s.startswith('call void @llvm.dbg') or s.startswith('#dbg') or 'llvm.lifetime' in s: continue
            f.blocks[cur].append(m._instr(s))
        f.entry = f.order[0]
        m.fns[f.name] = f
        m._cfg(f)
    def _instr(m, s):
        ins = Instr(); ins.line = s; ins.dbg = None; ins.res = None
        d = re.search(r', !dbg !(\d+)', s)
        if d: ins.dbg = int(d.group(1))
        s = re.sub(r',\s*!.*$', '', s)
        mm = re.match(r'^(%(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = (.*)$', s)
        if mm: ins.res = mm.group(1).replace('"', ''); s = mm.group(2)
        p = P(tokenize(s), m); op = p.next(); ins.op = op; ins.ty = None
        if op in ('tail', 'musttail', 'notail'): op = ins.op = p.next()
        if op == 'alloca':
            p.acc('inalloca'); t = p.type(); n = None
            if p.acc(','):
                if p.peek() != 'align' and p.kind() != 'meta': nt = p.type(); n = p.value(nt)
            ins.a = (t, n)
        elif op == 'load':
            v = p.acc('volatile'); p.acc('atomic'); t = p.type(); p.exp(','); p.type(); ins.a = (t, p.value(('ptr',)), v)
        elif op == 'store':
            v = p.acc('volatile'); p.acc('atomic'); t = p.type(); x = p.value(t); p.exp(','); p.type(); ins.a = (t, x, p.value(('ptr',)), v)
        elif op == 'getelementptr':
            while p.peek() in ('inbounds', 'nuw', 'nusw'): p.next()
            t = p.type(); p.exp(','); p.type(); b = p.value(('ptr',)); idx = []
            while p.acc(','): it = p.type(); idx.append((it, p.value(it)))
            ins.a = (t, b, idx)
        elif op == 'call':
            while p.kind() == 'word' and p.peek() in ('fastcc', 'coldcc', 'nnan', 'fast', 'ccc'): p.next()
            p.attrs(); t = p.type(); 
            if t[0] == 'fn': t = t[1]
            callee = p.value(('ptr',)); p.exp('('); args = []
            while not p.acc(')'):
                at = p.type(); p.attrs()
                if at[0] == 'metadata':
                    d = 0
                    while not (d == 0 and p.peek() in (',', ')')):
                        x = p.next(); d += (x == '(') - (x == ')')
                    args.append((at, ('undef',)))
                else: args.append((at, p.value(at)))
                p.acc(',')
            ins.a = (t, callee, args); ins.ty = t
        elif op == 'br':
            if p.peek() == 'label': p.next(); ins.a = (None, p.next())
            else:
                t = p.type(); c = p.value(t); p.exp(','); p.exp('label'); x = p.next(); p.exp(','); p.exp('label'); ins.a = (c, x, p.next())
        elif op == 'switch':
            t = p.type(); c = p.value(t); p.exp(','); p.exp('label'); d = p.next(); p.exp('['); cs = []
            while not p.acc(']'):
                t2 = p.type(); v = p.value(t2); p.exp(','); p.exp('label'); cs.append((v, p.next()))
            ins.a = (t, c, d, cs)
        elif op == 'ret':
            t = p.type(); ins.a = (t, None if t[0] == 'void' else p.value(t))
        elif op == 'unreachable': ins.a = ()
        elif op == 'icmp':
            pr = p.next(); t = p.type(); a = p.value(t); p.exp(','); ins.a = (pr, t, a, p.value(t))
        elif op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            while p.peek() in ('nsw', 'nuw', 'exact', 'disjoint'): p.next()
            t = p.type(); a = p.value(t); p.exp(','); ins.a = (t, a, p.value(t))
        elif op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'fptosi', 'sitofp', 'uitofp', 'fpext', 'fptrunc', 'fptoui'):
            while p.peek() in ('nneg', 'nuw', 'nsw'): p.next()
            t = p.type(); a = p.value(t); p.exp('to'); ins.a = (t, a, p.type())
        elif op == 'phi':
            t = p.type(); inc = []
            while p.acc('['):
                v = p.value(t); p.exp(','); inc.append((v, p.next())); p.exp(']'); p.acc(',')
            ins.a = (t, inc)
        elif op == 'select':
            ct = p.type(); c = p.value(ct); p.exp(','); t = p.type(); a = p.value(t); p.exp(','); p.type(); ins.a = (c, t, a, p.value(t))
        elif op == 'freeze': t = p.type(); ins.a = (t, p.value(t))
        elif op == 'extractvalue':
            t = p.type(); v = p.value(t); ix = []
            while p.acc(','): ix.append(int(p.next()))
            ins.a = (t, v, ix)
        elif op == 'insertvalue':
            t = p.type(); v = p.value(t); p.exp(','); t2 = p.type(); x = p.value(t2); ix = []
            while p.acc(','): ix.append(int(p.next()))
            ins.a = (t, v, t2, x, ix)
        else: ins.a = None   # reported as unsupported if reached
        return ins
    def _cfg(m, f):
        succ = {}
        for b, ins in f.blocks.items():
            t = ins[-1]
            if t.op == 'br': succ[b] = [x for x in t.a[1:]]
            elif t.op == 'switch': succ[b] = [t.a[2]] + [x for _, x in t.a[3]]
            else: succ[b] = []
        preds = {b: [] for b in f.blocks}
        for b, ss in succ.items():
            for x in ss: preds[x].append(b)
        # dominators
        order = []; seen = set()
        st = [(f.entry, iter(succ[f.entry]))]; seen.add(f.entry)
        while st:
            b, it = st[-1]
            for x in it:
                if x not in seen: seen.add(x); st.append((x, iter(succ[x]))); break
            else: order.append(b); st.pop()
        order.reverse(); num = {b: i for i, b in enumerate(order)}
        dom = {f.entry: {f.entry}}
        ch = True
        while ch:
            ch = False
            for b in order:
                if b == f.entry: continue
                ds = [dom[q] for q in preds[b] if q in dom]
                d = set.intersection(*ds) | {b} if ds else {b}
                if dom.get(b) != d: dom[b] = d; ch = True
        loops = {}
        for b in order:
            for x in succ[b]:
                if x in dom[b]:
                    body = loops.setdefault(x, {x}); wl = [b]
                    while wl:
                        y = wl.pop()
                        if y in body: continue
                        body.add(y); wl.extend(q for q in preds[y] if q in num)
        f.loops = loops; f.preds = preds; f.header_of = num
        # liveness (registers live on entry to each block; phi uses attributed to predecessors)
        use = {}; df = {}; phiuse = {b: set() for b in f.blocks}
        def regs(x, out):
            if isinstance(x, tuple):
                if len(x) == 2 and x[0] == 'reg': out.add(x[1])
                else:
                    for y in x: regs(y, out)
            elif isinstance(x, list):
                for y in x: regs(y, out)
        phidef = {}
        for b, ins in f.blocks.items():
            u = set(); d = set(); pd = set()
            for i in ins:
                if i.op == 'phi':
                    for v, q in i.a[1]:
                        s = set(); regs(v, s)
                        if q in phiuse: phiuse[q] |= s
                    d.add(i.res); pd.add(i.res); continue
                s = set(); regs(i.a, s); u |= (s - d)
                if i.res: d.add(i.res)
            use[b] = u; df[b] = d; phidef[b] = pd
        live = {b: set() for b in f.blocks}   # live-in (after phis: includes phi results that are used)
        ch = True
        while ch:
            ch = False
            for b in reversed(order):
                out = set(phiuse[b])
                for x in succ[b]: out |= (live[x] - phidef[x])
                n = use[b] | (out - (df[b] - phidef[b]))
                # phi results count as live in when used in or after the block
                used = use[b] | out | {r for r in phidef[b]}
                n2 = (use[b] | (out - df[b])) | {r for r in phidef[b] if True}
                if n2 != live[b]: live[b] = n2; ch = True
        # refine: drop phi results never used anywhere below (keep simple: keep all)
        f.live = live
    # ---- locations
    def loc(m, n, fnname=None):
        if n is None: return None
        if n in m._loccache: return m._loccache[n]
        s = m.meta.get(n, ''); r = None
        mm = re.search(r'line: (\d+)', s); line = int(mm.group(1)) if mm else 0
        f = None; k = s; cnt = 0
        while cnt < 30:
            cnt += 1
            mm = re.search(r'file: !(\d+)', k)
            if mm: 
                q = re.search(r'filename: "([^"]*)"', m.meta.get(int(mm.group(1)), ''))
                f = q.group(1) if q else None; break
            mm = re.search(r'scope: !(\d+)', k)
            if not mm: break
            k = m.meta.get(int(mm.group(1)), '')
        m._loccache[n] = (f, line)
        return f, line
