"""Abstract interpreter over LLVM IR.

State = registers of the active frames x heap of regions x linear constraints.  A region is a sequence
of byte segments [lo,hi) with linear bounds; a segment's content is raw storage, a repeated scalar, or a
slice of a symbolic sequence (so one segment stands for any number of elements).  Linked lists and trees
are summarised by list segments and subtree summaries.  Loops are not unrolled: the state at a loop head
is generalised over the iteration count and shown inductive (see Loop acceleration)."""
import sys
from math import gcd
from num import *
sys.setrecursionlimit(20000)

class Undecided(Exception): pass
class Unsup(Exception): pass
class Malformed(Exception): pass
class Again(Exception): pass

# ------------------------------------------------------------------ values
class Ptr:
    __slots__ = ('b', 'o')
    def __init__(s, b, o=ZERO): s.b = b; s.o = o
    def __eq__(s, q): return isinstance(q, Ptr) and s.b == q.b and s.o == q.o
    def __ne__(s, q): return not s == q
    def __hash__(s): return hash((s.b, s.o))
    def __repr__(s): return '&%s%s' % ('/'.join(map(str, s.b)), '' if s.o == ZERO else '[%r]' % s.o)
NULL = Ptr(('null',))
class Tok:
    """an element value: position idx of symbolic sequence seq"""
    __slots__ = ('s', 'i')
    def __init__(s, q, i): s.s = q; s.i = L(i)
    def __eq__(s, q): return isinstance(q, Tok) and s.s == q.s and s.i == q.i
    def __ne__(s, q): return not s == q
    def __hash__(s): return hash((s.s, s.i))
    def __repr__(s): return '%s<%r>' % (s.s, s.i)
class Cond:
    """a truth value: op in ge,eq,ne applied to a Lin against 0"""
    __slots__ = ('op', 'l')
    def __init__(s, op, l): s.op = op; s.l = l
    def __eq__(s, q): return isinstance(q, Cond) and s.op == q.op and s.l == q.l
    def __ne__(s, q): return not s == q
    def __hash__(s): return hash((s.op, s.l))
    def neg(s):
        if s.op == 'ge': return Cond('ge', -s.l-1)
        return Cond('ne' if s.op == 'eq' else 'eq', s.l)
    def __repr__(s): return '(%r %s 0)' % (s.l, {'ge': '>=', 'eq': '==', 'ne': '!='}[s.op])
class PCond:
    """truth value of a pointer comparison that depends on how summaries unfold (op eq/ne)"""
    __slots__ = ('op', 'a', 'b')
    def __init__(s, op, a, b): s.op = op; s.a = a; s.b = b
    def neg(s): return PCond('ne' if s.op == 'eq' else 'eq', s.a, s.b)
    def __eq__(s, q): return isinstance(q, PCond) and (s.op, s.a, s.b) == (q.op, q.a, q.b)
    def __ne__(s, q): return not s == q
    def __hash__(s): return hash((s.op, s.a, s.b))
class OCond:
    """an unknown truth value (memoised oracle key)"""
    __slots__ = ('key', 'v')
    def __init__(s, key, v=True): s.key = key; s.v = v
    def neg(s): return OCond(s.key, not s.v)
    def __eq__(s, q): return isinstance(q, OCond) and (s.key, s.v) == (q.key, q.v)
    def __ne__(s, q): return not s == q
    def __hash__(s): return hash((s.key, s.v))
class Agg:
    __slots__ = ('e',)
    def __init__(s, e): s.e = tuple(e)
    def __eq__(s, q): return isinstance(q, Agg) and s.e == q.e
    def __ne__(s, q): return not s == q
    def __hash__(s): return hash(s.e)
    def __repr__(s): return 'agg%r' % (s.e,)
class _U:
    def __repr__(s): return 'undef'
UNDEF = _U()

# ------------------------------------------------------------------ regions
# content: None (raw) | ('v', esz, val) | ('s', esz, seq, i0, step) | ('z',)
class Region:
    __slots__ = ('kind', 'size', 'segs', 'alive', 'tag', 'name', 'align')
    def __init__(s, kind, size, segs, tag=None, name='', alive=True): s.kind = kind; s.size = size; s.segs = segs; s.tag = tag; s.name = name; s.alive = alive
    def copy(s): return Region(s.kind, s.size, s.segs, s.tag, s.name, s.alive)
    def __repr__(s): return '%s(%s %r%s)%r' % (s.kind, s.name, s.size, '' if s.alive else ' dead', s.segs)

class Seg:
    """list segment summary: len nodes, first..last; before = pointer that first.prev holds, after = pointer last.next holds"""
    __slots__ = ('lay', 'len', 'prev', 'next', 'seq', 'i0', 'step', 'tag')
    def __init__(s, lay, len_, prev, next_, seq, i0, step, tag): s.lay = lay; s.len = len_; s.prev = prev; s.next = next_; s.seq = seq; s.i0 = i0; s.step = step; s.tag = tag
    def copy(s): return Seg(s.lay, s.len, s.prev, s.next, s.seq, s.i0, s.step, s.tag)
    def __repr__(s): return 'lseg(len=%r %s[%r..] prev=%r next=%r)' % (s.len, s.seq, s.i0, s.prev, s.next)

class Tree:
    """subtree summary: root pointer denotes ('t', id); parent = value of root.parent; content = tuple of (seq, lo, hi) in order;
    h = height symbol (Lin), n = number of nodes (Lin); n==0 <=> root is null"""
    __slots__ = ('lay', 'parent', 'content', 'h', 'tag')
    def __init__(s, lay, parent, content, h, tag): s.lay = lay; s.parent = parent; s.content = content; s.h = h; s.tag = tag
    bh = False
    def copy(s): return Tree(s.lay, s.parent, s.content, s.h, s.tag)
    def count(s):
        n = ZERO
        for _, a, b in s.content: n = n + (b - a)
        return n
    def __repr__(s): return 'tree(%s h=%r parent=%r)' % (' '.join('%s[%r,%r)' % c for c in s.content), s.h, s.parent)

import itertools as _it
_rid = _it.count(1)

class State:
    __slots__ = ('frames', 'regs', 'R', 'S', 'T', 'alias', 'cons', 'exact', 'trace', 'why', 'mode', 'om', 'orc', 'defs', 'flags', 'steps')
    def __init__(s):
        s.frames = []; s.regs = {}; s.R = {}; s.S = {}; s.T = {}; s.alias = {}; s.cons = Cons(); s.exact = True; s.trace = (); s.why = (); s.mode = None
        s.om = {}; s.orc = {}; s.defs = frozenset(); s.flags = {}; s.steps = 0
    def fork(s):
        n = State.__new__(State)
        n.frames = s.frames; n.regs = dict(s.regs); n.R = dict(s.R); n.S = dict(s.S); n.T = dict(s.T); n.alias = s.alias; n.cons = s.cons.copy(); n.exact = s.exact
        n.trace = s.trace; n.why = s.why; n.mode = s.mode; n.om = s.om; n.orc = s.orc; n.defs = s.defs; n.flags = s.flags; n.steps = s.steps
        return n
    def inexact(s, why):
        if s.exact: s.exact = False; s.why = s.why + (why,)
    def new_region(s, kind, size, tag=None, name='', content=None):
        i = next(_rid); size = L(size)
        s.R[i] = Region(kind, size, ((ZERO, size, content),), tag, name); return i
    # constraint helpers
    def ge(s, l): s.cons.add_ge(L(l)); return not s.cons.bot
    def eq(s, l): s.cons.add_eq(L(l)); return not s.cons.bot
    def ne(s, l): s.cons.add_ne(L(l)); return not s.cons.bot
    def add(s, c):
        if c.op == 'ge': return s.ge(c.l)
        if c.op == 'eq': return s.eq(c.l)
        return s.ne(c.l)
    def ents(s, c):
        if c.op == 'ge': return s.cons.ent_ge(c.l)
        if c.op == 'eq': return s.cons.ent_eq(c.l)
        return s.cons.ent_ne(c.l)
    def split(s, c):
        """[(state, bool)] for a Cond; decided conditions do not fork"""
        l = s.cons.norm(c.l)
        if not l.t: return [(s, {'ge': l.c >= 0, 'eq': l.c == 0, 'ne': l.c != 0}[c.op])]
        if s.ents(c): return [(s, True)]
        n = c.neg()
        if s.ents(n): return [(s, False)]
        a = s.fork(); b = s.fork(); out = []
        if a.add(c): out.append((a, True))
        if b.add(n): out.append((b, False))
        return out
    def om_sym(s, key, mk):
        v = s.om.get(key)
        if v is None: s.om = dict(s.om); v = s.om[key] = mk()
        return v

def ldiv(l, n):
    """exact division of a Lin or None"""
    if l.c % n: return None
    for _, v in l.t:
        if v % n: return None
    return Lin(l.c//n, tuple((k, v//n) for k, v in l.t))

class Violation:
    def __init__(s, kind, msg, loc, model, trace, scen, stack): s.kind = kind; s.msg = msg; s.loc = loc; s.model = model; s.trace = trace; s.scen = scen; s.stack = stack

BIG = 1 << 40
import os as _os
DBG = _os.environ.get('DS_DBG')
THOROUGH = _os.environ.get('VERIF_TIER') == 'thorough' or '--thorough' in sys.argv

ESZ = 24   # sizeof(Elem) in the driver units
def is_int_seq(q): return isinstance(q, str) and q.startswith('#')

class Layout:
    """a list node or tree node type: byte offsets of the links and of the element"""
    def __init__(s, kind, size, next=None, prev=None, data=None, parent=None, left=None, right=None, height=None, dkind='E', extra=(), balanced=False):
        s.kind = kind; s.size = size; s.next = next; s.prev = prev; s.data = data; s.parent = parent; s.left = left; s.right = right; s.height = height; s.dkind = dkind; s.extra = extra; s.balanced = balanced
    def __repr__(s): return 'layout(%s,%d)' % (s.kind, s.size)

class Interp:
    def __init__(s, m, scen='', budget=60.0):
        s.m = m; s.scen = scen; s.viol = []; s.und = {}; s.nobl = 0; s.ndis = 0; s.seqs = {}; s.layouts = []
        s.calls = []; s.stats = {'instr': 0, 'loops': 0, 'unrolled': 0, 'paths': 0, 'callsites': set(), 'funcs': set()}
        s.depth = 0; s.tag = 'quick'; s.obl_kinds = {}
        import time
        s.time = time.time; s.deadline = time.time() + budget; s.cur = None; s.ends = []
        s.drops = {}; s.lays = {}; s.gl = {}; s.stack = []; s.rnames = {}; s.strict_leak = True; s.hooks = {}
    # -------------------------------------------------------------- reporting
    def where(s, ins):
        if ins is None: return '?'
        l = s.m.loc(ins.dbg)
        return '%s:%s' % (l[0], l[1]) if l else '?'
    def obl(s, kind, ok):
        s.nobl += 1; s.obl_kinds[kind] = s.obl_kinds.get(kind, 0) + 1
        if ok: s.ndis += 1
    def fail(s, st, kind, msg, ins=None):
        """an obligation fails in state st (its constraints describe the failing inputs)"""
        ins = ins or s.cur
        if st.cons.bot: return
        if st.exact:
            q = s.feasible_trees(st) if st.T else st
            if q is None: return
            mdl = q.cons.model()
            if mdl is not None:
                names = {symname(k): v for k, v in mdl.items() if not symname(k).startswith(('k', 'u', 'q'))}
                s.viol.append(Violation(kind, msg, s.where(ins), {a: b for a, b in sorted(names.items()) if b is not None}, st.trace[-14:], s.scen, list(s.stack)))
                return
            s.undec('no small witness for: ' + msg + ' at ' + s.where(ins)); return
        s.undec('possible: %s at %s (inexact: %s)' % (msg, s.where(ins), '; '.join(st.why[:2])))
    def feasible_trees(s, st):
        """a state whose height-balanced subtrees have element counts such trees can have, or None"""
        MIN = [0, 1, 2, 4, 7, 12, 20, 33, 54, 88, 143, 232]
        def go(st, todo, depth):
            if st.cons.bot: return None
            if not todo: return st
            q = st.T[todo[0]]; k = q.count()
            for h in range(0, 8):
                z = st.fork()
                if z.eq(q.h - h) and z.ge(k - MIN[h]) and z.ge(L(2**h - 1) - k):
                    r = go(z, todo[1:], depth + 1)
                    if r is not None: return r
            return None
        ts = [i for i, q in st.T.items() if q.h is not None]
        return go(st, ts, 0) if ts else st
    def undec(s, why):
        s.und[why] = s.und.get(why, 0) + 1
    # -------------------------------------------------------------- whole-state substitution
    def map_ptrs(s, st, fn):
        """rewrite every pointer of the state with fn(Ptr)->Ptr"""
        def mv(v):
            if isinstance(v, Ptr): return fn(v)
            if isinstance(v, Agg): return Agg(mv(x) for x in v.e)
            return v
        st.regs = {k: (mv(v) if isinstance(v, (Ptr, Agg)) else v) for k, v in st.regs.items()}
        st.frames = [{k: (mv(v) if isinstance(v, (Ptr, Agg)) else v) for k, v in fr.items()} for fr in st.frames]
        for i, r in list(st.R.items()):
            ch = False; segs = []
            for lo, hi, c in r.segs:
                if c is not None and c[0] == 'v' and isinstance(c[2], Ptr):
                    n = fn(c[2])
                    if n is not c[2]: c = ('v', c[1], n); ch = True
                segs.append((lo, hi, c))
            if ch: r = r.copy(); r.segs = tuple(segs); st.R[i] = r
        for i, q in list(st.S.items()):
            a = fn(q.prev) if q.prev is not None else None; b = fn(q.next) if q.next is not None else None
            if a is not q.prev or b is not q.next: q = q.copy(); q.prev = a; q.next = b; st.S[i] = q
        for i, q in list(st.T.items()):
            a = fn(q.parent) if isinstance(q.parent, Ptr) else q.parent
            if a is not q.parent: q = q.copy(); q.parent = a; st.T[i] = q
        fl = None
        for k, v in st.flags.items():
            if isinstance(v, Ptr):
                n = fn(v)
                if n is not v:
                    if fl is None: fl = dict(st.flags)
                    fl[k] = n
        if fl is not None: st.flags = fl
    def subst_base(s, st, base, ptr):
        s.map_ptrs(st, lambda p: Ptr(ptr.b, ptr.o + p.o) if p.b == base else p)
    # -------------------------------------------------------------- summaries
    def drop_empty_seg(s, st, i):
        q = st.S.pop(i)
        nx = q.next; pv = q.prev
        # First -> next ; Last -> prev (resolve self references)
        s.subst_base(st, ('sf', i), nx if nx is not None else NULL)
        if pv is not None: s.subst_base(st, ('sl', i), pv)
    def unfold(s, st, p):
        """make the summarised object p points to explicit; returns successor states"""
        k = p.b[0]
        if k in ('sf', 'sl'): return s.unfold_seg(st, p.b[1], k == 'sf')
        if k == 't': return s.unfold_tree(st, p.b[1])
        raise Unsup('unfold %r' % (p,))
    def unfold_seg(s, st, i, first):
        q = st.S[i]; out = []
        for st2, nonempty in st.split(Cond('ge', q.len - 1)):
            if not nonempty:
                if q.prev is None and any(True for _ in s.refs(st2, ('sl', i))): raise Unsup('last of an empty segment without predecessor')
                s.drop_empty_seg(st2, i); out.append(st2); continue
            lay = q.lay; N = st2.new_region('heap', lay.size, q.tag, 'node'); pn = Ptr(('r', N))
            r = q.copy(); r.len = q.len - 1
            step = q.step if q.step is not None else 0
            if first:
                idx = q.i0; r.i0 = q.i0 + step; nextv = Ptr(('sf', i)); prevv = q.prev
                base = ('sf', i)
            else:
                idx = q.i0 + (q.len - 1) * step if not isinstance(step, int) or step else q.i0
                nextv = q.next; prevv = Ptr(('sl', i)); base = ('sl', i)
            s.subst_base(st2, base, pn)     # old references now mean the node
            if first: r.prev = pn; r.next = st2.S[i].next
            else: r.next = pn; r.prev = st2.S[i].prev
            st2.S[i] = r
            cells = [(lay.next, 8, ('v', 8, nextv if nextv is not None else NULL))]
            if lay.prev is not None: cells.append((lay.prev, 8, ('v', 8, prevv)))
            if lay.dkind == 'E': cells.append((lay.data, ESZ, ('s', ESZ, q.seq, idx, None)))
            st2.R[N].segs = s.mksegs(lay.size, cells)
            out.append(st2)
        return out
    def tree_empty(s, st, i):
        """the subtree i is empty from here on"""
        q = st.T[i]
        if not st.eq(q.count()) or q.h is not None and not st.eq(q.h): return False
        del st.T[i]; s.subst_base(st, ('t', i), NULL); return True
    def tree_full(s, st, i):
        q = st.T[i]
        return st.ge(q.count() - 1) and (q.h is None or st.ge(q.h - 1)) and not (q.bh and s.bh_bad(st, q))
    def tree_nonempty(s, st, i):
        """None if subtree i is known to hold a node, else successor states"""
        q = st.T[i]
        if st.cons.ent_ge(q.count() - 1): return None
        out = []; a = st.fork(); b = st.fork()
        if s.tree_full(a, i): out.append(a)
        if s.tree_empty(b, i): out.append(b)
        return out
    def unfold_tree(s, st, i):
        out = []; q = st.T[i]
        if not st.cons.ent_ge(q.count() - 1):
            e = st.fork()
            if s.tree_empty(e, i): out.append(e)
            st = st.fork()
            if not s.tree_full(st, i): return out
        lay = q.lay
        for n, (sq, a, b) in enumerate(q.content):
            st2 = st.fork()
            if not st2.ge(b - a - 1): continue
            if st2.cons.ent_eq(b - a - 1): m = a
            else:
                m = sym('m')
                if not st2.ge(m - a) or not st2.ge(b - m - 1): continue
            l, r = next(_rid), next(_rid); N = st2.new_region('heap', lay.size, q.tag, 'node'); pn = Ptr(('r', N)); s.rnames[N] = 'tree node'
            lc = q.content[:n] + ((sq, a, m),); rc = ((sq, m + 1, b),) + q.content[n+1:]
            hl = hr = None
            if q.h is not None:
                hl, hr = sym('hl'), sym('hr')
                for c in (hl, hr, q.h - 1 - hl, q.h - 1 - hr): st2.ge(c)
                if lay.balanced:
                    for c in (hl - hr + 1, hr - hl + 1, hl + hr - q.h * 2 + 3): st2.ge(c)
                else: raise Unsup('height of an unbalanced tree')
            par = s.mp1(q.parent, ('t', i), pn)
            del st2.T[i]
            st2.T[l] = Tree(lay, pn, lc, hl, q.tag); st2.T[r] = Tree(lay, pn, rc, hr, q.tag)
            ok = True
            for x in (l, r):
                t = st2.T[x]
                if t.h is not None and not st2.ge(t.count() - t.h): ok = False
                elif not st2.ge(t.count()): ok = False
            if not ok or st2.cons.bot: continue
            cells = [(lay.parent, 8, ('v', 8, par)), (lay.left, 8, ('v', 8, Ptr(('t', l)))), (lay.right, 8, ('v', 8, Ptr(('t', r)))), (lay.data, ESZ, ('s', ESZ, sq, m, None))]
            if lay.height is not None: cells.append((lay.height, 4, ('v', 4, q.h)))
            for off, sq2 in lay.extra: cells.append((off, ESZ, ('s', ESZ, sq2, m, None)))
            st2.R[N].segs = s.mksegs(lay.size, cells)
            s.subst_base(st2, ('t', i), pn)
            for x in (l, r):
                t = st2.T[x]; k = t.count()
                if st2.cons.ent_ge(-k): s.tree_empty(st2, x)
            if not st2.cons.bot: out.append(st2)
        return out
    def mp1(s, p, base, ptr): return Ptr(ptr.b, ptr.o + p.o) if isinstance(p, Ptr) and p.b == base else p
    def bh_bad(s, st, q): return False
    # what is the tree at pointer p?  -> ('bad', why) | (pieces, height, visited node regions, summaries)
    def tree_shape(s, st, lay, p, parent, seen):
        if p.b == ('null',) and p.o == ZERO: return (), ZERO
        if p.b[0] == 't':
            q = st.T.get(p.b[1])
            if q is None or p.o != ZERO: raise Malformed('a child link leads nowhere')
            if ('t', p.b[1]) in seen: raise Malformed('a subtree is reachable twice')
            seen.add(('t', p.b[1]))
            if not (isinstance(q.parent, Ptr) and q.parent == parent):
                r = s.tree_nonempty(st, p.b[1])
                if r is not None: raise Again(r)
                raise Malformed('the parent link of a child does not lead back')
            return q.content, q.h
        if p.b[0] != 'r' or p.o != ZERO: raise Malformed('a child link leads nowhere')
        n = p.b[1]
        if n not in st.R: raise Malformed('a child link leads to released storage')
        if n in seen: raise Malformed('a node is reachable twice')
        seen.add(n); r = st.R[n]; cell = {}
        for lo, hi, c in r.segs:
            if not lo.t: cell[lo.c] = c
        def ptr(o):
            c = cell.get(o)
            if c is None or c[0] not in ('v', 'z'): raise Malformed('a link of a node is not set')
            v = NULL if c[0] == 'z' else c[2]
            if isinstance(v, Lin) and st.cons.norm(v) == ZERO: v = NULL
            if not isinstance(v, Ptr): raise Malformed('a link of a node is not set')
            return v
        if ptr(lay.parent) != parent: raise Malformed('the parent link of a node does not lead to its parent')
        lp, lh = s.tree_shape(st, lay, ptr(lay.left), p, seen)
        d = cell.get(lay.data)
        if not s.live_elem(d): raise Malformed('a node holds no element')
        for off, sq2 in lay.extra:
            e = cell.get(off)
            if not s.live_elem(e): raise Malformed('a node holds no value')
            s.exts.append((d, e, sq2))
        rp, rh = s.tree_shape(st, lay, ptr(lay.right), p, seen)
        h = None
        if lay.balanced:
            cc = cell.get(lay.height) if lay.height is not None else None
            if cc is not None and cc[0] == 'v' and isinstance(cc[2], Lin) and st.cons.ent_ge(cc[2] - lh - 1) and st.cons.ent_ge(cc[2] - rh - 1) and not st.cons.sat_with(cc[2] - lh - 2, cc[2] - rh - 2): h = cc[2]
            else:
                dd = st.split(Cond('ge', lh - rh))
                if len(dd) > 1: raise Again([x for x, _ in dd])
                h = (lh if dd[0][1] else rh) + 1
            s.hts.append((p, lh, rh, h, cc))
        return lp + ((d[2], d[3], d[3] + 1),) + rp, h
    def mksegs(s, size, cells):
        cells = sorted(cells, key=lambda c: c[0]); out = []; at = 0
        for o, n, c in cells:
            if o > at: out.append((L(at), L(o), None))
            out.append((L(o), L(o+n), c)); at = o + n
        if at < size: out.append((L(at), L(size), None))
        return tuple(out)
    def refs(s, st, base):
        for k, v in st.regs.items():
            if isinstance(v, Ptr) and v.b == base: yield ('reg', k)
            elif isinstance(v, Agg):
                for x in v.e:
                    if isinstance(x, Ptr) and x.b == base: yield ('reg', k)
        for n, fr in enumerate(st.frames):
            for k, v in fr.items():
                if isinstance(v, Ptr) and v.b == base: yield ('frame', n, k)
        for i, r in st.R.items():
            for j, (lo, hi, c) in enumerate(r.segs):
                if c is not None and c[0] == 'v' and isinstance(c[2], Ptr) and c[2].b == base: yield ('R', i, lo)
        for i, q in st.S.items():
            if q.prev is not None and q.prev.b == base: yield ('S', i, 'prev')
            if q.next is not None and q.next.b == base: yield ('S', i, 'next')
        for i, q in st.T.items():
            if isinstance(q.parent, Ptr) and q.parent.b == base: yield ('T', i, 'parent')
        for k, v in st.flags.items():
            if isinstance(v, Ptr) and v.b == base: yield ('flag', k)
    # -------------------------------------------------------------- memory
    def content_at(s, c, lo, x):
        """content c of a segment starting at lo, seen from x"""
        if c is None or c[0] in ('z',): return c
        if c[0] == 'v': return c
        if c[0] == 's':
            if c[4] == 0 or x == lo: return c
            d = ldiv(x - lo, c[1])
            if d is None: raise Unsup('slice split inside an element: %r' % (x - lo,))
            return ('s', c[1], c[2], c[3] + d * (1 if c[4] is None else c[4]), c[4])
        raise Unsup('content')
    def locate(s, st, rid, off, size, ins, write=False):
        """[(state, j)] with [off,off+size) inside segment j of the region; out-of-bounds is a violation"""
        r = st.R[rid]; out = []
        off = st.cons.norm(off)
        # bounds
        ok = True
        for c, what in ((Cond('ge', off), 'before the start of'), (Cond('ge', r.size - off - size), 'past the end of')):
            if st.ents(c): s.obl('bounds', True); continue
            s.obl('bounds', False)
            b = st.fork()
            if b.add(c.neg()): s.fail(b, 'mem', '%s %d byte(s) %s %s (offset %r, size %r)' % ('write of' if write else 'read of', size, what, r.name or r.kind, st.cons.norm(off), st.cons.norm(r.size)), ins)
            st = st.fork()
            if not st.add(c): return []
        todo = [st]; res = []
        for j, (lo, hi, c) in enumerate(st.R[rid].segs):
            nxt = []
            for q in todo:
                for q2, before in q.split(Cond('ge', off - hi)):
                    if before: nxt.append(q2)
                    else: res.append((q2, j))
            todo = nxt
            if not todo: break
        return res
    def getseg(s, st, rid, off, size, ins, write=False):
        """like locate but also guarantees containment; joins adjacent raw/zero segments if needed. [(state, j)]"""
        out = []
        for q, j in s.locate(st, rid, off, size, ins, write):
            lo, hi, c = q.R[rid].segs[j]
            if not q.cons.ent_ge(off - lo): raise Unsup('locate')
            for q2, inside in q.split(Cond('ge', hi - off - size)):
                if inside: out.append((q2, j))
                else: out.append((q2, None))
        return out
    def isolate(s, st, rid, off, size, ins, write=True):
        """split segments so that [off,off+size) is a whole number of segments; [(state, j0, j1)]"""
        out = []
        for q, j in s.locate(st, rid, off, size, ins, write):
            todo = [(q, j)]
            while todo:
                q2, j1 = todo.pop()
                segs = q2.R[rid].segs
                if j1 >= len(segs): raise Unsup('isolate past end')
                hi = segs[j1][1]
                for q3, inside in q2.split(Cond('ge', hi - off - size)):
                    if not inside: todo.append((q3, j1 + 1)); continue
                    r = q3.R[rid].copy(); sg = list(r.segs)
                    lo0, hi0, c0 = sg[j]; lo1, hi1, c1 = sg[j1]
                    end = off + size
                    new = sg[:j]
                    a = []
                    if not q3.cons.ent_eq(off - lo0): a.append((lo0, off, c0))
                    mid = []
                    for t in range(j, j1 + 1):
                        lo, hi2, c = sg[t]
                        b = off if t == j else lo
                        e = end if t == j1 else hi2
                        mid.append((b, e, s.content_at(c, lo, b) if t == j else c))
                    z = []
                    if not q3.cons.ent_eq(end - hi1): z.append((end, hi1, s.content_at(c1, lo1, end)))
                    r.segs = tuple(new + a + mid + z + sg[j1+1:]); q3.R[rid] = r
                    j0 = len(new) + len(a)
                    out.append((q3, j0, j0 + len(mid)))
        return out
    def same_bound(s, st, a, b): return a == b or st.cons.ent_eq(a - b)
    def coalesce(s, st, rid, j):
        """merge segment j with its neighbours where the contents join up"""
        r = st.R[rid]
        small = r.kind == 'stack' and not r.size.t and r.size.c <= 512 and all(not lo.t for lo, _, _ in r.segs)
        if small and not any(c is not None and c[0] == 's' for _, _, c in r.segs): return
        sg = list(r.segs)
        def join(x, y):
            lo1, hi1, c1 = x; lo2, hi2, c2 = y
            if small and (c1 is None or c2 is None or c1[0] != 's'): return None
            if c1 is None and c2 is None: return (lo1, hi2, None)
            if c1 is None or c2 is None: return None
            if c1[0] == 'z' and c2[0] == 'z': return (lo1, hi2, c1)
            if c1[0] == 'v' and c2[0] == 'v' and r.kind != 'stack' and not isinstance(c1[2], Ptr) and c1[1] == c2[1] and c1[1] < ESZ and c1[2] == c2[2]: return (lo1, hi2, c1)
            if c1[0] == 'v' and c2[0] == 'v' and c1[1] == c2[1] and isinstance(c1[2], Ptr) and c1[2] == c2[2] and r.kind != 'stack' and rid in st.flags.get('ptrarrays', ()): return (lo1, hi2, c1)
            if c1[0] == 's' and c2[0] == 's' and c1[1] == c2[1] and c1[2] == c2[2]:
                n1 = ldiv(hi1 - lo1, c1[1]); n2 = ldiv(hi2 - lo2, c2[1])
                if n1 is None or n2 is None: return None
                for step in (1, 0):
                    if c1[4] in (None, step) and c2[4] in (None, step):
                        if c1[4] is None and n1 != ONE: continue
                        if st.cons.ent_eq(c1[3] + n1 * step - c2[3]): return (lo1, hi2, ('s', c1[1], c1[2], c1[3], step))
            return None
        ch = False; j = min(j, len(sg) - 1)
        while j + 1 < len(sg):
            n = join(sg[j], sg[j+1])
            if n is None: break
            sg[j:j+2] = [n]; ch = True
        while j > 0:
            n = join(sg[j-1], sg[j])
            if n is None: break
            sg[j-1:j+1] = [n]; j -= 1; ch = True
        if ch: r = r.copy(); r.segs = tuple(sg); st.R[rid] = r
    def target(s, st, p, ins, what):
        """classify a pointer about to be dereferenced: ('ok', rid) | ('retry', states) | ('dead',)"""
        if not isinstance(p, Ptr):
            s.obl('deref', False); s.fail(st, 'mem', '%s through an indeterminate pointer' % what, ins); return ('dead',)
        k = p.b[0]
        if k == 'r':
            if p.b[1] not in st.R:
                s.obl('lifetime', False); s.fail(st, 'mem', '%s storage that has been released (%s)' % (what, s.rnames.get(p.b[1], 'block')), ins); return ('dead',)
            s.obl('deref', True); return ('ok', p.b[1])
        if k == 'null':
            s.obl('deref', False); s.fail(st, 'mem', '%s through a null pointer' % what, ins); return ('dead',)
        if k in ('sf', 'sl', 't'): return ('retry', s.unfold(st, p))
        if k == 'glob': return ('ok', s.glob_region(st, p.b[1]))
        raise Unsup('deref %r' % (p,))
    def glob_region(s, st, g):
        rid = s.gl.get(g)
        if rid is None: rid = s.gl[g] = next(_rid); s.rnames[rid] = g
        if rid not in st.R:
            d = s.m.globals.get(g)
            if d is None or d[0] != 'var': raise Unsup('global ' + g)
            sz = s.m.size(d[1]); r = Region('glob', L(sz), s.init_segs(d[1], d[2]), None, g); st.R[rid] = r
        return rid
    def init_segs(s, t, init):
        m = s.m; cells = []
        def put(t, v, o):
            t = m.resolve(t)
            if v is None or v[0] == 'undef': return
            if v[0] == 'zero': cells.append((o, m.size(t), ('z',))); return
            if v[0] == 'cstr':
                b = s.cbytes(v[1])
                for i, x in enumerate(b): cells.append((o+i, 1, ('v', 1, L(x))))
                return
            if v[0] == 'agg':
                if t[0] == 'arr':
                    e = m.size(t[2])
                    for i, (et, ev) in enumerate(v[1]): put(t[2], ev, o + i*e)
                else:
                    for i, (et, ev) in enumerate(v[1]):
                        fo, ft = m.field(t, i); put(ft, ev, o + fo)
                return
            cells.append((o, m.size(t), ('v', m.size(t), s.const(v, t))))
        put(t, init, 0)
        return s.mksegs(m.size(t), cells)
    def cbytes(s, q):
        out = []; i = 0
        while i < len(q):
            if q[i] == '\\': out.append(int(q[i+1:i+3], 16)); i += 3
            else: out.append(ord(q[i])); i += 1
        return out
    def const(s, v, t=None):
        k = v[0]
        if k == 'int': return L(v[1])
        if k == 'null': return NULL
        if k == 'undef': return UNDEF
        if k == 'glob':
            return Ptr(('fn', v[1])) if (v[1] in s.m.fns or v[1] in s.m.decls) else Ptr(('glob', v[1]))
        if k == 'zero':
            t = s.m.resolve(t)
            if t[0] == 'ptr': return NULL
            if t[0] in ('struct', 'pstruct'): return Agg(s.const(('zero', f), f) for f in t[1])
            return ZERO
        if k == 'cgep':
            b = s.const(v[2]); o = ZERO; ty = v[1]
            for n, (it, iv) in enumerate(v[3]):
                i = iv[1]
                if n == 0: o = o + i * s.m.size(ty)
                else:
                    rt = s.m.resolve(ty)
                    if rt[0] in ('struct', 'pstruct'): fo, ty = s.m.field(rt, i); o = o + fo
                    else: ty = rt[2]; o = o + i * s.m.size(ty)
            return Ptr(b.b, b.o + o)
        if k == 'cast':
            x = s.const(v[3], v[2])
            if v[1] == 'inttoptr' and isinstance(x, Lin) and x == ZERO: return NULL
            return x
        if k == 'agg': return Agg(s.const(x, tt) for tt, x in v[1])
        raise Unsup('const %r' % (v,))
    # typed reads and writes; results are [(state, value)] / [state]
    def rd(s, st, rid, off, size, ins, want='any'):
        out = []
        for q, j in s.getseg(st, rid, off, size, ins):
            if j is None:
                out += s.rd_multi(q, rid, off, size, ins); continue
            lo, hi, c = q.R[rid].segs[j]
            if c is None:
                out.append((q, UNDEF)); continue
            if c[0] == 'z': out.append((q, ZERO)); continue
            if c[0] == 'v':
                if c[1] == size:
                    d = ldiv(off - lo, size)
                    if d is None: raise Unsup('misaligned scalar read')
                    out.append((q, c[2])); continue
                if isinstance(c[2], Lin) and c[2] == ZERO: out.append((q, ZERO)); continue
                if isinstance(c[2], Lin) and size < c[1] and q.cons.ent_eq(off - lo):   # little endian prefix
                    v = c[2]
                    if q.cons.ent_ge(v) and q.cons.ent_ge((1 << (8*size-1)) - 1 - v): out.append((q, v)); continue
                if c[2] is UNDEF: out.append((q, UNDEF)); continue
                raise Unsup('partial read of a scalar')
            if c[0] == 's':
                if c[2] == '#own': s.obl('foreign', False); s.fail(q, 'mem', 'reads memory that has been handed out', ins); continue
                if c[1] != size: raise Unsup('partial read of an element')
                cc = s.content_at(c, lo, off)
                if is_int_seq(c[2]): out += s.seq_int(q, c[2], cc[3], ins)
                else: out.append((q, Tok(c[2], cc[3])))
                continue
            raise Unsup('read')
        return out
    def rd_multi(s, q, rid, off, size, ins):
        segs = q.R[rid].segs
        cov = [c for lo, hi, c in segs if not q.cons.ent_ge(off - hi) and not q.cons.ent_ge(lo - off - size)]
        if cov and all(c is None for c in cov): return [(q, UNDEF)]
        if cov and all(c is not None and (c[0] == 'z' or (c[0] == 'v' and c[2] == ZERO)) for c in cov): return [(q, ZERO)]
        if any(c is None for c in cov) and all(c is None or c[0] in ('v', 'z') for c in cov): return [(q, UNDEF)]
        raise Unsup('read across segments')
    def seq_int(s, st, seq, idx, ins):
        """integer at position idx of an int sequence; characters of a C string are not NUL"""
        info = s.seqs.get(seq); idx = st.cons.norm(idx); v = None
        for kk, vv in st.om.items():
            if kk[0] == 'int' and kk[1] == seq and st.cons.ent_eq(kk[2] - idx): v = vv; break
        if v is None:
            # the same position may already have been looked at under another name
            for kk in list(st.om):
                if kk[0] == 'int' and kk[1] == seq and not st.cons.ent_ne(kk[2] - idx):
                    return [x for q, _ in st.split(Cond('eq', kk[2] - idx)) for x in s.seq_int(q, seq, idx, ins)]
            v = sym('val'); st.om = dict(st.om); st.om[('int', seq, idx)] = v
            st.ge(v + 128); st.ge(L(127) - v)
            st.defs = st.defs | {v.t[0][0]}
            st.flags = dict(st.flags); st.flags[('src', v.t[0][0])] = (seq, idx, 1)
        if info and info[0] == 'cstr' and not st.ne(v): return []
        return [(st, v)]
    def wr(s, st, rid, off, size, content, ins):
        out = []
        for q, j0, j1 in s.isolate(st, rid, off, size, ins):
            for lo, hi, c in q.R[rid].segs[j0:j1]:
                if c is not None and c[0] == 's' and c[2] == '#own':
                    b = q.fork()
                    if b.ge(hi - lo - 1): s.obl('foreign', False); s.fail(b, 'mem', 'writes to memory that has been handed out', ins)
                    if not q.eq(hi - lo): break
                    continue
                if s.live_elem(c) and not (content is not None and content[0] == 's' and not is_int_seq(content[2])):
                    s.fail(q, 'life', 'storage of a live element is overwritten', ins)
            if q.cons.bot: continue
            r = q.R[rid].copy(); r.segs = r.segs[:j0] + ((off, off + size, content),) + r.segs[j1:]
            q.R[rid] = r; s.coalesce(q, rid, j0); out.append(q)
        return out
    def live_elem(s, c): return c is not None and c[0] == 's' and c[1] == ESZ and not is_int_seq(c[2])
    # -------------------------------------------------------------- elements
    def el_read(s, st, p, ins, what='reads'):
        """[(state, Tok)] ; None entries are handled (violations)"""
        k = s.target(st, p, ins, what)
        if k[0] == 'dead': return []
        if k[0] == 'retry': return [('retry', x) for x in k[1]]
        out = []
        for q, v in s.rd(st, k[1], p.o, ESZ, ins):
            if isinstance(v, Tok): s.obl('element', True); out.append((q, v))
            elif v is UNDEF: s.obl('element', False); s.fail(q, 'uninit', '%s an element that is not alive (raw or destroyed storage)' % what, ins)
            else: raise Unsup('element read gives %r' % (v,))
        return out
    def el_write(s, st, p, tok, ins, how):
        """how: 'ctor' (storage must be raw), 'asg' (element must be alive), 'dtor'"""
        k = s.target(st, p, ins, {'ctor': 'constructs an element in', 'asg': 'assigns to an element in', 'dtor': 'destroys an element in'}[how])
        if k[0] == 'dead': return []
        if k[0] == 'retry': return [('retry', x) for x in k[1]]
        out = []
        for q, j0, j1 in s.isolate(st, k[1], p.o, ESZ, ins):
            cs = [c for _, _, c in q.R[k[1]].segs[j0:j1]]
            live = len(cs) == 1 and s.live_elem(cs[0])
            some = any(s.live_elem(c) for c in cs)
            if how == 'ctor':
                s.obl('element', not some)
                if some: s.fail(q, 'life', 'constructs an element over a live one (%r)' % (cs[0][2:4],), ins)
            else:
                s.obl('element', live)
                if not live:
                    s.fail(q, 'life' if how == 'dtor' else 'uninit', '%s an element that is not alive (raw or already destroyed storage)' % ('destroys' if how == 'dtor' else 'assigns to'), ins); continue
            r = q.R[k[1]].copy()
            r.segs = r.segs[:j0] + ((p.o, p.o + ESZ, None if how == 'dtor' else ('s', ESZ, tok.s, tok.i, None)),) + r.segs[j1:]
            q.R[k[1]] = r; s.coalesce(q, k[1], j0); out.append((q, None))
        return out
    # -------------------------------------------------------------- copying raw ranges
    def copy_range(s, st, dst, src, n, ins):
        """memcpy/memmove of n bytes (elements are never copied this way in a correct container)"""
        if st.cons.ent_eq(L(n)): return [st]
        k1 = s.target(st, src, ins, 'reads')
        if k1[0] == 'dead': return []
        if k1[0] == 'retry': return [('retry', x) for x in k1[1]]
        k2 = s.target(st, dst, ins, 'writes')
        if k2[0] == 'dead': return []
        if k2[0] == 'retry': return [('retry', x) for x in k2[1]]
        out = []
        for q, j0, j1 in s.isolate(st, k1[1], src.o, n, ins, False):
            pieces = [(lo - src.o + dst.o, hi - src.o + dst.o, c) for lo, hi, c in q.R[k1[1]].segs[j0:j1]]
            if any(s.live_elem(c) for _, _, c in pieces): s.fail(q, 'life', 'an element is copied byte by byte without its copy constructor', ins)
            for q2, a, b in s.isolate(q, k2[1], dst.o, n, ins):
                for _, _, c in q2.R[k2[1]].segs[a:b]:
                    if s.live_elem(c): s.fail(q2, 'life', 'storage of a live element is overwritten', ins)
                r = q2.R[k2[1]].copy(); r.segs = r.segs[:a] + tuple(pieces) + r.segs[b:]; q2.R[k2[1]] = r
                s.coalesce(q2, k2[1], a); out.append(q2)
        return out
    # -------------------------------------------------------------- typed load / store
    def load(s, st, t, p, ins):
        """[(state, value)] or ('retry', state) entries"""
        t = s.m.resolve(t)
        if t[0] in ('struct', 'pstruct'):
            res = [(st, [])]
            for i in range(len(t[1])):
                o, ft = s.m.field(t, i); nx = []
                for q, vs in res:
                    for e in s.load(q, ft, Ptr(p.b, p.o + o), ins):
                        if e[0] == 'retry': return [('retry', x) for x in [e[1]]] if len(res) == 1 and not vs else (_ for _ in ()).throw(Unsup('retry in aggregate'))
                        nx.append((e[0], vs + [e[1]]))
                res = nx
            return [(q, Agg(v)) for q, v in res]
        k = s.target(st, p, ins, 'reads')
        if k[0] == 'dead': return []
        if k[0] == 'retry': return [('retry', x) for x in k[1]]
        return s.rd(st, k[1], p.o, s.m.size(t), ins)
    def store(s, st, t, v, p, ins):
        t = s.m.resolve(t)
        if isinstance(v, Agg):
            res = [st]
            for i in range(len(t[1])):
                o, ft = s.m.field(t, i); nx = []
                for q in res:
                    for e in s.store(q, ft, v.e[i], Ptr(p.b, p.o + o), ins):
                        if isinstance(e, tuple): raise Unsup('retry in aggregate')
                        nx.append(e)
                res = nx
            return res
        k = s.target(st, p, ins, 'writes')
        if k[0] == 'dead': return []
        if k[0] == 'retry': return [('retry', x) for x in k[1]]
        sz = s.m.size(t); r = st.R[k[1]]
        if r.kind == 'ext' or (r.kind == 'glob' and s.m.globals.get(r.name, (0, 0, 0, False))[3]): s.fail(st, 'mem', 'writes read-only or caller-owned storage', ins)
        if v is UNDEF: c = None if t[0] != 'ptr' else ('v', sz, UNDEF)
        elif isinstance(v, Lin):
            c = ('v', sz, v)
            nv = st.cons.norm(v)
            if not nv.t: c = ('v', sz, nv)
            elif len(v.t) == 1 and v.c == 0 and v.t[0][1] == 1:
                src = st.flags.get(('src', v.t[0][0]))
                if src and src[2] == sz: c = ('s', sz, src[0], src[1], None)
        else: c = ('v', sz, v)
        return s.wr(st, k[1], p.o, sz, c, ins)
    # -------------------------------------------------------------- integer operations
    RANGE = {8: 128, 16: 1 << 15, 32: 1 << 31, 64: 1 << 63}
    def quot(s, st, x, n):
        """floor quotient of x >= 0 by n as a memoised symbol"""
        x = st.cons.norm(x)
        if not x.t: return L(x.c // n)
        d = ldiv(x, n)
        if d is not None: return d
        key = ('quot', x, n); v = st.om.get(key)
        if v is None:
            v = sym('q'); st.om = dict(st.om); st.om[key] = v; st.defs = st.defs | {v.t[0][0]}
            st.ge(x - v*n); st.ge(v*n + (n-1) - x)
        return v
    def vrange(s, st, x, cap=1 << 21):
        """bounds entailed for x: (lo, hi), None where beyond cap"""
        def lowest(x):
            if not st.cons.ent_ge(x + cap): return None
            lo, hi = -cap, cap          # x >= lo holds
            while lo < hi:
                m = (lo + hi + 1) // 2
                if st.cons.ent_ge(x - m): lo = m
                else: hi = m - 1
            return lo
        a = lowest(x); b = lowest(-x)
        return a, None if b is None else -b
    def enum(s, st, xs, f, why, bits, n=16):
        """nonlinear operation: exact on each of a few values of its operands, unknown elsewhere"""
        for x in xs:
            if x.const is not None: continue
            lo, hi = s.vrange(st, x)
            full = lo is not None and hi is not None and hi - lo < n
            if lo is None: lo = 0
            out = []; top = hi if full else min(lo + 7, hi if hi is not None else lo + 7)
            for v in range(lo, top + 1):
                q = st.fork(); q.cons.add_eq(x - v)
                if not q.cons.bot: out += s.enum(q, [L(v) if y is x else q.cons.norm(y) for y in xs], f, why, bits, n)
            if not full:
                q = st.fork(); out.append((q, s.unknown(q, why, bits)))
            return out
        return [(st, L(f(*[x.const for x in xs])))]
    def unknown(s, st, why, bits=32):
        st.inexact(why); v = sym('u')
        R = s.RANGE.get(bits, 1 << 63); st.ge(v + R); st.ge(L(R-1) - v); return v
    def binop(s, st, op, t, a, b):
        """[(state, value)]"""
        bits = t[1] if t[0] == 'i' else 64
        if a is UNDEF or b is UNDEF: return [(st, UNDEF)]
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == 'add':
                if isinstance(a, Ptr) and isinstance(b, Lin): return [(st, Ptr(a.b, a.o + b))]
                if isinstance(b, Ptr) and isinstance(a, Lin): return [(st, Ptr(b.b, b.o + a))]
            if op == 'sub':
                if isinstance(b, Lin): return [(st, Ptr(a.b, a.o - b))]
                if isinstance(a, Ptr) and a.b == b.b: return [(st, a.o - b.o)]
                if isinstance(a, Ptr) and isinstance(b, Ptr): 
                    q = st.fork(); return [(q, s.unknown(q, 'difference of unrelated pointers', 64))]
            if op == 'and' and isinstance(a, Ptr) and isinstance(b, Lin) and not b.t:
                return s.ptr_and(st, a, b.c)
            raise Unsup('pointer arithmetic ' + op)
        a = st.cons.norm(a); b = st.cons.norm(b)
        ca = a.const; cb = b.const
        if op == 'add': return [(st, a + b)]
        if op == 'sub': return [(st, a - b)]
        if op == 'mul':
            if cb is not None: return [(st, a * cb)]
            if ca is not None: return [(st, b * ca)]
        if op == 'shl' and cb is not None: return [(st, a * (1 << cb))]
        if op in ('udiv', 'urem', 'lshr', 'sdiv', 'srem', 'ashr') and cb is not None:
            n = (1 << cb) if op in ('lshr', 'ashr') else cb
            if n > 0:
                out = []
                for q, nn in st.split(Cond('ge', a)):
                    if nn:
                        v = s.quot(q, a, n)
                        out.append((q, v if op[-3:] != 'rem' else a - v*n))
                    elif op in ('sdiv', 'srem'):
                        d = ldiv(a, n)
                        v = d if d is not None else -s.quot(q, -a, n)
                        out.append((q, v if op == 'sdiv' else a - v*n))
                    elif op == 'ashr':
                        out.append((q, -s.quot(q, -a + (n-1), n)))
                    else:
                        q = q.fork(); out.append((q, s.unknown(q, 'unsigned division of a wrapped value', bits)))
                return out
        if op in ('and', 'or', 'xor'):
            if ca is not None and cb is not None:
                return [(st, L({'and': ca & cb, 'or': ca | cb, 'xor': ca ^ cb}[op]))]
            if ca is not None: a, b, ca, cb = b, a, cb, ca
            if cb is not None:
                if op == 'xor' and cb == -1: return [(st, -a - 1)]
                if op == 'xor' and bits == 1: return [(st, L(1) - a)]
                if op == 'or' and cb == 0: return [(st, a)]
                if op == 'and':
                    if cb == -1: return [(st, a)]
                    if cb == 0: return [(st, ZERO)]
                    if cb > 0 and (cb & (cb+1)) == 0:
                        if st.cons.ent_ge(a): return [(st, a - s.quot(st, a, cb+1)*(cb+1))]
                    if cb < 0 and (-cb & (-cb-1)) == 0:
                        if st.cons.ent_ge(a): return [(st, s.quot(st, a, -cb)*(-cb))]
        if op == 'mul': return s.enum(st, [a, b], lambda x, y: x*y, 'product of two unknowns', bits)
        if op in ('and', 'or', 'xor'):
            return s.enum(st, [a, b], {'and': lambda x, y: x & y, 'or': lambda x, y: x | y, 'xor': lambda x, y: x ^ y}[op], 'bit operation ' + op, bits)
        q = st.fork(); return [(q, s.unknown(q, 'bit operation ' + op, bits))]
    def ptr_and(s, st, p, mask):
        if mask < 0 and (-mask & (-mask-1)) == 0:
            n = -mask; r = st.R.get(p.b[1]) if p.b[0] == 'r' else None
            if r is not None and r.kind != 'stack':   # blocks are at least 16-aligned
                if st.cons.ent_ge(p.o): return [(st, Ptr(p.b, s.quot(st, p.o, n)*n))]
        if mask > 0 and (mask & (mask+1)) == 0 and st.cons.ent_ge(p.o):
            return [(st, p.o - s.quot(st, p.o, mask+1)*(mask+1))]
        raise Unsup('pointer mask')
    def wrap(s, outs, t, I):
        """modular arithmetic: constants at every width, unknowns in the narrow types (wide ones do not overflow, see the assumptions)"""
        R = s.RANGE[t[1]]; out = []
        for st, v in outs:
            if isinstance(v, Lin):
                if not v.t: v = L((v.c + R) % (2*R) - R)
                elif t[1] < 32: out += s.cast(st, 'trunc', ('i', 64), v, t, I); continue
            out.append((st, v))
        return out
    def cast(s, st, op, t, v, t2, ins):
        if op in ('bitcast', 'ptrtoint', 'inttoptr', 'freeze'):
            if op == 'inttoptr' and isinstance(v, Lin):
                if st.cons.norm(v) == ZERO: return [(st, NULL)]
                raise Unsup('inttoptr')
            if op == 'ptrtoint' and isinstance(v, Ptr) and v.b == ('null',): return [(st, v.o)]
            return [(st, v)]
        if v is UNDEF: return [(st, UNDEF)]
        if op == 'sext':
            if t[1] == 1: return [(st, -v)]
            return [(st, v)]
        if op == 'zext':
            if t[1] == 1: return [(st, v)]
            out = []
            for q, nn in st.split(Cond('ge', v)): out.append((q, v if nn else v + (1 << t[1])))
            return out
        if op == 'trunc':
            if isinstance(v, Ptr): return [(st, v)] if False else s._tr_ptr(st)
            if t2[1] == 1:
                out = []
                for q, z in st.split(Cond('eq', v)): out.append((q, ZERO if z else ONE))
                return out
            R = s.RANGE[t2[1]]; out = []; n = st.cons.norm(v)
            if not n.t: return [(st, L((n.c + R) % (2*R) - R))]
            for q, a in st.split(Cond('ge', v + R)):
                for q2, b in q.split(Cond('ge', L(R-1) - v)) if a else [(q, None)]:
                    if b: out.append((q2, v)); continue
                    d = -2*R if a else 2*R       # once round; values further off are not followed
                    for q3, c in q2.split(Cond('ge', L(R-1) - v - d) if a else Cond('ge', v + d + R)):
                        if c: out.append((q3, v + d))
                        else: s.undec('value does not fit its type at ' + s.where(ins))
            return out
        raise Unsup('cast ' + op)
    def _tr_ptr(s, st): raise Unsup('truncated pointer')
    # -------------------------------------------------------------- comparisons
    def nonempty(s, st, p):
        """make sure a summary pointer denotes a node: None if it already does, else successor states to retry"""
        k = p.b[0]
        if k in ('sf', 'sl'):
            q = st.S[p.b[1]]
            if st.cons.ent_ge(q.len - 1): return None
            out = []
            for a, ne in st.split(Cond('ge', q.len - 1)):
                if not ne:
                    if q.prev is None and any(True for _ in s.refs(a, ('sl', p.b[1]))): raise Unsup('last of an empty segment')
                    s.drop_empty_seg(a, p.b[1])
                out.append(a)
            return out
        if k == 't': return s.tree_nonempty(st, p.b[1])
        return None
    def icmp(s, st, pr, t, a, b, ins):
        """[(state, 0|1)] or retry entries"""
        if a is UNDEF or b is UNDEF:
            s.obl('initialised', False); s.fail(st, 'uninit', 'a decision depends on an uninitialised value', ins); return []
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return s.pcmp(st, pr, a, b, ins)
        if pr in ('eq', 'ne'):
            return [(q, L(1 if v == (pr == 'eq') else 0)) for q, v in s.tsplit(st, Cond('eq', a - b), ins)]
        op = pr[1:]
        def rel(q):
            d = {'lt': b - a - 1, 'le': b - a, 'gt': a - b - 1, 'ge': a - b}[op]
            return [(x, L(1 if v else 0)) for x, v in s.tsplit(q, Cond('ge', d), ins)]
        if pr[0] == 's': return rel(st)
        out = []
        for q, pa in st.split(Cond('ge', a)):
            for q2, pb in q.split(Cond('ge', b)):
                if pa == pb: out += rel(q2)
                else:
                    lt = pa and not pb      # a small, b huge
                    out.append((q2, L(1 if (lt == (op in ('lt', 'le'))) else 0)))
        return out
    def tsplit(s, st, c, ins):
        r = st.split(c)
        if len(r) > 1:
            w = s.where(ins).split('/')[-1]
            for q, v in r: q.trace = q.trace + ('%s:%s' % (w, 'T' if v else 'F'),)
        return r
    def addr(s, st, b):
        """address symbol of an external pointer base"""
        return st.om_sym(('addr', b), lambda: sym('addr'))
    def pcmp(s, st, pr, a, b, ins):
        if isinstance(a, Lin): a = Ptr(('null',), a)
        if isinstance(b, Lin): b = Ptr(('null',), b)
        if a.b[0] == 'x' or b.b[0] == 'x':
            def ad(p):
                if p.b[0] == 'null': return p.o
                if p.b[0] == 'x': return s.addr(st, p.b) + p.o
                return None
            x, y = ad(a), ad(b)
            if x is None or y is None: raise Unsup('comparison of an arbitrary pointer')
            return s.icmp(st, pr, None, x, y, ins)
        if a.b == b.b:
            return s.icmp(st, pr if pr in ('eq', 'ne') else 's' + pr[1:], None, a.o, b.o, ins)
        for p in (a, b):
            r = s.nonempty(st, p)
            if r is not None: return [('retry', x) for x in r]
        ka, kb = a.b[0], b.b[0]
        if pr not in ('eq', 'ne'):
            if ka == 'null' or kb == 'null':
                lt = (ka == 'null'); op = pr[1:]
                return [(st, L(1 if lt == (op in ('lt', 'le')) else 0))]
            q = st.fork(); q.inexact('ordering of unrelated pointers'); q2 = q.fork(); return [(q, ONE), (q2, ZERO)]
        same = False
        if ka in ('sf', 'sl') and kb in ('sf', 'sl') and a.b[1] == b.b[1]:
            i = a.b[1]; out = []
            for q, one in st.split(Cond('eq', st.S[i].len - 1)):
                if one:
                    s.subst_base(q, ('sl', i), Ptr(('sf', i))); 
                    out.append(('retry', q))
                else: out.append((q, L(0 if pr == 'eq' else 1)))
            if len(out) == 1 and out[0][0] == 'retry':
                return [(out[0][1], L(1 if pr == 'eq' else 0))] if a.o == b.o else [(out[0][1], L(0 if pr == 'eq' else 1))]
            return out
        # distinct objects; a dead block compares unequal (its address could be reused: not relied on)
        return [(st, L(1 if pr == 'ne' else 0))]
    # -------------------------------------------------------------- interpreter
    def val(s, st, v, t=None):
        if v[0] == 'reg':
            try: return st.regs[v[1]]
            except KeyError: raise Unsup('register %s' % v[1])
        return s.const(v, t)
    def tick(s):
        s.stats['instr'] += 1
        if s.stats['instr'] % 64 == 0 and s.time() > s.deadline: raise Undecided('time budget')
    def run_block(s, f, st, b, skip_phi=True):
        """-> list of ('br', st, target) / ('ret', st, val)"""
        ins = f.blocks[b]; i0 = 0
        while ins[i0].op == 'phi': i0 += 1
        work = [(st, i0)]; out = []
        while work:
            st, i = work.pop()
            while True:
                I = ins[i]; s.cur = I; s.tick(); st.steps += 1
                op = I.op
                if op == 'br':
                    if I.a[0] is None: out.append(('br', st, I.a[1])); break
                    c = s.val(st, I.a[0])
                    if c is UNDEF: s.fail(st, 'uninit', 'a decision depends on an uninitialised value', I); break
                    c = st.cons.norm(c)
                    if not c.t: out.append(('br', st, I.a[1] if c.c else I.a[2])); break
                    for q, z in st.split(Cond('eq', c)): out.append(('br', q, I.a[2] if z else I.a[1]))
                    break
                if op == 'ret': out.append(('ret', st, None if I.a[1] is None else s.val(st, I.a[1], I.a[0]))); break
                if op == 'switch':
                    v = s.val(st, I.a[1], I.a[0]); todo = [st]
                    for cv, tgt in I.a[3]:
                        nx = []
                        for q in todo:
                            for q2, eq in q.split(Cond('eq', v - s.const(cv))):
                                if eq: out.append(('br', q2, tgt))
                                else: nx.append(q2)
                        todo = nx
                    for q in todo: out.append(('br', q, I.a[2]))
                    break
                if op == 'unreachable': break
                if s.refute:
                    if not st.exact: break
                    try: r = s.step(f, st, I)
                    except (Unsup, Undecided, KeyError, AttributeError, TypeError, ValueError, IndexError, RecursionError) as e:
                        if s.time() > s.deadline: raise
                        k = '%s: %s' % (type(e).__name__, str(e)[:120]); s.drops[k] = s.drops.get(k, 0) + 1
                        break
                else: r = s.step(f, st, I)
                if r is None: i += 1; continue     # in place
                if not r: break
                for q in r[1:]: work.append((q, i+1))
                st = r[0]; i += 1
        return out
    def step(s, f, st, I):
        """execute one non-terminator; None = state updated in place, else list of successor states"""
        op = I.op; a = I.a
        if op == 'getelementptr':
            p = s.val(st, a[1]); off = ZERO; ty = a[0]; bad = not isinstance(p, Ptr)
            for n, (it, iv) in enumerate(a[2]):
                i = s.val(st, iv, it)
                if i is UNDEF: bad = True; break
                if n == 0: off = off + i * s.m.size(ty)
                else:
                    rt = s.m.resolve(ty)
                    if rt[0] in ('struct', 'pstruct'): fo, ty = s.m.field(rt, i.const); off = off + fo
                    else: ty = rt[2]; off = off + i * s.m.size(ty)
            st.regs[I.res] = UNDEF if bad else Ptr(p.b, st.cons.norm(p.o + off)); return None
        if op == 'alloca':
            n = 1 if a[1] is None else s.val(st, a[1]).const
            rid = st.new_region('stack', s.m.size(a[0])*n, None, 'local'); st.regs[I.res] = Ptr(('r', rid)); s.rnames[rid] = 'a dead local'
            st.regs['$a'] = st.regs.get('$a', ()) + (rid,); return None
        if op == 'load':
            p = s.val(st, a[1])
            if isinstance(p, Ptr) and p.b == ('null',) and a[2]: return s.abort(st, I)
            return s.setres(f, st, I, s.load(st, a[0], p, I))
        if op == 'store':
            p = s.val(st, a[2])
            if isinstance(p, Ptr) and p.b == ('null',) and a[3]: return s.abort(st, I)
            out = []
            for e in s.store(st, a[0], s.val(st, a[1], a[0]), p, I):
                if isinstance(e, tuple): out += s.again(f, e[1], I)
                else: out.append(e)
            return out
        if op == 'icmp': return s.setres(f, st, I, s.icmp(st, a[0], a[1], s.val(st, a[2], a[1]), s.val(st, a[3], a[1]), I))
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            r = s.binop(st, op, a[0], s.val(st, a[1], a[0]), s.val(st, a[2], a[0]))
            if op in ('add', 'sub', 'mul', 'shl') and a[0][0] == 'i' and a[0][1] in s.RANGE: r = s.wrap(r, a[0], I)
            return s.setres(f, st, I, r)
        if op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast'):
            return s.setres(f, st, I, s.cast(st, op, a[0], s.val(st, a[1], a[0]), a[2], I))
        if op == 'freeze': st.regs[I.res] = s.val(st, a[1], a[0]); return None
        if op == 'select':
            c = s.val(st, a[0]); 
            if c is UNDEF: s.fail(st, 'uninit', 'a decision depends on an uninitialised value', I); return []
            out = []
            for q, z in st.split(Cond('eq', c)):
                q.regs[I.res] = s.val(q, a[3] if z else a[2], a[1]); out.append(q)
            return out
        if op == 'extractvalue':
            v = s.val(st, a[1], a[0])
            for ix in a[2]: v = v.e[ix] if isinstance(v, Agg) else UNDEF
            st.regs[I.res] = v; return None
        if op == 'insertvalue':
            v = s.val(st, a[1], a[0]); t = s.m.resolve(a[0])
            e = list(v.e) if isinstance(v, Agg) else [UNDEF]*len(t[1])
            if len(a[4]) != 1: raise Unsup('insertvalue')
            e[a[4][0]] = s.val(st, a[3], a[2]); st.regs[I.res] = Agg(e); return None
        if op == 'call': return s.call(f, st, I)
        raise Unsup('instruction ' + op)
    def again(s, f, st, I):
        r = s.step(f, st, I)
        return [st] if r is None else r
    def setres(s, f, st, I, rs):
        out = []
        for e in rs:
            if e[0] == 'retry': out += s.again(f, e[1], I)
            else: e[0].regs[I.res] = e[1]; out.append(e[0])
        return out
    def abort(s, st, I):
        """port assertion or crash hook"""
        if st.flags.get('stop'):
            s.obl('stop', True); s.ends.append('stop'); return []
        s.obl('stop', False); s.fail(st, 'assert', 'a legal call stops the program (assertion or crash hook)', I); return []
    def call(s, f, st, I):
        t, callee, args = I.a
        if callee[0] == 'reg':
            p = st.regs[callee[1]]
            if isinstance(p, Ptr) and p.b == ('null',): s.obl('mem', False); s.fail(st, 'mem', 'calls through a null function pointer', I); return []
            if not isinstance(p, Ptr) or p.b[0] != 'fn': raise Unsup('indirect call through %r' % (p,))
            name = p.b[1]
        elif callee[0] == 'glob': name = callee[1]
        else: raise Unsup('callee %r' % (callee,))
        d = s.m.globals.get(name)
        if d is not None and d[0] == 'alias': name = d[1][1]
        av = [s.val(st, v, at) for at, v in args]
        h = INTR.get(name)
        if h is None and name.startswith('llvm.'):
            h = INTR.get('.'.join(name.split('.')[:2]))
        if h is not None:
            r = h(s, st, av, I)
            if r is None: return None
            out = []
            for e in r:
                if isinstance(e, tuple) and e[0] == 'retry': out += s.again(f, e[1], I)
                elif isinstance(e, tuple):
                    if I.res: e[0].regs[I.res] = e[1]
                    out.append(e[0])
                else: out.append(e)
            return out
        g = s.m.fns.get(name)
        if g is None: raise Unsup('external function ' + name)
        s.stats['callsites'].add((f.name, I.line.split('!dbg')[0][:60], I.dbg))
        out = []
        for q, v in s.run_fn(g, st, av, I):
            if I.res: q.regs[I.res] = v
            out.append(q)
        return out
    def run_fn(s, g, st, av, I):
        if len(s.stack) > 60: raise Undecided('call depth')
        if s.stack.count(g.name) >= (st.flags.get('unroll') or (s.refute + 1 if s.refute else s.max_rec)): raise Undecided('recursion deeper than %d in %s' % (s.max_rec, g.name))
        s.stats['funcs'].add(g.name)
        st.frames = st.frames + [st.regs]; st.regs = {}
        for (n, pt), v in zip(g.params, av): st.regs[n] = v
        s.stack.append(g.name)
        try: outs = s.run_from(g, st, g.entry, None)
        finally: s.stack.pop()
        res = []
        for o in outs:
            q, v = o[1], o[2]
            s.cur = I
            q.frames, caller = q.frames[:-1], q.frames[-1]
            al = q.regs.get('$a', ())
            for rid in al:
                r = q.R.get(rid)
                if r is not None:
                    if any(s.live_elem(c) and not q.cons.ent_eq(hi - lo) for lo, hi, c in r.segs): s.fail(q, 'life', 'an element object inside a local object is never destroyed', I)
                    del q.R[rid]
            q.regs = dict(caller)
            res.append((q, v))
        return res
    max_rec = 3; maxd = 0; reached = None
    def phis(s, f, st, b, prev):
        ins = f.blocks[b]; new = {}
        for I in ins:
            if I.op != 'phi': break
            for v, p in I.a[1]:
                if p == prev: new[I.res] = s.val(st, v, I.a[0]); break
        if new: st.regs.update(new)
        return st
    def run_from(s, f, st, b, prev):
        return s.run(f, [(st, b, prev)], None, None)
    def run(s, f, work, stop, allowed):
        outs = []
        while work:
            st, b, prev = work.pop()
            if b == stop: outs.append(('back', s.phis(f, st, b, prev))); continue
            if allowed is not None and b not in allowed: outs.append(('exit', st, b, prev)); continue
            if b in f.loops:
                for o in s.loop(f, s.phis(f, st, b, prev), b):
                    if o[0] == 'exit': work.append((o[1], o[2], o[3]))
                    else: outs.append(o)
                continue
            s.phis(f, st, b, prev)
            for o in s.run_block(f, st, b):
                if o[0] == 'br': work.append((o[1], o[2], b))
                else: outs.append(o)
            if len(work) > 400 and (len(work) > 50000 or not work[-1][0].flags.get('unroll')):
                if s.refute: del work[:200]
                else: raise Undecided('too many paths')
        return outs
    # -------------------------------------------------------------- loops that never end
    def same_state(s, P, b):
        """an iteration leads from P back to P (b: the state after it, with what its path assumed), so it repeats for ever"""
        if not (P.exact and b.exact) or P.orc is not b.orc or P.cons.bot or b.cons.bot: return False
        c = b.cons; syms = set()
        def lin(l):
            for k, _ in l.t: syms.add(k)
        def eqv(x, y):
            if isinstance(x, Lin):
                if not isinstance(y, Lin): return False
                lin(x); return x == y or c.norm(x) == c.norm(y)
            if isinstance(x, Ptr): return isinstance(y, Ptr) and eqv(x.b, y.b) and eqv(x.o, y.o)
            if isinstance(x, Agg): return isinstance(y, Agg) and eqv(tuple(x.e), tuple(y.e))
            if isinstance(x, (tuple, list)): return isinstance(y, (tuple, list)) and len(x) == len(y) and all(eqv(p, q) for p, q in zip(x, y))
            if isinstance(x, dict): return isinstance(y, dict) and x.keys() == y.keys() and all(eqv(v, y[k]) for k, v in x.items())
            if isinstance(x, (Region, Seg, Tree)): return type(x) is type(y) and all(eqv(getattr(x, k, None), getattr(y, k, None)) for k in x.__slots__)
            if x is y: return True
            try: return bool(x == y)
            except Exception: return False
        for n in ('regs', 'frames', 'R', 'S', 'T', 'flags'):
            if not eqv(getattr(P, n), getattr(b, n)): return False
        pc = P.cons
        for t in pc.ge: syms.update(k for k, _ in t)
        for l in pc.ne: lin(l)
        for k, v in pc.eq.items(): syms.add(k); lin(v)
        for v in P.om.values(): eqv(v, v)
        for t in c.ge:                     # nothing the iteration assumed is about something it made up
            if any(k not in syms for k, _ in t): return False
        for l in c.ne:
            if any(k not in syms for k, _ in l.t): return False
        for k, v in c.eq.items():
            if k not in syms or any(j not in syms for j, _ in v.t): return False
        return True
    def lost(s, st):
        """a block nothing refers to any more"""
        if st.S or st.T or not st.exact: return None
        todo = []; seen = set()
        def val(v):
            if isinstance(v, Ptr):
                if v.b[0] == 'r' and v.b[1] not in seen: seen.add(v.b[1]); todo.append(v.b[1])
            elif isinstance(v, Agg): [val(x) for x in v.e]
            elif isinstance(v, (tuple, list)): [val(x) for x in v]
        for fr in [st.regs] + st.frames: [val(v) for v in fr.values()]
        for v in st.flags.values(): val(v)
        for i, r in st.R.items():
            if r.kind != 'heap' and i not in seen: seen.add(i); todo.append(i)
        while todo:
            r = st.R.get(todo.pop())
            if r is not None:
                for lo, hi, c in r.segs:
                    if c is not None and c[0] == 'v': val(c[2])
                    elif c is not None and c[0] not in ('z', 's') and not s.live_elem(c): return None
        for i, r in st.R.items():
            if r.kind == 'heap' and i not in seen: return i
        return None
    def hang(s, b, h, f):
        s.obl('ends', False); s.fail(b, 'sem', 'this loop never ends: an iteration leads back to the state it started from', f.blocks[h][-1])
    def body(s, f, st, h):
        """run one iteration from the header (phis already evaluated)"""
        outs = []; work = []
        for o in s.run_block(f, st, h):
            if o[0] == 'br': work.append((o[1], o[2], h))
            else: outs.append(o)
        return outs + s.run(f, work, h, f.loops[h])
    # -------------------------------------------------------------- loop acceleration
    refute = 0      # > 0: look for violations only: exact states, at most this many phases per loop, everything else dropped
    max_seeds = 14; eager = int(_os.environ.get('DS_EAGER', '2'))   # phases of a loop kept apart before widening
    def snap(s): return (len(s.viol), dict(s.und), s.nobl, s.ndis, dict(s.obl_kinds), len(s.ends))
    def rollback(s, m):
        del s.viol[m[0]:]; s.und = m[1]; s.nobl = m[2]; s.ndis = m[3]; s.obl_kinds = m[4]; del s.ends[m[5]:]
    def loop(s, f, st0, h):
        s.stats['unrolled' if st0.flags.get('unroll') else 'loops'] += 1
        queue = [(st0, None)]; depth = {id(st0): 0}; keep = []; invs = []; outs = []; n = 0; seen = []; anc = {}
        live = f.live[h]; hl = s.where(f.blocks[h][-1])
        m0 = (len(s.viol), len(s.und), len(s.ends), sum(s.drops.values()))
        def trim(b):
            b.regs = {k: v for k, v in b.regs.items() if k in live or k[0] == '$'}; s.canon(b)
        if st0.flags.get('unroll'):      # a scenario over small concrete sizes: follow the iterations one by one
            queue = [(st0, 0)]; marks = {}
            while queue:
                S, d = queue.pop(); s.tick()
                S.regs = {k: v for k, v in S.regs.items() if k in live or k[0] == '$'}
                if d >= 64 and not d & (d - 1) and 'drivers/' not in hl:
                    i = s.lost(S)
                    if i is not None: s.obl('ledger', False); s.fail(S, 'leak', 'nothing refers to a block any more: it can never be returned (%s)' % s.rnames.get(i, ''), f.blocks[h][-1]); continue
                if d == min(1500, st0.flags['unroll']) and not s.refute and S.exact and 'drivers/' not in hl:     # does it end at all?
                    q = S.fork(); q.flags = {k: v for k, v in q.flags.items() if k != 'unroll'}; m = s.snap(); nv = len(s.viol)
                    try: o = s.loop(f, q, h)
                    except (Undecided, Unsup): o = [0]
                    if not o and len(s.viol) > nv and 'this loop never ends' in s.viol[nv].msg: continue
                    s.rollback(m)
                if d > st0.flags['unroll']: raise Undecided('loop at %s iterates more than %d times' % (hl, st0.flags['unroll']))
                if d >= 16 and not d & (d - 1) and 'drivers/' not in hl: mark = S.fork()      # (Brent) an earlier state of this path, as last in first out
                else: mark = marks.pop(id(S), None)
                for o in s.body(f, S, h):
                    if o[0] == 'back':
                        if mark is not None:
                            b = o[1].fork(); b.regs = {k: v for k, v in b.regs.items() if k in live or k[0] == '$'}
                            if s.same_state(mark, b): s.hang(b, h, f); continue
                            marks[id(o[1])] = mark
                        queue.append((o[1], d + 1))
                    else: outs.append(o)
            return outs
        while queue:
            S, parent = queue.pop(0)
            trim(S)
            if any(s.subsumes(S, T) for T in invs): continue
            n += 1
            if s.refute:
                d = depth.pop(id(S), 0)
                if d >= s.refute or n > s.refute * 12 or not S.exact: continue
            elif n > (s.max_seeds if not f.name.startswith('t_') else 40): raise Undecided('loop at %s needs more than %d phases' % (hl, s.max_seeds))
            base = S.fork(); pad = '  '*len(s.stack)
            if DBG: print('%sLOOP %s seed %d exact %s' % (pad, hl, n, S.exact)); s.show(S)
            res = s.body(f, S.fork(), h)
            backs = [o[1] for o in res if o[0] == 'back']
            if not backs: outs += res; continue
            for b in backs:
                trim(b)
                if s.refute: depth[id(b)] = d + 1
                keep.append(b)
            if 'drivers/' not in hl:
                chain = anc.get(id(S), ()) + (base,)
                stuck = [b for b in backs if any(s.same_state(P, b) for P in chain)]
                for b in stuck: s.hang(b, h, f)
                if stuck: backs = [b for b in backs if b not in stuck]; res = [o for o in res if o[0] != 'back' or o[1] not in stuck]
                for b in backs: anc[id(b)] = chain[-8:]
                if not backs: outs += res; continue
            done = None
            for b in backs:
                T = s.generalise(base, b)
                if T is not None and not T.usedk and not T.us and T.match(b) is not None:   # the iteration changes nothing
                    invs.append(T); outs += [o for o in res if o[0] != 'back']
                    queue += [(x, base) for x in backs if x is not b and not s.subsumes(x, T)]
                    done = True; break
            if done: seen.append(base); continue
            def attempt(b, par, inexact):
                T = s.generalise(base, b, par)
                if T is None:
                    if DBG: print('%s  no generalisation%s' % (pad, ' (wide)' if par else '')); s.show(b)
                    return None
                r = s.verify(f, T, h, trim, inexact, invs)
                if DBG: print('%s  T %s%s' % (pad, 'ACCEPTED' if r else 'rejected', ' (wide)' if par else '')); s.show(T.st)
                return None if r is None else (T, b) + r
            plan = [(None, False)] + ([(parent, True)] if parent is not None and n > 2 else []) + ([(None, True)] if n > 3 else [])
            if s.refute: plan = plan[:1]
            elif n > s.eager and parent is not None: plan = [(parent, True), (None, False), (None, True)]
            if n > s.eager and not s.refute:
                for P in reversed(seen):
                    T = s.generalise(P, base, 'join')
                    if T is None or T.match(base) is None: continue
                    r = s.verify(f, T, h, trim, True, invs)
                    if DBG: print('%s  T %s (join)' % (pad, 'ACCEPTED' if r else 'rejected')); s.show(T.st)
                    if r: done = (T, None) + r; plan = []; backs = []; break
            seen.append(base)
            for par, inex in plan:
                for b in backs:
                    done = attempt(b, par, inex)
                    if done: break
                if done: break
            if done:
                T, b0, others, rest = done
                invs.append(T); outs += others
                queue += [(x, p) for x, p in rest]
                if s.refute:
                    for x, p in rest: depth[id(x)] = d + 1; keep.append(x)
                queue += [(x, base) for x in backs if x is not b0 and not s.subsumes(x, T)]
            else:
                outs += [o for o in res if o[0] != 'back']
                queue += [(x, base) for x in backs]
        if not outs and not s.refute and st0.exact and not st0.cons.bot and 'drivers/' not in hl and m0 == (len(s.viol), len(s.und), len(s.ends), sum(s.drops.values())):
            s.obl('ends', False); s.fail(st0, 'sem', 'this loop never ends: no iteration leads out of it', f.blocks[h][-1])
        return outs
    def show(s, st):
        pad = '  '*len(s.stack) + '     '
        print(pad + 'regs', {k: st.cons.norm(v) if isinstance(v, Lin) else v for k, v in st.regs.items()})
        for i, r in st.R.items():
            if r.kind not in ('ext', 'glob'): print(pad + 'r%d' % i, r.kind, st.cons.norm(r.size), ' '.join('[%r,%r)%s' % (st.cons.norm(a), st.cons.norm(b), 'raw' if c is None else 'zero' if c[0] == 'z' else repr(st.cons.norm(c[2]) if isinstance(c[2], Lin) else c[2]) if c[0] == 'v' else '%s<%r>/%s' % (c[2], st.cons.norm(c[3]), c[4])) for a, b, c in r.segs))
        for i, r in st.S.items(): print(pad + 's%d' % i, r)
        for i, r in st.T.items(): print(pad + 't%d' % i, r)
        print(pad + 'cons', st.cons.all(), {symname(k): v for k, v in st.cons.eq.items()}, st.cons.ne)
    def canon(s, st):
        for i, r in list(st.R.items()):
            if r.kind in ('ext', 'glob') or len(r.segs) < 2: continue
            sg = tuple(q for q in r.segs if not ((q[0].t or q[1].t) and st.cons.ent_eq(q[1] - q[0])))
            if len(sg) != len(r.segs): r = r.copy(); r.segs = sg; st.R[i] = r
            j = 0
            while j < len(st.R[i].segs) - 1:
                n = len(st.R[i].segs); s.coalesce(st, i, j)
                if len(st.R[i].segs) == n: j += 1
        s.prune(st); s.fold(st)
    def prune(s, st):
        """forget remembered sequence values nothing refers to any more (they can be looked up again)"""
        cand = {v.t[0][0]: k for k, v in st.om.items() if k[0] == 'int'}
        if not cand: return
        def see(l):
            for k, _ in l.t: cand.pop(k, None)
        def val(v):
            if isinstance(v, Lin): see(v)
            elif isinstance(v, Ptr): see(v.o)
            elif isinstance(v, Agg): [val(x) for x in v.e]
        for fr in [st.regs] + st.frames:
            for v in fr.values(): val(v)
        for r in st.R.values():
            for lo, hi, c in r.segs:
                if c is not None and c[0] == 'v': val(c[2])
        for t in st.cons.ge:
            if len(t) > 1: [cand.pop(k, None) for k, _ in t]
        for l in st.cons.ne:
            if len(l.t) > 1: see(l)
        for k, l in st.cons.eq.items(): cand.pop(k, None); see(l)
        if not cand: return
        st.om = {k: v for k, v in st.om.items() if k not in set(cand.values())}
        st.cons.ge = GD((t, c) for t, c in st.cons.ge.items() if t[0][0] not in cand)
        st.cons.ne = tuple(l for l in st.cons.ne if not l.t or l.t[0][0] not in cand)
        st.flags = {k: v for k, v in st.flags.items() if not (isinstance(k, tuple) and k[0] == 'src' and k[1] in cand)}
    # list nodes: complete heap nodes become segments of length one, adjacent segments with joining contents become one
    def node_layout(s, r):
        if r.kind != 'heap' or r.size.t or r.size.c > 96: return None
        ptr = []; el = None
        for lo, hi, c in r.segs:
            if c is None: continue
            if c[0] == 'v' and c[1] == 8 and isinstance(c[2], Ptr): ptr.append(lo.c)
            elif s.live_elem(c) and el is None and hi.c - lo.c == ESZ: el = lo.c
            else: return None
        if el is None or len(ptr) not in (1, 2) or 8*len(ptr) + ESZ != r.size.c: return None
        k = (r.size.c, tuple(ptr), el); l = s.lays.get(k)
        if l is None: l = s.lays[k] = Layout('list', r.size.c, next=ptr[0], prev=ptr[1] if len(ptr) > 1 else None, data=el)
        return l
    def fold(s, st):
        for i, q in list(st.S.items()):
            if st.cons.ent_ge(-q.len) and (q.prev is not None or not any(True for _ in s.refs(st, ('sl', i)))): s.drop_empty_seg(st, i)
        todo = [(i, s.node_layout(r)) for i, r in st.R.items() if r.kind == 'heap']
        todo = [(i, l) for i, l in todo if l is not None]
        if not todo and len(st.S) < 2: return
        for i, lay in todo:
            r = st.R.pop(i); k = next(_rid); cell = {lo.c: c for lo, hi, c in r.segs}
            mv = lambda v: Ptr(('sf', k), v.o) if v.b == ('r', i) else v
            el = cell[lay.data]
            st.S[k] = Seg(lay, ONE, mv(cell[lay.prev][2]) if lay.prev is not None else None, mv(cell[lay.next][2]), el[2], el[3], None, r.tag)
            s.subst_base(st, ('r', i), Ptr(('sf', k)))
        ch = True
        while ch:
            ch = False
            for i, a in list(st.S.items()):
                if i not in st.S: continue
                a = st.S[i]
                while s.join_segs(st, i): ch = True
    def rewrite(s, st, old, new, skip):
        """replace references to one end of a one-node segment by the other, except the linking one"""
        s.map_ptrs(st, lambda p: Ptr(new, p.o) if p.b == old else p)
    def join_segs(s, st, i):
        a = st.S[i]; nx = a.next
        if nx is None or nx.b[0] not in ('sf', 'sl') or nx.o != ZERO or nx.b[1] == i: return False
        j = nx.b[1]; b = st.S[j]
        if b.lay is not a.lay or b.tag != a.tag or b.seq != a.seq: return False
        la = st.cons.ent_eq(a.len - 1); lb = st.cons.ent_eq(b.len - 1)
        if nx.b[0] == 'sl' and not lb: return False
        if a.lay.prev is None and not st.cons.ent_ge(b.len - 1) and any(True for _ in s.refs(st, ('sl', j))): return False
        if a.lay.prev is not None:
            p = b.prev
            if p.b[0] not in ('sf', 'sl') or p.b[1] != i or p.o != ZERO or p.b[0] == 'sf' and not la: return False
        # contents join up?
        d = st.cons.norm(b.i0 - a.i0); step = None
        for c in (a.step, b.step):
            if c is not None:
                if step is not None and step != c: return False
                step = c
        if step is None:
            if d.const is None or not (la and lb): return False
            step = d.const
        if not st.cons.ent_eq(d - a.len * step): return False
        # references that would be left inside
        def inner(base, ok): return [r for r in s.refs(st, base) if r not in ok]
        la_refs = inner(('sl', i), [('S', j, 'prev')]); 
        if la_refs and not la: return False
        fb = inner(('sf', j), [('S', i, 'next')])
        if fb and not lb: return False
        if la and la_refs and lb and fb: pass
        n = a.copy(); n.len = a.len + b.len; n.step = step; n.next = b.next
        fix = lambda v: v
        def mp(p):
            if p.b == ('sl', i): return Ptr(('sf', i), p.o)
            if p.b == ('sf', j): return Ptr(('sl', i), p.o)
            if p.b == ('sl', j): return Ptr(('sl', i), p.o)
            return p
        if n.next is not None: n.next = mp(n.next)
        if n.prev is not None: n.prev = mp(n.prev)
        del st.S[j]; st.S[i] = n; s.map_ptrs(st, mp)
        # (the linking references themselves were in a.next and b.prev, now gone)
        return True
    def generalise(s, A, B, parent=None):
        try:
            force = None
            if parent == 'join': force = 'all'
            elif parent is not None:
                g0 = Gen(s, parent, A, None, True)
                g1 = Gen(s, A, B, None, True)
                force = {k: d is None or g0.order.get(k, d) != d for k, d in g1.order.items()}
                if not any(force.values()): return None
            g = Gen(s, A, B, force)
            if len(g.us) > 1:
                # let the finest difference lead, so that the others become multiples of it
                us = sorted(g.us, key=lambda x: (len(x[2].t), abs(x[2].t[0][1]) if x[2].t else abs(x[2].c)))
                if us != g.us: g = Gen(s, A, B, force, False, [(a, b, d) for a, b, d, u in us])
            return g
        except NoMatch: return None
    def subsumes(s, B, T):
        return T.match(B) is not None
    def verify(s, f, T, h, trim, accept_inexact, invs):
        """make T inductive (Houdini on its candidate constraints) and decide whether it is exact"""
        for rnd in range(12):
            mark = s.snap()
            run = T.instance()
            if not T.exact0: run.inexact('loop invariant at %s is an over-approximation' % s.where(f.blocks[h][-1]))
            try: res = s.body(f, run, h)
            except (Unsup, Undecided) as e:
                s.rollback(mark)
                if s.time() > s.deadline: raise
                if DBG: print('   trial fails:', e)
                return None
            backs = []
            for o in res:
                if o[0] == 'back':
                    trim(o[1]); backs.append(o[1])
            matched = []; rest = []; changed = False
            for b in backs:
                sol = T.match(b, cons=False)
                if sol is None: rest.append(b)
                else: matched.append((b, sol))
            if not matched:
                if DBG: print('   no back edge matches'); [s.show(b) for b in rest]
                s.rollback(mark); return None
            # drop template candidates that are not preserved
            for c in list(T.cands):
                for b, sol in matched:
                    if not b.cons.ent_ge(c.subm(sol)):
                        T.cands.remove(c); changed = True; break
            # guards of the iteration, shifted to the previous count
            fresh = set(); new = T.shifted([b for b, sol in matched if sol.get(T.ksym) == T.k + 1])
            for c in new + T.disequal([b for b, sol in matched if sol.get(T.ksym) == T.k + 1]):
                if c not in T.dead and c not in T.guards and not T.ent(c): T.guards.append(c); changed = True; fresh.add(c)
            for c in list(T.guards):
                if c not in fresh and not all(b.cons.ent_ge(c.subm(sol)) for b, sol in matched):
                    T.guards.remove(c); T.dead.add(c); changed = True
            T.rebuild()
            if changed: s.rollback(mark); continue
            exact = T.exact0 and T.is_exact(matched)
            if not exact and not accept_inexact:
                if DBG: print('   not exact', T.exact0, [(b.exact, sol.get(T.ksym), b.cons.all()) for b, sol in matched])
                s.rollback(mark); return None
            others = [o for o in res if o[0] != 'back']
            if not exact:
                why = 'loop invariant at %s is an over-approximation' % s.where(f.blocks[h][-1])
                T.st.inexact(why)
                for o in others: o[1].inexact(why)
                for b in rest: b.inexact(why)
                for v in s.viol[mark[0]:]: s.undec('possible: %s at %s (inexact: %s)' % (v.msg, v.loc, why))
                del s.viol[mark[0]:]
            rest = [b for b in rest if not any(s.subsumes(b, X) for X in invs)]
            pr = []
            for b in rest:
                p = T.st.fork(); p.cons = b.cons.copy(); pr.append((b, p))
            return others, pr
        return None

class NoMatch(Exception): pass

class Gen:
    """generalisation T(k) of two consecutive loop-head states A = T(0) and B = T(1)"""
    def __init__(g, it, A, B, force=None, diffs=False, pre=()):
        g.it = it; g.A = A; g.B = B; g.order = {}; g.path = (); g.unit = 1; g.force = force; g.diffs = diffs
        g.k = sym('k'); g.ksym = g.k.t[0][0]; g.us = []; g.pairs = {}; g.lins = []
        for a, b, d in pre: g.us.append((a, b, d, sym('u')))
        g.bij = {}; g.inv = {}; g.todo = []; g.cands = []; g.guards = []; g.dead = set()
        st = A.fork(); g.st = st
        st.trace = A.trace + ('loop*',)
        if len(A.frames) != len(B.frames): raise NoMatch
        if set(A.regs) != set(B.regs): raise NoMatch
        R = {}; S = {}; g.R = R; g.S = S; T = {}; g.T = T
        st.regs = {k: g.pval(('reg', k), A.regs[k], B.regs[k]) for k in sorted(A.regs)}
        fr = []
        for nf, (x, y) in enumerate(zip(A.frames, B.frames)):
            if x is y: 
                for v in x.values():
                    if isinstance(v, Ptr): g.base(v.b, v.b)
                fr.append(x); continue
            if set(x) != set(y): raise NoMatch
            fr.append({k: g.pval(('fr', nf, k), x[k], y[k]) for k in sorted(x)})
        st.frames = fr
        fl = {}
        for k in set(A.flags) | set(B.flags):
            if k in A.flags and k in B.flags: fl[k] = g.pval(('fl', k), A.flags[k], B.flags[k]) if isinstance(A.flags[k], Ptr) else A.flags[k]
            elif k in A.flags and isinstance(k, tuple) and k[0] == 'src': fl[k] = A.flags[k]
            if k in A.flags and k in B.flags and not isinstance(A.flags[k], Ptr) and A.flags[k] != B.flags[k]: raise NoMatch
        st.flags = fl
        g.drain()
        for kind, X, Y in (('r', A.R, B.R), ('s', A.S, B.S), ('t', A.T, B.T)):
            ra = [i for i in X if (kind, i) not in g.bij]; rb = [i for i in Y if (kind, i) not in g.inv]
            for i in [i for i in ra if i in rb]:
                g.path = ('un', kind, i)
                g.bind((kind, i), (kind, i)); ra.remove(i); rb.remove(i); g.drain()
            if len(ra) != len(rb): raise NoMatch
            for nn, (i, j) in enumerate(zip(ra, rb)): g.path = ('un', kind, 'n', nn); g.bind((kind, i), (kind, j)); g.drain()
        st.R = {i: R[i] for i in A.R}; st.S = {i: S[i] for i in A.S}; st.T = {i: T[i] for i in A.T}
        st.cons = A.cons.copy()
        if force == 'all':
            st.cons = Cons(); g.eqkeep = {}
            for l in A.cons.all():
                if B.cons.ent_ge(l): st.cons.add_ge(l)
            for k, e in A.cons.eq.items():
                if B.cons.ent_eq(Lin(0, ((k, 1),)) - e): st.cons.add_eq(Lin(0, ((k, 1),)) - e)
            for l in A.cons.ne:
                if B.cons.ent_ne(l): st.cons.add_ne(l)
        g.usedk = any(g.ksym in r.syms() for r in g.pairs.values())
        if g.usedk: st.cons.add_ge(g.k)
        for r in st.R.values():
            for lo, hi, _ in r.segs:
                if lo.t or hi.t: st.cons.add_ge(hi - lo)
        for q in st.S.values(): st.cons.add_ge(q.len)
        if st.cons.bot: raise NoMatch
        g.basecons = st.cons.copy(); g.basecons_exact = A.exact
        g.exact0 = not g.us
        if g.us: g.templates()
        g.rebuild()
    def bind(g, a, b):
        if a in g.bij:
            if g.bij[a] != b: raise NoMatch
            return
        if b in g.inv: raise NoMatch
        g.bij[a] = b; g.inv[b] = a; g.todo.append((a, b, g.path))
    def drain(g):
        while g.todo:
            (k, i), (_, j), g.path = g.todo.pop()
            if k == 'r': g.region(i, j)
            elif k == 's': g.seg(i, j)
            elif k == 't': g.tree(i, j)
    def base(g, a, b):
        ka, kb = a[0], b[0]
        if ka != kb:
            if {ka, kb} == {'sf', 'sl'}:
                if g.A.cons.ent_eq(g.A.S[a[1]].len - 1): g.bind(('s', a[1]), ('s', b[1])); return (kb, a[1])
                if g.B.cons.ent_eq(g.B.S[b[1]].len - 1): g.bind(('s', a[1]), ('s', b[1])); return a
            raise NoMatch
        if ka == 'r':
            la = a[1] in g.A.R; lb = b[1] in g.B.R
            if la != lb: raise NoMatch
            if la: g.bind(('r', a[1]), ('r', b[1]))
            elif a != b: pass       # both dangling
        elif ka in ('sf', 'sl'): g.bind(('s', a[1]), ('s', b[1]))
        elif ka == 't': g.bind(('t', a[1]), ('t', b[1]))
        elif a != b: raise NoMatch
        return a
    def pval(g, path, a, b):
        g.path = path; return g.val(a, b)
    def sub(g, base, x, f, *a):
        g.path = base + (x,); return f(*a)
    def val(g, a, b):
        if a is b and not isinstance(a, (Ptr, Agg)) and not ((g.diffs or g.force is not None) and isinstance(a, Lin)):
            return a
        if isinstance(a, Lin) and isinstance(b, Lin): return g.lin(a, b)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            k = g.base(a.b, b.b); o = g.lin(a.o, b.o); return Ptr(k, o)
        if isinstance(a, Tok) and isinstance(b, Tok) and a.s == b.s: return Tok(a.s, g.lin(a.i, b.i))
        if isinstance(a, Agg) and isinstance(b, Agg) and len(a.e) == len(b.e): return Agg(g.val(x, y) for x, y in zip(a.e, b.e))
        if isinstance(a, tuple) and isinstance(b, tuple):    # '$a'
            if len(a) != len(b): raise NoMatch
            for x, y in zip(a, b): g.bind(('r', x), ('r', y))
            return a
        if a is UNDEF and b is UNDEF: return a
        raise NoMatch
    def lin(g, a, b):
        a = g.A.cons.norm(a); b = g.B.cons.norm(b); a2 = g.B.cons.norm(a)
        d = b - a2
        pk = g.path
        if pk in g.order:
            n = 1
            while pk + (n,) in g.order: n += 1
            pk = pk + (n,)
        g.order[pk] = d.c if not d.t else None
        if g.diffs: return a
        forced = False
        if g.force == 'all': forced = a != b and d != ZERO
        elif g.force is not None:
            forced = g.force.get(pk)
            if forced is None: forced = (a, b, True) in g.pairs
        r = g.pairs.get((a, b, forced))
        if r is not None: return r
        if not forced and (a == b or d == ZERO): g.note(a, a, b); return a
        if not d.t and not forced: r = a + g.k * d.c
        else:
            if not forced and g.B.cons.ent_eq(d): r = a
            else:
                r = None
                for a0, b0, d0, u in g.us:
                    if d == d0: r = a + (u - a0); break
                    if d == -d0: r = a - (u - a0); break
                    x, y = (d.t[0][1], d0.t[0][1]) if d.t and d0.t and len(d.t) == len(d0.t) and d.t[0][0] == d0.t[0][0] else (d.c, d0.c) if not d.t and not d0.t and d0.c else (1, 0)
                    if y and x % y == 0 and x and d0 * (x // y) == d: r = a + (u - a0)*(x // y); break
                if r is None:
                    q = abs(gcd(a2.c, b.c))
                    for _, v in a2.t + b.t: q = gcd(q, v)
                    u = sym('u')
                    if forced: q = g.unit if q % g.unit == 0 else 1
                    if q > 1:
                        g.us.append((ldiv(a2, q), ldiv(b, q), ldiv(d, q), u)); r = u * q
                    else: g.us.append((a, b, d, u)); r = u
        g.pairs[(a, b, forced)] = r; g.note(r, a, b); return r
    def note(g, r, a, b):
        if r.t and len(g.lins) < 40 and not any(x[0] == r for x in g.lins): g.lins.append((r, a, b))
    def content(g, c, d, ln=None):
        if c is None and d is None: return None
        if c is None or d is None: raise NoMatch
        if c[0] == 'z' and d[0] == 'z': return c
        if {c[0], d[0]} == {'z', 'v'} and (c[0] == 'z' or c[2] == ZERO) and (d[0] == 'z' or d[2] == ZERO): return ('z',)
        if c[0] != d[0] or c[1] != d[1]: raise NoMatch
        if c[0] == 'v': return ('v', c[1], g.val(c[2], d[2]))
        if c[2] != d[2]: raise NoMatch
        if c[4] is not None and d[4] is not None and c[4] != d[4]: raise NoMatch
        return ('s', c[1], c[2], g.lin(c[3], d[3]), c[4] if c[4] is not None else d[4])
    def region(g, i, j):
        a = g.A.R[i]; b = g.B.R[j]
        if a is b and i == j and (a.kind in ('ext', 'glob') or not g.diffs and g.force is None):
            for _, _, c in a.segs:
                if c is not None and c[0] == 'v' and isinstance(c[2], Ptr): g.base(c[2].b, c[2].b)
            g.note(a.size, a.size, a.size)
            g.R[i] = a; return
        if a.kind != b.kind or a.tag != b.tag: raise NoMatch
        base = g.path
        es = [c[1] for x in (a, b) for _, _, c in x.segs if c is not None and c[0] == 's']
        cs = [x.size.c for x in (a, b)] + [v for x in (a, b) for _, v in x.size.t]
        g.unit = es[0] if es else 1 if a.kind == 'stack' else 24 if all(v % 24 == 0 for v in cs) else 8 if all(v % 8 == 0 for v in cs) else 1
        u = g.unit; r = a.copy(); r.size = g.sub(base, 'size', g.lin, a.size, b.size)
        r.segs = g.sub(base, 'segs', g.segs, a.segs, b.segs); g.R[i] = r; g.unit = 1
    def compat(g, c, d):
        if c is None or d is None: return c is None and d is None
        if c[0] == 'z' or d[0] == 'z': return c[0] == d[0] or (c if c[0] == 'v' else d)[2] == ZERO
        if c[0] != d[0] or c[1] != d[1]: return False
        if c[0] == 'v':
            if isinstance(c[2], Ptr) != isinstance(d[2], Ptr): return False
            return not isinstance(c[2], Ptr) or c[2].b[0] == d[2].b[0] or {c[2].b[0], d[2].b[0]} == {'sf', 'sl'}
        return c[2] == d[2]
    def summ(g, c): return c is not None and c[0] == 'v' and isinstance(c[2], Ptr) and c[2].b[0] in ('sf', 'sl', 't')
    def segs(g, x, y):
        x = [q for q in x if not g.A.cons.ent_eq(q[1] - q[0])]; y = [q for q in y if not g.B.cons.ent_eq(q[1] - q[0])]
        if len(x) == len(y) and all(g.compat(p[2], q[2]) for p, q in zip(x, y)):
            pass
        else:
            # align by inserting empty segments on either side (least insertions, keeping equal bounds together)
            n, m = len(x), len(y); INF = 999; D = {}
            def cost(i, j):
                if (i, j) in D: return D[i, j][0]
                if i == n and j == m: D[i, j] = (0, None); return 0
                best = (INF, None)
                if i < n and j < m and g.compat(x[i][2], y[j][2]):
                    w = cost(i+1, j+1)
                    if w < best[0]: best = (w, 'm')
                if j < m and not g.summ(y[j][2]):
                    w = cost(i, j+1) + 1
                    if w < best[0]: best = (w, 'b')
                if i < n and not g.summ(x[i][2]):
                    w = cost(i+1, j) + 1
                    if w < best[0]: best = (w, 'a')
                D[i, j] = best; return best[0]
            if cost(0, 0) >= 4: raise NoMatch
            i = j = 0; nx = []; ny = []
            end = x[-1][1] if x else ZERO
            endb = y[-1][1] if y else ZERO
            while (i, j) != (n, m):
                k = D[i, j][1]
                if k == 'm': nx.append(x[i]); ny.append(y[j]); i += 1; j += 1
                elif k == 'b':
                    at = x[i][0] if i < n else end
                    nx.append((at, at, y[j][2])); ny.append(y[j]); j += 1
                else:
                    at = y[j][0] if j < m else endb
                    ny.append((at, at, x[i][2])); nx.append(x[i]); i += 1
            x, y = nx, ny
        out = []
        base = g.path; cnt = {}; stk = all(not q[0].t and not q[1].t for q in x + y)
        for (l1, h1, c), (l2, h2, d) in zip(x, y):
            kk = (None if c is None else c[0], l1.c if stk and len(x) > 2 else 0); cnt[kk] = cnt.get(kk, 0) + 1; kk = base + kk + (cnt[kk],)
            lo = g.sub(kk, 'lo', g.lin, l1, l2); hi = g.sub(kk, 'hi', g.lin, h1, h2)
            g.path = kk + ('c',); u0 = g.unit; g.unit = 1
            cc = g.content(c, d); g.unit = u0
            if cc is not None and cc[0] == 's' and cc[4] is None and (hi - lo).t: cc = cc[:4] + (1,)
            out.append((lo, hi, cc))
        # bounds must chain
        for p, q in zip(out, out[1:]):
            if p[1] != q[0]: raise NoMatch
        return tuple(out)
    def seg(g, i, j):
        a = g.A.S[i]; b = g.B.S[j]
        if a is b and i == j:
            for p in (a.prev, a.next):
                if p is not None: g.base(p.b, p.b)
            g.S[i] = a; return
        if a.lay is not b.lay or a.tag != b.tag or a.seq != b.seq: raise NoMatch
        if a.step is not None and b.step is not None and a.step != b.step: raise NoMatch
        r = a.copy(); r.len = g.lin(a.len, b.len); r.i0 = g.lin(a.i0, b.i0) if a.i0 is not None else None; r.step = a.step if a.step is not None else b.step
        if (a.prev is None) != (b.prev is None): raise NoMatch
        if a.prev is not None: r.prev = g.val(a.prev, b.prev)
        r.next = g.val(a.next, b.next); g.S[i] = r
    def tree(g, i, j):
        a = g.A.T[i]; b = g.B.T[j]
        if a is b and i == j:
            if isinstance(a.parent, Ptr): g.base(a.parent.b, a.parent.b)
            g.T[i] = a; return
        if a.lay is not b.lay or a.tag != b.tag or len(a.content) != len(b.content): raise NoMatch
        r = a.copy(); r.parent = g.val(a.parent, b.parent); r.h = g.lin(a.h, b.h) if a.h is not None else None
        cs = []
        for (q, x, y), (q2, x2, y2) in zip(a.content, b.content):
            if q != q2: raise NoMatch
            cs.append((q, g.lin(x, x2), g.lin(y, y2)))
        r.content = tuple(cs); g.T[i] = r
    # ---- constraints
    def templates(g):
        vals = [(L(x), L(x), L(x)) for x in (0, 1, 10**6, 2*10**6 + 2)] + g.lins
        for x in g.lins:        # thirds and doubles of plain quantities
            pass
        seen = set()
        for a, b, d, u in g.us:
            mine = [(r, p, q) for r, p, q in g.lins if u.t[0][0] in r.syms()]
            for r1, a1, b1 in mine:
                for r2, a2, b2 in vals:
                    if r1 == r2: continue
                    for c, ca, cb in ((r1 - r2, a1 - a2, b1 - b2), (r2 - r1, a2 - a1, b2 - b1)):
                        for off in (1, 0) if r2.t or r2.c < 100 else (0,):
                            c2 = c - off
                            if c2 in seen: continue
                            if g.A.cons.ent_ge(ca - off) and g.B.cons.ent_ge(cb - off):
                                seen.add(c2); g.cands.append(c2); break
            if len(g.cands) > 60: break
    def rebuild(g):
        c = g.basecons.copy()
        for x in g.cands + g.guards: c.add_ge(x)
        g.st.cons = c
    def ent(g, c): return g.st.cons.ent_ge(c)
    def instance(g): return g.st.fork()
    def unknowns(g): return {g.ksym} | {u.t[0][0] for _, _, _, u in g.us}
    def shifted(g, backs):
        """constraints gained on every matched back edge, rewritten to the previous iteration"""
        out = []
        if not backs: return out
        known = set(g.st.cons.eq)
        unk = g.unknowns() - {g.ksym}
        for b, c in [(b, c) for b in backs for c in b.cons.all()]:
            if g.ksym not in c.syms(): continue
            if g.st.cons.ent_ge(c): continue
            if any(x in unk for x in c.syms()): continue
            if any(x in b.defs and x not in g.st.defs for x in c.syms()): continue
            c2 = c.sub(g.ksym, g.k - 1)
            if not g.A.cons.ent_ge(c2.sub(g.ksym, ZERO)): continue
            if c2 not in out: out.append(c2)
        return out
    def disequal(g, backs):
        """optimistic guards from disequalities (it != end): the counter cannot jump over the bound"""
        out = []
        for b in backs[:1]:
            for e in b.cons.ne:
                e = b.cons.norm(e)
                if g.ksym not in e.syms() or any(x in b.defs and x not in g.st.defs for x in e.syms()): continue
                for c in (e, -e):
                    if not g.st.cons.ent_ge(c) and c not in out and g.A.cons.ent_ge(c.sub(g.ksym, ZERO)): out.append(c)
        return out
    def is_exact(g, matched):
        nxt = g.st.cons.copy()
        for l in g.st.cons.all():
            nxt.add_ge(l.sub(g.ksym, g.k + 1))
        for b, sol in matched:
            if sol.get(g.ksym) != g.k + 1 or (not b.exact and g.basecons_exact): continue
            ok = True
            new = b.defs - g.st.defs
            for l in b.cons.all():
                if any(x in new for x in l.syms()): continue
                if not nxt.ent_ge(l): ok = False; break
            if ok:
                for k, e in b.cons.eq.items():
                    if k in g.st.cons.eq: continue
                    l = Lin(0, ((k, 1),)) - e
                    if any(x in new for x in l.syms()): continue
                    if not nxt.ent_eq(l): ok = False; break
            if ok:
                for l in b.cons.ne:
                    if any(x in new for x in l.syms()): continue
                    if not nxt.ent_ne(l): ok = False; break
            if ok: return True
        return False
    # ---- is state B an instance of T ?
    def match(g, B, cons=True):
        try: return Match(g, B).solve(cons)
        except NoMatch: return None

class Match:
    def __init__(m, g, B):
        m.g = g; m.B = B; m.eqs = []; m.bij = {}; m.inv = {}; m.todo = []
        m.ren = {u: sym('p') for u in g.unknowns()}
        T = g.st
        if len(T.frames) != len(B.frames) or set(T.regs) != set(B.regs): raise NoMatch
        for k in T.regs: m.val(T.regs[k], B.regs[k])
        for x, y in zip(T.frames, B.frames):
            if x is y:
                for v in x.values():
                    if isinstance(v, Ptr): m.base(v.b, v.b)
                continue
            if set(x) != set(y): raise NoMatch
            for k in x: m.val(x[k], y[k])
        for k in set(T.flags) | set(B.flags):
            if isinstance(k, tuple) and k[0] == 'src': continue
            if (k in T.flags) != (k in B.flags): raise NoMatch
            if isinstance(T.flags[k], Ptr): m.val(T.flags[k], B.flags[k])
            elif T.flags[k] != B.flags[k]: raise NoMatch
        m.drain()
        for kind, X, Y in (('r', T.R, B.R), ('s', T.S, B.S), ('t', T.T, B.T)):
            ra = [i for i in X if (kind, i) not in m.bij]; rb = [i for i in Y if (kind, i) not in m.inv]
            for i in [i for i in ra if i in rb]:
                m.bind((kind, i), (kind, i)); ra.remove(i); rb.remove(i); m.drain()
            if len(ra) != len(rb): raise NoMatch
            for i, j in zip(ra, rb): m.bind((kind, i), (kind, j)); m.drain()
    def bind(m, a, b):
        if a in m.bij:
            if m.bij[a] != b: raise NoMatch
            return
        if b in m.inv: raise NoMatch
        m.bij[a] = b; m.inv[b] = a; m.todo.append((a, b))
    def drain(m):
        while m.todo:
            (k, i), (_, j) = m.todo.pop()
            T = m.g.st; B = m.B
            if k == 'r':
                a = T.R[i]; b = B.R[j]
                if a is b and i == j and not m.touches(a):
                    for _, _, c in a.segs:
                        if c is not None and c[0] == 'v' and isinstance(c[2], Ptr): m.base(c[2].b, c[2].b)
                    continue
                if a.kind != b.kind or a.tag != b.tag: raise NoMatch
                m.lin(a.size, b.size); m.segs(a.segs, b.segs)
            elif k == 's':
                a = T.S[i]; b = B.S[j]
                if a.lay is not b.lay or a.tag != b.tag or a.seq != b.seq: raise NoMatch
                if a.step is not None and b.step is not None and a.step != b.step: raise NoMatch
                if a.step is None and b.step is not None and not B.cons.ent_ge(1 - b.len): raise NoMatch
                m.lin(a.len, b.len)
                if a.i0 is not None: m.lin(a.i0, b.i0)
                if (a.prev is None) != (b.prev is None): raise NoMatch
                if a.prev is not None: m.val(a.prev, b.prev)
                m.val(a.next, b.next)
            else:
                a = T.T[i]; b = B.T[j]
                if a.lay is not b.lay or a.tag != b.tag or len(a.content) != len(b.content): raise NoMatch
                m.val(a.parent, b.parent)
                if a.h is not None: m.lin(a.h, b.h)
                for (q, x, y), (q2, x2, y2) in zip(a.content, b.content):
                    if q != q2: raise NoMatch
                    m.lin(x, x2); m.lin(y, y2)
    def touches(m, r):
        ks = m.ren
        if any(k in ks for k in r.size.syms()): return True
        for lo, hi, c in r.segs:
            if any(k in ks for k, _ in lo.t) or any(k in ks for k, _ in hi.t): return True
            if c is not None and c[0] == 'v':
                v = c[2]
                if isinstance(v, Lin) and any(k in ks for k, _ in v.t): return True
                if isinstance(v, Ptr) and any(k in ks for k, _ in v.o.t): return True
            if c is not None and c[0] == 's' and any(k in ks for k, _ in c[3].t): return True
        return False
    def base(m, a, b):
        ka, kb = a[0], b[0]
        if ka != kb:
            if {ka, kb} == {'sf', 'sl'} and m.B.cons.ent_eq(m.B.S[b[1]].len - 1): m.bind(('s', a[1]), ('s', b[1])); return
            raise NoMatch
        if ka == 'r':
            la = a[1] in m.g.st.R; lb = b[1] in m.B.R
            if la != lb: raise NoMatch
            if la: m.bind(('r', a[1]), ('r', b[1]))
        elif ka in ('sf', 'sl'): m.bind(('s', a[1]), ('s', b[1]))
        elif ka == 't': m.bind(('t', a[1]), ('t', b[1]))
        elif a != b: raise NoMatch
    def lin(m, e, b):
        if e == b and not any(k in m.ren for k, _ in e.t): return
        m.eqs.append(e.subm(m.ren) - b)
    def val(m, a, b):
        if isinstance(a, Lin) and isinstance(b, Lin): m.lin(a, b); return
        if isinstance(a, Ptr) and isinstance(b, Ptr): m.base(a.b, b.b); m.lin(a.o, b.o); return
        if isinstance(a, Tok) and isinstance(b, Tok) and a.s == b.s: m.lin(a.i, b.i); return
        if isinstance(a, Agg) and isinstance(b, Agg) and len(a.e) == len(b.e):
            for x, y in zip(a.e, b.e): m.val(x, y)
            return
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            for x, y in zip(a, b): m.bind(('r', x), ('r', y))
            return
        if a is UNDEF: return       # the invariant claims nothing
        raise NoMatch
    def content(m, c, d, lo, hi):
        if c is None and d is None: return
        if c is None or d is None: raise NoMatch
        if c[0] == 'z' and (d[0] == 'z' or d[0] == 'v' and d[2] == ZERO): return
        if c[0] != d[0] or c[1] != d[1]: raise NoMatch
        if c[0] == 'v': m.val(c[2], d[2]); return
        if c[2] != d[2]: raise NoMatch
        if c[4] != d[4]:
            if c[4] is not None and d[4] is None: pass          # one element: any step fits
            elif c[4] is None and m.B.cons.ent_eq(hi - lo - c[1]): pass
            else: raise NoMatch
        m.lin(c[3], d[3])
    def segs(m, x, y):
        y = [q for q in y if not m.B.cons.ent_eq(q[1] - q[0])]
        if len(x) != len(y):
            # segments of T that are empty in this instance
            n, k = len(x), len(y)
            if n < k: raise NoMatch
            D = {}
            def go(i, j):
                if (i, j) in D: return D[i, j]
                if i == n: r = () if j == k else None
                else:
                    r = None
                    if j < k and m.g.compat(x[i][2], y[j][2]):
                        t = go(i+1, j+1)
                        if t is not None: r = ('m',) + t
                    if r is None and n - i > k - j:
                        t = go(i+1, j)
                        if t is not None: r = ('e',) + t
                D[i, j] = r; return r
            al = go(0, 0)
            if al is None: raise NoMatch
            j = 0; end = y[-1][1] if y else ZERO
            for i, a in enumerate(al):
                if a == 'm':
                    m.lin(x[i][0], y[j][0]); m.lin(x[i][1], y[j][1]); m.content(x[i][2], y[j][2], y[j][0], y[j][1]); j += 1
                else:
                    at = y[j][0] if j < k else end
                    m.lin(x[i][0], at); m.lin(x[i][1], at)
            return
        for (l1, h1, c), (l2, h2, d) in zip(x, y):
            if not m.g.compat(c, d): raise NoMatch
            m.lin(l1, l2); m.lin(h1, h2); m.content(c, d, l2, h2)
    def solve(m, cons):
        B = m.B; prim = {v.t[0][0]: k for k, v in m.ren.items()}
        sol = {}; eqs = [B.cons.norm(e) for e in m.eqs]
        while True:
            pick = None
            for n, e in enumerate(eqs):
                ps = [(k, v) for k, v in e.t if k in prim]
                if not ps: continue
                g0 = 0
                for _, v in e.t: g0 = gcd(g0, v)
                if g0 > 1 and e.c % g0 == 0: e = Lin(e.c//g0, tuple((k, v//g0) for k, v in e.t)); eqs[n] = e
                for k, v in e.t:
                    if k in prim and abs(v) == 1: pick = (len(ps), n, k, v) if pick is None or len(ps) < pick[0] else pick
            if pick is None: break
            _, n, k, v = pick
            e = eqs.pop(n); ex = Lin(e.c, tuple(x for x in e.t if x[0] != k))*(-v)
            sol = {a: x.sub(k, ex) for a, x in sol.items()}; sol[k] = ex
            eqs = [x.sub(k, ex) for x in eqs]
        free = [k for k in prim if k not in sol]
        for k in free:
            o = prim[k]
            if o == m.g.ksym: d = {k: Lin(1, ((o, 1),)) if B.cons.ent_ge(Lin(0, ((o, 1),))) else ZERO}
            else: d = {k: Lin(0, ((o, 1),))}
            sol = {a: x.subm(d) for a, x in sol.items()}; sol.update(d); eqs = [x.subm(d) for x in eqs]
        for e in eqs:
            if not B.cons.ent_eq(e): raise NoMatch
        res = {prim[k]: v for k, v in sol.items()}
        if cons:
            T = m.g.st.cons
            for l in T.all():
                if not B.cons.ent_ge(l.subm(res)): raise NoMatch
            for k, e in T.eq.items():
                l = (Lin(0, ((k, 1),)) - e).subm(res)
                if not B.cons.ent_eq(l): raise NoMatch
            for l in T.ne:
                if not B.cons.ent_ne(l.subm(res)): raise NoMatch
        elif m.g.usedk and not B.cons.ent_ge(res[m.g.ksym]): raise NoMatch
        return res

# ------------------------------------------------------------------ intercepted functions
INTR = {}
def intr(*names):
    def d(f):
        for n in names: INTR[n] = f
        return f
    return d
def _els(s, st, ps, I, what):
    """read several elements; [(state, [tok..])] or retry"""
    res = [(st, [])]
    for p in ps:
        nx = []
        for q, ts in res:
            for e in s.el_read(q, p, I, what):
                if e[0] == 'retry':
                    if len(res) > 1 or ts: return [('retry', e2[1]) for e2 in s.el_read(q, p, I, what)] + [('retry', r[0]) for r in res if r[0] is not q]
                    nx.append(e)
                else: nx.append((e[0], ts + [e[1]]))
        if any(x[0] == 'retry' for x in nx): return [x if x[0] == 'retry' else ('retry', x[0]) for x in nx]
        res = nx
    return res
MOVED = 'moved-from'
@intr('_ZN4ElemC1Ev', '_ZN4ElemC2Ev')
def _(s, st, a, I): return [(e if isinstance(e, tuple) and e[0] == 'retry' else (e[0], None)) for e in s.el_write(st, a[0], Tok('default', 0), I, 'ctor')]
def _copy(how, move):
    def f(s, st, a, I):
        out = []
        for e in _els(s, st, [a[1]], I, 'copies'):
            if e[0] == 'retry': out.append(e); continue
            q, (t,) = e
            if move and a[0] != a[1]:
                for e2 in s.el_write(q, a[1], Tok(MOVED, 0), I, 'asg'):
                    if e2[0] == 'retry': raise Unsup('retry in a move')
                    for e3 in s.el_write(e2[0], a[0], t, I, how):
                        out.append(('retry', q) if e3[0] == 'retry' else (e3[0], a[0]))
                        if e3[0] == 'retry': raise Unsup('retry in a move')
            else:
                for e3 in s.el_write(q, a[0], t, I, how): out.append(e3 if e3[0] == 'retry' else (e3[0], a[0]))
        return out
    return f
INTR['_ZN4ElemC1ERKS_'] = INTR['_ZN4ElemC2ERKS_'] = _copy('ctor', False)
INTR['_ZN4ElemC1EOS_'] = INTR['_ZN4ElemC2EOS_'] = _copy('ctor', True)
INTR['_ZN4ElemaSERKS_'] = _copy('asg', False)
INTR['_ZN4ElemaSEOS_'] = _copy('asg', True)
@intr('_ZN4ElemD1Ev', '_ZN4ElemD2Ev')
def _(s, st, a, I): return [(e if e[0] == 'retry' else (e[0], None)) for e in s.el_write(st, a[0], None, I, 'dtor')]
def _cmp(op):
    def f(s, st, a, I):
        out = []
        for e in _els(s, st, a[:2], I, 'compares'):
            if e[0] == 'retry': out.append(e); continue
            q, (x, y) = e
            for q2, v in s.tokcmp(q, op, x, y, I): out.append((q2, L(1 if v else 0)))
        return out
    return f
INTR['_ZNK4ElemltERKS_'] = _cmp('lt'); INTR['_ZNK4ElemgtERKS_'] = _cmp('gt'); INTR['_ZNK4ElemeqERKS_'] = _cmp('eq')
def tokcmp(s, st, op, x, y, I):
    if x.s == MOVED or y.s == MOVED: s.fail(st, 'sem', 'compares a moved-from element', I); return []
    info = s.seqs.get(x.s, ('ord',))
    if op == 'eq' and info[0] == 'match' or s.seqs.get(y.s, ('ord',))[0] == 'match':
        # info = ('match', needle sequence, p): the first equal element is at position p
        if info[0] != 'match': x, y = y, x; info = s.seqs[x.s]
        if y.s != info[1]: raise Unsup('comparison')
        p = info[2]; out = []
        for q, before in s.tsplit(st, Cond('ge', p - x.i - 1), I):
            if before: out.append((q, False)); continue
            for q2, eq in q.split(Cond('eq', p - x.i)):
                if eq: out.append((q2, True))
                else:
                    key = ('oeq', x.s, q2.cons.norm(x.i)); v = q2.om.get(key)
                    if v is not None: out.append((q2, v)); continue
                    q3 = q2.fork()
                    for z, b in ((q2, True), (q3, False)): z.om = dict(z.om); z.om[key] = b; out.append((z, b))
        return out
    if info[0] == 'val' or s.seqs.get(y.s, ('ord',))[0] == 'val':
        # arbitrary elements: each position of the sequence carries an unconstrained rank
        out = []
        for q, vx in s.rank(st, x):
            for q2, vy in s.rank(q, y):
                d = vy - vx
                out += s.tsplit(q2, {'lt': Cond('ge', d - 1), 'gt': Cond('ge', -d - 1), 'eq': Cond('eq', d)}[op], I)
        return out
    if x.s != y.s: 
        if op == 'eq' and {x.s, y.s} and 'default' in (x.s, y.s): return [(st, False)]
        raise Unsup('comparison of unrelated elements')
    if x.s == 'default': return [(st, op == 'eq')]
    if info[0] == 'ord':
        d = y.i - x.i
        c = {'lt': Cond('ge', d - 1), 'gt': Cond('ge', -d - 1), 'eq': Cond('eq', d)}[op]
        return s.tsplit(st, c, I)
    raise Unsup('comparison of unordered elements')
Interp.tokcmp = tokcmp
def rank(s, st, t):
    """the rank of an element of an unordered sequence: a symbol per position, the same for equal positions"""
    i = st.cons.norm(t.i); out = []; work = [st]
    for key in [k for k in st.om if k[0] == 'rank' and k[1] == t.s]:
        nx = []
        for q in work:
            for z, same in q.split(Cond('eq', key[2] - i)):
                if same: out.append((z, z.om[key]))
                else: nx.append(z)
        work = nx
    for q in work: out.append((q, q.om_sym(('rank', t.s, i), lambda: sym('v'))))
    return out
Interp.rank = rank
# ---- allocators
def _alloc(tag):
    def f(s, st, a, I):
        n = a[0]
        if not isinstance(n, Lin): raise Unsup('allocation size')
        rid = st.new_region('heap', st.cons.norm(n), tag, 'block'); s.rnames[rid] = 'block allocated at %s' % s.where(I)
        s.obl('alloc', True)
        if not st.cons.ent_ge(L(n)):
            b = st.fork()
            if b.ge(-L(n) - 1): s.fail(b, 'mem', 'requests a negative number of bytes (%r)' % b.cons.norm(n), I)
            if not st.ge(L(n)): return []
        return [(st, Ptr(('r', rid)))]
    return f
def _dealloc(tag):
    def f(s, st, a, I):
        p = a[0]
        if not isinstance(p, Ptr): s.fail(st, 'mem', 'returns an indeterminate pointer', I); return []
        if p.b == ('null',) and p.o == ZERO: return [(st, None)]
        k = s.target(st, p, I, 'returns')
        if k[0] == 'dead': return []
        if k[0] == 'retry': return [('retry', x) for x in k[1]]
        r = st.R[k[1]]
        def chk(ok, msg, kind='mem', cond=None):
            s.obl('ledger', ok)
            if not ok:
                b = st
                if cond is not None:
                    b = st.fork()
                    if not b.add(cond): return
                s.fail(b, kind, msg, I)
        chk(r.kind == 'heap', 'returns storage that was not allocated')
        if r.kind != 'heap': return []
        chk(r.tag == tag, 'returns a block of allocator %s to allocator %s' % (r.tag, tag))
        chk(st.cons.ent_eq(p.o), 'returns a pointer into the middle of a block', cond=Cond('ne', p.o))
        if tag != 'malloc':
            n = a[1]
            if n is UNDEF: s.fail(st, 'uninit', 'returns a block with an uninitialised size', I)
            else: chk(st.cons.ent_eq(n - r.size), 'returns a block of %r bytes as one of %r' % (st.cons.norm(r.size), st.cons.norm(n)), cond=Cond('ne', n - r.size))
        for lo, hi, c in r.segs:
            if s.live_elem(c):
                chk(st.cons.ent_eq(hi - lo), 'releases storage that still holds live elements', 'life', Cond('ge', hi - lo - 1))
        s.rnames[k[1]] = 'block allocated for %r bytes' % (r.size,)
        del st.R[k[1]]
        return [(st, None)]
    return f
for _t in ('TA', 'TB'):
    INTR['_ZN2%s8allocateEi' % _t] = _alloc(_t); INTR['_ZN2%s10deallocateEPvi' % _t] = _dealloc(_t)
INTR['malloc'] = _alloc('malloc'); INTR['free'] = _dealloc('malloc'); INTR['_Znwm'] = _alloc('new'); 
@intr('an_thrown')
def _(s, st, a, I): s.obl('stop', False); s.fail(st, 'assert', 'a call throws an exception', I); return []
@intr('__cxa_atexit')
def _(s, st, a, I): return [(st, ZERO)]      # after the scenario
@intr('__assert_fail', 'abort')
def _(s, st, a, I): return s.abort(st, I)
@intr('llvm.memcpy', 'llvm.memmove', 'memcpy', 'memmove')
def _(s, st, a, I):
    n = st.cons.norm(a[2])
    if not n.t: st.steps += n.c // 8
    r = s.copy_range(st, a[0], a[1], n, I)
    return [e if isinstance(e, tuple) else (e, a[0]) for e in r]
@intr('llvm.memset', 'memset')
def _(s, st, a, I):
    n = st.cons.norm(a[2])
    if not L(n).t: st.steps += L(n).c // 8
    if st.cons.ent_eq(L(n)): return [(st, a[0])]
    k = s.target(st, a[0], I, 'writes')
    if k[0] == 'dead': return []
    if k[0] == 'retry': return [('retry', x) for x in k[1]]
    c = ('z',) if isinstance(a[1], Lin) and st.cons.norm(a[1]) == ZERO else ('v', 1, a[1])
    return [(q, a[0]) for q in s.wr(st, k[1], a[0].o, n, c, I)]
@intr('llvm.dbg.declare', 'llvm.dbg.value', 'llvm.lifetime.start', 'llvm.lifetime.end', 'llvm.assume', 'llvm.experimental')
def _(s, st, a, I): return [(st, None)]
# ---- analysis vocabulary used by the scenario units
def cstr(s, p):
    if isinstance(p, Ptr) and p.b[0] == 'glob':
        d = s.m.globals.get(p.b[1])
        if d and d[2] and d[2][0] == 'cstr': return ''.join(map(chr, s.cbytes(d[2][1]))).rstrip('\0')
    return '?'
@intr('an_int')
def _(s, st, a, I):
    v = sym('n'); st.ge(v - a[0]); st.ge(a[1] - v); s.inputs = getattr(s, 'inputs', 0) + 1
    return [(st, v)]
@intr('an_assume')
def _(s, st, a, I):
    c = st.cons.norm(a[0])
    return [(st, None)] if c == ONE else []
@intr('an_check')
def _(s, st, a, I):
    c = a[0]
    if c is UNDEF: s.fail(st, 'uninit', 'uninitialised result: ' + cstr(s, a[1]), I); return [(st, None)]
    c = st.cons.norm(c); s.obl('sem', c == ONE)
    if c == ZERO: s.fail(st, 'sem', cstr(s, a[1]), I); return []
    return [(st, None)]
@intr('an_oracle')
def _(s, st, a, I):
    q = st.fork(); st.orc = object(); q.orc = object(); return [(st, ZERO), (q, ONE)]
@intr('an_stop_on')
def _(s, st, a, I): st.flags = dict(st.flags); st.flags['stop'] = True; return [(st, None)]
@intr('an_unreachable')
def _(s, st, a, I): s.obl('sem', False); s.fail(st, 'sem', cstr(s, a[0]), I); return []
def seqreg(s, st, name, esz):
    rid = s.gl.get(('seq', name))
    if rid is None: rid = s.gl[('seq', name)] = next(_rid)
    if rid not in st.R: st.R[rid] = Region('ext', L(BIG), ((ZERO, L(BIG), ('s', esz, name, ZERO, 1)),), None, 'sequence')
    return rid
@intr('an_seq')
def _(s, st, a, I):
    k = st.cons.norm(a[0]).const; rid = seqreg(s, st, 's%d' % k, ESZ)
    return [(st, Ptr(('r', rid), a[1]*ESZ))]
@intr('an_is')
def _(s, st, a, I):
    out = []; name = 's%d' % st.cons.norm(a[1]).const
    for e in s.el_read(st, a[0], I, 'observes'):
        if e[0] == 'retry': out.append(e); continue
        q, t = e
        if t.s != name: out.append((q, ZERO)); continue
        for q2, eq in q.split(Cond('eq', t.i - a[2])): out.append((q2, L(1 if eq else 0)))
    return out
@intr('an_unordered')
def _(s, st, a, I): s.seqs['s%d' % a[0].const] = ('val',); return [(st, None)]
@intr('an_isdefault')
def _(s, st, a, I):
    out = []
    for e in s.el_read(st, a[0], I, 'observes'):
        if e[0] == 'retry': out.append(e); continue
        out.append((e[0], L(1 if e[1].s == 'default' else 0)))
    return out
@intr('an_match')
def _(s, st, a, I):
    """sequence a0 has its first element equal to element 0 of sequence a1 at position a2"""
    s.seqs['s%d' % a[0].const] = ('match', 's%d' % a[1].const, a[2]); return [(st, None)]
@intr('an_str')
def _(s, st, a, I):
    """C string: a1 characters of character sequence a0, none of them NUL, then NUL"""
    name = '#c%d' % a[0].const; n = a[1]; s.seqs[name] = ('cstr', n)
    rid = s.gl.get(('str', name))
    if rid is None: rid = s.gl[('str', name)] = next(_rid)
    st.R[rid] = Region('ext', n + 1, ((ZERO, n, ('s', 1, name, ZERO, 1)), (n, n + 1, ('z',))), None, 'C string')
    return [(st, Ptr(('r', rid)))]
@intr('an_chr')
def _(s, st, a, I):
    out = []
    for q, v in s.seq_int(st, '#d%d' % a[0].const, a[1], I): out.append((q, v))
    return out
@intr('an_isc')
def _(s, st, a, I):
    """does a0 point at character a2 of C string / character sequence a1 (kind a3: 0 = #c, 1 = #d)"""
    k = s.target(st, a[0], I, 'observes'); name = '#%s%d' % ('cd'[a[3].const], a[1].const)
    if k[0] == 'dead': return []
    out = []
    for q, j in s.getseg(st, k[1], a[0].o, 1, I):
        if j is None: raise Unsup('isc')
        lo, hi, c = q.R[k[1]].segs[j]
        if c is None: s.fail(q, 'uninit', 'observes uninitialised characters', I); continue
        if c[0] == 's' and c[2] == name:
            cc = s.content_at(c, lo, a[0].o)
            for q2, eq in q.split(Cond('eq', cc[3] - a[2])): out.append((q2, L(1 if eq else 0)))
        else: out.append((q, ZERO))
    return out
@intr('an_xptr')
def _(s, st, a, I): 
    p = Ptr(('x', a[0].const)); st.ge(s.addr(st, p.b)); return [(st, p)]

@intr('an_unroll')
def _(s, st, a, I): st.flags = dict(st.flags); st.flags['unroll'] = a[0].const; return [(st, None)]
@intr('an_steps')
def _(s, st, a, I): return [(st, L(st.steps))]
@intr('an_pick')
def _(s, st, a, I): return [(st, L(a[1 if THOROUGH else 0].const))]
def shape_key(s, st, root, base, seqbase):
    """canonical form of everything reachable from a pointer: regions numbered in the order they are met,
    sequence positions relative to base; two states with the same form behave alike"""
    num_ = {}; todo = []; out = []
    def const(l):
        l = st.cons.norm(L(l))
        if l.t: raise Undecided('state is not concrete in shape')
        return l.c
    def reg(rid):
        if rid not in num_: num_[rid] = len(num_); todo.append(rid)
        return num_[rid]
    def val(v):
        if isinstance(v, Ptr):
            if v.b[0] == 'r':
                if v.b[1] not in st.R: return ('dead',)
                return ('p', reg(v.b[1]), const(v.o))
            return (v.b, const(v.o))
        if isinstance(v, Lin): return const(v)
        if v is UNDEF: return 'undef'
        if isinstance(v, Agg): return tuple(val(x) for x in v.e)
        raise Undecided('state is not concrete in shape')
    todo = []; num_ = {}; r0 = val(root); i = 0
    while i < len(todo):
        r = st.R[todo[i]]; i += 1
        if r.kind in ('glob', 'ext'): out.append((r.kind, r.name)); continue
        cells = []
        for lo, hi, c in r.segs:
            lo, hi = const(lo), const(hi)
            if lo == hi: continue
            if c is None or c[0] == 'z':
                k = (c and c[0],)
                if cells and cells[-1][2] == k and cells[-1][1] == lo: lo = cells.pop()[0]
                cells.append((lo, hi, k))
            elif c[0] == 's':
                i0 = const(c[3])
                if is_int_seq(c[2]) or c[2] not in seqbase: cells.append((lo, hi, c[1], c[2], i0, c[4]))
                else:
                    for j in range((hi - lo) // c[1]): cells.append((lo + j*c[1], lo + (j + 1)*c[1], 'e', c[2], i0 + j*(c[4] or 0) - base))
            else: cells.append((lo, hi, c[1], val(c[2])))
        out.append((r.kind, r.tag, const(r.size), r.alive, tuple(cells)))
    return (r0, tuple(out))
@intr('an_seen')
def _(s, st, a, I):
    """an_seen(object, base, extra): stop following a state that has been followed before, up to a shift of sequence 0 by base"""
    key = (shape_key(s, st, a[0], st.cons.norm(a[1]).const, ('s0',)), st.cons.norm(a[2]).const)
    v = s.__dict__.setdefault('visited', set())
    if key in v: return []
    v.add(key); s.stats['states'] = len(v); return [(st, None)]
@intr('an_depth')
def _(s, st, a, I):
    """an_depth(quick, thorough): how deep structures are unfolded when this scenario is not decided"""
    s.maxd = st.cons.norm(a[1 if THOROUGH else 0]).const; return [(st, None)]
# ---- trees
@intr('an_layout')
def _(s, st, a, I):
    """an_layout(id, size, parent, left, right, data, height or -1, balanced)"""
    c = [st.cons.norm(x.o if isinstance(x, Ptr) else x).const for x in a]
    s.lays[('tree', c[0])] = Layout('tree', c[1], parent=c[2], left=c[3], right=c[4], data=c[5], height=None if c[6] < 0 else c[6], balanced=bool(c[7])); return [(st, None)]
@intr('an_layout_extra')
def _(s, st, a, I):
    off = a[1].o if isinstance(a[1], Ptr) else a[1]; l = s.lays[('tree', st.cons.norm(a[0]).const)]; l.extra = ((st.cons.norm(off).const, 's%d' % st.cons.norm(a[2]).const),); return [(st, None)]
def _ranges(st, a):
    q = 's%d' % st.cons.norm(a[0]).const; out = []
    for lo, hi in zip(a[1::2], a[2::2]): out.append((q, lo, hi))
    return tuple(out)
@intr('an_tree', 'an_tree2')
def _(s, st, a, I):
    """an arbitrary tree of layout a0 (allocator TA) holding the given ranges of a sequence in order"""
    lay = s.lays[('tree', st.cons.norm(a[0]).const)]; cs = _ranges(st, a[1:]); i = next(_rid); h = None
    for _, lo, hi in cs:
        if not st.ge(hi - lo): return []
    if lay.balanced: h = sym('h'); st.ge(h)
    q = Tree(lay, NULL, cs, h, 'TA'); st.T[i] = q
    if h is not None: st.ge(q.count() - h)
    return [(st, Ptr(('t', i)))]
def _shape(s, st, a, f):
    lay = s.lays[('tree', st.cons.norm(a[0]).const)]; p = a[1]; out = []; todo = [st]
    while todo:
        st = todo.pop(); seen = set(); s.hts = []; s.exts = []
        if not isinstance(p, Ptr): raise Unsup('tree root')
        # p itself may have been resolved by a split: follow it
        q = st.flags.get('$root', p)
        st.flags = dict(st.flags); st.flags['$root'] = q
        try: pc, h = s.tree_shape(st, lay, q, NULL, seen)
        except Again as e: todo += e.args[0]; continue
        except Malformed as e: st.flags.pop('$root', None); s.obl('sem', False); s.fail(st, 'sem', 'malformed tree: %s' % e, s.cur); continue
        st.flags.pop('$root', None)
        out += f(st, pc, h, seen)
    return out
def _content_is(s, st, pieces, want, f):
    """fork over whether the concatenated pieces are exactly the wanted ranges"""
    out = []
    todo = [(st, list(pieces), list(want))]
    while todo:
        q, x, y = todo.pop()
        while True:
            while x and q.cons.ent_eq(x[0][2] - x[0][1]): x.pop(0)
            while y and q.cons.ent_eq(y[0][2] - y[0][1]): y.pop(0)
            if not x and not y: out.append((q, True)); break
            if not x or not y:
                sq, a, b = (x or y)[0]
                r = q.split(Cond('ge', b - a - 1)); 
                if len(r) == 1: out.append((q, False)); break
                for z, ne in r:
                    if ne: out.append((z, False))
                    else: todo.append((z, list(x), list(y)))
                break
            (s1, a1, b1), (s2, a2, b2) = x[0], y[0]
            if s1 == s2 and q.cons.ent_eq(a1 - a2):
                if q.cons.ent_ge(b2 - b1): x.pop(0); y[0] = (s2, b1, b2); continue
                if q.cons.ent_ge(b1 - b2): y.pop(0); x[0] = (s1, b2, b1); continue
            r1 = q.split(Cond('ge', b1 - a1 - 1))
            if len(r1) > 1: todo += [(z, list(x), list(y)) for z, _ in r1]; break
            r2 = q.split(Cond('ge', b2 - a2 - 1))
            if len(r2) > 1: todo += [(z, list(x), list(y)) for z, _ in r2]; break
            if s1 != s2: out.append((q, False)); break
            r = q.split(Cond('eq', a1 - a2))
            if len(r) > 1:
                for z, e in r:
                    if e: todo.append((z, list(x), list(y)))
                    else: out.append((z, False))
                break
            if not r[0][1]: out.append((q, False)); break
            r = q.split(Cond('ge', b2 - b1))
            if len(r) > 1: todo += [(z, list(x), list(y)) for z, _ in r]; break
            if r[0][1]: x.pop(0); y[0] = (s2, b1, b2)
            else: y.pop(0); x[0] = (s1, b2, b1)
    return out
@intr('an_istree', 'an_istree2')
def _(s, st, a, I):
    """is a1 a well formed tree of layout a0 holding exactly the given ranges?"""
    want = _ranges(st, a[2:])
    def f(st, pc, h, seen): return [(q, L(1 if v else 0)) for q, v in _content_is(s, st, pc, want, None)]
    return _shape(s, st, a, f)
@intr('an_isval')
def _(s, st, a, I):
    """an_isval(id, root, p, vs, vi): the node of key p holds value vi of sequence vs (-1: a default value), every other node the value it had"""
    p = a[2]; vs = st.cons.norm(a[3]).const
    def f(st, pc, h, seen):
        res = [(st, 1)]
        for d, e, sq2 in list(s.exts):
            nx = []
            for q, v in res:
                if not v: nx.append((q, v)); continue
                for q2, at in (q.split(Cond('eq', d[3] - p)) if d[2] == 's0' else [(q, False)]):
                    wq, wi = ('default' if vs < 0 else 's%d' % vs, a[4]) if at else (sq2, d[3])
                    if e[2] != wq: nx.append((q2, 0)); continue
                    if wq == 'default': nx.append((q2, 1)); continue
                    for q3, y in q2.split(Cond('eq', e[3] - wi)): nx.append((q3, 1 if y else 0))
            res = nx
        return [(q, L(v)) for q, v in res]
    return _shape(s, st, a, f)
@intr('an_balanced')
def _(s, st, a, I):
    """1 if every node of the tree is height balanced, else 0"""
    def f(st, pc, h, seen):
        res = [(st, 1)]
        for p, lh, rh, hh, c in list(s.hts):
            nx = []
            for q, v in res:
                if not v: nx.append((q, v)); continue
                for q2, x in q.split(Cond('ge', lh - rh + 1)):
                    if not x: nx.append((q2, 0)); continue
                    for q3, y in q2.split(Cond('ge', rh - lh + 1)): nx.append((q3, 1 if y else 0))
            res = nx
        return [(q, L(v)) for q, v in res]
    return _shape(s, st, a, f)
@intr('an_heights')
def _(s, st, a, I):
    """1 if every node of the tree stores its true height, else 0"""
    def f(st, pc, h, seen):
        res = [(st, 1)]
        for p, lh, rh, hh, c in list(s.hts):
            nx = []
            for q, v in res:
                if not v or c is None or c[0] != 'v' or not isinstance(c[2], Lin): nx.append((q, 0)); continue
                for q2, x in q.split(Cond('eq', hh - c[2])): nx.append((q2, 1 if x else 0))
            res = nx
        return [(q, L(v)) for q, v in res]
    return _shape(s, st, a, f)
@intr('an_height')
def _(s, st, a, I): return _shape(s, st, a, lambda st, pc, h, seen: [(st, h)])
@intr('an_end2')
def _(s, st, a, I):
    out = []
    def g(st, pc, h, seen): s.seen0 = seen; return [(st, seen)]
    for q, seen in _shape(s, st, a[:2], g):
        x = q.flags.get('$r2', a[2]); s.end_with(q, [a[0], x], I, seen)
    return []
def end_with(s, st, a, I, seen0):
    def f(st, pc, h, seen):
        for i, r in st.R.items():
            if r.kind == 'heap':
                s.obl('ledger', i in seen or i in seen0)
                if i not in seen and i not in seen0: s.fail(st, 'leak', 'a node that belongs to no tree any more is not returned to the allocator', I)
        s.ends.append('end'); return []
    _shape(s, st, a, f)
Interp.end_with = end_with
@intr('an_end')
def _(s, st, a, I):
    """the scenario ends here: every heap block must belong to the tree at a1 (layout a0)"""
    def f(st, pc, h, seen):
        for i, r in st.R.items():
            if r.kind == 'heap':
                s.obl('ledger', i in seen)
                if i not in seen: s.fail(st, 'leak', 'a node that is not part of the tree any more is not returned to the allocator', I)
        for i, q in st.T.items():
            if ('t', i) not in seen:
                b = st.fork()
                if b.ge(q.count() - 1): s.fail(b, 'leak', 'nodes that are not part of the tree any more are not returned to the allocator', I)
        s.ends.append('end'); return []
    return _shape(s, st, a, f)
# ---- memory that belongs to a client of the static allocator
OWN = ('s', 1, '#own', ZERO, 0)
@intr('an_own', 'an_disown')
def _(s, st, a, I):
    name = I.a[1][1]
    k = s.target(st, a[0], I, 'owns'); n = st.cons.norm(a[1])
    if k[0] == 'dead': return []
    if k[0] == 'retry': return [('retry', x) for x in k[1]]
    if st.cons.ent_eq(n): return [(st, None)]
    out = []
    for q, j0, j1 in s.isolate(st, k[1], a[0].o, n, I, False):
        r = q.R[k[1]].copy(); r.segs = r.segs[:j0] + ((a[0].o, a[0].o + n, OWN if name == 'an_own' else None),) + r.segs[j1:]
        q.R[k[1]] = r; s.coalesce(q, k[1], j0); out.append((q, None))
    return out
