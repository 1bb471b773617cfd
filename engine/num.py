"""Linear integer arithmetic domain: conjunctions of linear equalities and inequalities over
integer symbols (an integer-tightened polyhedra domain decided by Fourier-Motzkin elimination)."""
from math import gcd
import itertools

_names = {}
_cnt = itertools.count(1)

def reset():
    global _cnt
    _cnt = itertools.count(1); _names.clear(); _memo.clear(); _memo2.clear()

class Lin:
    __slots__ = ('c', 't', '_h')
    def __init__(s, c, t=()):
        s.c = c; s.t = t; s._h = None
    def __hash__(s):
        if s._h is None: s._h = hash((s.c, s.t))
        return s._h
    def __eq__(s, o): return isinstance(o, Lin) and s.c == o.c and s.t == o.t
    def __ne__(s, o): return not s == o
    def __add__(s, o):
        if isinstance(o, int): return Lin(s.c+o, s.t)
        if not o.t: return Lin(s.c+o.c, s.t)
        if not s.t: return Lin(s.c+o.c, o.t)
        d = dict(s.t)
        for k, v in o.t:
            n = d.get(k, 0)+v
            if n: d[k] = n
            else: d.pop(k, None)
        return Lin(s.c+o.c, tuple(sorted(d.items())))
    __radd__ = __add__
    def __neg__(s): return Lin(-s.c, tuple((k, -v) for k, v in s.t))
    def __sub__(s, o):
        if isinstance(o, int): return Lin(s.c-o, s.t)
        return s + (-o)
    def __rsub__(s, o): return (-s)+o
    def __mul__(s, n):
        if n == 0: return ZERO
        return Lin(s.c*n, tuple((k, v*n) for k, v in s.t))
    __rmul__ = __mul__
    @property
    def const(s): return s.c if not s.t else None
    def syms(s): return [k for k, _ in s.t]
    def coef(s, k):
        for a, b in s.t:
            if a == k: return b
        return 0
    def sub(s, k, e):
        """replace symbol k by Lin e"""
        q = s.coef(k)
        if not q: return s
        return Lin(s.c, tuple(x for x in s.t if x[0] != k)) + e*q
    def subm(s, m):
        for k, _ in s.t:
            if k in m: break
        else: return s
        r = Lin(s.c, tuple(x for x in s.t if x[0] not in m))
        for k, q in s.t:
            if k in m: r = r + m[k]*q
        return r
    def __repr__(s):
        out = ''
        for k, v in s.t:
            n = _names.get(k, 'v%d' % k)
            out += ('+' if v > 0 else '-') + ('' if abs(v) == 1 else '%d*' % abs(v)) + n
        if s.c or not out: out += '%+d' % s.c
        return out.lstrip('+')

ZERO = Lin(0); ONE = Lin(1)
def L(x): return x if isinstance(x, Lin) else Lin(x)
def sym(name='v'):
    i = next(_cnt); _names[i] = '%s%d' % (name, i)
    return Lin(0, ((i, 1),))
def symname(k): return _names.get(k, 'v%d' % k)

_memo = {}; _memo2 = {}

def _tighten(l):
    """l >= 0 with integer tightening; returns Lin or True/False when constant"""
    if not l.t: return l.c >= 0
    g = 0
    for _, v in l.t:
        g = gcd(g, v)
        if g == 1: return l
    if g > 1: return Lin(l.c // g, tuple((k, v//g) for k, v in l.t))
    return l

def feasible(ineqs):
    """ineqs: iterable of Lin (>=0). Over-approximate: False only if really infeasible."""
    key = frozenset(ineqs)
    r = _memo.get(key)
    if r is None:
        if len(_memo) > 400000: _memo.clear(); _memo2.clear()
        if _lib is None: _load()
        if _lib:
            try: r = _memo[key] = bool(_lib(len(key), _flat(key)))
            except OverflowError: r = _memo[key] = True
        else: r = _memo[key] = _feas(key)
    return r
import ctypes as _ct
from array import array as _array
_lib = _lib2 = None
class GD(dict): __slots__ = ('flat',)
class _F: __slots__ = ('a',)
def _flat(ls):
    d = []
    for l in ls:
        d.append(len(l.t)); d.append(l.c)
        for kv in l.t: d += kv
    return (_ct.c_int64 * (len(d) or 1)).from_buffer(_array('q', d or [0]))
def _load():
    """compile the C++ version of _feas (the Python one is used when that is not possible)"""
    global _lib, _lib2
    import os, subprocess, tempfile, shutil
    _lib = False
    d = tempfile.mkdtemp(prefix='dsf.')
    try:
        so = os.path.join(d, 'feas.so')
        for cc in ('g++', 'clang++-18', 'clang++'):
            try: ok = subprocess.run([cc, '-O2', '-shared', '-fPIC', '-o', so, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'feas.cpp')], capture_output=True, timeout=120).returncode == 0
            except Exception: ok = False
            if ok: break
        if ok:
            so = _ct.CDLL(so); f = so.feas; f.restype = _ct.c_int; f.argtypes = [_ct.c_int, _ct.POINTER(_ct.c_int64)]; _lib = f
            f = so.feas2; f.restype = _ct.c_int; f.argtypes = [_ct.c_int, _ct.POINTER(_ct.c_int64), _ct.c_int, _ct.POINTER(_ct.c_int64)]; _lib2 = f
    except Exception: pass
    finally: shutil.rmtree(d, ignore_errors=True)

def _feas(ineqs):
    best = {}
    for l in ineqs:
        l = _tighten(l)
        if l is True: continue
        if l is False: return False
        o = best.get(l.t)
        if o is None or l.c < o: best[l.t] = l.c
    while best:
        if len(best) > 600: return True
        # opposite pair check
        cnt = {}
        for t, c in best.items():
            n = tuple((k, -v) for k, v in t)
            c2 = best.get(n)
            if c2 is not None and c + c2 < 0: return False
            for k, v in t:
                p = cnt.get(k)
                if p is None: p = cnt[k] = [0, 0]
                p[v > 0] += 1
        # one-sided variables can be dropped with all their constraints
        drop = {k for k, p in cnt.items() if p[0] == 0 or p[1] == 0}
        if drop:
            best = {t: c for t, c in best.items() if not any(k in drop for k, _ in t)}
            continue
        # an equality (opposite pair) with unit coefficient: substitute
        x = None
        k = min(cnt, key=lambda q: cnt[q][0]*cnt[q][1])
        lo = []; hi = []; rest = {}
        for t, c in best.items():
            q = 0
            for a, b in t:
                if a == k: q = b; break
            if q > 0: lo.append((q, t, c))
            elif q < 0: hi.append((-q, t, c))
            else: rest[t] = c
        for q1, t1, c1 in lo:
            for q2, t2, c2 in hi:
                g = gcd(q1, q2); m1 = q2//g; m2 = q1//g
                d = {}
                for a, b in t1:
                    if a != k: d[a] = b*m1
                for a, b in t2:
                    if a != k:
                        n = d.get(a, 0)+b*m2
                        if n: d[a] = n
                        else: d.pop(a, None)
                l = _tighten(Lin(c1*m1+c2*m2, tuple(sorted(d.items()))))
                if l is True: continue
                if l is False: return False
                o = rest.get(l.t)
                if o is None or l.c < o: rest[l.t] = l.c
        best = rest
    return True

class Cons:
    """eq: triangular substitution sym -> Lin; ge: dict t -> c meaning t + c >= 0 ; ne: tuple of Lin != 0"""
    __slots__ = ('eq', 'ge', 'ne', 'bot')
    def __init__(s): s.eq = {}; s.ge = GD(); s.ne = (); s.bot = False
    def copy(s):
        n = Cons(); n.eq = s.eq; n.ge = s.ge; n.ne = s.ne; n.bot = s.bot; return n
    def norm(s, l):
        if s.eq:
            for k, _ in l.t:
                if k in s.eq: return l.subm(s.eq)
        return l
    def comp(s, l, extra=()):
        """constraints connected to the symbols of l"""
        syms = set(l.syms())
        for e in extra: syms.update(e.syms())
        out = []; todo = list(s.ge.items()); ch = True
        while ch:
            ch = False; nt = []
            for t, c in todo:
                if any(k in syms for k, _ in t):
                    out.append(Lin(c, t)); n = len(syms)
                    syms.update(k for k, _ in t)
                    ch = True
                else: nt.append((t, c))
            todo = nt
        return out
    def feas(s, ex):
        """may the constraints connected to ex hold together with every member of ex >= 0?"""
        if _lib is None: _load()
        if not _lib: return feasible(s.comp(ex[0], ex[1:]) + ex)
        g = s.ge
        try: f = g.flat
        except AttributeError:
            try: f = _F(); f.a = _flat([Lin(c, t) for t, c in g.items()])
            except OverflowError: return True
            if type(g) is GD: g.flat = f
        key = (f, tuple(ex)); r = _memo2.get(key)
        if r is None:
            if len(_memo2) > 200000: _memo2.clear()
            try: r = _memo2[key] = bool(_lib2(len(g), f.a, len(ex), _flat(ex)))
            except OverflowError: r = True
        return r
    def sat_with(s, *ls):
        """may the constraints hold together with every l >= 0 ?"""
        if s.bot: return False
        ex = []
        for l in ls:
            l = _tighten(s.norm(l))
            if l is True: continue
            if l is False: return False
            ex.append(l)
        if not ex: return True
        return s.feas(ex)
    def ent_ge(s, l):
        """constraints entail l >= 0"""
        if s.bot: return True
        l = s.norm(l)
        if not l.t: return l.c >= 0
        t = _tighten(l)
        c = s.ge.get(t.t)
        if c is not None and c <= t.c: return True
        return not s.sat_with(-l-1)
    def ent_eq(s, l):
        l = s.norm(l)
        if not l.t: return l.c == 0
        return s.ent_ge(l) and s.ent_ge(-l)
    def ent_ne(s, l):
        l = s.norm(l)
        if not l.t: return l.c != 0
        for e in s.ne:
            e = s.norm(e)
            if e == l or -e == l: return True
        return not s.sat_with(l, -l)
    def add_ge(s, l):
        """returns self (mutated copy expected) ; sets bot if infeasible"""
        l = _tighten(s.norm(l))
        if l is True: return s
        if l is False: s.bot = True; return s
        o = s.ge.get(l.t)
        if o is not None and o <= l.c: return s
        n = tuple((k, -v) for k, v in l.t)
        c2 = s.ge.get(n)
        if c2 is not None:
            if l.c + c2 < 0: s.bot = True; return s
            if l.c + c2 == 0: return s.add_eq(l)
        if not s.feas([l]): s.bot = True; return s
        s.ge = GD(s.ge); s.ge[l.t] = l.c
        # implied equality?  (l == 0 forced)
        if not s.sat_with(l-1): return s.add_eq(l)
        s._ckne(); return s
    def _ckne(s):
        if s.ne and not s.bot:
            out = []
            for e in s.ne:
                q = s.norm(e)
                if not q.t:
                    if q.c == 0: s.bot = True; return
                    continue
                a = s.sat_with(q-1); b = s.sat_with(-q-1)
                if not a and not b: s.bot = True; return
                if a and b: out.append(q); continue
                s.ne = tuple(x for x in s.ne if x is not e)
                s.add_ge(q-1 if a else -q-1)
                if s.bot: return
                continue
            s.ne = tuple(x for x in out if x in out)
    def add_eq(s, l):
        l = s.norm(l)
        if not l.t:
            if l.c != 0: s.bot = True
            return s
        g = 0
        for _, v in l.t: g = gcd(g, v)
        if l.c % g: s.bot = True; return s
        if g > 1: l = Lin(l.c//g, tuple((k, v//g) for k, v in l.t))
        u = None
        for k, v in l.t:
            if abs(v) == 1 and (u is None or k > u[0]): u = (k, v)
        if u is None:
            # no unit coefficient: keep as a pair of inequalities
            s.ge = GD(s.ge)
            for q in (l, -l):
                o = s.ge.get(q.t)
                if o is None or q.c < o: s.ge[q.t] = q.c
            if not feasible(s.comp(l)): s.bot = True
            return s
        k, v = u
        e = Lin(l.c, tuple(x for x in l.t if x[0] != k))*(-v)   # k = e
        m = {k: e}
        s.eq = {a: b.subm(m) for a, b in s.eq.items()}; s.eq[k] = e
        old = s.ge; s.ge = GD((t, c) for t, c in old.items() if not any(a == k for a, _ in t))
        for t, c in old.items():
            if any(a == k for a, _ in t):
                s.add_ge(Lin(c, t))
                if s.bot: return s
        s._ckne()
        return s
    def add_ne(s, l):
        l = s.norm(l)
        if not l.t:
            if l.c == 0: s.bot = True
            return s
        a = s.sat_with(l-1); b = s.sat_with(-l-1)
        if not a and not b: s.bot = True; return s
        if not b: return s.add_ge(l-1)
        if not a: return s.add_ge(-l-1)
        if l not in s.ne and -l not in s.ne: s.ne = s.ne+(l,)
        return s
    def all(s):
        return [Lin(c, t) for t, c in s.ge.items()]
    def model(s, limit=60000):
        """a small integer model, or None if none is found by bounded search"""
        if s.bot: return None
        ineq = s.all(); syms = sorted({k for l in ineq for k in l.syms()} | {k for l in s.ne for k in s.norm(l).syms()} | {k for e in s.eq.values() for k in e.syms()})
        val = {}
        steps = [0]
        def rec(i, cur):
            steps[0] += 1
            if steps[0] > limit: return False
            if i == len(syms):
                return all(q.c != 0 or q.t for q in (n.subm({k: L(v) for k, v in val.items()}) for n in s.ne))
            # pick the symbol with tightest range
            best = None
            for k in syms:
                if k in val: continue
                lo, hi = None, None
                for l in cur:
                    if len(l.t) == 1 and l.t[0][0] == k:
                        q = l.t[0][1]
                        if q > 0:
                            b = -(l.c // q); lo = b if lo is None else max(lo, b)
                        else:
                            b = l.c // (-q); hi = b if hi is None else min(hi, b)
                r = (hi-lo) if lo is not None and hi is not None else 10**6 + (lo is None)
                if best is None or r < best[0]: best = (r, k, lo, hi)
            _, k, lo, hi = best
            if lo is None and hi is None: cand = [0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, -1, -2, 24, 32, 100]
            elif lo is None: cand = range(hi, hi-40, -1)
            elif hi is None: cand = range(lo, lo+40)
            else: cand = range(lo, min(hi, lo+80)+1)
            for v in cand:
                nc = []; ok = True
                for l in cur:
                    x = l.sub(k, L(v))
                    if not x.t:
                        if x.c < 0: ok = False; break
                    else: nc.append(x)
                if not ok or not feasible(nc): continue
                val[k] = v
                if rec(i+1, nc): return True
                del val[k]
                if steps[0] > limit: return False
            return False
        if not rec(0, ineq): return None
        m = {k: L(v) for k, v in val.items()}
        for k, e in s.eq.items():
            q = e.subm(m)
            val[k] = q.c if not q.t else None
        return val
