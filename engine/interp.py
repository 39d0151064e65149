"""Abstract interpreter over LLVM IR (as dumped by tool/irdump).

Domains:
  * integers / pointer offsets: linear expressions over atoms + linear inequalities (num.py)
  * memory: regions with scalar cells (constant offsets) and an array-segmentation layer
    (symbolic bounds) holding element typestate (raw/live) and content provenance
  * loops: affine acceleration checked for inductiveness, otherwise (bounded) unrolling
"""
import json
import re
import sys
from .num import Lin, Num, ZERO, ONE, const, atom, new_atom, ATOMS

sys.setrecursionlimit(20000)


# ------------------------------------------------------------------ values
class Ptr:
    __slots__ = ('r', 'o')

    def __init__(self, r, o=ZERO):
        self.r = r
        self.o = o

    def __eq__(self, x):
        return isinstance(x, Ptr) and self.r == x.r and self.o == x.o

    def __hash__(self):
        return hash((self.r, self.o))

    def __repr__(self):
        return 'null+%r' % self.o if self.r is None else '&%s[%r]' % (self.r, self.o)


NULL = Ptr(None, ZERO)


class Cond:
    __slots__ = ('k', 'l')      # k: 'ge' (l>=0) 'eq' 'ne'

    def __init__(self, k, l):
        self.k = k
        self.l = l

    def __eq__(self, x):
        return isinstance(x, Cond) and self.k == x.k and self.l == x.l

    def __hash__(self):
        return hash((self.k, self.l))

    def __repr__(self):
        return '(%r %s 0)' % (self.l, {'ge': '>=', 'eq': '==', 'ne': '!='}[self.k])

    def neg(self):
        if self.k == 'ge':
            return Cond('ge', -self.l - 1)
        return Cond('ne' if self.k == 'eq' else 'eq', self.l)


class Undef:
    __slots__ = ('why',)

    def __init__(self, why='undef'):
        self.why = why

    def __eq__(self, x):
        return isinstance(x, Undef)

    def __hash__(self):
        return 7

    def __repr__(self):
        return 'undef'


UNDEF = Undef()


class Opq:
    """opaque (uninterpreted) value"""
    __slots__ = ('k',)

    def __init__(self, k):
        self.k = k

    def __eq__(self, x):
        return isinstance(x, Opq) and self.k == x.k

    def __hash__(self):
        return hash(self.k)

    def __repr__(self):
        return 'opq%r' % (self.k,)


class Agg:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = tuple(v)

    def __eq__(self, x):
        return isinstance(x, Agg) and self.v == x.v

    def __hash__(self):
        return hash(self.v)

    def __repr__(self):
        return 'agg%r' % (self.v,)


class Frag:
    """byte fragment [o, o+n) of a wider value of size sz (little endian)"""
    __slots__ = ('v', 'o', 'n', 'sz')

    def __init__(self, v, o, n, sz):
        self.v, self.o, self.n, self.sz = v, o, n, sz

    def __eq__(self, x):
        return isinstance(x, Frag) and (self.v, self.o, self.n, self.sz) == (x.v, x.o, x.n, x.sz)

    def __hash__(self):
        return hash((self.v, self.o, self.n))

    def __repr__(self):
        return 'frag(%r,%d,%d)' % (self.v, self.o, self.n)


class Seg:
    """elements at [lo,hi) of type et (es bytes), content index of first element c0 in
    sequence L with stride c1 (1: consecutive, 0: all the same)."""
    __slots__ = ('lo', 'hi', 'et', 'es', 'L', 'c0', 'c1', 'triv')

    def __init__(self, lo, hi, et, es, L, c0, c1, triv):
        self.lo, self.hi, self.et, self.es = lo, hi, et, es
        self.L, self.c0, self.c1, self.triv = L, c0, c1, triv

    def with_(self, **k):
        s = Seg(self.lo, self.hi, self.et, self.es, self.L, self.c0, self.c1, self.triv)
        for a, b in k.items():
            setattr(s, a, b)
        return s

    def key(self):
        return (self.lo, self.hi, self.et, self.es, self.L, self.c0, self.c1)

    def __repr__(self):
        return '[%r,%r):%s %s@%r%s' % (self.lo, self.hi, self.et, self.L, self.c0,
                                      '' if self.c1 == 0 else '+i')


class Region:
    __slots__ = ('id', 'kind', 'size', 'cells', 'segs', 'meta', 'name', 'own', 'ro', 'align')

    def __init__(self, id, kind, size, name='', meta=None):
        self.id, self.kind, self.size, self.name = id, kind, size, name
        self.cells = {}
        self.segs = ()
        self.meta = meta or {}
        self.own = None
        self.ro = False
        self.align = 1

    def copy(self):
        r = Region(self.id, self.kind, self.size, self.name, self.meta)
        r.cells = dict(self.cells)
        r.segs = self.segs
        r.ro = self.ro
        r.align = self.align
        return r


class State:
    __slots__ = ('num', 'regs', 'exact', 'facts', 'throws', 'ghost', 'dead', 'trail', 'why')

    def __init__(self):
        self.num = Num()
        self.regs = {}
        self.exact = True
        self.facts = {}
        self.throws = frozenset()
        self.ghost = {}
        self.dead = frozenset()
        self.trail = ()
        self.why = ''

    def copy(self):
        s = State.__new__(State)
        s.num = self.num.copy()
        s.regs = dict(self.regs)
        s.exact = self.exact
        s.facts = dict(self.facts)
        s.throws = self.throws
        s.ghost = dict(self.ghost)
        s.dead = self.dead
        s.trail = self.trail
        s.why = self.why
        # both copies must copy-on-write from now on
        for r in self.regs.values():
            r.own = None
        return s

    def w(self, rid):
        """region for writing"""
        r = self.regs[rid]
        if r.own is not self:
            r = r.copy()
            r.own = self
            self.regs[rid] = r
        return r

    def inexact(self, why):
        if self.exact:
            self.exact = False
            self.why = why


# element types with element members: member type -> (offset, number)
DTOR = re.compile(r'D[012]Ev$')
SUB = {'VpP': {'VpE': (0, 0), 'VpF': (24, 1)}}


class Undecided(Exception):
    pass


def tysize(t):
    if isinstance(t, str):
        if t[0] == 'i' and t[1:].isdigit():
            b = int(t[1:])
            return 1 if b <= 8 else 2 if b <= 16 else 4 if b <= 32 else 8 if b <= 64 else 16
        if t == 'ptr':
            return 8
        if t[0] == 'f' and t[1:].isdigit():
            return {16: 2, 32: 4, 64: 8, 80: 16, 128: 16}[int(t[1:])]
        raise Undecided('size of type %s' % t)
    return t['z']


def ibits(t):
    return int(t[1:]) if isinstance(t, str) and t[0] == 'i' and t[1:].isdigit() else None


# ------------------------------------------------------------------ module
class Func:
    pass


class Module:
    def __init__(self, js):
        self.js = js
        self.files = js['files']
        self.globals = js['globals']
        self.aliases = js.get('aliases', {})
        self.funcs = {}
        for n, f in js['funcs'].items():
            o = Func()
            o.name = n
            o.dem = f['dem']
            o.decl = f['decl']
            o.nounwind = f['nounwind']
            o.noreturn = f.get('noreturn')
            o.ret = f['ret']
            o.params = f['params']
            o.blocks = f.get('blocks')
            o.file = self.files[f['file']] if 'file' in f else ''
            o.line = f.get('line', 0)
            o.loops = None
            o.linkage = f.get('linkage')
            self.funcs[n] = o

    def loops(self, f):
        """header -> set of body blocks (natural loops, merged per header)"""
        if f.loops is not None:
            return f.loops
        n = len(f.blocks)
        succ = [[] for _ in range(n)]
        pred = [[] for _ in range(n)]
        for i, b in enumerate(f.blocks):
            t = b[-1]
            if t['op'] == 'br':
                ss = t['to']
            elif t['op'] == 'switch':
                ss = [t['default']] + [c[1] for c in t['cases']]
            elif t['op'] == 'invoke':
                ss = [t['normal'], t['unwind']]
            else:
                ss = []
            for s in set(ss):
                succ[i].append(s)
                pred[s].append(i)
        # reachable + rpo
        seen = set()
        order = []

        def dfs(r):
            stack = [(r, iter(succ[r]))]
            seen.add(r)
            while stack:
                x, it = stack[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        stack.append((s, iter(succ[s])))
                        break
                else:
                    order.append(x)
                    stack.pop()
        dfs(0)
        order.reverse()
        idx = {b: i for i, b in enumerate(order)}
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                new = None
                for p in pred[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while idx[x] > idx[y]:
                                    x = idom[x]
                                while idx[y] > idx[x]:
                                    y = idom[y]
                            new = x
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]
        loops = {}
        for b in order:
            for s in succ[b]:
                if s in idom and dom(s, b):
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        st.extend(p for p in pred[x] if p in seen)
        f.loops = loops
        return loops


class Results:
    def __init__(self):
        self.ob = {}            # (driver, cat, msg, loc) -> [proved, refuted, undecided]
        self.viol = {}          # (cat, msg, loc) -> detail dict
        self.undec = {}         # key -> detail
        self.paths = 0
        self.undecided_paths = {}
        self.funcs = set()
        self.calls = 0
        self.loops_acc = 0
        self.loops_unrolled = 0
        self.insts = 0


class Interp:
    UNROLL = 40

    def __init__(self, mod, results, repo='/repo/'):
        self.m = mod
        self.res = results
        self.repo = repo
        self.nreg = 0
        self.stack = []
        self.models = {}
        self.dmodels = []
        self.etypes = {}
        self.driver = '?'
        self.gregs = {}
        self.vn = {}
        self.addrinv = {}
        self.ralign = {}
        self.maxpaths = 4000
        self.npaths = 0
        self.deadline = None
        self.fixed = None
        self.loop_budget = 400
        self.strict = False     # confirming: nothing approximate may refute
        self.accelerate = True
        self.bits = False       # bit provenance of words labelled bits.*
        self.seqs = {}
        self.seqw = {}
        self._mcache = {}
        from . import models
        models.install(self)

    # ---------------------------------------------------------------- reporting
    def loc(self):
        best = None
        for fr in reversed(self.stack):
            ins = fr[1]
            if ins is None:
                continue
            l = ins.get('l')
            f = ins.get('f')
            if l is None or f is None:
                continue
            p = self.m.files[f]
            if best is None:
                best = (p, l, fr[0].dem)
            if p.startswith(self.repo):
                return (p, l, fr[0].dem)
        return best or ('?', 0, '?')

    def trace(self):
        out = []
        for fr in self.stack:
            ins = fr[1]
            if ins is None:
                continue
            f = ins.get('f')
            out.append('%s:%s in %s' % (self.m.files[f] if f is not None else '?', ins.get('l', '?'), shorten(fr[0].dem)))
        return out

    def record(self, st, ok, cat, msg, detail=''):
        """ok: True proved / False refuted / None undecided"""
        p, l, fn = self.loc()
        key = (self.driver, cat, msg, '%s:%s' % (p, l))
        e = self.res.ob.setdefault(key, [0, 0, 0])
        if ok is True:
            e[0] += 1
            return
        if ok is False and not st.exact:
            ok = None
            detail = '%s [state over-approximated: %s]' % (detail, st.why)
        d = {'cat': cat, 'msg': msg, 'loc': '%s:%s' % (p, l), 'fn': shorten(fn), 'detail': detail,
             'driver': self.driver, 'trace': self.trace(), 'path': list(st.trail)[-12:],
             'constraints': [fmt_con(c) for c in st.num.log[-14:]]}
        if ok is False:
            e[1] += 1
            k = (cat, msg, d['loc'], self.driver)
            if k not in self.res.viol:
                # the path condition must have an integer point: find one (shown in the report)
                ats = sorted({a for q in st.num.ineq for a, _ in q.t} | {a for v in st.num.sub.values() for a, _ in v.t})
                w = st.num.witness(ats)
                if w is None and ats:
                    e[1] -= 1
                    e[2] += 1
                    d['detail'] += ' [no integer point found]'
                    self.res.undec.setdefault(k, d)
                    return
                sub = {b: const(v) for b, v in (w or {}).items()}
                vals = []
                for nm, l in st.ghost.get('inp', ()):
                    x = st.num.norm(l).subst(sub)
                    vals.append((nm, x.c if x.is_const else None))
                d['instance'] = vals
                self.res.viol[k] = d
        else:
            e[2] += 1
            self.res.undec.setdefault((cat, msg, d['loc'], self.driver), d)

    # obligation: list of constraints (Cond) must hold. returns states in which it holds (assumed)
    def oblige(self, st, cond, cat, msg, detail='', go_on=False):
        t = self.truth(st, cond)
        if t is True:
            self.record(st, True, cat, msg)
            return [st]
        if t is False:
            self.record(st, False, cat, msg, detail or repr(cond))
            return [st] if go_on and st.exact else []
        bad = self.assume(st.copy(), cond, False)
        if not bad:
            self.record(st, True, cat, msg)
            return self.assume(st, cond, True)
        self.record(bad[0], False, cat, msg, detail or repr(cond))
        return self.assume(st, cond, True) + (bad if go_on and bad[0].exact else [])

    # ---------------------------------------------------------------- conditions
    def truth(self, st, c):
        if isinstance(c, Lin):
            c = st.num.norm(c)
            if c.is_const:
                return (c.c & 1) != 0
            return None
        if isinstance(c, bool):
            return c
        if isinstance(c, Cond):
            n = st.num
            if c.k == 'ge':
                if n.entails_ge(c.l):
                    return True
                if n.entails_ge(-c.l - 1):
                    return False
                return None
            if n.entails_eq(c.l):
                r = True
            elif n.entails_ne(c.l):
                r = False
            else:
                return None
            return r if c.k == 'eq' else not r
        return None

    def assume(self, st, c, truth):
        """returns list of states (st is consumed)"""
        if isinstance(c, bool):
            return [st] if c == truth else []
        if isinstance(c, Lin):
            t = self.truth(st, c)
            if t is None:
                c = Cond('ne', c)
            else:
                return [st] if t == truth else []
        if isinstance(c, Undef):
            raise Undecided('branch on undef')
        if not isinstance(c, Cond):
            raise Undecided('branch on %r' % (c,))
        if not truth:
            c = c.neg()
        if c.k == 'ge':
            st.num.add_ge(c.l)
        elif c.k == 'eq':
            st.num.add_eq(c.l)
        else:
            t = self.truth(st, c)
            if t is True:
                return [st]
            if t is False:
                return []
            s2 = st.copy()
            st.num.add_ge(c.l - 1)
            s2.num.add_ge(-c.l - 1)
            return [s for s in (st, s2) if not s.num.bottom]
        return [] if st.num.bottom else [st]

    def split(self, st, c):
        """-> (list of true states, list of false states)"""
        t = self.truth(st, c)
        if t is not None:
            self.note_cond(st, c, t)
            return ([st], []) if t else ([], [st])
        s2 = st.copy()
        return self.assume(st, c, True), self.assume(s2, c, False)

    def note_cond(self, st, c, t):
        """remember a branch decision although it adds no information (it is a loop guard candidate)"""
        if not isinstance(c, Cond):
            return
        if not t:
            c = c.neg()
        n = st.num
        l = n.norm(c.l)
        if l.is_const:
            return
        if c.k == 'ne':
            if n.entails_ge(l - 1):
                e = ('ge', l - 1)
            elif n.entails_ge(-l - 1):
                e = ('ge', -l - 1)
            else:
                return
        else:
            e = (c.k, l)
        n.log = n.log + (e,)

    # ---------------------------------------------------------------- regions
    def new_region(self, st, kind, size, name='', meta=None):
        self.nreg += 1
        r = Region(self.nreg, kind, size if isinstance(size, Lin) else const(size), name, meta)
        r.own = st
        st.regs[r.id] = r
        return r.id

    def region(self, st, rid):
        r = st.regs.get(rid)
        if r is not None:
            return r
        if isinstance(rid, str) and rid.startswith('g:'):
            g = self.gregs.get(rid)
            if g is None:
                g = self.make_global(rid[2:])
                self.gregs[rid] = g
            if not g.ro:
                c = g.copy()
                c.own = st
                st.regs[rid] = c
                return c
            return g
        return None

    def make_global(self, name):
        js = self.m.globals.get(name)
        r = Region('g:' + name, 'global', const(js.get('size', 1 << 40) if js else 1 << 40), name)
        if js and 'init' in js:
            for off, sz, c in js['init']:
                if c[0] == 'z':
                    for o2, s2 in flat_type(c[1], off):
                        r.cells[o2] = (s2, ZERO if True else None)
                    # pointers in zero-initialised memory are null; loads convert
                else:
                    r.cells[off] = (sz, self.const_val(c))
            r.ro = js['const']
        elif js and js['const']:
            r.ro = True
        elif name == '__libc_single_threaded':
            r.cells[0] = (1, ZERO)    # other threads exist: reference counts are atomic
        return r

    def const_val(self, c):
        k = c[0]
        if k == 'i':
            v = int(c[1])
            b = c[2]
            if b == 1:
                return const(v & 1)
            return const(v)
        if k == 'null':
            return NULL
        if k == 'nulloff':
            return Ptr(None, const(c[1]))
        if k == 'g':
            n = c[1]
            if n in self.m.funcs:
                return Ptr('fn:' + n, const(c[2]))
            return Ptr('g:' + n, const(c[2]))
        if k == 'u':
            return UNDEF
        if k == 'z':
            return self.zero_of(c[1])
        if k == 'f':
            return Opq(('fp', c[1]))
        if k == 'agg':
            return Agg([self.const_val(x) for x in c[2:]])
        if k == 'ce':
            if c[1] == 'ptrtoint':
                p = self.const_val(c[2])
                if isinstance(p, Ptr):
                    return self.ptr2int(p)
            return Opq(('ce', json.dumps(c)))
        return Opq(('const', json.dumps(c)))

    def zero_of(self, t):
        if isinstance(t, str):
            if t == 'ptr':
                return NULL
            if t[0] == 'f':
                return Opq(('fp', '0'))
            return ZERO
        if 's' in t:
            return Agg([self.zero_of(x[1]) for x in t['s']])
        return Agg([self.zero_of(t['e'])] * t['a'])

    def addr_lin(self, r):
        """address of a block: its alignment times an unknown"""
        k = ('addr', r)
        if k not in self.vn:
            self.vn[k] = new_atom('_addr%s' % (r,))
            self.addrinv[self.vn[k]] = r
        return atom(self.vn[k]).scale(self.ralign.get(r, 1))

    def ptr2int(self, p):
        if p.r is None:
            return p.o
        return self.addr_lin(p.r) + p.o

    def int2ptr(self, st, l):
        l = st.num.norm(l)
        if l.is_const:
            return Ptr(None, l)
        inv = self.addrinv
        for a, k in l.t:
            if a in inv and k == self.ralign.get(inv[a], 1):
                return Ptr(inv[a], l - self.addr_lin(inv[a]))
        raise Undecided('inttoptr of %r' % l)

    # ---------------------------------------------------------------- integer canonicalisation
    def canon(self, st, l, w, signed):
        """list of (state, Lin in canonical range)"""
        if not isinstance(l, Lin):
            l = self.as_int(st, l)
        l = st.num.norm(l)
        M = 1 << w
        lo, hi = (-(M >> 1), (M >> 1) - 1) if signed else (0, M - 1)
        if l.is_const:
            v = l.c % M
            if signed and v > hi:
                v -= M
            return [(st, const(v))]
        n = st.num
        oklo = n.entails_ge(l - lo)
        okhi = n.entails_ge(-l + hi)
        if oklo and okhi:
            return [(st, l)]
        out = []
        # in range
        s = st.copy()
        s.num.add_ge(l - lo)
        s.num.add_ge(-l + hi)
        if not s.num.bottom:
            out.append((s, l))
        if not oklo:
            s = st.copy()
            s.num.add_ge(-l + (lo - 1))
            if not s.num.bottom:
                if s.num.entails_ge(l + M - lo):
                    out.append((s, l + M))
                else:
                    out += self._canon_wide(s, l, M, lo, hi)
        if not okhi:
            s = st.copy()
            s.num.add_ge(l - (hi + 1))
            if not s.num.bottom:
                if s.num.entails_ge(-l + M + hi):
                    out.append((s, l - M))
                else:
                    out += self._canon_wide(s, l, M, lo, hi)
        return out

    def _canon_wide(self, s, l, M, lo, hi):
        # l = r + M*q ; introduce r
        q = new_atom('_wrap')
        r = l - atom(q).scale(M)
        s.num.add_ge(r - lo)
        s.num.add_ge(-r + hi)
        return [] if s.num.bottom else [(s, r)]

    def as_int(self, st, v):
        if isinstance(v, Lin):
            return v
        if isinstance(v, Ptr):
            return self.ptr2int(v)
        if isinstance(v, Undef):
            ins = self.stack[-1][1] if self.stack else None
            if st.exact and v.why.startswith('uninitialised') and ins is not None and ins['op'] not in ('and', 'or', 'xor', 'shl', 'lshr'):
                # (masks also initialise bit fields)
                self.record(st, False, 'uninit', 'use of an uninitialised value', v.why)
            raise Undecided('arithmetic on undefined value (%s)' % v.why)
        if isinstance(v, Opq):
            k = ('opq', v.k)
            if k not in self.vn:
                self.vn[k] = new_atom('_opq%d' % len(self.vn))
            return atom(self.vn[k])
        raise Undecided('not an integer: %r' % (v,))

    def fresh(self, st, name, lo=None, hi=None):
        a = new_atom(name)
        l = atom(a)
        if lo is not None:
            st.num.add_ge(l - lo)
        if hi is not None:
            st.num.add_ge(-l + hi)
        return l

    def udiv(self, st, l, d):
        """floor division of a non-negative (canonical) l by constant d>0 -> (q, r)"""
        l = st.num.norm(l)
        if l.is_const:
            return const(l.c // d), const(l.c % d)
        if d == 1:
            return l, ZERO
        if l.divisible(d):
            return l.div(d), ZERO
        # split the divisible part
        dv = Lin((l.c // d) * d, tuple((a, k) for a, k in l.t if k % d == 0))
        rest = l - dv
        n = st.num
        if n.entails_ge(rest) and n.entails_ge(-rest + (d - 1)):
            return dv.div(d), rest
        key = ('div', l, d)
        if key not in self.vn:
            self.vn[key] = new_atom('_q%d' % len(self.vn))
        q = atom(self.vn[key])
        r = l - q.scale(d)
        n.add_ge(r)
        n.add_ge(-r + (d - 1))
        if n.entails_ge(l):
            n.add_ge(q)
        return n.norm(q), n.norm(r)

    # ---------------------------------------------------------------- running
    def run_driver(self, fname):
        f = self.m.funcs[fname]
        self.driver = fname
        self.npaths = 0
        st = State()
        self.stack = []
        try:
            outs = self.exec_fn(st, f, [])
        except Undecided as e:
            self.note_undecided(None, str(e))
            return []
        for o in outs:
            self.res.paths += 1
            if o[1] == 'throw':
                self.stack = []
                self.record(o[0], False, 'exception', 'exception escapes the driver', 'exc=%r' % (o[2],))
                continue
            s = o[0]
            if o[1] == 'ret':
                for r in s.regs.values():
                    if r.kind == 'heap' and not r.meta.get('leakok'):
                        self.stack = [(f, {'l': f.line, 'f': None})]
                        self.record(s, False, 'leak', 'heap block is never released', 'block %s allocated at %s' % (r.name, r.meta.get('at')))
                for k, v in s.ghost.items():
                    if isinstance(k, tuple) and k[0] == 'lock' and v:
                        self.record(s, False, 'lock', 'lock still held at the end', str(k))
        return outs

    def note_undecided(self, st, why):
        p, l, fn = self.loc() if self.stack else ('?', 0, '?')
        k = (self.driver, why, '%s:%s' % (p, l))
        self.res.undecided_paths[k] = self.res.undecided_paths.get(k, 0) + 1

    def exec_fn(self, st, f, args, retty=None):
        """-> list of (state, 'ret', value) / (state,'throw', exc)"""
        if f.decl or not f.blocks:
            raise Undecided('no body for %s' % shorten(f.dem))
        if len(self.stack) > 120:
            raise Undecided('call depth')
        if sum(1 for s in self.stack if s[0] is f) > 3:
            raise Undecided('recursion in %s' % shorten(f.dem))
        if f.file.startswith(self.repo):
            self.res.funcs.add(f.dem)
        env = {}
        for i, a in enumerate(args[:len(f.params)]):
            env[i] = a
        fr = [f, None]
        self.stack.append(fr)
        depth = len(self.stack)
        try:
            outs = self.run(st, env, f, fr, 0, None, None, None)
        finally:
            del self.stack[depth - 1:]
        res = []
        n = DTOR.search(f.name) and f.params and isinstance(args[0], Ptr) and f.params[0].get('deref', 0)
        for o in outs:
            s = o[0]
            # release stack regions of this frame
            for rid in o[3]:
                r = s.regs.get(rid)
                if r is None:
                    continue
                self.stack.append([f, self.blame_inst(f)])
                self.kill_region(s, rid, 'scope end of %s in %s' % (r.name, shorten(f.dem)))
                self.stack.pop()
            if n and o[1] == 'ret':
                self.end_object(s, args[0], n)
            res.append((s, o[1], o[2]))
        return res

    def blame_inst(self, f):
        b = f.blocks[-1][-1] if f.blocks else None
        return b

    def kill_region(self, st, rid, why):
        r = st.regs[rid]
        for sg in r.segs:
            if not sg.triv:
                s2 = self.nonempty(st, sg)
                if s2 is None:
                    continue
                self.record(s2, False, 'lifetime', 'storage of a live element released without destroying it', '%s: %s in %s' % (why, sg, r.name))
                break
        else:
            if r.meta.get('elems'):
                self.record(st, True, 'lifetime', 'storage of a live element released without destroying it')
        del st.regs[rid]

    # outcomes: (st,'ret',val,allocas) (st,'throw',exc,allocas) (st,'back',env) (st,'exit',env,block,prev)
    def run(self, st, env, f, fr, block, prev, stop, body, ii=0):
        loops = self.m.loops(f)
        outs = []
        work = [(st, env, block, prev, ii)]
        first = True
        while work:
            st, env, b, pv, i = work.pop()
            if i == 0:
                if stop is not None and not first:
                    if b == stop:
                        outs.append((st, 'back', env, pv))
                        continue
                    if b not in body:
                        outs.append((st, 'exit', env, b, pv))
                        continue
                if b in loops and not (b == stop and first):
                    for o in self.handle_loop(st, env, f, fr, b, pv, loops[b]):
                        if o[1] == 'exit':
                            work.append((o[0], o[2], o[3], o[4], 0))
                        else:
                            outs.append(o)
                    continue
            first = False
            self.exec_block(st, env, f, fr, b, pv, i, work, outs)
            if self.deadline is not None:
                self.check_deadline()
        return outs

    def check_deadline(self):
        import time
        if time.time() > self.deadline:
            raise TimeoutError()

    def exec_block(self, st, env, f, fr, b, pv, i, work, outs):
        insts = f.blocks[b]
        n = len(insts)
        # phis simultaneously
        if i == 0 and insts[0]['op'] == 'phi':
            new = {}
            while i < n and insts[i]['op'] == 'phi':
                ins = insts[i]
                for pb, o in ins['o']:
                    if pb == pv:
                        new[ins['id']] = self.val(st, env, o)
                        break
                else:
                    raise Undecided('phi')
                i += 1
            env.update(new)
        while i < n:
            ins = insts[i]
            fr[1] = ins
            op = ins['op']
            self.res.insts += 1
            if op == 'br':
                if len(ins['to']) == 1:
                    work.append((st, env, ins['to'][0], b, 0))
                else:
                    c = self.val(st, env, ins['o'][0])
                    if isinstance(c, Undef):
                        self.record(st, False, 'uninit', 'branch on an uninitialised value', c.why)
                        return
                    try:
                        ts, fs = self.split(st, c)
                    except Undecided as e:
                        self.note_undecided(st, str(e))
                        return
                    k = len(ts) + len(fs)
                    if k > 1:
                        self.npaths += k - 1
                        if self.npaths > self.maxpaths:
                            raise Undecided('path budget')
                    ln = '%s:%s' % (self.m.files[ins['f']].split('/')[-1] if 'f' in ins else '?', ins.get('l'))
                    for s in fs:
                        if k > 1:
                            s.trail = s.trail + ((ln + ' false'),)
                        work.append((s, env if k == 1 else dict(env), ins['to'][1], b, 0))
                    for s in ts:
                        if k > 1:
                            s.trail = s.trail + ((ln + ' true'),)
                        work.append((s, env if k == 1 else dict(env), ins['to'][0], b, 0))
                return
            if op == 'switch':
                self.do_switch(st, env, ins, b, work)
                return
            if op == 'ret':
                v = self.val(st, env, ins['o'][0]) if ins['o'] else None
                outs.append((st, 'ret', v, env.get('allocas', ())))
                return
            if op == 'resume':
                v = self.val(st, env, ins['o'][0])
                outs.append((st, 'throw', self.exc_of(st, v), env.get('allocas', ())))
                return
            if op == 'unreachable':
                # reached after noreturn calls that did not end the path: treat as UB only if not dead
                self.record(st, False, 'unreachable', 'control reaches code marked unreachable')
                return
            try:
                if op == 'call' or op == 'invoke':
                    rs = self.do_call(st, env, ins, fr)
                else:
                    rs = self.step(st, env, ins)
            except Undecided as e:
                self.note_undecided(st, str(e))
                return
            if op == 'invoke':
                nn = len(rs)
                for s, k, v in rs:
                    e2 = env if nn == 1 else dict(env)
                    if k == 'ret':
                        if 'id' in ins:
                            e2[ins['id']] = v
                        work.append((s, e2, ins['normal'], b, 0))
                    elif k == 'throw':
                        s.trail = s.trail + ('throw at %s:%s' % (self.m.files[ins['f']].split('/')[-1] if 'f' in ins else '?', ins.get('l')),)
                        s.ghost['exc'] = v
                        work.append((s, e2, ins['unwind'], b, 0))
                return
            if op == 'call':
                cont = []
                for s, k, v in rs:
                    if k == 'ret':
                        cont.append((s, v))
                    elif k == 'throw':
                        if f.nounwind and not f.decl and False:
                            pass
                        outs.append((s, 'throw', v, env.get('allocas', ())))
                rs = cont
            if len(rs) == 1:
                st, v = rs[0]
                if 'id' in ins:
                    env[ins['id']] = v
                i += 1
                continue
            for s, v in rs:
                e2 = dict(env)
                if 'id' in ins:
                    e2[ins['id']] = v
                work.append((s, e2, b, pv, i + 1) if i + 1 > 0 else None)
            return

    def exc_of(self, st, v):
        if isinstance(v, Agg) and isinstance(v.v[0], Ptr):
            return st.ghost.get('excobj', {}).get(v.v[0]) or ('obj', v.v[0])
        return ('unknown',)

    def do_switch(self, st, env, ins, b, work):
        c = self.val(st, env, ins['o'][0])
        if isinstance(c, Undef):
            self.record(st, False, 'uninit', 'branch on an uninitialised value', c.why)
            return
        w = ibits(ins['cty'])
        if isinstance(c, Cond):
            rs = []
            ts, fs = self.split(st, c)
            rs = [(s, ONE) for s in ts] + [(s, ZERO) for s in fs]
        else:
            try:
                rs = self.canon(st, c, w, True)
            except Undecided as e:
                self.note_undecided(st, str(e))
                return
        for s, l in rs:
            cur = [s]
            for cv, tgt in ins['cases']:
                nxt = []
                for s2 in cur:
                    cvv = int(cv)
                    ts, fs = self.split(s2, Cond('eq', l - cvv))
                    for t in ts:
                        work.append((t, dict(env), tgt, b, 0))
                    nxt += fs
                cur = nxt
            for s2 in cur:
                work.append((s2, dict(env), ins['default'], b, 0))

    def val(self, st, env, o):
        k = o[0]
        if k == 'v':
            v = env.get(o[1])
            if v is None:
                return UNDEF
            return v
        return self.const_val(o)

    # ---------------------------------------------------------------- calls
    def do_call(self, st, env, ins, fr):
        callee = ins['callee']
        args = [self.val(st, env, o) if o[0] != 'm' else None for o in ins['o']]
        self.res.calls += 1
        if callee[0] == 'asm':
            if all(True for _ in args):
                return [(st, 'ret', UNDEF)]
        t = self.val(st, env, callee)
        if isinstance(t, Undef):
            self.record(st, False, 'uninit', 'call through an uninitialised function pointer')
            return []
        if not isinstance(t, Ptr) or not isinstance(t.r, str) or not t.r.startswith('fn:'):
            if isinstance(t, Ptr) and t.r is None:
                self.record(st, False, 'nullcall', 'call through a null function pointer')
                return []
            raise Undecided('indirect call %r' % (t,))
        name = t.r[3:]
        return self.call_named(st, name, args, ins, env)

    def call_named(self, st, name, args, ins, env=None):
        name = self.m.aliases.get(name, name)
        f = self.m.funcs.get(name)
        mdl = self._mcache.get(name)
        if mdl is None:
            mdl = self.find_model(name, f)
            self._mcache[name] = mdl or False
        if mdl:
            return mdl(self, st, f, name, args, ins, env)
        if f is None:
            raise Undecided('unknown function %s' % name)
        if f.decl:
            raise Undecided('external function %s' % shorten(f.dem))
        # byval copies
        return self.exec_fn(st, f, args)

    def find_model(self, name, f):
        if name in self.models:
            return self.models[name]
        dem = f.dem if f else name
        for rx, m in self.dmodels:
            if rx.match(dem):
                return m
        if name.startswith('llvm.'):
            for p, m in self.intrinsics:
                if name.startswith(p):
                    return m
        return None

    # ---------------------------------------------------------------- instructions
    def step(self, st, env, ins):
        op = ins['op']
        h = getattr(self, 'op_' + op, None)
        if h is None:
            raise Undecided('instruction %s' % op)
        return h(st, env, ins)

    def op_alloca(self, st, env, ins):
        cnt = self.val(st, env, ins['o'][0]) if ins['o'] else ONE
        t = ins['aty']
        size = ins['esz']
        nm = ''
        if isinstance(t, dict):
            nm = t.get('n', '')
        if isinstance(cnt, Lin) and cnt.is_const:
            size = const(size * cnt.c)
        else:
            raise Undecided('variable alloca')
        rid = self.new_region(st, 'stack', size, nm or 'local')
        st.regs[rid].align = ins['align']
        self.ralign[rid] = ins['align'] or 1
        env['allocas'] = env.get('allocas', ()) + (rid,)
        return [(st, Ptr(rid, ZERO))]

    def op_getelementptr(self, st, env, ins):
        base = self.val(st, env, ins['o'][0])
        if ins.get('bad'):
            raise Undecided('gep')
        if isinstance(base, Undef):
            return [(st, UNDEF)]
        if not isinstance(base, Ptr):
            if isinstance(base, Opq):
                return [(st, Opq(('gep', base.k, ins['c'])))]
            base = self.int2ptr(st, self.as_int(st, base))
        off = base.o + ins['c']
        outs = [(st, off)]
        for o, sc, w in ins['vars']:
            v = self.val(st, env, o)
            if isinstance(v, Undef):
                return [(st, UNDEF)]
            nx = []
            for s, of in outs:
                if isinstance(v, Cond):
                    ts, fs = self.split(s, v)
                    nx += [(x, of + (-sc if w == 1 else sc)) for x in ts] + [(x, of) for x in fs]
                    continue
                l = self.as_int(s, v)
                if w == 64 and (s.num.norm(l).is_const or self.in_signed(s, l, 64)):
                    nx.append((s, of + s.num.norm(l).scale(sc)))
                else:
                    for s2, c in self.canon(s, l, w, True):
                        nx.append((s2, of + c.scale(sc)))
            outs = nx
        hook = getattr(self, 'gep_hook', None)
        res = []
        for s, of in outs:
            p = Ptr(base.r, s.num.norm(of))
            if hook and ins['vars']:
                hook(s, base, p, ins)
            res.append((s, p))
        return res

    def in_signed(self, st, l, w):
        l = st.num.norm(l)
        M = 1 << (w - 1)
        if l.is_const:
            return -M <= l.c < M
        return st.num.entails_ge(l + M) and st.num.entails_ge(-l + (M - 1))

    # --- memory access
    def check_ptr(self, st, p, size, what, cat='memory'):
        """returns True if access may proceed"""
        if isinstance(p, Undef):
            self.record(st, False, 'uninit', 'access through an uninitialised pointer', what)
            return False
        if isinstance(p, Opq):
            raise Undecided('access through opaque pointer')
        if isinstance(p, Lin):
            p = self.int2ptr(st, p)
        if p.r is None:
            self.record(st, False, 'memory', 'null pointer access', what)
            return False
        if isinstance(p.r, str) and p.r.startswith('fn:'):
            raise Undecided('data access to function')
        r = self.region(st, p.r)
        if r is None:
            self.record(st, False, 'memory', 'access to storage that is no longer alive', '%s at %r' % (what, p))
            return False
        n = st.num
        lo = n.entails_ge(p.o)
        hi = n.entails_ge(r.size - p.o - size)
        if lo and hi:
            return True
        bad = None
        if not lo:
            bad = st.copy()
            bad.num.add_ge(-p.o - 1)
            if bad.num.bottom:
                bad = None
        if bad is None and not hi:
            bad = st.copy()
            bad.num.add_ge(-(r.size - p.o - size) - 1)
            if bad.num.bottom:
                bad = None
        if bad is not None:
            self.record(bad, False, 'memory', 'access out of the bounds of its block', '%s at offset %r, block %s of %r bytes' % (what, n.norm(p.o), r.name, n.norm(r.size)))
        st.num.add_ge(p.o)
        st.num.add_ge(r.size - p.o - size)
        return not st.num.bottom

    def coerce(self, st, v, t):
        """value loaded from a cell interpreted as type t"""
        if isinstance(t, str):
            if t == 'ptr':
                if isinstance(v, Lin):
                    if v == ZERO:
                        return NULL
                    return self.int2ptr(st, v)
            elif t[0] == 'i':
                if isinstance(v, Ptr):
                    return self.ptr2int(v)
        return v

    def load(self, st, p, t):
        """-> [(st, val)]"""
        if isinstance(t, dict):
            if 's' in t:
                outs = [(st, ())]
                for off, et in t['s']:
                    nx = []
                    for s, acc in outs:
                        for s2, v in self.load(s, Ptr(p.r, p.o + off) if isinstance(p, Ptr) else p, et):
                            nx.append((s2, acc + (v,)))
                    outs = nx
                return [(s, Agg(a)) for s, a in outs]
            raise Undecided('array load')
        size = tysize(t)
        if not isinstance(p, Ptr):
            if isinstance(p, Lin):
                p = self.int2ptr(st, p)
            elif isinstance(p, Opq):
                return [(st, Opq(('load', p.k, t)))]
        if not self.check_ptr(st, p, size, 'read of %d bytes' % size):
            return []
        r = self.region(st, p.r)
        o = st.num.norm(p.o)
        if o.is_const:
            c = r.cells.get(o.c)
            if c is not None and c[0] == size and not isinstance(c[1], Frag):
                return [(st, self.coerce(st, c[1], t))]
            v = self.load_bytes(st, r, o.c, size, t)
            if v is not None:
                return [(st, v)]
        if r.segs:
            return self.load_seg(st, p.r, o, size, t)
        if r.meta.get('extcells'):
            v = self.ext_cell(st, p.r, o, size, t)
            return [(st, v)]
        if not o.is_const:
            if not r.cells:
                return [(st, Undef('uninitialised %s' % r.name))]
            return self.load_sym(st, p.r, o, size, t)
        return [(st, Undef('uninitialised memory of %s+%r' % (r.name, o)))]

    def load_sym(self, st, rid, o, size, t):
        """symbolic offset into a region of cells: enumerate the cells (small tables only)"""
        r = self.region(st, rid)
        offs = [c for c, v in r.cells.items() if v[0] == size]
        if len(offs) > 80:
            raise Undecided('symbolic read of a large table')
        outs = []
        cur = [st]
        for c in sorted(offs):
            nx = []
            for s in cur:
                ts, fs = self.split(s, Cond('eq', o - c))
                for x in ts:
                    outs.append((x, self.coerce(x, self.region(x, rid).cells[c][1], t)))
                nx += fs
            cur = nx
        for s in cur:
            raise Undecided('symbolic read at %r' % o)
        return outs

    def load_bytes(self, st, r, off, size, t):
        """reassemble a value from cells of other sizes; None if nothing there"""
        cells = r.cells
        parts = []
        pos = off
        while pos < off + size:
            hit = None
            for d in range(0, 17):
                c = cells.get(pos - d)
                if c is not None and d < c[0]:
                    hit = (pos - d, c)
                    break
            if hit is None:
                if not parts:
                    # maybe later bytes are set; treat partially initialised as undef
                    return None
                return Undef('partially initialised')
            co, (cs, cv) = hit
            take = min(co + cs, off + size) - pos
            parts.append((pos - off, take, cv, pos - co, cs))
            pos += take
        # single larger cell fully covering
        if len(parts) == 1:
            po, take, cv, inoff, cs = parts[0]
            return self.extract_bytes(st, cv, inoff, size, cs, t)
        tot = ZERO
        # all fragments of the same value in order?
        f0 = parts[0][2]
        if isinstance(f0, Frag) and f0.o == 0 and f0.sz == size:
            ok = True
            e = 0
            for po, take, cv, inoff, cs in parts:
                if not (isinstance(cv, Frag) and cv.v == f0.v and cv.o == e and inoff == 0 and take == cv.n):
                    ok = False
                    break
                e += cv.n
            if ok:
                return self.coerce(st, f0.v, t)
        if not t.startswith('i'):
            return Opq(('bytes', tuple((p[0], p[1], repr(p[2])) for p in parts)))
        for po, take, cv, inoff, cs in parts:
            v = self.extract_bytes(st, cv, inoff, take, cs, 'i%d' % (8 * take))
            if isinstance(v, Undef):
                # padding may be undefined
                return Undef('partially initialised')
            if isinstance(v, Ptr):
                raise Undecided('pointer bytes')
            if not isinstance(v, Lin):
                return Opq(('bytes', tuple((p[0], p[1], repr(p[2])) for p in parts)))
            rs = self.canon(st, v, 8 * take, False)
            if len(rs) != 1:
                return Opq(('bytes', tuple((p[0], p[1], repr(p[2])) for p in parts)))
            tot = tot + rs[0][1].scale(1 << (8 * po))
        return tot

    def extract_bytes(self, st, cv, inoff, n, cs, t):
        if isinstance(cv, Undef):
            return cv
        if isinstance(cv, Frag):
            if inoff == 0 and n == cv.n:
                return cv if not (n == cv.sz) else cv.v
            cv, inoff, cs = cv.v, inoff + cv.o, cv.sz
        if inoff == 0 and n == cs:
            return self.coerce(st, cv, t)
        if isinstance(cv, Lin):
            if inoff == 0:
                return cv if n < cs else cv
            if cv.is_const:
                return const((cv.c >> (8 * inoff)) & ((1 << (8 * n)) - 1))
            rs = self.canon(st, cv, 8 * cs, False)
            if len(rs) == 1:
                q, _ = self.udiv(st, rs[0][1], 1 << (8 * inoff))
                return q
        return Opq(('frag', repr(cv), inoff, n))

    def store(self, st, p, v, t):
        """-> [states]"""
        if isinstance(v, Agg):
            if isinstance(t, dict) and 's' in t:
                cur = [st]
                for (off, et), x in zip(t['s'], v.v):
                    nx = []
                    for s in cur:
                        nx += self.store(s, Ptr(p.r, p.o + off), x, et)
                    cur = nx
                return cur
            raise Undecided('aggregate store')
        size = tysize(t)
        if isinstance(p, Lin):
            p = self.int2ptr(st, p)
        if not self.check_ptr(st, p, size, 'write of %d bytes' % size):
            return []
        r = self.region(st, p.r)
        if r.ro:
            self.record(st, False, 'memory', 'write to constant data', r.name)
            return []
        o = st.num.norm(p.o)
        if isinstance(v, Cond) :
            ts, fs = self.split(st, v)
            out = []
            for s in ts:
                out += self.store(s, p, ONE, t)
            for s in fs:
                out += self.store(s, p, ZERO, t)
            return out
        self.check_frozen(st, p.r)
        segy = r.meta.get('segs') or not o.is_const
        if segy or r.segs:
            outs = []
            if segy and not (o.is_const and not r.segs and not r.meta.get('segs')):
                return self.store_seg(st, p.r, o, size, v, t)
            # constant offset store in a region which also holds segments: must not overlap
            for s, kind, i in self.find_seg(st, p.r, o, o + size):
                if kind == 'gap':
                    outs += self.store_cell(s, p.r, o.c, size, v)
                else:
                    sg = s.regs[p.r].segs[i]
                    if sg.triv:
                        outs += self.store_seg(s, p.r, o, size, v, t)
                    else:
                        self.record(s, False, 'lifetime', 'raw write over a live element', repr(sg))
            return outs
        return self.store_cell(st, p.r, o.c, size, v)

    def check_frozen(self, st, rid):
        fz = st.ghost.get('frozen')
        if fz:
            self.record(st, rid not in fz, 'const', 'an operation on a const object writes to it', self.region(st, rid).name)

    def store_cell(self, st, rid, off, size, v):
        self.region(st, rid)
        r = st.w(rid)
        self.clear_cells(st, r, off, size)
        r.cells[off] = (size, v)
        return [st]

    def end_object(self, st, p, n):
        """the life of the object of n bytes at p has ended: its members have no values any more"""
        o = st.num.norm(p.o)
        if n <= 1 or not o.is_const or p.r not in st.regs:
            return
        r = st.regs[p.r]
        if any(o.c - 16 < c < o.c + n for c in r.cells):
            self.clear_cells(st, st.w(p.r), o.c, n)

    def clear_cells(self, st, r, off, size):
        cells = r.cells
        if off in cells and cells[off][0] == size:
            del cells[off]
            return
        kill = []
        add = []
        for c in (range(off - 15, off + size) if size < 2 * len(cells) else [c for c in cells if off - 16 < c < off + size]):
            x = cells.get(c)
            if x is None:
                continue
            cs, cv = x
            if c + cs <= off or c >= off + size:
                continue
            kill.append(c)
            base = cv if not isinstance(cv, Frag) else cv.v
            b0 = 0 if not isinstance(cv, Frag) else cv.o
            bs = cs if not isinstance(cv, Frag) else cv.sz
            if c < off:
                add.append((c, off - c, Frag(base, b0, off - c, bs)))
            if c + cs > off + size:
                add.append((off + size, c + cs - off - size, Frag(base, b0 + off + size - c, c + cs - off - size, bs)))
        for c in kill:
            del cells[c]
        for c, n, fv in add:
            cells[c] = (n, fv)

    def op_load(self, st, env, ins):
        p = self.val(st, env, ins['o'][0])
        hook = getattr(self, 'access_hook', None)
        if hook:
            hook(st, p, ins, 'load')
        if 'interf' in st.ghost and 'ord' in ins:
            from . import sync
            out = []
            for s in sync.interfere(self, st, p, ins['ty']):
                for s2, v in self.load(s, p, ins['ty']):
                    s2.ghost['seen'] = v
                    out.append((s2, v))
            return out
        return self.load(st, p, ins['ty'])

    def op_store(self, st, env, ins):
        v = self.val(st, env, ins['o'][0])
        p = self.val(st, env, ins['o'][1])
        hook = getattr(self, 'access_hook', None)
        if hook:
            hook(st, p, ins, 'store')
            if 'ord' in ins and 'shared' in st.ghost:
                from . import sync
                if not sync.spin_store(self, st, p, ins, v):
                    return []
                if 'interf' in st.ghost:
                    out = []
                    for s in sync.interfere(self, st, p, ins['vty']):
                        for s2, old in self.load(s, p, ins['vty']):
                            sync.modified(self, s2, p, old, v)
                            out += [(s3, None) for s3 in self.store(s2, p, v, ins['vty'])]
                    return out
        return [(s, None) for s in self.store(st, p, v, ins['vty'])]

    # ---------------------------------------------------------------- segments
    def order(self, st, a, b):
        """True a<=b entailed, False a>b entailed, None unknown"""
        if st.num.entails_ge(b - a):
            return True
        if st.num.entails_ge(a - b - 1):
            return False
        return None

    def find_seg(self, st, rid, lo, hi):
        """locate [lo,hi) (non-empty): list of (state, 'in'|'gap'|'part', index)"""
        outs = []
        work = [(st, 0)]
        while work:
            s, i = work.pop()
            segs = self.region(s, rid).segs
            done = False
            while i < len(segs):
                sg = segs[i]
                n = s.num
                if n.entails_ge(lo - sg.hi):
                    i += 1
                    continue
                if n.entails_ge(sg.lo - hi):
                    outs.append((s, 'gap', i))
                    done = True
                    break
                if n.entails_ge(lo - sg.lo) and n.entails_ge(sg.hi - hi):
                    outs.append((s, 'in', i))
                    done = True
                    break
                # fork
                t = self.order(s, sg.hi, lo)
                if t is None:
                    s2 = s.copy()
                    s2.num.add_ge(lo - sg.hi)
                    if not s2.num.bottom:
                        work.append((s2, i))
                    s.num.add_ge(sg.hi - lo - 1)
                    if s.num.bottom:
                        done = True
                        break
                    continue
                t = self.order(s, hi, sg.lo)
                if t is None:
                    s2 = s.copy()
                    s2.num.add_ge(sg.lo - hi)
                    if not s2.num.bottom:
                        work.append((s2, i))
                    s.num.add_ge(hi - sg.lo - 1)
                    if s.num.bottom:
                        done = True
                        break
                    continue
                # overlaps; inside?
                t = self.order(s, sg.lo, lo)
                if t is None:
                    s2 = s.copy()
                    s2.num.add_ge(lo - sg.lo)
                    if not s2.num.bottom:
                        work.append((s2, i))
                    s.num.add_ge(sg.lo - lo - 1)
                    if s.num.bottom:
                        done = True
                        break
                    continue
                if t is False:
                    outs.append((s, 'part', i))
                    done = True
                    break
                t = self.order(s, hi, sg.hi)
                if t is None:
                    s2 = s.copy()
                    s2.num.add_ge(sg.hi - hi)
                    if not s2.num.bottom:
                        work.append((s2, i))
                    s.num.add_ge(hi - sg.hi - 1)
                    if s.num.bottom:
                        done = True
                        break
                    continue
                outs.append((s, 'in' if t else 'part', i))
                done = True
                break
            if not done:
                outs.append((s, 'gap', len(segs)))
        return outs

    def nonempty(self, st, sg):
        """copy of st in which sg has at least one element, or None"""
        if st.num.entails_ge(sg.hi - sg.lo - 1):
            return st
        s = st.copy()
        s.num.add_ge(sg.hi - sg.lo - 1)
        return None if s.num.bottom else s

    def seg_left(self, st, sg, cut):
        return sg.with_(hi=cut)

    def seg_right(self, st, sg, cut):
        d = st.num.norm(cut - sg.lo)
        if sg.c1 == 0 and sg.L is not None:
            return sg.with_(lo=cut)
        if not d.divisible(sg.es):
            return sg.with_(lo=cut, L='torn', c0=ZERO, c1=0)
        return sg.with_(lo=cut, c0=st.num.norm(sg.c0 + d.div(sg.es)))

    def clean_segs(self, st, rid):
        """drop provably empty segments and merge neighbours"""
        r = self.region(st, rid)
        segs = []
        n = st.num
        for sg in r.segs:
            if n.entails_ge(sg.lo - sg.hi):
                continue
            if segs:
                m = self.try_merge(st, segs[-1], sg)
                if m is not None:
                    segs[-1] = m
                    continue
            segs.append(sg)
        segs = tuple(segs)
        if segs != r.segs:
            st.w(rid).segs = segs

    def try_merge(self, st, a, b):
        if a.et != b.et or a.L != b.L or a.es != b.es:
            return None
        n = st.num
        if not n.entails_eq(a.hi - b.lo):
            return None
        one_a = n.entails_eq(a.hi - a.lo - a.es)
        one_b = n.entails_eq(b.hi - b.lo - b.es)
        if (a.c1 == 0 or one_a) and (b.c1 == 0 or one_b) and n.entails_eq(a.c0 - b.c0):
            return a.with_(hi=b.hi, c1=0)
        if (a.c1 == 1 or one_a) and (b.c1 == 1 or one_b):
            d = n.norm(a.hi - a.lo)
            if d.divisible(a.es) and n.entails_eq(b.c0 - a.c0 - d.div(a.es)):
                return a.with_(hi=b.hi, c1=1)
        return None

    def put_seg(self, st, rid, sg):
        """insert a segment whose range is known to be a gap -> [states]"""
        work = [(st, 0)]
        out = []
        while work:
            s, i = work.pop()
            segs = self.region(s, rid).segs
            while i < len(segs):
                if s.num.entails_ge(sg.lo - segs[i].hi):
                    i += 1
                    continue
                if s.num.entails_ge(segs[i].lo - sg.hi):
                    break
                s2 = s.copy()
                s2.num.add_ge(sg.lo - segs[i].hi)
                if not s2.num.bottom:
                    work.append((s2, i + 1))
                s.num.add_ge(segs[i].lo - sg.hi)
                if s.num.bottom:
                    break
            if s.num.bottom:
                continue
            r = s.w(rid)
            r.segs = r.segs[:i] + (sg,) + r.segs[i:]
            r.meta = dict(r.meta)
            r.meta['elems'] = True
            self.clean_segs(s, rid)
            out.append(s)
        return out

    def cut_at(self, st, rid, x):
        """split whichever segment contains boundary x (pieces may be empty) -> [states]"""
        outs = []
        work = [(st, 0)]
        while work:
            s, i = work.pop()
            segs = self.region(s, rid).segs
            ok = True
            while i < len(segs):
                sg = segs[i]
                n = s.num
                if n.entails_ge(x - sg.hi):
                    i += 1
                    continue
                if n.entails_ge(sg.lo - x):
                    break
                below = n.entails_ge(sg.hi - x)     # x <= hi
                above = n.entails_ge(x - sg.lo)     # x >= lo
                if not below:
                    s2 = s.copy()
                    s2.num.add_ge(x - sg.hi)
                    if not s2.num.bottom:
                        work.append((s2, i))
                    s.num.add_ge(sg.hi - x - 1)
                    if s.num.bottom:
                        ok = False
                        break
                    continue
                if not above:
                    s2 = s.copy()
                    s2.num.add_ge(sg.lo - x)
                    if not s2.num.bottom:
                        work.append((s2, i))
                    s.num.add_ge(x - sg.lo - 1)
                    if s.num.bottom:
                        ok = False
                        break
                    continue
                r = s.w(rid)
                r.segs = segs[:i] + (self.seg_left(s, sg, x), self.seg_right(s, sg, x)) + segs[i + 1:]
                break
            if ok:
                outs.append(s)
        return outs

    def take_range(self, st, rid, lo, hi, remove=False):
        """pieces of [lo,hi) -> [(state, [Seg])]; boundaries are split; optionally removed"""
        outs = []
        if remove:
            self.check_frozen(st, rid)
        for s in self.cut_at(st, rid, lo):
            for s2 in self.cut_at(s, rid, hi):
                segs = self.region(s2, rid).segs
                inside = []
                keep = []
                for sg in segs:
                    if s2.num.entails_ge(sg.lo - lo) and s2.num.entails_ge(hi - sg.hi):
                        inside.append(sg)
                    else:
                        keep.append(sg)
                if remove:
                    if inside:
                        s2.w(rid).segs = tuple(keep)
                outs.append((s2, inside))
        return outs

    # typed scalar elements
    def seg_val(self, st, sg, off, t):
        """scalar value stored in (trivial) segment sg at offset off"""
        if isinstance(sg.L, tuple) and sg.L[0] == 'v':
            return sg.L[1]
        if sg.L == 'zero':
            return NULL if t == 'ptr' else ZERO
        if sg.L in ('torn', 'top'):
            return Opq(('top', new_atom('_top')))
        d = st.num.norm(off - sg.lo)
        if sg.c1 == 0:
            idx = sg.c0
        elif d.divisible(sg.es):
            idx = st.num.norm(sg.c0 + d.div(sg.es))
        else:
            return Opq(('torn', new_atom('_torn')))
        return self.seq_atom(st, sg.L, idx, t)

    def seq_atom(self, st, L, idx, t):
        k = ('seq', L, st.num.norm(idx), t)
        if k not in self.vn:
            self.vn[k] = new_atom('_%s[%r]' % (L, idx))
        l = atom(self.vn[k])
        w = ibits(t)
        if w:
            st.num.add_ge(l, log=False)
            st.num.add_ge(-l + ((1 << w) - 1), log=False)
            if self.bits and isinstance(L, str) and L.startswith('bits.'):
                self.seqs[self.vn[k]] = (L, k[2], w)
                self.seqw[L] = w
        return l

    def load_seg(self, st, rid, o, size, t):
        outs = []
        for s, kind, i in self.find_seg(st, rid, o, o + size):
            if kind == 'gap':
                outs.append((s, Undef('uninitialised element of %s' % self.region(s, rid).name)))
                continue
            sg = self.region(s, rid).segs[i]
            if kind == 'part' or sg.es != size:
                raise Undecided('read of %d bytes from segment %r' % (size, sg))
            outs.append((s, self.seg_val(s, sg, o, t)))
        return outs

    def store_seg(self, st, rid, o, size, v, t):
        outs = []
        if isinstance(v, Lin):
            L, c0 = ('v', st.num.norm(v)), ZERO
            k = self.seq_of_atom(st, v)
            if k:
                L, c0 = k
        elif isinstance(v, Undef):
            L, c0 = 'top', ZERO
        else:
            L, c0 = ('v', v), ZERO
        if isinstance(v, Lin) and v == ZERO:
            L = 'zero'
        for s, pieces in self.take_range(st, rid, o, o + size, True):
            s.w(rid)
            sg = Seg(o, o + size, t, size, L, c0, 0, True)
            if isinstance(L, str) and L != 'zero':
                sg.c1 = 1
            outs += self.put_seg(s, rid, sg)
        return outs

    def seq_of_atom(self, st, v):
        v = st.num.norm(v)
        if v.c == 0 and len(v.t) == 1 and v.t[0][1] == 1:
            a = v.t[0][0]
            for k, x in self.vn.items():
                if x == a and isinstance(k, tuple) and k[0] == 'seq':
                    return k[1], k[2]
        return None

    # ---------------------------------------------------------------- element typestate
    def elem_construct(self, st, p, et, es, L, c0, triv=False, c1=1, what='construct'):
        """mark one element live at p -> [states]"""
        if not self.check_ptr(st, p, es, '%s of %s' % (what, et)):
            return []
        self.check_frozen(st, p.r)
        o = st.num.norm(p.o)
        outs = []
        for s, kind, i in self.find_seg(st, p.r, o, o + es):
            if kind == 'gap':
                self.record(s, True, 'lifetime', 'element constructed over a live element')
            else:
                sg = self.region(s, p.r).segs[i]
                if sg.et == 'bytes' or (sg.triv and triv):
                    # plain bytes are not an object: construction reuses their storage
                    self.record(s, True, 'lifetime', 'element constructed over a live element')
                    for s2, _ in self.take_range(s, p.r, o, o + es, True):
                        outs += self.put_seg(s2, p.r, Seg(o, o + es, et, es, L, c0, c1, triv))
                    continue
                self.record(s, False, 'lifetime', 'element constructed over a live element', 'at %s+%r: %r' % (self.region(s, p.r).name, o, sg))
                for s2, _ in self.take_range(s, p.r, o, o + es, True):
                    outs += self.put_seg(s2, p.r, Seg(o, o + es, et, es, L, c0, c1, triv))
                continue
            outs += self.put_seg(s, p.r, Seg(o, o + es, et, es, L, c0, c1, triv))
        return outs

    def elem_read(self, st, p, et, es, what):
        """content of live element at p -> [(st, L, c0)]"""
        if not self.check_ptr(st, p, es, '%s of %s' % (what, et)):
            return []
        o = st.num.norm(p.o)
        outs = []
        for s, kind, i in self.find_seg(st, p.r, o, o + es):
            if kind != 'in':
                self.record(s, False, 'lifetime', '%s of an element that is not alive' % what, 'at %s+%r' % (self.region(s, p.r).name, o))
                continue
            self.record(s, True, 'lifetime', '%s of an element that is not alive' % what)
            sg = self.region(s, p.r).segs[i]
            d = s.num.norm(o - sg.lo)
            sub = SUB.get(sg.et)
            if sub and sg.et != et:
                # a member of an element
                off, part = sub.get(et, (None, None))
                if off is not None and (d - off).divisible(sg.es):
                    if isinstance(sg.L, tuple) and sg.L[0] == 'pair':
                        L, c0 = sg.L[1 + part]
                        outs.append((s, L, c0))
                    else:
                        c0 = sg.c0 if sg.c1 == 0 else s.num.norm(sg.c0 + (d - off).div(sg.es))
                        outs.append((s, '%s.%d' % (sg.L, part), c0))
                    continue
            if not d.divisible(sg.es) or sg.es != es:
                self.record(s, False, 'lifetime', '%s at a misaligned element position' % what, repr(sg))
                continue
            c0 = sg.c0 if sg.c1 == 0 else s.num.norm(sg.c0 + d.div(sg.es))
            outs.append((s, sg.L, c0))
        return outs

    def elem_set(self, st, p, et, es, L, c0):
        """overwrite content of a live element at p -> [states]"""
        o = st.num.norm(p.o)
        outs = []
        for s, pieces in self.take_range(st, p.r, o, o + es, True):
            triv = pieces[0].triv if pieces else False
            outs += self.put_seg(s, p.r, Seg(o, o + es, et, es, L, c0, 1, triv))
        return outs

    def elem_destroy(self, st, p, et, es):
        if not self.check_ptr(st, p, es, 'destruction of %s' % et):
            return []
        o = st.num.norm(p.o)
        outs = []
        for s, kind, i in self.find_seg(st, p.r, o, o + es):
            if kind != 'in':
                self.record(s, False, 'lifetime', 'destruction of an element that is not alive', 'at %s+%r' % (self.region(s, p.r).name, o))
                outs.append(s)
                continue
            self.record(s, True, 'lifetime', 'destruction of an element that is not alive')
            sg = self.region(s, p.r).segs[i]
            if sg.et != et:
                self.record(s, False, 'lifetime', 'element destroyed as a different type', '%s destroyed as %s' % (sg, et))
            for s2, _ in self.take_range(s, p.r, o, o + es, True):
                outs.append(s2)
        return outs

    # ---------------------------------------------------------------- arithmetic
    def binint(self, st, env, ins):
        a = self.val(st, env, ins['o'][0])
        b = self.val(st, env, ins['o'][1])
        return a, b

    def lift(self, st, a, fn):
        """force i1 conditions into 0/1"""
        if isinstance(a, Cond):
            ts, fs = self.split(st, a)
            out = []
            for s in ts:
                out += fn(s, ONE)
            for s in fs:
                out += fn(s, ZERO)
            return out
        return fn(st, a)

    def arith(self, st, env, ins, fn):
        a, b = self.binint(st, env, ins)
        if isinstance(a, Undef) or isinstance(b, Undef):
            return [(st, UNDEF)]
        return self.lift(st, a, lambda s, x: self.lift(s, b, lambda s2, y: fn(s2, x, y)))

    def op_add(self, st, env, ins):
        w = ibits(ins['ty'])
        return self.arith(st, env, ins, lambda s, a, b: bits.addsub(self, s, 'add', a, b, w) or [(s, wrapc(s.num.norm(self.as_int(s, a) + self.as_int(s, b)), w))])

    def op_sub(self, st, env, ins):
        w = ibits(ins['ty'])
        return self.arith(st, env, ins, lambda s, a, b: bits.addsub(self, s, 'sub', a, b, w) or [(s, wrapc(s.num.norm(self.as_int(s, a) - self.as_int(s, b)), w))])

    def op_mul(self, st, env, ins):
        w = ibits(ins['ty'])

        def f(s, a, b):
            a = s.num.norm(self.as_int(s, a))
            b = s.num.norm(self.as_int(s, b))
            if a.is_const:
                a, b = b, a
            if b.is_const:
                c = b.c
                if c >= 1 << (w - 1):
                    c -= 1 << w
                return [(s, wrapc(a.scale(c), w))]
            return self.opaque_int(s, ('mul',) + tuple(sorted([a, b], key=repr)), w)
        return self.arith(st, env, ins, f)

    def opaque_int(self, st, key, w, lo=0):
        if key not in self.vn:
            self.vn[key] = new_atom('_%s%d' % (key[0], len(self.vn)))
        l = atom(self.vn[key])
        st.num.add_ge(l - lo, log=False)
        st.num.add_ge(-l + ((1 << w) - 1), log=False)
        return [(st, l)]

    def op_udiv(self, st, env, ins):
        return self.divrem(st, env, ins, False, 0)

    def op_urem(self, st, env, ins):
        return self.divrem(st, env, ins, False, 1)

    def op_sdiv(self, st, env, ins):
        return self.divrem(st, env, ins, True, 0)

    def op_srem(self, st, env, ins):
        return self.divrem(st, env, ins, True, 1)

    def divrem(self, st, env, ins, signed, which):
        w = ibits(ins['ty'])
        exact = ins.get('exact')

        def f(s, a, b):
            out = []
            for s1, d in self.canon(s, self.as_int(s, b), w, signed):
                d = s1.num.norm(d)
                a1 = s1.num.norm(self.as_int(s1, a))
                if exact and d.is_const and d.c > 0 and a1.divisible(d.c):
                    out.append((s1, a1.div(d.c) if which == 0 else ZERO))
                    continue
                for s2, n in self.canon(s1, a1, w, signed):
                    if d.is_const:
                        if d.c == 0:
                            self.record(s2, False, 'arith', 'division by zero')
                            continue
                        if not signed or s2.num.entails_ge(n):
                            if d.c > 0:
                                q, r = self.udiv(s2, n, d.c)
                                out.append((s2, q if which == 0 else r))
                                continue
                        # signed general: split on sign of n
                        if d.c > 0:
                            for s3 in self.assume(s2.copy(), Cond('ge', n), True):
                                q, r = self.udiv(s3, n, d.c)
                                out.append((s3, q if which == 0 else r))
                            for s3 in self.assume(s2, Cond('ge', n), False):
                                q, r = self.udiv(s3, -n, d.c)
                                out.append((s3, -q if which == 0 else -r))
                            continue
                        raise Undecided('division by negative constant')
                    # symbolic divisor: must be non-zero
                    for s3 in self.oblige(s2, Cond('ne', d), 'arith', 'division by zero'):
                        sp = self.sym_div(s3, n, d)
                        if sp is not None:
                            out.append((s3, sp[which]))
                            continue
                        out += self.opaque_int(s3, ('udiv' if which == 0 else 'urem', n, d), w, lo=0 if not signed else -(1 << (w - 1)))
                return_ = None
            return out
        return self.arith(st, env, ins, f)

    def sym_div(self, st, n, d):
        if st.num.entails_ge(n) and st.num.entails_ge(d - 1):
            if st.num.entails_ge(d - n - 1):
                return ZERO, n
            if st.num.entails_eq(d - n):
                return ONE, ZERO
        return None

    def op_shl(self, st, env, ins):
        w = ibits(ins['ty'])

        def f(s, a, b):
            if self.bits:
                r = bits.shift(self, s, 'shl', a, b, w)
                if r is not None:
                    return r
            b = s.num.norm(self.as_int(s, b))
            if b.is_const:
                return [(s, wrapc(s.num.norm(self.as_int(s, a)).scale(1 << b.c), w))]
            return self.bitop(s, 'shl', a, b, w)
        return self.arith(st, env, ins, f)

    def op_lshr(self, st, env, ins):
        w = ibits(ins['ty'])

        def f(s, a, b):
            if self.bits:
                r = bits.shift(self, s, 'lshr', a, b, w)
                if r is not None:
                    return r
            b = s.num.norm(self.as_int(s, b))
            if b.is_const:
                out = []
                for s2, n in self.canon(s, self.as_int(s, a), w, False):
                    q, _ = self.udiv(s2, n, 1 << b.c)
                    out.append((s2, q))
                return out
            return self.bitop(s, 'lshr', a, b, w)
        return self.arith(st, env, ins, f)

    def op_ashr(self, st, env, ins):
        w = ibits(ins['ty'])

        def f(s, a, b):
            if self.bits:
                r = bits.shift(self, s, 'ashr', a, b, w)
                if r is not None:
                    return r
            b = s.num.norm(self.as_int(s, b))
            if b.is_const:
                out = []
                for s2, n in self.canon(s, self.as_int(s, a), w, True):
                    q, _ = self.udiv(s2, n, 1 << b.c)
                    out.append((s2, q))
                return out
            return self.bitop(s, 'ashr', a, b, w)
        return self.arith(st, env, ins, f)

    def bitop(self, st, name, a, b, w):
        return self.opaque_int(st, (name, st.num.norm(self.as_int(st, a)), st.num.norm(self.as_int(st, b))), w)

    def logic(self, st, env, ins, name):
        w = ibits(ins['ty'])
        a, b = self.binint(st, env, ins)
        if w == 1:
            return self.logic1(st, a, b, name)
        if isinstance(a, Undef) or isinstance(b, Undef):
            return [(st, UNDEF)]

        def f(s, x, y):
            if self.bits:
                r = bits.logic(self, s, name, x, y, w)
                if r is not None:
                    return r
            x = s.num.norm(self.as_int(s, x))
            y = s.num.norm(self.as_int(s, y))
            M = (1 << w) - 1
            if x.is_const and y.is_const:
                p, q = x.c & M, y.c & M
                return [(s, const({'and': p & q, 'or': p | q, 'xor': p ^ q}[name]))]
            if x.is_const:
                x, y = y, x
            if y.is_const:
                c = y.c & M
                if name == 'and':
                    if c == 0:
                        return [(s, ZERO)]
                    if c == M:
                        return [(s, x)]
                    if c & (c + 1) == 0:        # low mask
                        out = []
                        for s2, n in self.canon(s, x, w, False):
                            out.append((s2, self.udiv(s2, n, c + 1)[1]))
                        return out
                    inv = c ^ M
                    if inv & (inv + 1) == 0:    # high mask
                        out = []
                        for s2, n in self.canon(s, x, w, False):
                            out.append((s2, s2.num.norm(n - self.udiv(s2, n, inv + 1)[1])))
                        return out
                elif c == 0:
                    return [(s, x)]
                elif name == 'xor' and c == M:
                    return [(s, -x - 1)]
                elif name == 'or' and c == M:
                    return [(s, const(M))]
                elif name == 'or' or name == 'xor':
                    # disjoint bits?
                    if c & (c + 1) == 0 and x.divisible(c + 1):
                        return [(s, x + c)]
            if name == 'or':
                for p, q in ((x, y), (y, x)):
                    g = 0
                    k = 1
                    # p divisible by 2^k with q < 2^k
                    for k in (8, 16, 32):
                        if p.divisible(1 << k) and s.num.entails_ge(q) and s.num.entails_ge(-q + ((1 << k) - 1)):
                            return [(s, s.num.norm(p + q))]
            if name == 'and' and x == y:
                return [(s, x)]
            if name == 'or' and x == y:
                return [(s, x)]
            if name == 'xor' and x == y:
                return [(s, ZERO)]
            k = sorted([x, y], key=repr)
            return self.bitop(s, name, k[0], k[1], w)
        return self.lift(st, a, lambda s, x: self.lift(s, b, lambda s2, y: f(s2, x, y)))

    def logic1(self, st, a, b, name):
        ta, tb = self.truth(st, a) if not isinstance(a, Undef) else None, self.truth(st, b) if not isinstance(b, Undef) else None
        if isinstance(a, Undef) or isinstance(b, Undef):
            return [(st, UNDEF)]
        if name == 'xor':
            if tb is not None:
                return [(st, a if not tb else self.notc(st, a))]
            if ta is not None:
                return [(st, b if not ta else self.notc(st, b))]
            ts, fs = self.split(st, a)
            return [(s, self.notc(s, b)) for s in ts] + [(s, b) for s in fs]
        if name == 'and':
            if ta is False or tb is False:
                return [(st, ZERO)]
            if ta is True:
                return [(st, b)]
            if tb is True:
                return [(st, a)]
            ts, fs = self.split(st, a)
            return [(s, b) for s in ts] + [(s, ZERO) for s in fs]
        if ta is True or tb is True:
            return [(st, ONE)]
        if ta is False:
            return [(st, b)]
        if tb is False:
            return [(st, a)]
        ts, fs = self.split(st, a)
        return [(s, ONE) for s in ts] + [(s, b) for s in fs]

    def notc(self, st, c):
        if isinstance(c, Cond):
            return c.neg()
        c = st.num.norm(c)
        if c.is_const:
            return const(1 - (c.c & 1))
        return Cond('eq', c)

    def op_and(self, st, env, ins):
        return self.logic(st, env, ins, 'and')

    def op_or(self, st, env, ins):
        return self.logic(st, env, ins, 'or')

    def op_xor(self, st, env, ins):
        return self.logic(st, env, ins, 'xor')

    def op_icmp(self, st, env, ins):
        a = self.val(st, env, ins['o'][0])
        b = self.val(st, env, ins['o'][1])
        pred = ins['pred']
        t = ins['cty']
        if isinstance(a, Undef) or isinstance(b, Undef):
            return [(st, Undef(a.why if isinstance(a, Undef) else b.why))]
        if t == 'ptr':
            return self.cmp_ptr(st, a, b, pred)
        w = ibits(t)
        if w is None:
            raise Undecided('icmp on %s' % t)
        return self.lift(st, a, lambda s, x: self.lift(s, b, lambda s2, y: self.cmp_int(s2, x, y, pred, w)))

    def cmp_lin(self, st, d, pred):
        """d = a-b (exact integers)"""
        p = pred[-2:]
        if pred == 'eq':
            c = Cond('eq', d)
        elif pred == 'ne':
            c = Cond('ne', d)
        elif p == 'gt':
            c = Cond('ge', d - 1)
        elif p == 'ge':
            c = Cond('ge', d)
        elif p == 'lt':
            c = Cond('ge', -d - 1)
        else:
            c = Cond('ge', -d)
        if d.is_const:
            return const(1 if self.truth(st, c) else 0)
        return c

    def cmp_int(self, st, a, b, pred, w):
        if self.bits and (bits.bitsy(self, st, a) or bits.bitsy(self, st, b)):
            x, y = bits.as_bits(self, st, a, w), bits.as_bits(self, st, b, w)
            if x is None or y is None:
                raise Undecided('comparison of labelled bits and a number')
            return bits.compare(self, st, x, y, pred, w)
        if isinstance(a, Opq) and isinstance(b, Opq) and a == b:
            return [(st, ONE if pred in ('eq', 'uge', 'ule', 'sge', 'sle') else ZERO)]
        # pointers as integers
        if isinstance(a, Ptr):
            a = self.ptr2int(a)
        if isinstance(b, Ptr):
            b = self.ptr2int(b)
        a = self.as_int(st, a)
        b = self.as_int(st, b)
        if self.addrinv:
            ra = {self.addrinv[t] for t, _ in st.num.norm(a).t if t in self.addrinv}
            rb = {self.addrinv[t] for t, _ in st.num.norm(b).t if t in self.addrinv}
            if len(ra) == 1 and len(rb) == 1 and ra != rb and ('ord',) + tuple(sorted(ra | rb, key=repr)) not in st.ghost:
                l = self.order_blocks(st, min(ra), min(rb))
                if len(l) > 1:
                    out = []
                    for s in l:
                        out += self.cmp_int(s, a, b, pred, w)
                    return out
                st = l[0]
        if pred in ('eq', 'ne'):
            d = st.num.norm(a - b)
            if d.is_const:
                z = d.c % (1 << w) == 0
                return [(st, ONE if z == (pred == 'eq') else ZERO)]
            # both within one range?
            if (self.in_unsigned(st, a, w) and self.in_unsigned(st, b, w)) or (self.in_signed(st, a, w) and self.in_signed(st, b, w)):
                return [(st, self.cmp_lin(st, d, pred))]
            signed = False
        else:
            signed = pred[0] == 's'
        out = []
        for s, x in self.canon(st, a, w, signed):
            for s2, y in self.canon(s, b, w, signed):
                out.append((s2, self.cmp_lin(s2, s2.num.norm(x - y), pred)))
        return out

    def in_unsigned(self, st, l, w):
        l = st.num.norm(l)
        if l.is_const:
            return 0 <= l.c < (1 << w)
        return st.num.entails_ge(l) and st.num.entails_ge(-l + ((1 << w) - 1))

    def cmp_ptr(self, st, a, b, pred):
        if isinstance(a, Lin):
            a = self.int2ptr(st, a)
        if isinstance(b, Lin):
            b = self.int2ptr(st, b)
        if isinstance(a, Opq) or isinstance(b, Opq):
            if a == b:
                return [(st, ONE if pred in ('eq', 'uge', 'ule') else ZERO)]
            k = ('pcmp', pred, a, b)
            if pred == 'ne':
                k = ('pcmp', 'eq', a, b)
            if k not in self.vn:
                self.vn[k] = new_atom('_pcmp%d' % len(self.vn))
            l = atom(self.vn[k])
            st.num.add_ge(l, log=False)
            st.num.add_ge(-l + 1, log=False)
            return [(st, Cond('ne', l) if pred != 'ne' else Cond('eq', l))]
        if a.r == b.r:
            return [(st, self.cmp_lin(st, st.num.norm(a.o - b.o), pred))]
        # different regions
        if pred == 'eq':
            return [(st, ZERO)]
        if pred == 'ne':
            return [(st, ONE)]
        if a.r is None or b.r is None:
            if a.r is None:
                return [(st, ONE if pred in ('ult', 'ule') else ZERO)]
            return [(st, ONE if pred in ('ugt', 'uge') else ZERO)]
        # unrelated blocks: disjoint, order unknown but consistent
        out = []
        for s in self.order_blocks(st, a.r, b.r):
            d = s.num.norm(self.ptr2int(a) - self.ptr2int(b))
            t = self.truth(s, Cond('ge', d if pred[1:] in ('gt', 'ge') else -d))
            if t is not None and not (s.num.entails_eq(d)):
                out.append((s, ONE if t else ZERO))
            else:
                out.append((s, self.cmp_lin(s, d, pred)))
        return out

    def bound_addr(self, st, r):
        k = ('abound', r)
        if k in st.ghost:
            return
        st.ghost[k] = True
        a = self.addr_lin(r)
        st.num.add_ge(a - 4096, log=False)
        reg = self.region(st, r)
        if reg is not None:
            st.num.add_ge(-a - reg.size + (1 << 56), log=False)

    def order_blocks(self, st, r1, r2):
        """distinct blocks are disjoint: fork on which one comes first"""
        self.bound_addr(st, r1)
        self.bound_addr(st, r2)
        k = ('ord',) + tuple(sorted((r1, r2), key=repr))
        if k in st.ghost:
            return [st]
        g1, g2 = self.region(st, r1), self.region(st, r2)
        if g1 is None or g2 is None:
            return [st]
        out = []
        x, y = self.addr_lin(r1), self.addr_lin(r2)
        for lo, g, hi in ((x, g1, y), (y, g2, x)):
            s = st.copy()
            s.ghost[k] = True
            s.num.add_ge(hi - lo - g.size, log=False)
            if not s.num.bottom:
                out.append(s)
        return out

    def op_select(self, st, env, ins):
        c = self.val(st, env, ins['o'][0])
        a = self.val(st, env, ins['o'][1])
        b = self.val(st, env, ins['o'][2])
        if isinstance(c, Undef):
            self.record(st, False, 'uninit', 'selection on an uninitialised value', c.why)
            return []
        ts, fs = self.split(st, c)
        return [(s, a) for s in ts] + [(s, b) for s in fs]

    def op_zext(self, st, env, ins):
        v = self.val(st, env, ins['o'][0])
        if isinstance(v, Undef):
            return [(st, v)]
        w = ibits(ins['from'])
        if isinstance(v, Cond):
            ts, fs = self.split(st, v)
            return [(s, ONE) for s in ts] + [(s, ZERO) for s in fs]
        if isinstance(v, bits.BV):
            return [(st, bits.resize(self, st, v, w, ibits(ins['ty'])))]
        if isinstance(v, Opq):
            return [(st, Opq(('zext', v.k)))]
        return self.canon(st, v, w, False)

    def op_sext(self, st, env, ins):
        v = self.val(st, env, ins['o'][0])
        if isinstance(v, Undef):
            return [(st, v)]
        w = ibits(ins['from'])
        if isinstance(v, Cond):
            ts, fs = self.split(st, v)
            return [(s, const(-1)) for s in ts] + [(s, ZERO) for s in fs]
        if bits.bitsy(self, st, v):
            return [(st, bits.resize(self, st, v, w, ibits(ins['ty']), True))]
        if isinstance(v, Opq):
            return [(st, Opq(('sext', v.k)))]
        return self.canon(st, v, w, True)

    def op_trunc(self, st, env, ins):
        v = self.val(st, env, ins['o'][0])
        if isinstance(v, Undef):
            return [(st, v)]
        w = ibits(ins['ty'])
        if self.bits and bits.bitsy(self, st, v):
            r = bits.resize(self, st, v, ibits(ins['from']), w)
            if w == 1:
                b = bits.as_bits(self, st, r, 1)
                return [(s, const(x)) for s, x in bits.decide(self, st, b[0])]
            return [(st, r)]
        if isinstance(v, Opq):
            return [(st, Opq(('trunc', v.k, w)))]
        if w == 1:
            l = st.num.norm(self.as_int(st, v))
            if l.is_const:
                return [(st, const(l.c & 1))]
            # booleans are 0/1
            if st.num.entails_ge(l) and st.num.entails_ge(-l + 1):
                return [(st, Cond('ne', l))]
            out = []
            for s, n in self.canon(st, l, ibits(ins['from']), False):
                out.append((s, Cond('ne', self.udiv(s, n, 2)[1])))
            return out
        return [(st, wrapc(st.num.norm(self.as_int(st, v)), w))]

    def op_ptrtoint(self, st, env, ins):
        v = self.val(st, env, ins['o'][0])
        if isinstance(v, Ptr):
            if v.r is not None:
                self.bound_addr(st, v.r)
            return [(st, self.ptr2int(v))]
        return [(st, v)]

    def op_inttoptr(self, st, env, ins):
        v = self.val(st, env, ins['o'][0])
        if isinstance(v, Lin):
            return [(st, self.int2ptr(st, v))]
        return [(st, v)]

    def op_bitcast(self, st, env, ins):
        return [(st, self.val(st, env, ins['o'][0]))]

    def op_freeze(self, st, env, ins):
        return [(st, self.val(st, env, ins['o'][0]))]

    def _opq(self, st, env, ins):
        ks = []
        for o in ins['o']:
            v = self.val(st, env, o)
            if isinstance(v, Undef):
                return [(st, v)]
            ks.append(v)
        return [(st, Opq((ins['op'], ins.get('pred'), tuple(ks))))]

    op_fadd = op_fsub = op_fmul = op_fdiv = op_frem = op_fneg = _opq
    op_sitofp = op_uitofp = op_fpext = op_fptrunc = _opq

    def op_fptosi(self, st, env, ins):
        r = self._opq(st, env, ins)
        if isinstance(r[0][1], Undef):
            return r
        return self.opaque_int(st, ('fp2i', r[0][1]), ibits(ins['ty']))

    op_fptoui = op_fptosi

    def op_fcmp(self, st, env, ins):
        r = self._opq(st, env, ins)
        if isinstance(r[0][1], Undef):
            return r
        k = ('fcmp', r[0][1])
        if k not in self.vn:
            self.vn[k] = new_atom('_fcmp%d' % len(self.vn))
        l = atom(self.vn[k])
        st.num.add_ge(l, log=False)
        st.num.add_ge(-l + 1, log=False)
        return [(st, Cond('ne', l))]

    def op_extractvalue(self, st, env, ins):
        v = self.val(st, env, ins['o'][0])
        for i in ins['idx']:
            if isinstance(v, Undef):
                return [(st, v)]
            if not isinstance(v, Agg):
                raise Undecided('extractvalue')
            v = v.v[i]
        return [(st, v)]

    def op_insertvalue(self, st, env, ins):
        a = self.val(st, env, ins['o'][0])
        v = self.val(st, env, ins['o'][1])
        return [(st, self.insv(a, v, ins['idx'], ins['ty']))]

    def insv(self, a, v, idx, t):
        if not idx:
            return v
        if isinstance(a, Undef):
            n = len(t['s']) if 's' in t else t['a']
            a = Agg([UNDEF] * n)
        l = list(a.v)
        sub = t['s'][idx[0]][1] if 's' in t else t['e']
        l[idx[0]] = self.insv(l[idx[0]], v, idx[1:], sub)
        return Agg(l)

    def op_fence(self, st, env, ins):
        return [(st, None)]

    def op_landingpad(self, st, env, ins):
        exc = st.ghost.pop('exc', ('unknown',))
        p = self.exc_ptr(st, exc)
        st.ghost['uncaught'] = tuple(x for x in st.ghost.get('uncaught', ()) if x != p) + (p,)
        sel = None
        for k, c in ins['clauses']:
            if k == 'catch':
                if c[0] == 'null':
                    sel = const(1)
                    break
                if self.exc_matches(exc, c[1]):
                    sel = const(self.tid(c[1]))
                    break
            else:
                # exception specification filter: treat as a violation of it
                sel = const(-1)
                break
        if sel is None:
            sel = ZERO
        return [(st, Agg([p, sel]))]

    def exc_ptr(self, st, exc):
        m = dict(st.ghost.get('excobj', {}))
        for p, e in m.items():
            if e == exc:
                return p
        if exc[0] == 'obj':
            p = exc[1]
        else:
            rid = self.new_region(st, 'exc', const(64), 'exception')
            p = Ptr(rid, ZERO)
        m[p] = exc
        st.ghost['excobj'] = m
        return p

    BASES = {
        '_ZTISt12out_of_range': ['_ZTISt11logic_error', '_ZTISt9exception'],
        '_ZTISt12length_error': ['_ZTISt11logic_error', '_ZTISt9exception'],
        '_ZTISt11logic_error': ['_ZTISt9exception'],
        '_ZTISt13runtime_error': ['_ZTISt9exception'],
        '_ZTISt9bad_alloc': ['_ZTISt9exception'],
        '_ZTISt8bad_cast': ['_ZTISt9exception'],
    }

    def exc_matches(self, exc, ti):
        if exc[0] in ('ti', 'obj'):
            t = exc[2] if len(exc) > 2 else None
            return t == ti or ti in self.BASES.get(t, [])
        if exc[0] == 'std':
            return exc[1] == ti or ti in self.BASES.get(exc[1], [])
        return False

    def tid(self, ti):
        k = ('tid', ti)
        if k not in self.vn:
            self.vn[k] = 1000 + len(self.vn)
        return self.vn[k]

    def op_cmpxchg(self, st, env, ins):
        p, e, n = [self.val(st, env, o) for o in ins['o']]
        hook = getattr(self, 'access_hook', None)
        if hook:
            hook(st, p, ins, 'rmw')
        if 'shared' in st.ghost:
            from . import sync
            r = sync.spin_rmw(self, st, p, ins, n, e)
            if r is not None:
                return [(s, Agg([v, ONE if v == ZERO else ZERO])) for s, v in r]
        out = []
        from . import sync
        for s, v in [x for s0 in sync.interfere(self, st, p, ins['vty']) for x in self.load(s0, p, ins['vty'])]:
            c = self.op_cmp_vals(s, v, e, ins['vty'])
            for s2, cc in c:
                ts, fs = self.split(s2, cc)
                for s3 in ts:
                    if ins.get('weak'):
                        out.append((s3.copy(), Agg([v, ZERO])))
                    sync.modified(self, s3, p, v, n)
                    for s4 in self.store(s3, p, n, ins['vty']):
                        out.append((s4, Agg([v, ONE])))
                for s3 in fs:
                    out.append((s3, Agg([v, ZERO])))
        return out

    def op_cmp_vals(self, st, a, b, t):
        if isinstance(a, Undef) or isinstance(b, Undef):
            self.record(st, False, 'uninit', 'comparison of an uninitialised value')
            return []
        if t == 'ptr':
            return self.cmp_ptr(st, a, b, 'eq')
        return self.cmp_int(st, a, b, 'eq', ibits(t))

    def op_atomicrmw(self, st, env, ins):
        p, n = [self.val(st, env, o) for o in ins['o']]
        hook = getattr(self, 'access_hook', None)
        if hook:
            hook(st, p, ins, 'rmw')
        if 'shared' in st.ghost and ins['rmw'] == 'xchg':
            from . import sync
            r = sync.spin_rmw(self, st, p, ins, n)
            if r is not None:
                return r
        out = []
        from . import sync
        for s, v in [x for s0 in sync.interfere(self, st, p, ins['vty']) for x in self.load(s0, p, ins['vty'])]:
            k = ins['rmw']
            if k == 'xchg':
                nv = n
            elif k == 'add':
                nv = s.num.norm(self.as_int(s, v) + self.as_int(s, n)) if not isinstance(v, Undef) else v
            elif k == 'sub':
                nv = s.num.norm(self.as_int(s, v) - self.as_int(s, n)) if not isinstance(v, Undef) else v
            else:
                raise Undecided('atomicrmw ' + k)
            sync.modified(self, s, p, v, nv)
            for s2 in self.store(s, p, nv, ins['vty']):
                out.append((s2, v))
        return out

    # ---------------------------------------------------------------- loops
    def handle_loop(self, st, env, f, fr, header, prev, body):
        from .loops import run_loop
        return run_loop(self, st, env, f, fr, header, prev, body)


from . import bits


def wrapc(l, w):
    """keep constants canonical (unsigned residue folded to small magnitude)"""
    if l.is_const:
        M = 1 << w
        v = l.c % M
        if v >= M >> 1:
            v -= M
        return const(v)
    # fold huge constant terms
    M = 1 << w
    if l.c >= M >> 1 or l.c < -(M >> 1):
        v = l.c % M
        if v >= M >> 1:
            v -= M
        l = Lin(v, l.t)
    ch = False
    t = []
    for a, k in l.t:
        if k >= M >> 1 or k < -(M >> 1):
            k2 = k % M
            if k2 >= M >> 1:
                k2 -= M
            ch = True
            if k2:
                t.append((a, k2))
        else:
            t.append((a, k))
    return Lin(l.c, tuple(t)) if ch else l


def flat_type(t, off):
    if isinstance(t, str):
        return [(off, tysize(t))]
    out = []
    if 's' in t:
        for o, e in t['s']:
            out += flat_type(e, off + o)
    else:
        for i in range(min(t['a'], 4096)):
            out += flat_type(t['e'], off + i * t['es'])
    return out


def shorten(s, n=140):
    s = s.replace('std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >', 'std::string')
    return s if len(s) <= n else s[:n - 3] + '...'


def fmt_con(c):
    return '%r %s 0' % (c[1], '>=' if c[0] == 'ge' else '==')
