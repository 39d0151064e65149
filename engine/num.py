"""Linear-inequality abstract domain over integer atoms (a small rational polyhedra
domain with integer tightening).  Own Fourier-Motzkin elimination; no external solver."""
from math import gcd
from functools import lru_cache

ATOMS = []          # id -> name


def new_atom(name):
    ATOMS.append(name)
    return len(ATOMS) - 1


class Lin:
    __slots__ = ('c', 't', '_h')

    def __init__(self, c, t=()):
        self.c = c
        self.t = t
        self._h = hash((c, t))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self._h == o._h and self.c == o.c and self.t == o.t

    def __ne__(self, o):
        return not self.__eq__(o)

    @property
    def is_const(self):
        return not self.t

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c + o, self.t)
        if not o.t:
            return Lin(self.c + o.c, self.t)
        if not self.t:
            return Lin(self.c + o.c, o.t)
        d = dict(self.t)
        for a, k in o.t:
            v = d.get(a, 0) + k
            if v:
                d[a] = v
            else:
                d.pop(a, None)
        return Lin(self.c + o.c, tuple(sorted(d.items())))

    def __neg__(self):
        return Lin(-self.c, tuple((a, -k) for a, k in self.t))

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.c - o, self.t)
        return self + (-o)

    def scale(self, m):
        if m == 0:
            return Lin(0)
        if m == 1:
            return self
        return Lin(self.c * m, tuple((a, k * m) for a, k in self.t))

    def divisible(self, m):
        return self.c % m == 0 and all(k % m == 0 for _, k in self.t)

    def div(self, m):
        return Lin(self.c // m, tuple((a, k // m) for a, k in self.t))

    def subst(self, sub):
        """sub: dict atom -> Lin"""
        if not self.t:
            return self
        hit = False
        for a, _ in self.t:
            if a in sub:
                hit = True
                break
        if not hit:
            return self
        d = {}
        c = self.c
        for a, k in self.t:
            r = sub.get(a)
            if r is None:
                d[a] = d.get(a, 0) + k
            else:
                c += k * r.c
                for b, q in r.t:
                    d[b] = d.get(b, 0) + k * q
        return Lin(c, tuple(sorted((a, k) for a, k in d.items() if k)))

    def atoms(self):
        return [a for a, _ in self.t]

    def __repr__(self):
        s = []
        for a, k in self.t:
            n = ATOMS[a]
            if k == 1:
                s.append('+' + n)
            elif k == -1:
                s.append('-' + n)
            else:
                s.append('%+d*%s' % (k, n))
        if self.c or not s:
            s.append('%+d' % self.c)
        r = ''.join(s)
        return r[1:] if r[0] == '+' else r


ZERO = Lin(0)
ONE = Lin(1)


def const(n):
    return Lin(n)


def atom(a):
    return Lin(0, ((a, 1),))


def tighten(l):
    """normalise l >= 0: divide by gcd of coefficients, floor the constant"""
    g = 0
    for _, k in l.t:
        g = gcd(g, k)
        if g == 1:
            return l
    if g > 1:
        return Lin(l.c // g, tuple((a, k // g) for a, k in l.t))
    return l


FM_LIMIT = 1500
STATS = {'fm': 0, 'fm_hit': 0, 'fm_giveup': 0}


@lru_cache(maxsize=400000)
def _infeasible(cons):
    """cons: frozenset of Lin (each >= 0), already tightened. True if provably no rational/int solution."""
    STATS['fm'] += 1
    cur = {}
    for l in cons:
        if not l.t:
            if l.c < 0:
                return True
            continue
        o = cur.get(l.t)
        if o is None or l.c < o:
            cur[l.t] = l.c
    while True:
        if not cur:
            return False
        # quick contradictory pair check & equality detection for variable elimination
        pos = {}
        neg = {}
        for t in cur:
            for a, k in t:
                if k > 0:
                    pos[a] = pos.get(a, 0) + 1
                else:
                    neg[a] = neg.get(a, 0) + 1
        best = None
        bs = None
        for a in set(pos) | set(neg):
            p = pos.get(a, 0)
            n = neg.get(a, 0)
            s = p * n - p - n
            if best is None or s < bs:
                best, bs = a, s
        if pos.get(best, 0) * neg.get(best, 0) > FM_LIMIT or len(cur) > FM_LIMIT:
            STATS['fm_giveup'] += 1
            return False
        ps = []
        ns = []
        nxt = {}
        for t, c in cur.items():
            k = 0
            for a, q in t:
                if a == best:
                    k = q
                    break
            if k > 0:
                ps.append((k, t, c))
            elif k < 0:
                ns.append((-k, t, c))
            else:
                o = nxt.get(t)
                if o is None or c < o:
                    nxt[t] = c
        for kp, tp, cp in ps:
            for kn, tn, cn in ns:
                g = gcd(kp, kn)
                mp = kn // g
                mn = kp // g
                d = {}
                for a, q in tp:
                    d[a] = q * mp
                for a, q in tn:
                    v = d.get(a, 0) + q * mn
                    if v:
                        d[a] = v
                    else:
                        d.pop(a, None)
                c = cp * mp + cn * mn
                if not d:
                    if c < 0:
                        return True
                    continue
                g2 = 0
                for v in d.values():
                    g2 = gcd(g2, v)
                    if g2 == 1:
                        break
                if g2 > 1:
                    c = c // g2
                    t = tuple(sorted((a, v // g2) for a, v in d.items()))
                else:
                    t = tuple(sorted(d.items()))
                o = nxt.get(t)
                if o is None or c < o:
                    nxt[t] = c
        cur = nxt


class Num:
    """Immutable-ish constraint system: equality substitution + inequalities.
    log: tuple of ('ge'|'eq', Lin) in order of addition (as originally stated)."""
    __slots__ = ('sub', 'ineq', 'log', 'bottom', '_comp')

    def __init__(self):
        self.sub = {}
        self.ineq = frozenset()
        self.log = ()
        self.bottom = False
        self._comp = None

    def copy(self):
        n = Num.__new__(Num)
        n.sub = self.sub
        n.ineq = self.ineq
        n.log = self.log
        n.bottom = self.bottom
        n._comp = self._comp
        return n

    def norm(self, l):
        return l.subst(self.sub) if self.sub else l

    def _component(self, l):
        """inequalities transitively sharing atoms with l"""
        atoms = set(l.atoms())
        if not atoms:
            return ()
        rest = list(self.ineq)
        out = []
        changed = True
        while changed and rest:
            changed = False
            nr = []
            for q in rest:
                hit = False
                for a, _ in q.t:
                    if a in atoms:
                        hit = True
                        break
                if hit:
                    out.append(q)
                    for a, _ in q.t:
                        if a not in atoms:
                            atoms.add(a)
                    changed = True
                else:
                    nr.append(q)
            rest = nr
        return out

    def entails_ge(self, l):
        """l >= 0 in all points?"""
        if self.bottom:
            return True
        l = self.norm(l)
        if not l.t:
            return l.c >= 0
        neg = tighten(Lin(-l.c - 1, tuple((a, -k) for a, k in l.t)))
        # syntactic fast path
        tl = tighten(l)
        for q in self.ineq:
            if q.t == tl.t:
                if q.c <= tl.c:
                    return True
        comp = self._component(neg)
        return _infeasible(frozenset(comp) | {neg})

    def entails_eq(self, l):
        l = self.norm(l)
        if not l.t:
            return l.c == 0
        g = 0
        for _, k in l.t:
            g = gcd(g, k)
        if g > 1 and l.c % g:
            return self.bottom
        return self.entails_ge(l) and self.entails_ge(-l)

    def entails_ne(self, l):
        l = self.norm(l)
        if not l.t:
            return l.c != 0
        g = 0
        for _, k in l.t:
            g = gcd(g, k)
        if g > 1 and l.c % g:
            return True
        return self.entails_ge(l - 1) or self.entails_ge(-l - 1) or not self.feasible_with_eq(l)

    def feasible_with_eq(self, l):
        n = self.copy()
        n.add_eq(l)
        return not n.bottom

    def feasible_with_ge(self, l):
        return not self.entails_ge(-l - 1)

    def add_ge(self, l, log=True):
        if self.bottom:
            return
        o = l
        l = self.norm(l)
        if not l.t:
            if l.c < 0:
                self.bottom = True
            return
        tl = tighten(l)
        if self.entails_ge(l):
            # implied over the integers; keep it when rational reasoning alone would lose it
            if self.int_only(tl):
                self.ineq = self.ineq | {tl}
            return
        if self.entails_ge(-l - 1):
            self.bottom = True
            return
        if log:
            self.log = self.log + (('ge', o),)
        # an implied equality?
        if self.entails_ge(-tl):
            self._add_eq(tl)
            return
        self.ineq = frozenset([q for q in self.ineq if not (q.t == tl.t and q.c >= tl.c)] + [tl])

    def int_only(self, tl):
        for q in self.ineq:
            if q.t == tl.t and q.c <= tl.c:
                return False
        if not any(abs(k) != 1 for q in self._component(tl) for _, k in q.t):
            return False        # difference constraints: no gain
        return len(tl.t) <= 3 and all(abs(k) == 1 for _, k in tl.t)

    def add_eq(self, l, log=True):
        if self.bottom:
            return
        o = l
        l = self.norm(l)
        if not l.t:
            if l.c != 0:
                self.bottom = True
            return
        if self.entails_ge(l) and self.entails_ge(-l):
            # already implied; still solve it for nicer normal forms
            self._add_eq(l)
            return
        if log:
            self.log = self.log + (('eq', o),)
        self._add_eq(l)

    def _add_eq(self, l):
        l = self.norm(l)
        if not l.t:
            if l.c != 0:
                self.bottom = True
            return
        g = 0
        for _, k in l.t:
            g = gcd(g, k)
        if g > 1:
            if l.c % g:
                self.bottom = True
                return
            l = Lin(l.c // g, tuple((a, k // g) for a, k in l.t))
        cand = [a for a, k in l.t if abs(k) == 1]
        if cand:
            a = max(cand)
            k = dict(l.t)[a]
            rest = Lin(l.c, tuple((b, q) for b, q in l.t if b != a))
            val = -rest if k == 1 else rest
            one = {a: val}
            ns = {}
            for b, v in self.sub.items():
                ns[b] = v.subst(one)
            ns[a] = val
            self.sub = ns
            new = []
            old = self.ineq
            self.ineq = frozenset()
            keep = []
            redo = []
            for q in old:
                hit = False
                for b, _ in q.t:
                    if b == a:
                        hit = True
                        break
                (redo if hit else keep).append(q)
            self.ineq = frozenset(keep)
            for q in redo:
                q = tighten(q.subst(one))
                if not q.t:
                    if q.c < 0:
                        self.bottom = True
                        return
                    continue
                new.append(q)
            d = {}
            for q in list(self.ineq) + new:
                if q.t not in d or q.c < d[q.t]:
                    d[q.t] = q.c
            self.ineq = frozenset(Lin(c, t) for t, c in d.items())
            if new and _infeasible(frozenset(self._component(new[0]) or ()) | frozenset(new)):
                self.bottom = True
        else:
            self.ineq = self.ineq | {l, -l}
            if _infeasible(frozenset(self._component(l))):
                self.bottom = True

    # ---- witness ------------------------------------------------------------
    def bounds(self, l, lim=1 << 66):
        """smallest value of l found by doubling/binary search on entailment (for reports)."""
        l = self.norm(l)
        if not l.t:
            return l.c
        if self.entails_ge(l):
            lo = 0
        else:
            lo = -1
            while lo > -lim and not self.entails_ge(l - lo):
                lo *= 2
            if lo <= -lim:
                return 0
        hi = lo
        step = 1
        # largest m with l >= m entailed
        while step < lim and self.entails_ge(l - (lo + step)):
            lo += step
            step *= 2
        while step > 1:
            step //= 2
            if self.entails_ge(l - (lo + step)):
                lo += step
        return lo

    def witness(self, atoms, tries=400):
        """try to find small integer values for atoms; returns dict or None. Backtracking over lower bounds."""
        budget = [tries]

        def go(n, rest):
            if n.bottom:
                return None
            if not rest:
                return {}
            a = rest[0]
            e = n.norm(atom(a))
            if not e.t:
                r = go(n, rest[1:])
                if r is not None:
                    r[a] = e.c
                return r
            lo = n.bounds(atom(a))
            cand = [lo, lo + 1, lo + 2, lo + 3, lo + 5, lo + 8, lo + 17, lo + 40, lo + 100]
            hi = -n.bounds(-atom(a))
            cand += [x for x in (hi, hi - 1, (lo + hi) // 2) if x > lo]
            for v in cand:
                budget[0] -= 1
                if budget[0] < 0:
                    return None
                m = n.copy()
                m.add_eq(atom(a) - v)
                if m.bottom:
                    continue
                r = go(m, rest[1:])
                if r is not None:
                    r[a] = v
                    return r
            return None
        r = go(self.copy(), list(atoms))
        if r is None:
            return None
        # verify all original constraints evaluate
        return r
