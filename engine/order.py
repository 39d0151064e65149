"""A strict weak order of opaque keys.

A label declared sorted by vp_sorted(label, n) stands for keys label[0] < ... < label[n-1].  The place of any other key K
in it is the number p(K) of keys of the label less than K, and e(K) says whether label[p] is equivalent to K: label[i] < K
iff i < p, K < label[i] iff i >= p + e.  These are all the facts about a strict weak order between a sorted range and a
key, so nothing is lost.  A label declared by vp_presorted is sorted, but neighbours may be equivalent."""
import re
from .num import ZERO, ONE, const, atom, new_atom
from .interp import Cond, Undecided


def _norm(st, c):
    return (c[0], st.num.norm(c[1]))


def place(I, st, label, key):
    n, strict = st.ghost['sorted'][label]
    k = ('place', label, key)
    if k not in I.vn:
        I.vn[k] = (new_atom('_place(%s[%r])' % key), new_atom('_has(%s[%r])' % key))
    p, e = atom(I.vn[k][0]), atom(I.vn[k][1])
    for c in (p, e, -e + 1, n - p - e):
        st.num.add_ge(c, log=False)
    return p, e


def first_equal(I, st, a, b):
    """vp_first(label, n, key, k): label[k] is the first element equal to key[0] (none if k == n)"""
    F = st.ghost.get('eqfirst', {})
    for x, y in ((a, b), (b, a)):
        if x[0] in F and (F[x[0]][0], ZERO) == (y[0], st.num.norm(y[1])):
            k = F[x[0]][1]
            out = []
            later, upto = I.split(st, Cond('ge', x[1] - k - 1))
            for s in upto:
                at, before = I.split(s, Cond('ge', x[1] - k))
                out += [(s2, ONE) for s2 in at] + [(s2, ZERO) for s2 in before]
            for s in later:
                kk = ('cmp', '==', x, y)
                if kk not in I.vn:
                    I.vn[kk] = new_atom('_eq(%s[%r])' % x)
                l = atom(I.vn[kk])
                s.num.add_ge(l, log=False)
                s.num.add_ge(-l + 1, log=False)
                out.append((s, Cond('ne', l)))
            return out
    return None


def unrelated(I, st, opn, a, b):
    """keys of no sorted sequence: at most one of a < b and b < a.  This is all there is for one pair of keys; what
    transitivity says of more than one isn't modelled, so nothing is refuted then."""
    if a[0] in ('moved', 'top') or b[0] in ('moved', 'top'):
        return None
    ab, ba = ('less', a, b), ('less', b, a)
    for k in (ab, ba):
        if k not in I.vn:
            I.vn[k] = new_atom('_less(%r,%r)' % k[1:])
    l, r = atom(I.vn[ab]), atom(I.vn[ba])
    for c in (l, r, -l - r + 1):
        st.num.add_ge(c, log=False)
    pairs = st.ghost.get('unrelated', frozenset()) | {frozenset((a, b))}
    st.ghost['unrelated'] = pairs
    if len(pairs) > 1:
        st.inexact('order of unrelated keys')
    return [(st, Cond('ne', l))]


def mismatch(I, st, x, y, m, unit=1):
    """vp_mismatch(a, b, k): a[i] equals b[i] for i < k, a[k] and b[k] differ.  Do the m units (of which an element
    has `unit`) from x equal those from y?  -> [(state, True | False | None)], or None if this says nothing about them"""
    for la, lb, k in st.ghost.get('mismatch', ()):
        if (x[0], y[0]) == (lb, la):
            x, y = y, x
        if (x[0], y[0]) != (la, lb) or not st.num.entails_eq(x[1] - y[1]):
            continue
        d = k.scale(unit) - x[1]        # units before the first element which differs
        out = []
        ge, lt = I.split(st, Cond('ge', d - m))
        out += [(s, True) for s in ge]
        for s in lt:
            at, past = I.split(s, Cond('ge', d))
            out += [(z, None) for z in past]
            for z in at:
                if unit == 1:
                    out.append((z, False))
                    continue
                whole, part = I.split(z, Cond('ge', m - d - unit))
                out += [(w, False) for w in whole] + [(w, None) for w in part]
        return out
    return None


def hook(I, st, opn, a, b):
    if opn == '==' and st.ghost.get('mismatch'):
        r = mismatch(I, st, a, b, ONE)
        if r is not None:
            out = []
            for s, v in r:
                if v is None:
                    k = ('cmp', '==', a, b)
                    if k not in I.vn:
                        I.vn[k] = new_atom('_eq(%s[%r])' % a)
                    l = atom(I.vn[k])
                    s.num.add_ge(l, log=False)
                    s.num.add_ge(-l + 1, log=False)
                    v = Cond('ne', l)
                out.append((s, ONE if v is True else ZERO if v is False else v))
            return out
        return None
    if opn == '==' and st.ghost.get('eqfirst'):
        return first_equal(I, st, a, b)
    if opn not in ('<', 'ord') or opn == '<' and st.ghost.get('custom_order'):
        return None
    if a == b:
        return [(st, ZERO)]
    S = st.ghost.get('sorted', {})
    sa, sb = a[0] in S, b[0] in S
    if not sa and not sb:
        return unrelated(I, st, opn, a, b)
    if 'moved' in (a[0], b[0]) or 'top' in (a[0], b[0]):
        return None
    if sa and sb:
        if a[0] != b[0]:
            raise Undecided('order between two sorted sequences')
        if S[a[0]][1]:
            return [(st, Cond('ge', b[1] - a[1] - 1))]
        # neighbours may be equivalent; nothing is less than what is before it
        d = st.num.norm(b[1] - a[1])
        out = []
        le, gt = I.split(st, Cond('ge', d - 1))
        for s in gt:
            out.append((s, ZERO))
        for s in le:
            k = ('less', a, b)
            if k not in I.vn:
                I.vn[k] = new_atom('_less(%r,%r)' % (a, b))
            l = atom(I.vn[k])
            s.num.add_ge(l, log=False)
            s.num.add_ge(-l + 1, log=False)
            out.append((s, Cond('ne', l)))
        return out
    if sa:
        p, e = place(I, st, a[0], b)
        return [(st, Cond('ge', p - a[1] - 1))]
    p, e = place(I, st, b[0], a)
    return [(st, Cond('ge', b[1] - p - e))]


def install(I):
    from . import models
    I.cmp_hook = lambda st, opn, a, b: hook(I, st, opn, a, b)

    def m_sorted(strict):
        def fn(I, st, f, name, a, ins, env):
            d = dict(st.ghost.get('sorted', {}))
            d[models.cstr(I, st, a[0])] = (st.num.norm(I.as_int(st, a[1])), strict)
            st.ghost['sorted'] = d
            return models.ret(st)
        return fn

    def m_place(which):
        def fn(I, st, f, name, a, ins, env):
            lb, et = models.cstr(I, st, a[0]), models.cstr(I, st, a[2])
            out = []
            for s, L, c0 in I.elem_read(st, a[1], et, models.ELEM[et], 'comparison'):
                out.append((s, 'ret', place(I, s, lb, _norm(s, (L, c0)))[which]))
            return out
        return fn
    def custom(I, st, f, name, a, ins, env):
        st.ghost['custom_order'] = True
        return models.ret(st)
    def first(I, st, f, name, a, ins, env):
        d = dict(st.ghost.get('eqfirst', {}))
        d[models.cstr(I, st, a[0])] = (models.cstr(I, st, a[1]), st.num.norm(I.as_int(st, a[2])))
        st.ghost['eqfirst'] = d
        return models.ret(st)
    I.models['vp_first'] = first

    def mis(I, st, f, name, a, ins, env):
        st.ghost['mismatch'] = st.ghost.get('mismatch', ()) + ((models.cstr(I, st, a[0]), models.cstr(I, st, a[1]), st.num.norm(I.as_int(st, a[2]))),)
        return models.ret(st)
    I.models['vp_mismatch'] = mis

    def affixes(I, st, f, name, a, ins, env):
        """vp_affixes(label, affix, m, lo, hi): the m bytes at offset o of label equal affix iff lo <= o < hi (o at a multiple of m)"""
        st.ghost['affix'] = st.ghost.get('affix', ()) + ((models.cstr(I, st, a[0]), models.cstr(I, st, a[1])) + tuple(st.num.norm(I.as_int(st, x)) for x in a[2:]),)
        return models.ret(st)
    I.models['vp_affixes'] = affixes

    def bytes_of(I, st, p, n):
        """[(state, (label, index))] of the n > 0 bytes at p"""
        out = []
        lo, hi = st.num.norm(p.o), st.num.norm(p.o + n)
        if not I.check_ptr(st, p, 1, 'comparison'):
            return out
        r = I.region(st, p.r)
        if not st.num.entails_ge(r.size - hi) or not st.num.entails_ge(lo):
            I.record(st, False, 'memory', 'comparison reads outside its block', '[%r,%r) of %r' % (lo, hi, r.size))
            return out
        I.record(st, True, 'memory', 'comparison reads outside its block')
        segs0 = r.segs
        for g in segs0:         # inside one piece: reading takes no element apart
            if g.c1 == 1 and g.L not in ('torn', 'top', 'moved') and st.num.entails_ge(lo - g.lo) and st.num.entails_ge(g.hi - hi):
                return [(st, (g.L, st.num.norm(g.c0.scale(g.es) + (lo - g.lo))) + ((g.es,) if g.es != 1 else ()))]
        for s, pieces in I.take_range(st, p.r, lo, hi):
            ok, why = models.covers(s, pieces, lo, hi)
            ps = [g for g in pieces if not s.num.entails_ge(g.lo - g.hi)]
            if not ok or not ps or any(g.es != ps[0].es or g.L != ps[0].L or g.L in ('torn', 'top') or (g.c1 != 1 and not s.num.entails_eq(g.hi - g.lo - g.es)) or
                                       not s.num.entails_eq((g.c0 - ps[0].c0).scale(g.es) - g.lo + ps[0].lo) for g in ps):
                raise Undecided('comparison of mixed bytes')
            es = ps[0].es
            if I.region(s, p.r).segs != segs0:
                s.w(p.r).segs = segs0
            out.append((s, (ps[0].L, s.num.norm(ps[0].c0.scale(es) + (lo - ps[0].lo))) + ((es,) if es != 1 else ())))
        return out

    def memcmp(I, st, f, name, a, ins, env):
        n = st.num.norm(I.as_int(st, a[2]))
        pos, zero = I.split(st, Cond('ge', n - 1))
        out = [(s, 'ret', ZERO) for s in zero]
        for s in pos:
            if not (models.need_ptr(I, s, a[0], 'memcmp') and models.need_ptr(I, s, a[1], 'memcmp')):
                continue
            for s1, x in bytes_of(I, s, a[0], n):
                for s2, y in bytes_of(I, s1, a[1], n):
                    out += [(z, 'ret', v) for z, v in mem_equal(I, s2, x, y, s2.num.norm(n))]
        return out

    def mem_equal(I, st, x, y, n):
        if x == y:
            return [(st, ZERO)]
        for x_, y_ in ((x, y), (y, x)):
            for lb, af, m, lo, hi in st.ghost.get('affix', ()):
                if x_[0] == lb and y_ == (af, ZERO) and st.num.entails_eq(n - m):
                    o, out = x_[1], []
                    ge, lt = I.split(st, Cond('ge', o - lo))
                    for s in ge:
                        no, yes = I.split(s, Cond('ge', o - hi))
                        out += [(s2, const(1)) for s2 in no] + [(s2, ZERO) for s2 in yes]
                    return out + [(s, const(1)) for s in lt]
        k = ('memcmp',) + (x, y, n)
        if k not in I.vn:
            I.vn[k] = new_atom('_memcmp(%r,%r,%r)' % (x, y, n))
        r = atom(I.vn[k])
        for c in (r + 1, -r + 1):       # the sign is all there is
            st.num.add_ge(c, log=False)
        f = mismatch(I, st, x[:2], y[:2], n, x[2] if len(x) > 2 else 1) if len(x) == len(y) and x[2:] == y[2:] and st.ghost.get('mismatch') else None
        if f is None:
            return [(st, r)]
        out = []
        for s, v in f:
            if v is True:
                out.append((s, ZERO))
            elif v is False:
                lo, hi = I.split(s, Cond('ge', r - 1))
                out += [(z, const(1)) for z in lo]
                out += [(z, const(-1)) for w in hi for z in I.split(w, Cond('ge', -r - 1))[0]]
            else:
                out.append((s, r))
        return out
    I.models['memcmp'] = memcmp
    I.models['__builtin_memcmp'] = memcmp
    I.models['bcmp'] = memcmp
    I.models['vp_custom_order'] = custom
    I.models['vp_sorted'] = m_sorted(True)
    I.models['vp_presorted'] = m_sorted(False)
    I.models['vp_place_'] = m_place(0)
    I.models['vp_has_'] = m_place(1)

    # the order between different archetypes
    def cmp2(I, st, f, name, a, ins, env):
        m = re.match(r'^(operator<|vp_before)\((\w+) const&, (\w+) const&\)$', f.dem)
        out = []
        for s, L, c0 in I.elem_read(st, a[0], m.group(2), models.ELEM[m.group(2)], 'comparison'):
            for s2, L2, d0 in I.elem_read(s, a[1], m.group(3), models.ELEM[m.group(3)], 'comparison'):
                out += [(s3, 'ret', v) for s3, v in models.cmp_fact(I, s2, '<' if m.group(1) == 'operator<' else 'ord', _norm(s2, (L, c0)), _norm(s2, (L2, d0)))]
        return out
    I.dmodels.append((re.compile(r'^(operator<|vp_before)\(Vp\w const&, Vp\w const&\)$'), cmp2))

    def pair_is(I, st, f, name, a, ins, env):
        k, v, cat, msg = (models.cstr(I, st, x) for x in a[1:])
        out = []
        for s, L, c0 in I.elem_read(st, a[0], 'VpP', models.ELEM['VpP'], 'read'):
            ok = isinstance(L, tuple) and L[0] == 'pair' and L[1][0] == k and L[2][0] == v
            I.record(s, ok, cat, msg, '%r' % (L,))
            out.append((s, 'ret', None))
        return out
    I.models['vp_pair_is_'] = pair_is

    # a pair of elements: built from two contents
    def pair(I, st, f, name, a, ins, env):
        m = re.match(r'^VpP::VpP\((\w+)( const&|&&), (\w+)( const&|&&)\)$', f.dem)

        def go(s):
            out = []
            for s1, L, c in I.elem_read(s, a[1], m.group(1), models.ELEM[m.group(1)], 'use'):
                for s2, M, d in I.elem_read(s1, a[2], m.group(3), models.ELEM[m.group(3)], 'use'):
                    l = [s2]
                    for ty, cat, p in ((m.group(1), m.group(2), a[1]), (m.group(3), m.group(4), a[2])):
                        if cat == '&&':
                            l = [z for y in l for z in I.elem_set(y, p, ty, models.ELEM[ty], 'moved', ZERO)]
                    for s3 in l:
                        out += I.elem_construct(s3, a[0], 'VpP', models.ELEM['VpP'], ('pair', (L, s3.num.norm(c)), (M, s3.num.norm(d))), ZERO)
            return out
        return models.with_throw(I, st, f, 'value', go)
    I.dmodels.insert(0, (re.compile(r'^VpP::VpP\(Vp\w( const&|&&), Vp\w( const&|&&)\)$'), pair))
