"""Bit provenance: the bits of a machine word as boolean terms over the bits of labelled inputs.

A bit is 0, 1, ('b', label, pos) - the bit at position pos (linear) of the labelled sequence of words -
or a term ('n', x), ('&', x, y), ('|', x, y), ('^', x, y). Words of labelled sequences stay linear atoms until
an operation looks at their bits."""
from .num import Lin, ZERO, ONE, const, atom
from . import interp as _i


class BV:
    __slots__ = ('b', '_h')

    def __init__(self, b):
        self.b = tuple(b)
        self._h = hash(self.b)

    def __eq__(self, x):
        return isinstance(x, BV) and self.b == x.b

    def __hash__(self):
        return self._h

    def __repr__(self):
        return 'bits<%s>' % ' '.join(show(x) for x in reversed(self.b))


def show(x):
    if x in (0, 1):
        return str(x)
    if x[0] == 'b':
        return '%s.%r' % (x[1][5:], x[2])
    if x[0] == 'n':
        return '~' + show(x[1])
    return '(%s%s%s)' % (show(x[1]), x[0], show(x[2]))


def neg(x):
    if x in (0, 1):
        return 1 - x
    if x[0] == 'n':
        return x[1]
    return ('n', x)


def land(x, y):
    if x == 0 or y == 0:
        return 0
    if x == 1 or x == y:
        return y
    if y == 1:
        return x
    if neg(x) == y:
        return 0
    return ('&', x, y)


def lor(x, y):
    if x == 1 or y == 1:
        return 1
    if x == 0 or x == y:
        return y
    if y == 0:
        return x
    if neg(x) == y:
        return 1
    return ('|', x, y)


def lxor(x, y):
    if x == 0:
        return y
    if y == 0:
        return x
    if x == 1:
        return neg(y)
    if y == 1:
        return neg(x)
    if x == y:
        return 0
    if neg(x) == y:
        return 1
    return ('^', x, y)


OPS = {'and': land, 'or': lor, 'xor': lxor}


def bitsy(I, st, v):
    """does v consist of labelled bits?"""
    if isinstance(v, BV):
        return True
    if I.bits and isinstance(v, Lin):
        v = st.num.norm(v)
        return v.c == 0 and len(v.t) == 1 and v.t[0][1] == 1 and v.t[0][0] in I.seqs
    return False


def as_bits(I, st, v, w):
    if isinstance(v, BV):
        b = v.b
        if len(b) != w:
            return None
        return b
    if not isinstance(v, Lin):
        return None
    v = st.num.norm(v)
    if v.is_const:
        return tuple((v.c >> j) & 1 for j in range(w))
    if bitsy(I, st, v):
        L, idx, tw = I.seqs[v.t[0][0]]
        p = st.num.norm(idx).scale(tw)
        return tuple(('b', L, p + j) if j < tw else 0 for j in range(w))
    return None


def make(I, st, bits):
    bits = tuple(bits)
    if all(x in (0, 1) for x in bits):
        return const(sum(x << j for j, x in enumerate(bits)))
    x = bits[0]
    if not isinstance(x, int) and x[0] == 'b':
        L, p = x[1], x[2]
        tw = I.seqw.get(L)
        if tw and tw <= len(bits) and p.divisible(tw) and all(b == 0 for b in bits[tw:]) and \
                all(not isinstance(b, int) and b[0] == 'b' and b[1] == L and b[2] == p + j for j, b in enumerate(bits[:tw])):
            return I.seq_atom(st, L, p.div(tw), 'i%d' % tw)
    return BV(bits)


def atom_value(I, st, L, p):
    """-> [(st, 0/1)]"""
    out = []
    cur = [st]
    for (l2, q, v) in st.ghost.get('bits', ()):
        if l2 != L or not cur:
            continue
        nx = []
        for s in cur:
            d = s.num.norm(q - p)
            if d.is_const:
                if d.c == 0:
                    out.append((s, v))
                else:
                    nx.append(s)
                continue
            ts, fs = I.split(s, _i.Cond('eq', d))
            out += [(s2, v) for s2 in ts]
            nx += fs
        cur = nx
    for s in cur:
        s2 = s.copy()
        s.ghost['bits'] = s.ghost.get('bits', ()) + ((L, p, 1),)
        s2.ghost['bits'] = s2.ghost.get('bits', ()) + ((L, p, 0),)
        out += [(s, 1), (s2, 0)]
    return out


def decide(I, st, x):
    """-> [(st, 0/1)]"""
    if x in (0, 1):
        return [(st, x)]
    k = x[0]
    if k == 'b':
        return atom_value(I, st, x[1], st.num.norm(x[2]))
    if k == 'n':
        return [(s, 1 - v) for s, v in decide(I, st, x[1])]
    out = []
    for s, v in decide(I, st, x[1]):
        if k == '&' and v == 0 or k == '|' and v == 1:
            out.append((s, v))
            continue
        for s2, u in decide(I, s, x[2]):
            out.append((s2, v ^ u if k == '^' else u))
    return out


def equal(I, st, a, b):
    """-> [(st, bool)]"""
    d = [lxor(x, y) for x, y in zip(a, b)]
    if 1 in d:
        return [(st, False)]
    out = []
    cur = [st]
    for x in d:
        if x == 0:
            continue
        nx = []
        for s in cur:
            for s2, v in decide(I, s, x):
                if v:
                    out.append((s2, False))
                else:
                    nx.append(s2)
        cur = nx
    return out + [(s, True) for s in cur]


def compare(I, st, a, b, pred, w):
    if pred in ('eq', 'ne'):
        return [(s, ONE if v == (pred == 'eq') else ZERO) for s, v in equal(I, st, a, b)]
    if pred[0] == 's':
        a = a[:-1] + (neg(a[-1]),)
        b = b[:-1] + (neg(b[-1]),)
    p = pred[1:]
    out = []
    cur = [st]
    for j in reversed(range(w)):
        nx = []
        for s in cur:
            if a[j] == b[j]:
                nx.append(s)
                continue
            for s2, x in decide(I, s, a[j]):
                for s3, y in decide(I, s2, b[j]):
                    if x == y:
                        nx.append(s3)
                    else:
                        out.append((s3, ONE if (x > y) == (p in ('gt', 'ge')) else ZERO))
        cur = nx
    return out + [(s, ONE if p in ('ge', 'le') else ZERO) for s in cur]


def concretise(I, st, l, lo, hi):
    """-> [(st, int)]; every value of l, known to be in [lo, hi]"""
    l = st.num.norm(l)
    if l.is_const:
        return [(st, l.c)]
    out = []
    for v in range(lo, hi + 1):
        s = st.copy()
        s.num.add_eq(l - v)
        if not s.num.bottom:
            out.append((s, v))
    return out


def shift(I, st, name, a, b, w):
    """None: not a matter of bits"""
    b = st.num.norm(I.as_int(st, b)) if not isinstance(b, BV) else b
    if isinstance(b, BV):
        raise _i.Undecided('shift by labelled bits')
    bity = bitsy(I, st, a)
    if not bity and not (isinstance(a, Lin) and st.num.norm(a).is_const and not b.is_const):
        return None
    out = []
    for s in I.oblige(st, _i.Cond('ge', b), 'arith', 'shift amounts are not negative'):
        for s2 in I.oblige(s, _i.Cond('ge', const(w - 1) - b), 'arith', 'shift amounts are below the width'):
            x = as_bits(I, s2, a, w)
            for s3, n in concretise(I, s2, b, 0, w - 1):
                if name == 'shl':
                    y = (0,) * n + x[:w - n]
                elif name == 'lshr':
                    y = x[n:] + (0,) * n
                else:
                    y = x[n:] + (x[-1],) * n
                out.append((s3, make(I, s3, y)))
    return out


def logic(I, st, name, a, b, w):
    if not bitsy(I, st, a) and not bitsy(I, st, b):
        return None
    x, y = as_bits(I, st, a, w), as_bits(I, st, b, w)
    if x is None or y is None:
        raise _i.Undecided('%s of labelled bits and a number' % name)
    f = OPS[name]
    return [(st, make(I, st, [f(p, q) for p, q in zip(x, y)]))]


def addsub(I, st, name, a, b, w):
    if not isinstance(a, BV) and not isinstance(b, BV):
        return None
    x, y = as_bits(I, st, a, w), as_bits(I, st, b, w)
    if x is None or y is None:
        raise _i.Undecided('%s of labelled bits and a number' % name)
    if name == 'add' and all(p == 0 or q == 0 for p, q in zip(x, y)):
        return [(st, make(I, st, [lor(p, q) for p, q in zip(x, y)]))]
    if name == 'sub' and all(q == 0 or p == 1 for p, q in zip(x, y)):
        return [(st, make(I, st, [lxor(p, q) for p, q in zip(x, y)]))]
    if name == 'sub' and y == tuple([0] * w):
        return [(st, a)]
    # ripple carry
    c = 0 if name == 'add' else 1
    if name == 'sub':
        y = tuple(neg(q) for q in y)
    out = []
    for p, q in zip(x, y):
        t = lxor(p, q)
        out.append(lxor(t, c))
        c = lor(land(p, q), land(t, c))
        if size(c) > 40:
            raise _i.Undecided('arithmetic on labelled bits')
    return [(st, make(I, st, out))]


def size(x):
    return 1 if isinstance(x, int) or x[0] == 'b' else 1 + sum(size(y) for y in x[1:])


def resize(I, st, v, w, w2, sign=False):
    """trunc/zext/sext"""
    x = as_bits(I, st, v, w)
    if x is None:
        raise _i.Undecided('width of labelled bits')
    x = x[:w2] if w2 < w else x + ((x[-1] if sign else 0),) * (w2 - w)
    return make(I, st, x)
