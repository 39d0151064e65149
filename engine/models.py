"""Models of harness markers, opaque archetypes and external library functions."""
import re
from .num import Lin, ZERO, ONE, const, atom, new_atom
from .interp import Ptr, NULL, Cond, Undef, UNDEF, Opq, Agg, Frag, Seg, Undecided, tysize, ibits, shorten

ELEM = {}       # class name -> size


def cstr(I, st, p):
    if not isinstance(p, Ptr) or not isinstance(p.r, str):
        return '?'
    r = I.region(st, p.r)
    out = []
    o = st.num.norm(p.o).c
    while o in r.cells:
        c = r.cells[o][1].c & 255
        if c == 0:
            break
        out.append(chr(c))
        o += 1
    return ''.join(out)


def kint(st, v):
    v = st.num.norm(v)
    if not v.is_const:
        raise Undecided('marker argument not constant')
    return v.c


def ret(st, v=None):
    return [(st, 'ret', v)]


# ------------------------------------------------------------------ markers
def named_input(I, st, p, lo, hi):
    name = cstr(I, st, p)
    l = I.fresh(st, name, lo, hi)
    inp = st.ghost.get('inp', ())
    if I.fixed is not None and len(inp) < len(I.fixed) and I.fixed[len(inp)][0] == name:
        v = I.fixed[len(inp)][1]
        if v is not None:
            st.num.add_eq(l - v)
    st.ghost['inp'] = inp + ((name, l),)
    return l


def m_size(I, st, f, name, a, ins, env):
    return ret(st, named_input(I, st, a[0], 0, 1 << 40))


def m_anysize(I, st, f, name, a, ins, env):
    return ret(st, named_input(I, st, a[0], 0, (1 << 64) - 1))


def m_int(I, st, f, name, a, ins, env):
    return ret(st, named_input(I, st, a[0], -(1 << 31), (1 << 31) - 1))


def m_long(I, st, f, name, a, ins, env):
    return ret(st, named_input(I, st, a[0], -(1 << 63), (1 << 63) - 1))


def m_bool(I, st, f, name, a, ins, env):
    l = named_input(I, st, a[0], 0, 1)
    return ret(st, Cond('ne', l))


def m_pick(I, st, f, name, a, ins, env):
    lo, hi = kint(st, a[1]), kint(st, a[2])
    l = named_input(I, st, a[0], lo, hi)
    from .bits import concretise
    return [(s, 'ret', const(v)) for s, v in concretise(I, st, l, lo, hi)]


def m_bits(I, st, f, name, a, ins, env):
    I.bits = True
    return ret(st)


def m_unroll(I, st, f, name, a, ins, env):
    I.accelerate = False
    I.UNROLL = max(I.UNROLL, 300)
    I.loop_budget = max(I.loop_budget, 100000)
    return ret(st)


def m_bit(I, st, f, name, a, ins, env):
    from .bits import atom_value
    return [(s, 'ret', const(v)) for s, v in atom_value(I, st, cstr(I, st, a[0]), st.num.norm(I.as_int(st, a[1])))]


def m_check_bits(I, st, f, name, a, ins, env):
    """vp_check_bits_(words, word_bytes, off, len, label, pos, cat, msg): bits [off, off+len) of the words are label bits pos.."""
    from . import bits
    p, wb, off, n, lb, pos, cat, msg = a
    wb, off, n = kint(st, wb), kint(st, off), kint(st, n)
    lb, cat, msg = cstr(I, st, lb), cstr(I, st, cat), cstr(I, st, msg)
    pos = st.num.norm(I.as_int(st, pos))
    w = 8 * wb
    cur = [st]
    j = off
    while j < off + n:
        k = j // w
        e = min(off + n, (k + 1) * w)
        nx = []
        for s in cur:
            for s2, v in I.load(s, Ptr(p.r, p.o + k * wb), 'i%d' % w):
                if isinstance(v, Undef):
                    I.record(s2, False, cat, msg, 'word %d is %s' % (k, v.why))
                    continue
                b = bits.as_bits(I, s2, v, w)
                if b is None:
                    raise Undecided('word is not made of labelled bits')
                live = [s2]
                for i in range(j, e):
                    x = bits.lxor(b[i % w], ('b', lb, s2.num.norm(pos + (i - off))) if lb else 0)
                    if x == 0:
                        continue
                    l2 = []
                    for s3 in live:
                        for s4, u in bits.decide(I, s3, x):
                            if u:
                                I.record(s4, False, cat, msg, 'bit %d is %s' % (i, bits.show(b[i % w])))
                            else:
                                l2.append(s4)
                    live = l2
                nx += live
        cur = nx
        j = e
    for s in cur:
        I.record(s, True, cat, msg)
    return [(s, 'ret', None) for s in cur]


def m_assume(I, st, f, name, a, ins, env):
    return [(s, 'ret', None) for s in I.assume(st, a[0], True)]


def m_check(I, st, f, name, a, ins, env):
    cat, msg = cstr(I, st, a[1]), cstr(I, st, a[2])
    if isinstance(a[0], Undef):
        I.record(st, False, 'uninit', 'value checked is uninitialised: ' + msg, a[0].why)
        return ret(st)
    # a failed statement of the driver doesn't end the path: what follows may break other properties
    return [(s, 'ret', None) for s in I.oblige(st, a[0], cat, msg, go_on=True)]


def m_fail(I, st, f, name, a, ins, env):
    I.record(st, False, cstr(I, st, a[0]), cstr(I, st, a[1]))
    return []


def m_reached(I, st, f, name, a, ins, env):
    I.record(st, True, cstr(I, st, a[0]), cstr(I, st, a[1]))
    return ret(st)


def m_stop(I, st, f, name, a, ins, env):
    return []


def m_throws(I, st, f, name, a, ins, env):
    st.throws = frozenset(x for x in cstr(I, st, a[0]).split(',') if x)
    return ret(st)


def m_frozen(I, st, f, name, a, ins, env):
    """vp_freeze(p): nothing may write to the object or block of p any more (vp_thaw() ends this)"""
    p = a[0]
    if isinstance(p, Ptr) and p.r in st.regs:
        st.ghost['frozen'] = st.ghost.get('frozen', frozenset()) | {p.r}
    return ret(st)


def m_thaw(I, st, f, name, a, ins, env):
    st.ghost.pop('frozen', None)
    return ret(st)


def m_heap_count(I, st, f, name, a, ins, env):
    return ret(st, const(sum(1 for r in st.regs.values() if r.kind == 'heap')))


def m_heap_mark(I, st, f, name, a, ins, env):
    """forget existing blocks as leak candidates? (unused)"""
    return ret(st)


def rng(I, st, p, n, es):
    """normalise marker range -> list of (state, ptr, lo, hi) with n>0, and states with n==0"""
    n = st.num.norm(I.as_int(st, n))
    es = kint(st, es)
    pos, zero = I.split(st, Cond('ge', n - 1))
    out = []
    for s in pos:
        out.append((s, s.num.norm(p.o), s.num.norm(p.o + n.scale(es))))
    return out, zero, es, n


def need_ptr(I, st, p, msg):
    if isinstance(p, Undef) or not isinstance(p, Ptr):
        I.record(st, False, 'memory', 'uninitialised pointer: ' + msg)
        return False
    return True


def m_label(I, st, f, name, a, ins, env):
    """vp_label(p, n, es, label, et)  elements [p,p+n) become label[0..n)"""
    p, n, es, lb, et = a
    if not need_ptr(I, st, p, 'label'):
        return []
    lb, et = cstr(I, st, lb), cstr(I, st, et)
    triv = et not in ELEM
    pos, zero, es, n = rng(I, st, p, n, es)
    outs = list(zero)
    for s, lo, hi in pos:
        if not triv:
            for s2 in require_live(I, s, p.r, lo, hi, 'lifetime', 'labelled elements are alive'):
                s2.w(p.r)
                for s3, _ in I.take_range(s2, p.r, lo, hi, True):
                    outs += I.put_seg(s3, p.r, Seg(lo, hi, et, es, lb, ZERO, 1, triv))
        else:
            if not I.check_ptr(s, Ptr(p.r, lo), hi - lo, 'label') if isinstance(hi - lo, int) else False:
                continue
            r = I.region(s, p.r)
            if not (s.num.entails_ge(lo) and s.num.entails_ge(r.size - hi)):
                I.record(s, False, 'memory', 'exposed range exceeds its block', '[%r,%r) of %r' % (lo, hi, r.size))
                continue
            if I.bits and r.cells:
                cells_to_segs(I, s, p.r, lo, hi)
            for s3, _ in I.take_range(s, p.r, lo, hi, True):
                outs += I.put_seg(s3, p.r, Seg(lo, hi, et, es, lb, ZERO, 1, triv))
    return [(s, 'ret', None) for s in outs]


def require_live(I, st, rid, lo, hi, cat, msg):
    """all of [lo,hi) covered by segments -> [states]"""
    if I.region(st, rid) is None:
        I.record(st, False, cat, msg, 'storage is gone')
        return []
    outs = []
    for s, pieces in I.take_range(st, rid, lo, hi):
        ok, why = covers(s, pieces, lo, hi)
        if ok:
            I.record(s, True, cat, msg)
            outs.append(s)
        else:
            I.record(s, False, cat, msg, why)
    return outs


def covers(s, pieces, lo, hi):
    pos = lo
    for g in pieces:
        if not s.num.entails_eq(g.lo - pos):
            return False, 'nothing alive at offset %r (next element at %r)' % (s.num.norm(pos), g.lo)
        pos = g.hi
    if not s.num.entails_eq(hi - pos):
        return False, 'nothing alive at offset %r, expected up to %r' % (s.num.norm(pos), s.num.norm(hi))
    return True, ''


def m_check_seq(I, st, f, name, a, ins, env):
    """vp_check_seq(p,n,es,label,idx0,cat,msg): element i of the range is label[idx0+i]"""
    p, n, es, lb, i0, cat, msg = a
    lb, cat, msg = cstr(I, st, lb), cstr(I, st, cat), cstr(I, st, msg)
    if not need_ptr(I, st, p, msg):
        return []
    i0 = st.num.norm(I.as_int(st, i0))
    return check_content(I, st, p, n, es, cat, msg, lb, i0, 1)


def m_check_const(I, st, f, name, a, ins, env):
    p, n, es, lb, i0, cat, msg = a
    lb, cat, msg = cstr(I, st, lb), cstr(I, st, cat), cstr(I, st, msg)
    if not need_ptr(I, st, p, msg):
        return []
    i0 = st.num.norm(I.as_int(st, i0))
    return check_content(I, st, p, n, es, cat, msg, lb, i0, 0)


def check_content(I, st, p, n, es, cat, msg, lb, i0, stride):
    pos, zero, es, n = rng(I, st, p, n, es)
    outs = list(zero)
    for s, lo, hi in pos:
        if I.region(s, p.r) is None or p.r is None:
            I.record(s, False, cat, msg, 'range is not in live storage (%r)' % p)
            continue
        if any(sz == es for sz, v in I.region(s, p.r).cells.values()):
            cells_to_segs(I, s, p.r, lo, hi, es)
        elif lb == 'zero' and I.region(s, p.r).cells:
            cells_to_segs(I, s, p.r, lo, hi)
        for s2, pieces in I.take_range(s, p.r, lo, hi):
            ok, why = covers(s2, pieces, lo, hi)
            if not ok:
                I.record(s2, False, cat, msg, why)
                if s2.exact:
                    outs.append(s2)
                continue
            good = True
            for g in pieces:
                ne = I.nonempty(s2, g)
                if ne is None:
                    continue
                bad_in = ne
                if lb == 'zero' and g.L == 'zero':
                    continue
                if g.L != lb or g.es != es:
                    good, why = False, 'elements at [%r,%r) are %s, expected %s' % (g.lo, g.hi, descr(g), lb)
                    break
                d = s2.num.norm(g.lo - lo)
                if not d.divisible(es):
                    good, why = False, 'misaligned'
                    break
                want = i0 + (d.div(es) if stride else 0)
                one = s2.num.entails_eq(g.hi - g.lo - es)
                if not s2.num.entails_eq(g.c0 - want) or (g.c1 != stride and not one):
                    bads = []
                    for c in (Cond('ge', g.c0 - want - 1), Cond('ge', want - g.c0 - 1)):
                        bads += I.assume(bad_in.copy(), c, True)
                    if g.c1 != stride:
                        bads += I.assume(bad_in.copy(), Cond('ge', g.hi - g.lo - 2 * es), True)
                    if not bads:
                        continue
                    bad_in = bads[0]
                    good, why = False, 'elements at [%r,%r) are %s, expected %s[%r%s]' % (g.lo, g.hi, descr(g), lb, s2.num.norm(want), '..' if stride else '')
                    break
            I.record(s2 if good else bad_in, good, cat, msg, why)
            if good:
                I.clean_segs(s2, p.r)
                outs.append(s2)
            elif s2.exact:
                outs.append(s2)
    return [(s, 'ret', None) for s in outs]


def descr(g):
    return '%s[%r%s]' % (g.L, g.c0, '..' if g.c1 else '')


def m_check_raw(I, st, f, name, a, ins, env):
    """vp_check_raw(p,n,es,cat,msg): no live element in the range"""
    p, n, es, cat, msg = a
    cat, msg = cstr(I, st, cat), cstr(I, st, msg)
    if not need_ptr(I, st, p, msg):
        return []
    pos, zero, es, n = rng(I, st, p, n, es)
    outs = list(zero)
    for s, lo, hi in pos:
        for s2, pieces in I.take_range(s, p.r, lo, hi):
            bad = [x for x in (I.nonempty(s2, g) for g in pieces if g.et != 'bytes') if x is not None]
            ok = not bad
            I.record(bad[0] if bad else s2, ok, cat, msg, '' if ok else 'live element(s) %r' % (pieces,))
            outs.append(s2)
    return [(s, 'ret', None) for s in outs]


def m_check_live(I, st, f, name, a, ins, env):
    p, n, es, cat, msg = a
    cat, msg = cstr(I, st, cat), cstr(I, st, msg)
    if not need_ptr(I, st, p, msg):
        return []
    pos, zero, es, n = rng(I, st, p, n, es)
    outs = list(zero)
    for s, lo, hi in pos:
        outs += require_live(I, s, p.r, lo, hi, cat, msg)
    return [(s, 'ret', None) for s in outs]


def m_is_live(I, st, f, name, a, ins, env):
    """vp_is_live(p, es) -> bool (constant)"""
    p, es = a
    es = kint(st, es)
    if not isinstance(p, Ptr) or p.r is None or I.region(st, p.r) is None:
        return ret(st, ZERO)
    o = st.num.norm(p.o)
    return [(s, 'ret', ONE if k == 'in' else ZERO) for s, k, i in I.find_seg(st, p.r, o, o + es)]


def m_same_block(I, st, f, name, a, ins, env):
    p, q = a
    return ret(st, ONE if isinstance(p, Ptr) and isinstance(q, Ptr) and p.r == q.r else ZERO)


def m_block_size(I, st, f, name, a, ins, env):
    """bytes from p to the end of its block"""
    p = a[0]
    if not isinstance(p, Ptr) or p.r is None:
        return ret(st, ZERO)
    r = I.region(st, p.r)
    if r is None:
        I.record(st, False, 'memory', 'pointer to storage that is no longer alive')
        return []
    return ret(st, st.num.norm(r.size - p.o))


def m_is_heap(I, st, f, name, a, ins, env):
    p = a[0]
    r = I.region(st, p.r) if isinstance(p, Ptr) and p.r is not None else None
    return ret(st, ONE if r is not None and r.kind == 'heap' else ZERO)


def m_in_object(I, st, f, name, a, ins, env):
    """vp_in_object(p, obj, objsize): p points into [obj, obj+objsize]"""
    p, o, n = a
    if not isinstance(p, Ptr) or p.r != o.r:
        return ret(st, ZERO)
    d = st.num.norm(p.o - o.o)
    c = I.truth(st, Cond('ge', d))
    c2 = I.truth(st, Cond('ge', I.as_int(st, n) - d))
    return ret(st, ONE if c and c2 else ZERO)


def m_ghost_inc(I, st, f, name, a, ins, env):
    k = cstr(I, st, a[0])
    st.ghost[k] = st.ghost.get(k, ZERO) + 1
    return ret(st)


def m_ghost_get(I, st, f, name, a, ins, env):
    k = cstr(I, st, a[0])
    return ret(st, st.ghost.get(k, ZERO))


def m_ghost_set(I, st, f, name, a, ins, env):
    k = cstr(I, st, a[0])
    st.ghost[k] = st.num.norm(I.as_int(st, a[1]))
    return ret(st)


def m_freeze(I, st, f, name, a, ins, env):
    return ret(st)


def m_buffer(I, st, f, name, a, ins, env):
    """void* vp_buffer(bytes, name): an external block of that many bytes (not leak-checked)"""
    n = st.num.norm(I.as_int(st, a[0]))
    rid = I.new_region(st, 'ext', n, cstr(I, st, a[1]))
    return ret(st, Ptr(rid, ZERO))


def m_make(I, st, f, name, a, ins, env):
    """vp_make_(n, es, label, et): n live elements label[0..n) in a block owned by the environment"""
    n = st.num.norm(I.as_int(st, a[0]))
    es, lb, et = kint(st, a[1]), cstr(I, st, a[2]), cstr(I, st, a[3])
    triv = et not in ELEM
    rid = I.new_region(st, 'ext', n.scale(es), lb)
    st.regs[rid].align = 16
    I.ralign[rid] = 16
    pos, zero = I.split(st, Cond('ge', n - 1))
    outs = list(zero)
    for s in pos:
        outs += I.put_seg(s, rid, Seg(ZERO, n.scale(es), et, es, lb, ZERO, 1, triv))
    return [(s, 'ret', Ptr(rid, ZERO)) for s in outs]


def m_alloc(I, st, f, name, a, ins, env):
    """vp_alloc(bytes, id): a block obtained from the allocator with that identity"""
    out = []
    for s, n in I.canon(st, I.as_int(st, a[0]), 64, False):
        if 'alloc' in s.throws:
            out.append((s.copy(), 'throw', ('user', 'alloc')))
        aid = a[1]
        out.append((s, 'ret', heap_alloc(I, s, n, 'allocator', meta={'alloc': s.num.norm(I.as_int(s, aid))})))
    return out


def m_dealloc(I, st, f, name, a, ins, env):
    """vp_dealloc(p, bytes, id)"""
    if isinstance(a[0], Ptr) and a[0].r is None:
        I.record(st, False, 'memory', 'null pointer given to the allocator')
        return []
    return [(s, 'ret', None) for s in heap_free(I, st, a[0], 'allocator', I.as_int(st, a[1]), alloc=s_norm(I, st, a[2]))]


def m_pmalloc(I, st, f, name, a, ins, env):
    return [(s, 'ret', heap_alloc(I, s, n, 'pod', meta={'alloc': s_norm(I, s, a[1])}))
            for s, n in I.canon(st, I.as_int(st, a[0]), 64, False)]


def m_pfree(I, st, f, name, a, ins, env):
    return [(s, 'ret', None) for s in heap_free(I, st, a[0], 'pod', alloc=s_norm(I, st, a[1]))]


def same_alloc(I, st, p, aid, how):
    r = I.region(st, p.r) if isinstance(p, Ptr) else None
    if r is None:
        I.record(st, False, 'memory', '%s of storage that is no longer alive' % how, repr(p))
        return []
    if r.kind != 'heap' or r.meta.get('how') != 'pod':
        I.record(st, False, 'memory', 'release of storage that was not allocated', '%s (%s)' % (r.name, r.kind))
        return []
    outs = []
    for s in I.oblige(st, Cond('eq', st.num.norm(p.o)), 'memory', '%s of the start of a block' % how):
        outs += I.oblige(s, Cond('eq', s.num.norm(r.meta['alloc'] - aid)), 'allocator', 'block released through the allocator that allocated it')
    return outs


def m_prealloc(I, st, f, name, a, ins, env):
    return realloc_(I, st, a[0], a[1], 'pod', s_norm(I, st, a[2]))


def m_pexpand(I, st, f, name, a, ins, env):
    out = []
    for s in same_alloc(I, st, a[0], s_norm(I, st, a[2]), 'expansion'):
        for s2, n in I.canon(s, I.as_int(s, a[1]), 64, False):
            out.append((s2.copy(), 'ret', ZERO))
            w = s2.w(a[0].r)
            le, gt = I.split(s2, Cond('ge', w.size - n - 1))
            for s3 in le:       # shrunk in place: what is beyond is gone
                for s4, _ in I.take_range(s3, a[0].r, n, w.size, True):
                    s4.w(a[0].r).size = n
                    out.append((s4, 'ret', ONE))
            for s3 in gt:
                s3.w(a[0].r).size = n
                out.append((s3, 'ret', ONE))
    return out


def s_norm(I, st, v):
    return st.num.norm(I.as_int(st, v))


def m_trace(I, st, f, name, a, ins, env):
    print('TRACE', cstr(I, st, a[0]), 'exact', st.exact)
    for v in a[1:]:
        print('   arg', st.num.norm(v) if isinstance(v, Lin) else v)
    for r in st.regs.values():
        print('   ', r.id, r.kind, r.name, 'size', st.num.norm(r.size), {k: v for k, v in list(r.cells.items())[:12]}, r.segs)
    print('    cons', sorted(map(repr, st.num.ineq)))
    return ret(st)


# ------------------------------------------------------------------ element archetypes
def may_throw(I, st, f, kind):
    return kind in st.throws and not f.nounwind


def user_exc(st):
    n = st.ghost.get('nexc', ZERO)
    return ('user', 0)


def with_throw(I, st, f, kind, fn, thrown=None):
    out = []
    if may_throw(I, st, f, kind):
        s = st.copy()
        out.append((s, 'throw', ('user', kind)))
    for s in fn(st):
        out.append((s, 'ret', None))
    return out


def elem_ops(I):
    def mk(cls, size):
        q = re.escape(cls)

        def reg(rx, fn):
            I.dmodels.append((re.compile('^' + rx + '$'), fn))

        def ctor_default(I, st, f, name, a, ins, env):
            return with_throw(I, st, f, 'default', lambda s: I.elem_construct(s, a[0], cls, size, 'default', ZERO))

        def ctor_copy(I, st, f, name, a, ins, env):
            def go(s):
                out = []
                for s2, L, c0 in I.elem_read(s, a[1], cls, size, 'copy'):
                    out += I.elem_construct(s2, a[0], cls, size, L, c0)
                return out
            return with_throw(I, st, f, 'copy', go)

        def ctor_move(I, st, f, name, a, ins, env):
            def go(s):
                out = []
                for s2, L, c0 in I.elem_read(s, a[1], cls, size, 'move'):
                    for s3 in I.elem_set(s2, a[1], cls, size, 'moved', ZERO):
                        out += I.elem_construct(s3, a[0], cls, size, L, c0)
                return out
            return with_throw(I, st, f, 'move', go)

        def ctor_vals(I, st, f, name, a, ins, env):
            vals = [st.num.norm(I.as_int(st, x)) for x in a[1:]]
            L = 'int' if len(vals) == 1 else ('ints',) + tuple(vals[:-1])
            return with_throw(I, st, f, 'value', lambda s: I.elem_construct(s, a[0], cls, size, L, vals[-1]))

        def ctor_other(I, st, f, name, a, ins, env):
            # construction from another archetype: content remembers the source content and value category
            m = re.match(r'^.*\((\w+)(.*)\)$', f.dem)
            src, cat = m.group(1), m.group(2).strip()
            if src not in ELEM:
                raise Undecided('constructor %s' % f.dem)

            def go(s):
                out = []
                for s2, L, c0 in I.elem_read(s, a[1], src, ELEM[src], 'conversion'):
                    l2 = [s2]
                    if cat == '&&':
                        l2 = I.elem_set(s2, a[1], src, ELEM[src], 'moved', ZERO)
                    for s3 in l2:
                        out += I.elem_construct(s3, a[0], cls, size, 'from:%s' % (L,), c0)
                return out
            return with_throw(I, st, f, 'convert', go)

        def dtor(I, st, f, name, a, ins, env):
            return [(s, 'ret', None) for s in I.elem_destroy(st, a[0], cls, size)]

        def asg(kind):
            def fn(I, st, f, name, a, ins, env):
                out = []
                d, srcp = a[0], a[1]
                for s, L, c0 in I.elem_read(st, srcp, cls, size, '%s-assignment from' % kind):
                    for s2, _, _ in I.elem_read(s, d, cls, size, '%s-assignment to' % kind):
                        if may_throw(I, s2, f, kind + 'assign'):
                            s3 = s2.copy()
                            out.append((s3, 'throw', ('user', kind + 'assign')))
                        l = [s2]
                        same = d.r == srcp.r and s2.num.entails_eq(d.o - srcp.o)
                        if kind == 'move':
                            l = I.elem_set(s2, srcp, cls, size, 'moved', ZERO)
                        for s3 in l:
                            if same:
                                out.append((s3, 'ret', d))
                                continue
                            for s4 in I.elem_set(s3, d, cls, size, L, c0):
                                out.append((s4, 'ret', d))
                return out
            return fn

        def swp(I, st, f, name, a, ins, env):
            out = []
            for s, L, c0 in I.elem_read(st, a[0], cls, size, 'swap'):
                for s2, L2, d0 in I.elem_read(s, a[1], cls, size, 'swap'):
                    for s3 in I.elem_set(s2, a[0], cls, size, L2, d0):
                        for s4 in I.elem_set(s3, a[1], cls, size, L, c0):
                            out.append((s4, 'ret', None))
            return out

        def cmp(opn):
            def fn(I, st, f, name, a, ins, env):
                out = []
                for s, L, c0 in I.elem_read(st, a[0], cls, size, 'comparison'):
                    for s2, L2, d0 in I.elem_read(s, a[1], cls, size, 'comparison'):
                        if may_throw(I, s2, f, 'compare'):
                            out.append((s2.copy(), 'throw', ('user', 'compare')))
                        out += [(s3, 'ret', v) for s3, v in cmp_fact(I, s2, opn, (L, s2.num.norm(c0)), (L2, s2.num.norm(d0)))]
                return out
            return fn
        reg(q + '::' + q + r'\(\)', ctor_default)
        reg(q + '::' + q + r'\(' + q + r' const&\)', ctor_copy)
        reg(q + '::' + q + r'\(' + q + r'&&\)', ctor_move)
        reg(q + '::' + q + r'\((int|long|unsigned long)(, (int|long|unsigned long))*\)', ctor_vals)
        reg(q + '::' + q + r'\(\w+( const&|&&)\)', ctor_other)
        reg(q + '::~' + q + r'\(\)', dtor)
        reg(q + r'::operator=\(' + q + r' const&\)', asg('copy'))
        reg(q + r'::operator=\(' + q + r'&&\)', asg('move'))
        reg(r'swap\(' + q + r'&, ' + q + r'&\)', swp)
        reg(r'operator==\(' + q + r' const&, ' + q + r' const&\)', cmp('=='))
        reg(r'operator!=\(' + q + r' const&, ' + q + r' const&\)', cmp('!='))
        reg(r'operator<\(' + q + r' const&, ' + q + r' const&\)', cmp('<'))
    for cls, size in sorted(ELEM.items()):
        mk(cls, size)


def cmp_fact(I, st, opn, a, b):
    """uninterpreted comparison of two contents -> [(state, bool value)]"""
    if opn == '!=':
        return [(s, I.notc(s, v)) for s, v in cmp_fact(I, st, '==', a, b)]
    if opn == '==' and a == b and a[0] not in ('moved', 'top'):
        return [(st, ONE)]
    if opn == '==' and repr(b) < repr(a):
        a, b = b, a
    h = getattr(I, 'cmp_hook', None)
    if h:
        r = h(st, opn, a, b)
        if r is not None:
            return r
    k = ('cmp', opn, a, b)
    if k not in I.vn:
        I.vn[k] = new_atom('_cmp(%s %s %s)' % (fmt_c(a), opn, fmt_c(b)))
    l = atom(I.vn[k])
    st.num.add_ge(l, log=False)
    st.num.add_ge(-l + 1, log=False)
    return [(st, Cond('ne', l))]


def fmt_c(c):
    return '%s[%r]' % c


# ------------------------------------------------------------------ allocation
def heap_alloc(I, st, nbytes, how, zero=False, meta=None):
    p, l, fn = I.loc()
    m = {'at': '%s:%s' % (p, l), 'how': how}
    if how in ('malloc', 'pod') or I.bits:
        m['segs'] = True    # array storage
    m.update(meta or {})
    rid = I.new_region(st, 'heap', nbytes, 'block@%s:%s' % (p.split('/')[-1], l), m)
    st.regs[rid].align = 16
    I.ralign[rid] = 16
    return Ptr(rid, ZERO)


def heap_free(I, st, p, how, nbytes=None, cat='memory', alloc=None):
    """-> [states]"""
    if isinstance(p, Undef):
        I.record(st, False, 'uninit', 'release of an uninitialised pointer')
        return []
    if not isinstance(p, Ptr):
        raise Undecided('free of %r' % (p,))
    if p.r is None:
        return [st]
    r = I.region(st, p.r)
    if r is None:
        I.record(st, False, 'memory', 'block released twice', repr(p))
        return []
    if r.kind != 'heap':
        I.record(st, False, 'memory', 'release of storage that was not allocated', '%s (%s)' % (r.name, r.kind))
        return []
    if r.meta.get('how') != how:
        I.record(st, False, 'memory', 'block released by a different mechanism than allocated it', '%s vs %s' % (r.meta.get('how'), how))
    else:
        I.record(st, True, 'memory', 'block released by a different mechanism than allocated it')
    outs = I.oblige(st, Cond('eq', st.num.norm(p.o)), 'memory', 'released pointer is the start of its block')
    res = []
    for s in outs:
        ss = [s]
        if nbytes is not None:
            ss = I.oblige(s, Cond('eq', s.num.norm(nbytes - r.size)), 'memory', 'block released with the size it was allocated with')
        for s2 in ss:
            if alloc is not None:
                a0 = r.meta.get('alloc')
                if a0 is not None and isinstance(a0, Lin) and isinstance(alloc, Lin):
                    rs = I.oblige(s2, Cond('eq', s2.num.norm(a0 - alloc)), 'allocator', 'block released through the allocator that allocated it')
                    if not rs:
                        continue
                    s2 = rs[0]
            I.record(s2, True, 'memory', 'block released twice')
            I.kill_region(s2, p.r, 'block released')
            res.append(s2)
    return res


def m_new(I, st, f, name, a, ins, env):
    out = []
    for s, n in I.canon(st, I.as_int(st, a[0]), 64, False):
        if 'alloc' in s.throws:
            out.append((s.copy(), 'throw', ('std', '_ZTISt9bad_alloc')))
        out.append((s, 'ret', heap_alloc(I, s, n, 'new')))
    return out


def m_delete(I, st, f, name, a, ins, env):
    nb = None
    if len(a) > 1 and ('m' in name[-1:]) and not name.endswith('St11align_val_t'):
        nb = I.as_int(st, a[1])
    return [(s, 'ret', None) for s in heap_free(I, st, a[0], 'new', nb)]


def m_malloc(I, st, f, name, a, ins, env):
    out = []
    for s, n in I.canon(st, I.as_int(st, a[0]), 64, False):
        if 'null' in s.throws:
            out.append((s.copy(), 'ret', NULL))
        out.append((s, 'ret', heap_alloc(I, s, n, 'malloc')))
    return out


def m_aligned_alloc(I, st, f, name, a, ins, env):
    al = kint(st, a[0])
    out = []
    for s, n in I.canon(st, I.as_int(st, a[1]), 64, False):
        if 'null' in s.throws:
            out.append((s.copy(), 'ret', NULL))
        p = heap_alloc(I, s, n, 'malloc')
        set_align(I, s, p, al)
        out.append((s, 'ret', p))
    return out


def set_align(I, st, p, al):
    st.regs[p.r].align = al
    I.ralign[p.r] = al


def m_balloc(I, st, f, name, a, ins, env):
    """vp_balloc(bytes, align, id): memory-resource style allocation"""
    al = kint(st, a[1])
    out = []
    if 'alloc' in st.throws:
        out.append((st.copy(), 'throw', ('std', '_ZTISt9bad_alloc')))
    for s, n in I.canon(st, I.as_int(st, a[0]), 64, False):
        p = heap_alloc(I, s, n, 'bytes', meta={'alloc': s.num.norm(I.as_int(s, a[2])), 'balign': al})
        set_align(I, s, p, al)
        out.append((s, 'ret', p))
    return out


def m_bdealloc(I, st, f, name, a, ins, env):
    p, n, al, aid = a
    if isinstance(p, Ptr) and p.r is not None:
        r = I.region(st, p.r)
        if r is not None and r.meta.get('how') == 'bytes':
            ok = st.num.norm(I.as_int(st, al)) == const(r.meta['balign'])
            I.record(st, ok, 'memory', 'block released with the alignment it was allocated with', '' if ok else '%r, allocated with %r' % (al, r.meta['balign']))
            if not ok:
                return []
    return [(s, 'ret', None) for s in heap_free(I, st, p, 'bytes', st.num.norm(I.as_int(st, n)), alloc=st.num.norm(I.as_int(st, aid)))]


def m_typeinfo_eq(I, st, f, name, a, ins, env):
    x, y = a[0], a[1]
    if not (isinstance(x, Ptr) and isinstance(y, Ptr) and isinstance(x.r, str) and isinstance(y.r, str)):
        raise Undecided('comparison of type_info %r %r' % (x, y))
    eq = x.r == y.r
    if 'operator!=' in f.dem:
        eq = not eq
    return ret(st, ONE if eq else ZERO)


def m_calloc(I, st, f, name, a, ins, env):
    x, y = st.num.norm(I.as_int(st, a[0])), st.num.norm(I.as_int(st, a[1]))
    if x.is_const:
        n = y.scale(x.c)
    elif y.is_const:
        n = x.scale(y.c)
    else:
        raise Undecided('calloc')
    p = heap_alloc(I, st, n, 'malloc')
    return [(s, 'ret', p) for s in fill_zero(I, st, p, n)]


def fill_zero(I, st, p, n, L='zero'):
    pos, zero = I.split(st, Cond('ge', n - 1))
    outs = list(zero)
    for s in pos:
        lo, hi = s.num.norm(p.o), s.num.norm(p.o + n)
        for s2, _ in I.take_range(s, p.r, lo, hi, True):
            outs += I.put_seg(s2, p.r, Seg(lo, hi, 'bytes', 1, L, ZERO, 0, True))
    return outs


def m_realloc(I, st, f, name, a, ins, env):
    return realloc_(I, st, a[0], a[1], 'malloc', None)


def realloc_(I, st, p, nbytes, how, aid):
    meta = None if aid is None else {'alloc': aid}
    out = []
    for s, n in I.canon(st, I.as_int(st, nbytes), 64, False):
        if isinstance(p, Ptr) and p.r is None:
            out.append((s, 'ret', heap_alloc(I, s, n, how, meta=meta)))
            continue
        r = I.region(s, p.r) if isinstance(p, Ptr) else None
        if r is None:
            I.record(s, False, 'memory', 'realloc of storage that is no longer alive', repr(p))
            continue
        q = heap_alloc(I, s, n, how, meta=meta)
        # bytes preserved: min(old, n)
        le, gt = I.split(s, Cond('ge', n - r.size))
        for s2, cnt in [(x, r.size) for x in le] + [(x, n) for x in gt]:
            for s3 in copy_range(I, s2, q, Ptr(p.r, ZERO), cnt, 'realloc', True):
                rr = s3.w(p.r)
                rr.segs = ()
                for s4 in heap_free(I, s3, p, how, alloc=aid):
                    out.append((s4, 'ret', q))
    return out


def m_free(I, st, f, name, a, ins, env):
    return [(s, 'ret', None) for s in heap_free(I, st, a[0], 'malloc')]


# ------------------------------------------------------------------ memory functions
def copy_range(I, st, d, s_, n, what, move):
    """memcpy/memmove of n bytes -> [states]"""
    n = st.num.norm(I.as_int(st, n))
    pos, zero = I.split(st, Cond('ge', n - 1))
    outs = list(zero)
    for s in pos:
        if not isinstance(d, Ptr) or not isinstance(s_, Ptr):
            if isinstance(d, Undef) or isinstance(s_, Undef):
                I.record(s, False, 'uninit', '%s through an uninitialised pointer' % what)
                continue
            raise Undecided('%s via %r' % (what, d))
        if not chk_range(I, s, s_, n, '%s source' % what) or not chk_range(I, s, d, n, '%s destination' % what):
            continue
        hook = getattr(I, 'access_hook', None)
        if hook:
            hook(s, s_, {}, 'load')
            hook(s, d, {}, 'store')
        outs += copy_range2(I, s, d, s_, n, what, move)
    return outs


def chk_range(I, s, p, n, what):
    if p.r is None:
        I.record(s, False, 'memory', 'null pointer access', what)
        return False
    r = I.region(s, p.r)
    if r is None:
        I.record(s, False, 'memory', 'access to storage that is no longer alive', '%s at %r' % (what, p))
        return False
    num = s.num
    c1 = num.entails_ge(p.o)
    c2 = num.entails_ge(r.size - p.o - n)
    if c1 and c2:
        I.record(s, True, 'memory', 'access out of the bounds of its block')
        return True
    for ok, c in ((c1, p.o), (c2, r.size - p.o - n)):
        if not ok:
            b = s.copy()
            b.num.add_ge(-c - 1)
            if not b.num.bottom:
                I.record(b, False, 'memory', 'access out of the bounds of its block', '%s [%r,+%r) in block %s of %r bytes' % (what, num.norm(p.o), num.norm(n), r.name, num.norm(r.size)))
                break
    s.num.add_ge(p.o)
    s.num.add_ge(r.size - p.o - n)
    return not s.num.bottom


def copy_range2(I, s, d, src, n, what, move):
    num = s.num
    so, do = num.norm(src.o), num.norm(d.o)
    # overlap?
    if src.r == d.r and not move:
        if num.entails_eq(so - do):
            pass
        elif not (num.entails_ge(so - do - n) or num.entails_ge(do - so - n)):
            b = s.copy()
            b.num.add_ge(do + n - so - 1)
            b.num.add_ge(so + n - do - 1)
            if not b.num.bottom:
                I.record(b, False, 'memory', 'memcpy between overlapping ranges', '%s dst %r src %r n %r' % (what, do, so, n))
    r = I.region(s, src.r)
    cells = []
    if n.is_const and so.is_const:
        for c, (sz, v) in r.cells.items():
            if so.c <= c and c + sz <= so.c + n.c:
                cells.append((c - so.c, sz, v))
            elif c < so.c + n.c and c + sz > so.c:
                # partially copied cell
                a0, b0 = max(c, so.c), min(c + sz, so.c + n.c)
                v2 = I.extract_bytes(s, v, a0 - c, b0 - a0, sz, 'i%d' % (8 * (b0 - a0)))
                cells.append((a0 - so.c, b0 - a0, v2))
    elif r.cells:
        lo_ok = all(s.num.entails_ge(so - (c + sz)) or s.num.entails_ge(const(c) - so - n) for c, (sz, v) in r.cells.items())
        if not lo_ok:
            if r.kind == 'global' and r.ro:
                raise Undecided('copy from constant data with symbolic bounds')
            cells_to_segs(I, s, src.r, so, so + n)
            r = I.region(s, src.r)
    outs = []
    for s2, pieces in (I.take_range(s, src.r, so, so + n) if r.segs else [(s, [])]):
        nt = [g for g in pieces if not g.triv and I.nonempty(s2, g) is not None]
        if nt:
            I.record(s2, False, 'lifetime', 'bitwise copy of a live non-trivial element', repr(nt[0]))
        if src.r == d.r and s2.num.entails_eq(so - do):
            outs.append(s2)
            continue
        dr = I.region(s2, d.r)
        if dr.ro:
            I.record(s2, False, 'memory', 'write to constant data', dr.name)
            continue
        I.check_frozen(s2, d.r)
        if n.is_const and do.is_const and dr.cells:
            w = s2.w(d.r)
            dr = w
            I_clear(I, s2, w, do.c, n.c)
        elif dr.cells:
            if not all(s2.num.entails_ge(do - (c + sz)) or s2.num.entails_ge(const(c) - do - n) for c, (sz, v) in dr.cells.items()):
                cells_to_segs(I, s2, d.r, do, do + n)
                dr = I.region(s2, d.r)
        for s3, old in (I.take_range(s2, d.r, do, do + n, True) if dr.segs else [(s2, [])]):
            nt = [g for g in old if not g.triv and I.nonempty(s3, g) is not None]
            if nt:
                I.record(s3, False, 'lifetime', 'raw write over a live element', repr(nt[0]))
            cur = [s3]
            for g in pieces:
                sh = do - so
                g2 = g.with_(lo=g.lo + sh, hi=g.hi + sh)
                nx = []
                for s4 in cur:
                    nx += I.put_seg(s4, d.r, g2)
                cur = nx
            for s4 in cur:
                if cells:
                    if do.is_const:
                        w = s4.w(d.r)
                        for c, sz, v in cells:
                            w.cells[do.c + c] = (sz, v)
                    else:
                        l = [s4]
                        for c, sz, v in cells:
                            nx = []
                            for s5 in l:
                                nx += I.store_seg(s5, d.r, do + c, sz, v, 'i%d' % (8 * sz))
                            l = nx
                        outs += l
                        continue
                outs.append(s4)
    return outs


def cells_to_segs(I, s, rid, lo, hi, es=None):
    """Scalar fields at fixed offsets which [lo, hi) may cover become one-element segments."""
    r = s.w(rid)
    for c in sorted(r.cells):
        sz, v = r.cells[c]
        if es is not None and sz != es:
            continue
        if s.num.entails_ge(lo - (c + sz)) or s.num.entails_ge(const(c) - hi):
            continue
        if isinstance(v, Frag):
            raise Undecided('symbolic copy over a torn scalar of %s' % r.name)
        del r.cells[c]
        if isinstance(v, Undef):
            continue
        zero = isinstance(v, Lin) and s.num.norm(v) == ZERO
        L, c0, c1 = ('zero', ZERO, 0) if zero else (('v', v), ZERO, 0)
        q = I.seq_of_atom(s, v) if isinstance(v, Lin) and not zero else None
        if q:
            L, c0, c1 = q[0], q[1], 1
        g = Seg(const(c), const(c + sz), 'bytes' if zero else 'i%d' % (8 * sz), 1 if zero else sz, L, c0, c1, True)
        put_quiet(I, s, rid, g)
        r = s.w(rid)


def put_quiet(I, s, rid, g):
    o = I.put_seg(s, rid, g)
    if len(o) != 1:
        raise Undecided('scalar field between elements')
    if o[0] is not s:
        s.num, s.regs = o[0].num, o[0].regs


def I_clear(I, s, w, off, size):
    for c in list(w.cells):
        sz = w.cells[c][0]
        if c >= off and c + sz <= off + size:
            del w.cells[c]
        elif c < off + size and c + sz > off:
            I.clear_cells(s, w, off, size)
            break


def m_memcpy(I, st, f, name, a, ins, env):
    mv = 'memmove' in name
    return [(s, 'ret', a[0]) for s in copy_range(I, st, a[0], a[1], a[2], 'memmove' if mv else 'memcpy', mv)]


def m_memset(I, st, f, name, a, ins, env):
    d = a[0]
    v = st.num.norm(I.as_int(st, a[1]))
    n = st.num.norm(I.as_int(st, a[2]))
    pos, zero = I.split(st, Cond('ge', n - 1))
    outs = [(s, 'ret', d) for s in zero]
    for s in pos:
        if isinstance(d, Undef):
            I.record(s, False, 'uninit', 'memset through an uninitialised pointer')
            continue
        if not chk_range(I, s, d, n, 'memset destination'):
            continue
        r = I.region(s, d.r)
        do = s.num.norm(d.o)
        hook = getattr(I, 'access_hook', None)
        if hook:
            hook(s, d, {}, 'store')
        L, lc = ('zero', ZERO) if v == ZERO else (('v', v), ZERO)
        sq = I.seq_of_atom(s, v)
        if sq:
            L, lc = sq
        if n.is_const and do.is_const and v.is_const and n.c <= 256 and not r.segs and not r.meta.get('segs') and r.kind != 'heap':
            I.check_frozen(s, d.r)
            w = s.w(d.r)
            I_clear(I, s, w, do.c, n.c)
            # fill with 8-byte cells, then bytes
            o = 0
            b = v.c & 255
            while o < n.c:
                k = 8 if n.c - o >= 8 and (do.c + o) % 8 == 0 else 1
                w.cells[do.c + o] = (k, const(int.from_bytes(bytes([b] * k), 'little')))
                o += k
            outs.append((s, 'ret', d))
            continue
        if r.cells and not (n.is_const and do.is_const) and not all(s.num.entails_ge(do - (c + sz)) or s.num.entails_ge(const(c) - do - n) for c, (sz, _) in r.cells.items()):
            cells_to_segs(I, s, d.r, do, do + n)
        for s2, old in I.take_range(s, d.r, do, do + n, True):
            nt = [g for g in old if not g.triv and I.nonempty(s2, g) is not None]
            if nt:
                I.record(s2, False, 'lifetime', 'raw write over a live element', repr(nt[0]))
            rr = I.region(s2, d.r)
            if rr.cells and n.is_const and do.is_const:
                I_clear(I, s2, s2.w(d.r), do.c, n.c)
            elif rr.cells and not all(s2.num.entails_ge(do - (c + sz)) or s2.num.entails_ge(const(c) - do - n) for c, (sz, _) in rr.cells.items()):
                raise Undecided('memset over scalar fields')
            for s3 in I.put_seg(s2, d.r, Seg(do, do + n, 'bytes', 1, L, lc, 0, True)):
                outs.append((s3, 'ret', d))
    return outs


# ------------------------------------------------------------------ exceptions
def m_cxa_alloc(I, st, f, name, a, ins, env):
    rid = I.new_region(st, 'exc', st.num.norm(a[0]), 'exception object')
    return ret(st, Ptr(rid, ZERO))


def m_cxa_free(I, st, f, name, a, ins, env):
    if isinstance(a[0], Ptr):
        st.regs.pop(a[0].r, None)
    return ret(st)


def m_cxa_throw(I, st, f, name, a, ins, env):
    ti = a[1].r[2:] if isinstance(a[1], Ptr) and isinstance(a[1].r, str) else '?'
    exc = ('obj', a[0], ti)
    m = dict(st.ghost.get('excobj', {}))
    m[a[0]] = exc
    st.ghost['excobj'] = m
    return [(st, 'throw', exc)]


def m_begin_catch(I, st, f, name, a, ins, env):
    exc = st.ghost.get('excobj', {}).get(a[0], ('unknown',))
    st.ghost['caught'] = st.ghost.get('caught', ()) + ((a[0], exc),)
    st.ghost['uncaught'] = tuple(x for x in st.ghost.get('uncaught', ()) if x != a[0])
    return ret(st, a[0])


def m_end_catch(I, st, f, name, a, ins, env):
    c = st.ghost.get('caught', ())
    if c:
        p, exc = c[-1]
        st.ghost['caught'] = c[:-1]
        if not st.ghost.get('keepexc'):
            m = dict(st.ghost.get('excobj', {}))
            if st.ghost.get('rethrown') != p:
                m.pop(p, None)
                st.ghost['excobj'] = m
                if p.r in st.regs and st.regs[p.r].kind == 'exc':
                    if not any(x[0] == p for x in st.ghost.get('eptrs', ())):
                        del st.regs[p.r]
            else:
                st.ghost.pop('rethrown', None)
    return ret(st)


def m_uncaught(I, st, f, name, a, ins, env):
    return ret(st, const(len(st.ghost.get('uncaught', ()))))


def m_rethrow(I, st, f, name, a, ins, env):
    c = st.ghost.get('caught', ())
    if not c:
        I.record(st, False, 'terminate', 'rethrow without an active exception')
        return []
    st.ghost['rethrown'] = c[-1][0]
    return [(st, 'throw', c[-1][1])]


def m_current_exception(I, st, f, name, a, ins, env):
    c = st.ghost.get('caught', ())
    if not c:
        return [(x, 'ret', None) for x in I.store(st, a[0], NULL, 'ptr')]
    p, exc = c[-1]
    st.ghost['eptrs'] = st.ghost.get('eptrs', ()) + ((p, exc),)     # kept alive from here on
    return [(x, 'ret', None) for x in I.store(st, a[0], p, 'ptr')]


def m_rethrow_exception(I, st, f, name, a, ins, env):
    outs = []
    for s, p in I.load(st, a[0], 'ptr'):
        e = [x for x in s.ghost.get('eptrs', ()) if x[0] == p]
        if not e:
            I.record(s, False, 'terminate', 'rethrow_exception of no exception')
            continue
        m = dict(s.ghost.get('excobj', {}))
        m[p] = e[0][1]
        s.ghost['excobj'] = m
        outs.append((s, 'throw', e[0][1]))
    return outs


def m_typeid_for(I, st, f, name, a, ins, env):
    t = a[0]
    ti = t.r[2:] if isinstance(t, Ptr) and isinstance(t.r, str) else '?'
    return ret(st, const(I.tid(ti)))


def m_terminate(I, st, f, name, a, ins, env):
    if st.ghost.get('terminate_ok'):
        return []
    I.record(st, False, 'terminate', 'std::terminate / abort is reached', shorten(f.dem if f else name))
    return []


def m_terminate_ok(I, st, f, name, a, ins, env):
    st.ghost['terminate_ok'] = True
    return ret(st)


def m_assert_fail(I, st, f, name, a, ins, env):
    if st.ghost.get('terminate_ok'):     # the driver breaks a precondition: the assertion is what should happen
        I.record(st, True, 'config', 'the violation of the precondition is caught by an assertion', '')
        return []
    I.record(st, False, 'assert', 'an assertion fails for arguments satisfying the preconditions', cstr(I, st, a[0]))
    return []


def m_throw_std(ti):
    def fn(I, st, f, name, a, ins, env):
        return [(st, 'throw', ('std', ti))]
    return fn


def m_nop(I, st, f, name, a, ins, env):
    return ret(st)


def m_ret0(I, st, f, name, a, ins, env):
    return ret(st, a[0] if a else None)


def m_expect(I, st, f, name, a, ins, env):
    return ret(st, a[0])


def m_trap(I, st, f, name, a, ins, env):
    I.record(st, False, 'terminate', 'trap reached')
    return []


def m_mulo(I, st, f, name, a, ins, env):
    w = ibits(f.ret['s'][0][1])
    signed = '.smul' in name or '.sadd' in name or '.ssub' in name
    x, y = st.num.norm(I.as_int(st, a[0])), st.num.norm(I.as_int(st, a[1]))
    out = []
    for s, x in I.canon(st, x, w, signed):
        for s2, y in I.canon(s, y, w, signed):
            if 'mul' in name:
                if y.is_const:
                    v = x.scale(y.c)
                elif x.is_const:
                    v = y.scale(x.c)
                else:
                    raise Undecided('mul.with.overflow')
            elif 'add' in name:
                v = x + y
            else:
                v = x - y
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
            c1, n1 = I.split(s2, Cond('ge', v - lo))
            for q in n1:
                out.append((q, 'ret', Agg([v, ONE])))
            for q in c1:
                c2, n2 = I.split(q, Cond('ge', -v + hi))
                for z in c2:
                    out.append((z, 'ret', Agg([v, ZERO])))
                for z in n2:
                    out.append((z, 'ret', Agg([v, ONE])))
    return out


def m_minmax(I, st, f, name, a, ins, env):
    w = ibits(f.ret)
    mx = 'max' in name
    signed = '.s' in name
    out = []
    for s, x in I.canon(st, a[0], w, signed):
        for s2, y in I.canon(s, a[1], w, signed):
            t, fl = I.split(s2, Cond('ge', x - y))
            out += [(z, 'ret', x if mx else y) for z in t] + [(z, 'ret', y if mx else x) for z in fl]
    return out


def m_guard_acquire(I, st, f, name, a, ins, env):
    k = ('guard', a[0].r)
    if st.ghost.get(k):
        return ret(st, ZERO)
    return ret(st, ONE)


def m_guard_release(I, st, f, name, a, ins, env):
    st.ghost[('guard', a[0].r)] = True
    # later loads of the guard byte see it set
    for s in I.store(st, a[0], ONE, 'i8'):
        return ret(s)
    return []


def m_strlen(I, st, f, name, a, ins, env):
    p = a[0]
    if isinstance(p, Ptr) and isinstance(p.r, str):
        return ret(st, const(len(cstr(I, st, p))))
    if isinstance(p, Ptr):
        for k in range(256):
            outs = I.load(st, Ptr(p.r, p.o + k), 'i8')
            if len(outs) != 1 or not (isinstance(outs[0][1], Lin) and outs[0][1].is_const()):
                break
            st = outs[0][0]
            if outs[0][1].c == 0:
                return ret(st, const(k))
    raise Undecided('strlen')


def install(I):
    M = I.models
    for n, fn in {
        'vp_size': m_size, 'vp_anysize': m_anysize, 'vp_int': m_int, 'vp_long': m_long, 'vp_bool': m_bool, 'vp_pick': m_pick, 'vp_bits': m_bits, 'vp_check_bits_': m_check_bits, 'vp_unroll': m_unroll, 'vp_bit': m_bit,
        'vp_assume': m_assume, 'vp_check': m_check, 'vp_fail': m_fail, 'vp_reached': m_reached, 'vp_stop': m_stop,
        'vp_throws': m_throws, 'vp_freeze': m_frozen, 'vp_thaw': m_thaw, 'vp_heap_count': m_heap_count, 'vp_label_': m_label, 'vp_check_seq_': m_check_seq,
        'vp_check_const_': m_check_const, 'vp_check_raw_': m_check_raw, 'vp_check_live_': m_check_live,
        'vp_is_live_': m_is_live, 'vp_same_block': m_same_block, 'vp_block_size': m_block_size, 'vp_is_heap': m_is_heap,
        'vp_in_object': m_in_object, 'vp_ghost_inc': m_ghost_inc, 'vp_ghost_get': m_ghost_get, 'vp_ghost_set': m_ghost_set,
        'vp_pmalloc': m_pmalloc, 'vp_pfree': m_pfree, 'vp_prealloc': m_prealloc, 'vp_pexpand': m_pexpand,
        'vp_buffer': m_buffer, 'vp_make_': m_make, 'vp_alloc': m_alloc, 'vp_dealloc': m_dealloc, 'vp_trace': m_trace, 'vp_terminate_ok': m_terminate_ok,
        'vp_balloc': m_balloc, 'vp_bdealloc': m_bdealloc, 'aligned_alloc': m_aligned_alloc,
        'malloc': m_malloc, 'calloc': m_calloc, 'realloc': m_realloc, 'free': m_free,
        'memcpy': m_memcpy, 'memmove': m_memcpy, 'memset': m_memset, 'strlen': m_strlen,
        '__cxa_allocate_exception': m_cxa_alloc, '__cxa_free_exception': m_cxa_free, '__cxa_throw': m_cxa_throw,
        '__cxa_begin_catch': m_begin_catch, '__cxa_end_catch': m_end_catch, '__cxa_rethrow': m_rethrow,
        '_ZSt9terminatev': m_terminate, '__clang_call_terminate': m_terminate, 'abort': m_terminate,
        '__assert_fail': m_assert_fail, '__cxa_pure_virtual': m_terminate,
        '__cxa_guard_acquire': m_guard_acquire, '__cxa_guard_release': m_guard_release, '__cxa_guard_abort': m_nop,
        '__cxa_atexit': lambda I, st, f, name, a, ins, env: ret(st, ZERO),
        '_ZSt20__throw_length_errorPKc': m_throw_std('_ZTISt12length_error'),
        '_ZSt20__throw_out_of_rangePKc': m_throw_std('_ZTISt12out_of_range'),
        '_ZSt24__throw_out_of_range_fmtPKcz': m_throw_std('_ZTISt12out_of_range'),
        '_ZSt17__throw_bad_allocv': m_throw_std('_ZTISt9bad_alloc'),
        '_ZSt28__throw_bad_array_new_lengthv': m_throw_std('_ZTISt9bad_alloc'),
        '_ZSt25__throw_bad_function_callv': m_throw_std('_ZTISt17bad_function_call'),
        '_ZSt16__throw_bad_castv': m_throw_std('_ZTISt8bad_cast'),
    }.items():
        M[n] = fn
    for n in ('_Znwm', '_Znam', '_ZnwmSt11align_val_t', '_ZnamSt11align_val_t'):
        M[n] = m_new
    for n in ('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t'):
        M[n] = m_delete
    D = I.dmodels
    D.append((re.compile(r'^std::(out_of_range|length_error|runtime_error|logic_error)::\1\((char const\*|std::.*)\)$'), m_ret0))
    D.append((re.compile(r'^std::(out_of_range|length_error|runtime_error|logic_error|exception|bad_cast)::~\1\(\)$'), m_nop))
    D.append((re.compile(r'^std::locale::(~?locale\((std::locale const&)?\)|operator=\(std::locale const&\))$'), m_ret0))
    D.append((re.compile(r'^std::pmr::memory_resource::~memory_resource\(\)$'), m_nop))
    D.append((re.compile(r'^std::uncaught_exceptions?\(\)$'), m_uncaught))
    D.append((re.compile(r'^std::current_exception\(\)$'), m_current_exception))
    D.append((re.compile(r'^std::rethrow_exception\(std::__exception_ptr::exception_ptr\)$'), m_rethrow_exception))
    D.append((re.compile(r'^std::__exception_ptr::exception_ptr::_M_(release|addref)\(\)$'), m_nop))
    D.append((re.compile(r'^std::type_info::operator[!=]=\(std::type_info const&\) const$'), m_typeinfo_eq))
    I.intrinsics = [
        ('llvm.memcpy', m_memcpy), ('llvm.memmove', m_memcpy), ('llvm.memset', m_memset),
        ('llvm.lifetime', m_nop), ('llvm.dbg', m_nop), ('llvm.assume', m_nop), ('llvm.stacksave', m_nop), ('llvm.stackrestore', m_nop),
        ('llvm.expect', m_expect), ('llvm.trap', m_trap), ('llvm.eh.typeid.for', m_typeid_for),
        ('llvm.umul.with', m_mulo), ('llvm.uadd.with', m_mulo), ('llvm.usub.with', m_mulo), ('llvm.smul.with', m_mulo), ('llvm.sadd.with', m_mulo),
        ('llvm.umax', m_minmax), ('llvm.umin', m_minmax), ('llvm.smax', m_minmax), ('llvm.smin', m_minmax),
        ('llvm.is.constant', lambda I, st, f, name, a, ins, env: ret(st, ZERO)), ('llvm.experimental.noalias', m_nop), ('llvm.launder.invariant', m_expect), ('llvm.ptr.annotation', m_expect),
    ]
    elem_ops(I)
    from . import sync, order
    sync.install(I)
    order.install(I)
