"""Locks and shared objects: a lockset rule over everything a driver declares shared, ownership typestate of
mutexes and of spin locks built from atomic flags, and the memory orders which make them locks."""
import re
from .num import Lin, const, ZERO, ONE
from .interp import Ptr, Cond, Undecided

ACQ = ('acquire', 'acq_rel', 'seq_cst')
REL = ('release', 'acq_rel', 'seq_cst')


def shared_of(I, st, p):
    """(object index, offset) of a declared shared object which contains p"""
    sh = st.ghost.get('shared')
    if not sh or not isinstance(p, Ptr):
        return None
    for i, (r, lo, n) in enumerate(sh):
        if p.r == r:
            o = st.num.norm(p.o)
            if o.is_const and lo <= o.c < lo + n:
                return i, o.c
    return None


def locks(st):
    return st.ghost.get('locks', ())


def inside(st, obj, lk):
    r, lo, n = st.ghost['shared'][obj]
    return lk[1] == r and lo <= lk[2] < lo + n


def hook(I):
    def access(st, p, ins, kind):
        if 'shared' not in st.ghost:
            return
        so = shared_of(I, st, p)
        if so is None:
            return
        if ins.get('ord') or kind == 'rmw':
            k = 'at_' + kind
            st.ghost[k] = st.ghost.get(k, ZERO) + 1
            return      # atomic: see spin_rmw and spin_store
        ok = any(inside(st, so[0], lk) for lk in locks(st))
        I.record(st, ok, 'race', 'shared data is only accessed under its lock', '' if ok else '%s of shared data at offset %d with no lock held' % (kind, so[1]))
    return access


def acquire(I, st, key, shared_mode=False):
    st.ghost['locks'] = locks(st) + (key,)
    st.ghost['nacq'] = st.ghost.get('nacq', ZERO) + 1


def release(I, st, key):
    l = list(locks(st))
    l.remove(key)
    st.ghost['locks'] = tuple(l)


def lock_key(I, st, p):
    o = st.num.norm(p.o)
    if not o.is_const:
        raise Undecided('lock at a symbolic offset')
    return ('m', p.r, o.c)


def m_lock(I, st, f, name, a, ins, env):
    if I.region(st, a[0].r) is None:
        I.record(st, False, 'memory', 'lock of a mutex that is no longer alive')
        return []
    k = lock_key(I, st, a[0])
    if k in locks(st):
        I.record(st, False, 'lock', 'a mutex is not locked again by the thread holding it')
        return []
    I.record(st, True, 'lock', 'a mutex is not locked again by the thread holding it')
    acquire(I, st, k)
    return [(st, 'ret', ZERO)]


def m_trylock(I, st, f, name, a, ins, env):
    k = lock_key(I, st, a[0])
    s2 = st.copy()
    zero_fail = name == 'pthread_mutex_trylock'
    out = [(s2, 'ret', const(16) if zero_fail else ZERO)]
    if k not in locks(st):
        acquire(I, st, k)
        out.append((st, 'ret', ZERO if zero_fail else ONE))
    return out


def m_unlock(I, st, f, name, a, ins, env):
    k = lock_key(I, st, a[0])
    ok = k in locks(st)
    I.record(st, ok, 'lock', 'a mutex is only unlocked by the thread holding it')
    if not ok:
        return []
    release(I, st, k)
    return [(st, 'ret', ZERO)]


def spin_rmw(I, st, p, ins, newval, expect=None):
    """an atomic read-modify-write of a lock word inside a shared object -> [(state, old value)] or None"""
    so = shared_of(I, st, p)
    if so is None or st.ghost.get('nolocks'):
        return None
    if not (isinstance(newval, Lin) and newval.is_const and newval.c != 0):
        return None
    if expect is not None and not (isinstance(expect, Lin) and expect == ZERO):
        return None
    key = ('s', p.r, so[1])
    if key in locks(st):
        I.record(st, False, 'lock', 'a spinlock is not taken again by the thread holding it')
        return []
    I.record(st, True, 'lock', 'a spinlock is not taken again by the thread holding it')
    out = []
    n = st.ghost.get('contended', 0)
    if n == 0:
        s3 = st.copy()
        s3.ghost['contended'] = -1      # held by another thread for as long as this one looks
        out.append((s3, ONE))
    if n == -1:
        return [(st, ONE)]
    if n < 2:
        s2 = st.copy()
        s2.ghost['contended'] = n + 1
        out.append((s2, ONE))        # held by another thread
    st.ghost['contended'] = 2
    ok = ins.get('ord') in ACQ
    I.record(st, ok, 'race', 'taking the spinlock is an acquire operation', '' if ok else 'memory order %s' % ins.get('ord'))
    acquire(I, st, key)
    for s in I.store(st, p, newval, ins['vty']):
        out.append((s, ZERO))
    return out


def spin_store(I, st, p, ins, v):
    so = shared_of(I, st, p)
    if so is None or st.ghost.get('nolocks') or not ins.get('ord') or not (isinstance(v, Lin) and v == ZERO):
        return True
    key = ('s', p.r, so[1])
    ok = key in locks(st)
    I.record(st, ok, 'lock', 'a spinlock is only released by the thread holding it')
    if not ok:
        return False
    ok = ins['ord'] in REL
    I.record(st, ok, 'race', 'releasing the spinlock is a release operation', '' if ok else 'memory order %s' % ins['ord'])
    release(I, st, key)
    return True


def interfere(I, st, p, t):
    """between two atomic accesses of the operation another thread may change the object (once)"""
    g = st.ghost
    if 'interf' not in g or shared_of(I, st, p) is None:
        return [st]
    first = not g['interf'][1]
    budget = g['interf'][0]
    g['interf'] = (budget, True)
    if first or not budget:
        return [st]
    s2 = st.copy()
    s2.ghost['interf'] = (budget - 1, True)
    x = I.fresh(s2, 'other', 0, 60)
    s2.ghost['inp'] = s2.ghost.get('inp', ()) + (('other', x),)
    if I.fixed is not None:
        k = len(s2.ghost['inp']) - 1
        if k < len(I.fixed) and I.fixed[k][0] == 'other' and I.fixed[k][1] is not None:
            s2.num.add_eq(x - I.fixed[k][1])
    return [st] + [s for s in I.store(s2, p, x, t) if not s.num.bottom]


def modified(I, st, p, old, new):
    if 'interf' in st.ghost and shared_of(I, st, p) is not None:
        st.ghost['nmods'] = st.ghost.get('nmods', ZERO) + 1
        st.ghost['mod_old'], st.ghost['mod_new'], st.ghost['seen'] = old, new, old


def m_interfere(I, st, f, name, a, ins, env):
    """the operation starts: everything before its first access is part of the initial value"""
    for k in ('mod_old', 'mod_new', 'seen'):
        st.ghost.pop(k, None)
    st.ghost['nmods'] = ZERO
    st.ghost['interf'] = (1, False)
    return [(st, 'ret', None)]


def m_quiet(I, st, f, name, a, ins, env):
    st.ghost.pop('interf', None)
    return [(st, 'ret', None)]


def m_ghostval(k):
    def fn(I, st, f, name, a, ins, env):
        v = st.ghost.get(k)
        if v is None:
            v = I.fresh(st, '_none')
        return [(st, 'ret', v)]
    return fn


def m_shared(I, st, f, name, a, ins, env):
    p = a[0]
    n = st.num.norm(I.as_int(st, a[1])).c
    o = st.num.norm(p.o)
    st.ghost['shared'] = st.ghost.get('shared', ()) + ((p.r, o.c, n),)
    return [(st, 'ret', None)]


def m_nolocks(I, st, f, name, a, ins, env):
    st.ghost['nolocks'] = True
    return [(st, 'ret', None)]


def m_unshared(I, st, f, name, a, ins, env):
    st.ghost.pop('shared', None)
    return [(st, 'ret', None)]


def m_op(I, st, f, name, a, ins, env):
    """start of one operation of one thread"""
    st.ghost['nacq'] = ZERO
    st.ghost['contended'] = 0
    for k in ('at_load', 'at_store', 'at_rmw'):
        st.ghost[k] = ZERO
    return [(st, 'ret', None)]


def m_nacq(I, st, f, name, a, ins, env):
    return [(st, 'ret', st.ghost.get('nacq', ZERO))]


def m_at(k):
    def fn(I, st, f, name, a, ins, env):
        return [(st, 'ret', st.ghost.get(k, ZERO))]
    return fn


def m_held(I, st, f, name, a, ins, env):
    return [(st, 'ret', const(len(locks(st))))]


def m_thread(I, st, f, name, a, ins, env):
    st.ghost['tid'] = st.num.norm(I.as_int(st, a[0]))
    return [(st, 'ret', None)]


def m_self(I, st, f, name, a, ins, env):
    return [(st, 'ret', st.ghost.get('tid', ONE))]


def install(I):
    M = I.models
    for n, fn in {'vp_shared': m_shared, 'vp_nolocks': m_nolocks, 'vp_unshared': m_unshared, 'vp_op': m_op, 'vp_interfere': m_interfere, 'vp_quiet': m_quiet, 'vp_mods': m_ghostval('nmods'), 'vp_mod_old': m_ghostval('mod_old'), 'vp_mod_new': m_ghostval('mod_new'), 'vp_seen': m_ghostval('seen'), 'vp_acquisitions': m_nacq, 'vp_locks_held': m_held, 'vp_thread': m_thread, 'vp_at_loads': m_at('at_load'), 'vp_at_stores': m_at('at_store'), 'vp_at_rmws': m_at('at_rmw'),
                  'pthread_self': m_self, 'pthread_mutex_lock': m_lock, 'pthread_mutex_unlock': m_unlock, 'pthread_mutex_trylock': m_trylock}.items():
        M[n] = fn
    D = I.dmodels
    D.append((re.compile(r'^std::(recursive_|shared_|timed_)?mutex::lock\(\)$'), m_lock))
    D.append((re.compile(r'^std::(recursive_|shared_|timed_)?mutex::unlock\(\)$'), m_unlock))
    D.append((re.compile(r'^std::(recursive_|shared_|timed_)?mutex::try_lock\(\)$'), m_trylock))
    I.access_hook = hook(I)
