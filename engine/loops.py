"""Loop acceleration: iterate S0,S1,S2..., generalise affinely in the iteration number k, and
accept the generalisation only if abstract execution of the body proves it inductive."""
import math
from .num import Lin, ZERO, ONE, const, atom, new_atom, ATOMS, tighten
from .interp import Ptr, Cond, Undef, UNDEF, Opq, Agg, Frag, Seg, Undecided

CONCRETE = 48      # iterations of a loop nothing symbolic decides
ACC_TRIES = 6


class NoGen(Exception):
    pass


def strip_env(f, body, env):
    """drop values defined inside the loop body other than header phis (dead at the header)"""
    key = ('defs', min(body), len(body))
    cache = f.__dict__.setdefault('_loopdefs', {})
    k = frozenset(body)
    d = cache.get(k)
    if d is None:
        d = set()
        for b in body:
            for ins in f.blocks[b]:
                if 'id' in ins:
                    d.add(ins['id'])
        cache[k] = d
    return {a: v for a, v in env.items() if a not in d}


def at_header(I, st, env, f, fr, header, prev, body):
    """evaluate header phis; returns env with only live values"""
    base = strip_env(f, body, env)
    for ins in f.blocks[header]:
        if ins['op'] != 'phi':
            break
        for pb, o in ins['o']:
            if pb == prev:
                base[ins['id']] = I.val(st, env, o)
                break
    return base


def nphis(f, header):
    n = 0
    for ins in f.blocks[header]:
        if ins['op'] != 'phi':
            break
        n += 1
    return n


def one_iter(I, st, henv, f, fr, header, body):
    """run the body from header (phis already bound). -> (backs [(st, henv)], others)"""
    fr[1] = f.blocks[header][0]
    outs = I.run(st, dict(henv), f, fr, header, None, header, body, nphis(f, header))
    backs = []
    others = []
    for o in outs:
        if o[1] == 'back':
            s, _, env, pv = o
            h = at_header(I, s, env, f, fr, header, pv, body)
            backs.append((s, h))
        elif o[1] == 'exit':
            others.append(o)
        else:
            others.append(o)
    return backs, others


def nphi_run_guard():
    pass


class Node:
    __slots__ = ('s', 'h', 'parent', 'depth', 'exits', 'covered', 'nb')

    def __init__(self, s, h, parent):
        self.s, self.h, self.parent = s, h, parent
        self.depth = 0 if parent is None else parent.depth + 1
        self.exits = None
        self.covered = False
        self.nb = 0

    def is_covered(self):
        n = self
        while n is not None:
            if n.covered:
                return True
            n = n.parent
        return False

    def chain(self):
        out = []
        n = self
        while n is not None:
            out.append(n)
            n = n.parent
        out.reverse()
        return out


def run_loop(I, st, env, f, fr, header, prev, body):
    extra = []
    h0 = at_header(I, st, env, f, fr, header, prev, body)
    nodes = []
    work = [(st, h0, None)]
    budget = I.loop_budget
    phases = 0
    while work:
        s, h, parent = work.pop()
        if parent is not None and parent.is_covered():
            continue
        budget -= 1
        if budget < 0:
            I.note_undecided(s, 'loop budget at %s' % f.dem[:80])
            break
        norm_state(I, s, h)
        node = Node(s.copy(), dict(h), parent)
        ch = node.chain()
        if not I.accelerate:
            if len(ch) > I.UNROLL:
                I.note_undecided(s, 'unrolling limit in %s' % f.dem[:100])
                continue
        elif len(ch) >= 3:
            chain = [(n.s, n.h) for n in ch]
            bounded = len(ch) <= I.UNROLL and not any(n.exits or n.nb > 1 for n in ch[:-1])
            free = min(len(ch), CONCRETE)
            free = all(n.nb == 1 and not n.exits for n in ch[:free - 1]) and len(ch[0].s.num.log) == len(ch[free - 1].s.num.log)
            if free and len(ch) <= CONCRETE:
                pass        # nothing symbolic decides this loop so far
            elif not bounded or len(ch) > 14:
                first = next((i for i, n in enumerate(ch[:-1]) if n.exits or n.nb > 1), CONCRETE - 2 if free else 12)
                tries = len(ch) - max(3, first + 2)
                g = None
                late = ACC_TRIES - 1 if any(n.nb > 1 for n in ch[:-1]) else ACC_TRIES + 1
                if tries in (3, late):
                    # loops over scalars that do not grow affinely, and positions once all else fails
                    g = havoc_scalar(I, chain, f, fr, header, body, tries == late)
                    if g is not None:
                        # every state from the base on is covered: only the paths explored so far stay as well
                        extra += g[1]
                        b = ch[g[0]]
                        work = [w for w in work if not (w[2] is not None and b in w[2].chain())]
                        continue
                if tries <= ACC_TRIES:
                    g = accelerate(I, chain, f, fr, header, body, tries >= ACC_TRIES)
                    if g is not None:
                        extra += g[0]
                        ch[-2].covered = True
                        I.res.loops_acc += 1
                        for bs, bh in g[1]:
                            phases += 1
                            if phases > 12:
                                I.note_undecided(s, 'too many loop phases in %s' % f.dem[:100])
                                break
                            work.append((bs, bh, None))
                        continue
                if len(ch) > (CONCRETE + 20 if free else I.UNROLL):
                    I.note_undecided(s, 'loop not summarised in %s' % f.dem[:100])
                    continue
        nodes.append(node)
        backs, others = one_iter(I, s, h, f, fr, header, body)
        node.exits = others
        if len(backs) > 1:
            backs = merge_backs(I, backs)
        node.nb = len(backs)
        if len(backs) == 1 and not others and parent is not None and parent.nb == 1 and not parent.exits and same_shape((parent.s, parent.h), (node.s, node.h)) and same_shape((node.s, node.h), backs[0]):
            # the iteration before changed nothing, and neither did this one
            if backs[0][0].ghost.get('contended') != -1:      # waiting for another thread to unlock is waiting
                I.record(backs[0][0], False, 'nontermination', 'loop never ends', f.dem[:150])
            continue
        for bs, bh in backs:
            if node.exits and len(bs.num.log) == len(node.s.num.log) and same_shape((node.s, node.h), (bs, bh)):
                continue        # the iteration changed nothing (say, a compare-exchange failed spuriously)
            work.append((bs, bh, node))
    results = []
    for n in nodes:
        if not n.is_covered():
            results += n.exits
    return results + extra


def norm_val(n, v):
    if isinstance(v, Lin):
        return n.norm(v)
    if isinstance(v, Ptr):
        return Ptr(v.r, n.norm(v.o))
    if isinstance(v, Cond):
        return Cond(v.k, n.norm(v.l))
    if isinstance(v, Agg):
        return Agg([norm_val(n, x) for x in v.v])
    return v


def norm_state(I, s, h):
    n = s.num
    for rid, r in list(s.regs.items()):
        if r.segs:
            I.clean_segs(s, rid)
    if not n.sub:
        return
    for k, v in list(h.items()):
        if k != 'allocas':
            h[k] = norm_val(n, v)
    for rid, r in list(s.regs.items()):
        ch = False
        for c, (sz, v) in r.cells.items():
            nv = norm_val(n, v)
            if nv != v:
                ch = True
                break
        if ch:
            r = s.w(rid)
            r.cells = {c: (sz, norm_val(n, v)) for c, (sz, v) in r.cells.items()}
        if r.segs:
            ns = tuple(g.with_(lo=n.norm(g.lo), hi=n.norm(g.hi), c0=n.norm(g.c0)) for g in r.segs)
            if any(a.key() != b.key() for a, b in zip(ns, r.segs)):
                s.w(rid).segs = ns


def same_shape(a, b):
    """states equal up to constraints?"""
    (s1, h1), (s2, h2) = a, b
    if h1.keys() != h2.keys() or set(s1.regs) != set(s2.regs):
        return False
    for k in h1:
        if k != 'allocas' and h1[k] != h2[k]:
            return False
    for r in s1.regs:
        x, y = s1.regs[r], s2.regs[r]
        if x is y:
            continue
        if x.cells != y.cells or [g.key() for g in x.segs] != [g.key() for g in y.segs]:
            return False
    g1 = {k: v for k, v in s1.ghost.items() if k != '_exits'}
    g2 = {k: v for k, v in s2.ghost.items() if k != '_exits'}
    return g1 == g2 and s1.facts == s2.facts


def merge_backs(I, backs):
    """join back-edge states that only differ in their path constraints"""
    out = []
    for b in backs:
        for i, o in enumerate(out):
            if same_shape(o, b):
                m = o[0].copy()
                # keep the constraints common to both
                keep = join_num(o[0].num, b[0].num)
                if keep is None:
                    continue
                m.num = keep
                if not b[0].exact:
                    m.inexact(b[0].why)
                if m.exact and not join_exact(keep, o[0].num, b[0].num):
                    m.inexact('join of paths')
                out[i] = (m, o[1])
                break
        else:
            out.append(b)
    return out


def join_num(a, b):
    from .num import Num
    n = Num()
    for k, l in a.log:
        if k == 'ge' and b.entails_ge(l) or k == 'eq' and b.entails_eq(l):
            (n.add_ge if k == 'ge' else n.add_eq)(l)
    for k, l in b.log:
        if k == 'ge' and a.entails_ge(l) or k == 'eq' and a.entails_eq(l):
            (n.add_ge if k == 'ge' else n.add_eq)(l)
    # unlogged value-range facts
    for q in list(a.ineq) + list(b.ineq):
        if a.entails_ge(q) and b.entails_ge(q):
            n.add_ge(q, log=False)
    return n


def cons_of(n):
    """all constraints of n as inequalities"""
    out = list(n.ineq)
    for a, v in n.sub.items():
        out += [atom(a) - v, v - atom(a)]
    return out


def join_exact(keep, a, b):
    """is keep exactly the union of a and b?"""
    cb = None
    for c in cons_of(a):
        if keep.entails_ge(c):
            continue
        k = keep.copy()
        k.add_ge(-c - 1)
        if k.bottom:
            continue
        if cb is None:
            cb = cons_of(b)
        if not all(k.entails_ge(x) for x in cb):
            return False
    return True


# ------------------------------------------------------------------ generalisation
def aff(n1, a, b, k1):
    """value at iteration index k (k1 = Lin k - base), from consecutive values a (base), b (base+1)"""
    d = b - a
    if not d.is_const and n1 is not None:
        d = n1.norm(d)
    if not d.is_const:
        raise NoGen('non-affine %r -> %r' % (a, b))
    if d.c == 0:
        return a
    return a + k1.scale(d.c)


def aff_val(n1, a, b, k1, path=''):
    if isinstance(a, Lin) and isinstance(b, Lin):
        return aff(n1, a, b, k1)
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r == b.r:
        return Ptr(a.r, aff(n1, a.o, b.o, k1))
    if isinstance(a, Undef) and isinstance(b, Undef):
        return a
    if isinstance(a, Agg) and isinstance(b, Agg) and len(a.v) == len(b.v):
        return Agg([aff_val(n1, x, y, k1) for x, y in zip(a.v, b.v)])
    if a == b:
        return a
    if n1 is not None and norm_val(n1, a) == norm_val(n1, b):
        return a
    if isinstance(a, Cond) and isinstance(b, Cond) and a.k == b.k:
        return Cond(a.k, aff(n1, a.l, b.l, k1))
    raise NoGen('value %s: %r -> %r' % (path, a, b))


def accelerate(I, chain, f, fr, header, body, last):
    ka = new_atom('_k')
    k = atom(ka)            # k >= 0: k-th iteration after the base snapshot (chain[-2])
    try:
        T0, H, guards, free = generalise(I, chain, k, last)
    except NoGen as e:
        dbg(I, 'nogen', f, e)
        return None
    if free:
        g = own_guard(I, T0, H, f, fr, header, body, ka)
        if g is not None:
            guards = guards + g
        elif last:
            T0.inexact('loop guard: no loop guard')
        else:
            dbg(I, 'nogen', f, 'no loop guard')
            return None
    dropped = False
    nosplit = set()
    while True:
        T = T0.copy()
        for g in guards:
            T.num.add_ge(g)
        if T.num.bottom:
            dbg(I, 'bottom', f, guards)
            return None
        # inductiveness: body from (T,H) must lead to (T,H)[k+1]
        with Silence(I):
            try:
                backs, others = one_iter(I, T.copy(), H, f, fr, header, body)
            except Undecided as e:
                dbg(I, 'undecided body', f, e)
                return None
            if len(backs) > 1:
                backs = merge_backs(I, backs)
        drop = set()
        split = set()
        esc = []
        okc = 0
        for i, (bs, bh) in enumerate(backs):
            norm_state(I, bs, bh)
            why = matches(I, bs, bh, T, H, ka)
            if why is not True:
                dbg(I, 'escape', f, why)
                esc.append(i)
                continue
            okc += 1
            sub = {ka: atom(ka) + 1}
            for i, g in enumerate(guards):
                if not bs.num.entails_ge(g.subst(sub)):
                    (split if i not in nosplit else drop).add(i)
        if backs and not okc:
            dbg(I, 'not inductive', f, '')
            return None
        if not drop and split:
            # leave the summary where the guard stops holding, unless that never reaches another phase
            dbg(I, 'split guards', f, [guards[i] for i in split])
        if not drop:
            break
        dbg(I, 'dropped guards', f, [guards[i] for i in drop])
        dropped = True
        guards = [g for i, g in enumerate(guards) if i not in drop]
    # accepted: re-run with recording on, keep only exits
    if dropped:
        T.inexact('loop guard not expressible')
    backs, others = one_iter(I, T.copy(), H, f, fr, header, body)
    if len(backs) > 1:
        backs = merge_backs(I, backs)
    escapes = []
    for bs, bh in backs:
        norm_state(I, bs, bh)
        if matches(I, bs, bh, T, H, ka) is not True:
            escapes.append((bs, bh))
            continue
        sub = {ka: atom(ka) + 1}
        cur = bs
        for g in guards:
            g1 = cur.num.norm(g.subst(sub))
            if cur.num.entails_ge(g1):
                continue
            out = cur.copy()
            out.num.add_ge(-g1 - 1)
            if not out.num.bottom:
                escapes.append((out, dict(bh)))
            cur.num.add_ge(g1)
            if cur.num.bottom:
                break
    return others, escapes


def dbg(I, what, f, e):
    if getattr(I, 'debug', False):
        print('   [loop] %s in %s: %s' % (what, f.dem[:90], e))


class Silence:
    def __init__(self, I):
        self.I = I

    def __enter__(self):
        from .interp import Results
        self.save = self.I.res
        self.I.res = Results()

    def __exit__(self, *a):
        self.I.res = self.save
        return False


def generalise(I, chain, k, last):
    (sa, ha), (sb, hb) = chain[-2], chain[-1]
    if ha.keys() != hb.keys():
        raise NoGen('env keys')
    if set(sa.regs) != set(sb.regs):
        raise NoGen('regions %s' % (set(sa.regs) ^ set(sb.regs)))
    T = sa.copy()
    nb = sb.num
    H = {}
    for x in ha:
        if x == 'allocas':
            if ha[x] != hb[x]:
                raise NoGen('allocas')
            H[x] = ha[x]
        else:
            H[x] = aff_val(nb, ha[x], hb[x], k, 'v%s' % x)
    for rid in sa.regs:
        ra, rb = sa.regs[rid], sb.regs[rid]
        if ra is rb:
            continue
        if ra.cells != rb.cells:
            if ra.cells.keys() != rb.cells.keys():
                raise NoGen('cells of %s' % ra.name)
            w = T.w(rid)
            for c in ra.cells:
                if ra.cells[c][0] != rb.cells[c][0]:
                    raise NoGen('cell size')
                w.cells[c] = (ra.cells[c][0], aff_val(nb, ra.cells[c][1], rb.cells[c][1], k, '%s+%d' % (ra.name, c)))
        if ra.segs != rb.segs:
            if len(ra.segs) != len(rb.segs):
                raise NoGen('segments of %s: %r -> %r' % (ra.name, ra.segs, rb.segs))
            ns = []
            for x, y in zip(ra.segs, rb.segs):
                if x.et != y.et or x.es != y.es:
                    raise NoGen('segment kind')
                if x.L != y.L:
                    raise NoGen('segment content %r -> %r' % (x, y))
                c1 = x.c1
                if x.c1 != y.c1:
                    # single element segments are flexible
                    if sa.num.entails_eq(x.hi - x.lo - x.es):
                        c1 = y.c1
                    elif sb.num.entails_eq(y.hi - y.lo - y.es):
                        c1 = x.c1
                    else:
                        raise NoGen('segment stride')
                ns.append(x.with_(lo=aff(nb, x.lo, y.lo, k), hi=aff(nb, x.hi, y.hi, k), c0=aff(nb, x.c0, y.c0, k), c1=c1))
            T.w(rid).segs = tuple(ns)
    ga = {a: v for a, v in sa.ghost.items() if a != '_exits'}
    gb = {a: v for a, v in sb.ghost.items() if a != '_exits'}
    if ga != gb:
        if ga.keys() != gb.keys():
            raise NoGen('ghost')
        for a in ga:
            if ga[a] != gb[a]:
                if isinstance(ga[a], Lin) and isinstance(gb[a], Lin):
                    T.ghost[a] = aff(nb, ga[a], gb[a], k)
                else:
                    raise NoGen('ghost %s' % (a,))
    T.facts = gen_facts(sa, sb, k)
    # constraints: those of sa (all earlier iterations up to base), plus the guards of later ones
    T.num.add_ge(k)
    guards = []
    nb = sb.num
    logs = []
    for i in range(1, len(chain)):
        p0, p1 = chain[i - 1][0].num.log, chain[i][0].num.log
        logs.append([(kk, tighten(l) if kk == 'ge' else l) for kk, l in p1[len(p0):]])
    # guards executed between base and k. A constraint y logged in an iteration is paired with the one logged
    # P iterations before (its per-iteration step is the difference / P). Inductiveness is checked by accelerate().
    miss = None
    if not logs or not logs[-1]:
        miss = 'no loop guard'
    for P in (1, 2, 3):
        if len(logs) < 2 * P:
            miss = miss or 'short'
            break
        why = None
        gs = []
        for w in range(P):
            da, db = logs[-1 - w - P], logs[-1 - w]
            if len(da) != len(db):
                why = 'irregular'
                break
            for x, y in zip(da, db):
                if x[0] != y[0] or not nb.norm(y[1] - x[1]).is_const:
                    why = 'irregular %r' % (y[1],)
                    break
                d = nb.norm(y[1] - x[1]).c
                if y[0] == 'eq':
                    if not sa.num.entails_eq(y[1]):
                        why = 'equality guard %r' % (y[1],)
                        break
                    continue
                if d % P:
                    why = 'step of %r' % (y[1],)
                    break
                step = d // P
                g = y[1] + (k - 1 + w).scale(step)
                if P > 1:
                    g = tighten(g)
                    if not sa.num.entails_ge(g.subst({k.t[0][0]: ZERO})):
                        g = g + abs(step) * (P - 1)
                if not sa.num.entails_ge(g.subst({k.t[0][0]: ZERO})):
                    why = 'guard %r does not hold initially' % (g,)
                    break
                gs.append(g)
            if why:
                break
        if not why and not any(logs[-1 - w] for w in range(P)):
            why = 'no loop guard'
        if not why:
            guards += gs
            miss = None
            break
        miss = miss or why
    if miss and logs and len(logs) >= 2:
        for kk, y in logs[-1]:
            if kk == 'eq':
                continue
            best = None
            for k2, x in logs[-2]:
                if k2 == 'ge':
                    d = nb.norm(y - x)
                    if d.is_const and (best is None or abs(d.c) < abs(best)):
                        best = d.c
            if best is not None:
                g = y + (k - 1).scale(best)
                if sa.num.entails_ge(g.subst({k.t[0][0]: ZERO})):
                    guards.append(g)
    # the affine picture of a block is only meaningful while no segment in it is inverted
    for rid in sa.regs:
        if sa.regs[rid] is sb.regs[rid] or not T.regs[rid].segs:
            continue
        for g in T.regs[rid].segs:
            d = T.num.norm(g.hi - g.lo)
            if not d.is_const and not T.num.entails_ge(d):
                guards.append(d)
    if miss == 'no loop guard':
        return T, H, guards, True
    if miss:
        if not last:
            raise NoGen('guards not yet regular: ' + miss)
        T.inexact('loop guard: ' + miss)
    return T, H, guards, False


def own_guard(I, T, H, f, fr, header, body, ka):
    """the condition on which iteration k, of a loop whose iterations so far were decided by constants alone, is
    followed by another one: as a condition on reaching iteration k"""
    with Silence(I):
        try:
            backs, others = one_iter(I, T.copy(), H, f, fr, header, body)
        except Undecided:
            return None
    n0 = len(T.num.log)
    good = []
    for bs, bh in backs:
        gs = []
        for kk, l in bs.num.log[n0:]:
            g = l.subst({ka: atom(ka) - 1})
            at0 = g.subst({ka: ZERO})
            if kk != 'ge' or set(a for a, _ in l.t) - {ka} or not at0.is_const or at0.c < 0:
                break
            gs.append(tighten(g))
        else:
            good.append(gs)
    return good[0] if len(good) == 1 and good[0] else None


def gen_facts(sa, sb, k):
    if sa.facts == sb.facts:
        return dict(sa.facts)
    # keep facts common to both (facts are universally true statements about immutable labels)
    out = {}
    for a, v in sa.facts.items():
        if sb.facts.get(a) == v:
            out[a] = v
    return out


def matches(I, bs, bh, T, H, ka):
    """is (bs,bh) included in (T,H)[k := k+1] ?"""
    sub = {ka: atom(ka) + 1}
    n = bs.num

    def eq(a, b):
        if isinstance(a, Lin) and isinstance(b, Lin):
            return n.entails_eq(a - b.subst(sub))
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return a.r == b.r and n.entails_eq(a.o - b.o.subst(sub))
        if isinstance(a, Agg) and isinstance(b, Agg):
            return len(a.v) == len(b.v) and all(eq(x, y) for x, y in zip(a.v, b.v))
        if isinstance(a, Cond) and isinstance(b, Cond):
            return a.k == b.k and n.entails_eq(a.l - b.l.subst(sub))
        return a == b
    if bh.keys() != H.keys():
        return 'env'
    for x in H:
        if x == 'allocas':
            if H[x] != bh[x]:
                return 'allocas'
        elif not eq(bh[x], H[x]):
            return 'v%s: %r vs %r' % (x, bh[x], H[x])
    if set(bs.regs) != set(T.regs):
        return 'regions'
    for rid in T.regs:
        ra, rb = bs.regs[rid], T.regs[rid]
        if ra is rb:
            if not rb.segs and not any(mentions(v[1], ka) for v in rb.cells.values()):
                continue
        if ra.cells.keys() != rb.cells.keys():
            return 'cells of %s' % ra.name
        for c in rb.cells:
            if ra.cells[c][0] != rb.cells[c][0] or not eq(ra.cells[c][1], rb.cells[c][1]):
                return 'cell %s+%d: %r vs %r' % (ra.name, c, ra.cells[c], rb.cells[c])
        xs = tidy(I, bs, ra.segs)
        ys = tidy(I, bs, [g.with_(lo=n.norm(g.lo.subst(sub)), hi=n.norm(g.hi.subst(sub)), c0=n.norm(g.c0.subst(sub))) for g in rb.segs])
        if len(xs) != len(ys):
            return 'segments of %s: %r vs %r' % (ra.name, xs, ys)
        for x, y in zip(xs, ys):
            if x.et != y.et or x.L != y.L or not n.entails_eq(x.lo - y.lo) or not n.entails_eq(x.hi - y.hi) or not n.entails_eq(x.c0 - y.c0):
                return 'segment %r vs %r' % (x, y)
            if x.c1 != y.c1 and not n.entails_eq(x.hi - x.lo - x.es):
                return 'segment stride'
    for a, v in T.ghost.items():
        if a == '_exits':
            continue
        x = bs.ghost.get(a)
        if isinstance(v, Lin):
            if not isinstance(x, Lin) or not eq(x, v):
                return 'ghost %s' % (a,)
        elif x != v:
            return 'ghost %s: %r vs %r' % (a, x, v)
    for a, v in T.facts.items():
        if bs.facts.get(a) != v:
            return 'fact'
    return True


def tidy(I, s, segs):
    out = []
    for g in segs:
        if s.num.entails_ge(g.lo - g.hi):
            continue
        if out:
            m = I.try_merge(s, out[-1], g)
            if m is not None:
                out[-1] = m
                continue
        out.append(g)
    return out


def mentions(v, a):
    if isinstance(v, Lin):
        return any(x == a for x, _ in v.t)
    if isinstance(v, Ptr):
        return any(x == a for x, _ in v.o.t)
    if isinstance(v, Agg):
        return any(mentions(x, a) for x in v.v)
    return False


# ------------------------------------------------------------------ scalar havoc
def _vals(s, h, ch):
    return h[ch[1]] if ch[0] == 'v' else s.regs[ch[1]].cells[ch[2]][1]


def _shape(s, h):
    return (frozenset(x for x in h if x != 'allocas'), tuple(sorted((str(rid), tuple(sorted(map(str, r.cells))), tuple(g.key() for g in r.segs)) for rid, r in s.regs.items())))


GHOST_FREE = ('_exits', 'unrelated')     # may differ between iterations without consequence


def _ghost(s):
    return {k: v for k, v in s.ghost.items() if k not in GHOST_FREE}


def havoc_scalar(I, chain, f, fr, header, body, positions):
    """Loops that change only scalars and positions, not affinely in the number of iterations (geometric growth, binary
    search): forget the changed values, keep the candidate relations that prove inductive, and go on with the states
    in which the loop ends.  -> (index of the first state of the chain covered, outcomes) or None"""
    (sb, hb) = chain[-1]
    try:
        last = _shape(sb, hb)
    except TypeError:
        return None
    base = next((i for i, (s, h) in enumerate(chain[:-2]) if _shape(s, h) == last), None)
    if base is None:
        return None
    s0, h0 = chain[base]
    later = chain[base:]
    if any(_ghost(s) != _ghost(s0) for s, h in later):
        return None
    strides = {}

    def differs(ch, s, v):
        """note that the value at ch differs from that in s0; False if it isn't of a kind that is handled"""
        v0 = _vals(s0, h0, ch)
        if isinstance(v0, Lin) and isinstance(v, Lin):
            strides.setdefault(ch, 1)
            return True
        if positions and isinstance(v0, Ptr) and isinstance(v, Ptr) and v.r == v0.r:
            d = s.num.norm(v.o - v0.o)
            g = strides.get(ch, 0)
            for z in [d.c] + [m for _, m in d.t]:
                g = math.gcd(g, abs(z))
            strides[ch] = g
            return g != 0
        return False
    for s, h in later[1:]:
        for x in hb:
            if x != 'allocas' and h[x] != h0[x] and not differs(('v', x), s, h[x]):
                return None
        for rid in sb.regs:
            for c in sb.regs[rid].cells:
                if s.regs[rid].cells[c] != s0.regs[rid].cells[c] and not differs(('c', rid, c), s, s.regs[rid].cells[c][1]):
                    return None
    if not strides:
        return None
    for attempt in range(6):
        r = havoc_try(I, s0, h0, strides, differs, f, fr, header, body)
        if r != 'again':
            return None if r is None else (base, r)
    return None


def havoc_try(I, s0, h0, strides, differs, f, fr, header, body):
    T = s0.copy()
    T.ghost.pop('_exits', None)
    H = dict(h0)
    X = {}           # changed place -> (fresh atom, its value at s0, function from a value to that of the atom)
    for ch, g in strides.items():
        v0 = _vals(s0, h0, ch)
        a = new_atom('_h')
        if isinstance(v0, Lin):
            X[ch] = (a, v0, lambda v: v if isinstance(v, Lin) else None)
            nv = atom(a)
        else:
            def rel(v, v0=v0, g=g):
                if not isinstance(v, Ptr) or v.r != v0.r:
                    return None
                d = v.o - v0.o
                return d.div(g) if d.divisible(g) else None
            X[ch] = (a, ZERO, rel)
            nv = Ptr(v0.r, v0.o + atom(a).scale(g))
        if ch[0] == 'v':
            H[ch[1]] = nv
        else:
            w = T.w(ch[1])
            w.cells[ch[2]] = (w.cells[ch[2]][0], nv)
    # candidate invariants: bounds, relations to the values before the loop and to each other, and to the places of keys
    # in sorted sequences
    anchors = []
    from . import order
    for k in list(I.vn):
        if k[0] == 'place' and k[1] in T.ghost.get('sorted', {}):
            p, e = order.place(I, T, k[1], k[2])
            s0 = s0.copy()
            order.place(I, s0, k[1], k[2])
            anchors += [(k[1], p), (k[1], p + e)]

    def shifted(ch):
        """the places, in terms of the atom of ch"""
        v0, g = _vals(s0, h0, ch), strides[ch]
        if isinstance(v0, Lin):
            return [w for _, w in anchors[:8]]
        out = []
        for lb, w in anchors[:8]:
            for sg in T.regs[v0.r].segs:
                d = T.num.norm(v0.o - sg.lo)
                if lb in (sg.L, '%s.0' % (sg.L,)) and sg.es == g and d.divisible(g):
                    out.append(T.num.norm(w - sg.c0 - d.div(g)))
                    break
        return out
    places = {a: shifted(ch) for ch, (a, _, _) in X.items()}
    # values which don't change
    fixed = [v for x, v in H.items() if x != 'allocas' and ('v', x) not in X]
    fixed += [v for rid, r in T.regs.items() if r.kind == 'stack' for c, (sz, v) in r.cells.items() if ('c', rid, c) not in X]
    ends = {}
    for ch, (a, x0, rel) in X.items():
        es = ends[a] = []
        for v in fixed:
            w = rel(v) if isinstance(v, Ptr) or isinstance(x0, Lin) and x0 is not ZERO else None
            if w is not None and w not in es and w != x0 and len(es) < 12:
                es.append(w)
    cands = []
    init = {a: x0 for a, x0, _ in X.values()}

    def cand(c):
        if s0.num.entails_ge(c.subst(init)):
            cands.append(c)
    xs = list(X.values())
    for a, x0, _ in xs:
        x = atom(a)
        for c in (x - x0, x0 - x, x) + tuple(const(1 << b) - x for b in (42, 44, 48, 52, 56, 62)):
            cand(c)
        for w in places[a] + ends[a]:
            cand(x - w)
            cand(w - x)
    if len(xs) <= 8:
        for i, (a, x0, _) in enumerate(xs):
            for b, y0, _ in xs[i + 1:]:
                x, y = atom(a), atom(b)
                d, t = x - y, x + y
                for c in (d, -d, d - (x0 - y0), (x0 - y0) - d, t - (x0 + y0), (x0 + y0) - t):
                    cand(c)
                for w in places[a] + [z for z in places[b] if z not in places[a]]:
                    cand(t - w)
                    cand(w - t)
    while True:
        T1 = T.copy()
        for c in cands:
            T1.num.add_ge(c)
        with Silence(I):
            try:
                backs, others = one_iter(I, T1.copy(), H, f, fr, header, body)
            except Undecided:
                return None
        bad = set()
        again = False
        for bs, bh in backs:
            norm_state(I, bs, bh)
            if set(bs.regs) != set(T.regs) or _ghost(bs) != _ghost(T):
                dbg(I, 'no havoc', f, 'shape')
                return None
            sub = {}
            try:
                for ch, (a, _, rel) in X.items():
                    v = rel(_vals(bs, bh, ch))
                    if v is None:
                        if not differs(ch, bs, _vals(bs, bh, ch)):
                            return None
                        again = True
                    sub[a] = v
                for x in H:
                    if x != 'allocas' and ('v', x) not in X and bh[x] != H[x]:
                        if not differs(('v', x), bs, bh[x]):
                            dbg(I, 'no havoc', f, 'value %s: %r -> %r' % (x, H[x], bh[x]))
                            return None
                        again = True
                for rid in T.regs:
                    ra, rb = bs.regs[rid], T.regs[rid]
                    if [g.key() for g in ra.segs] != [g.key() for g in rb.segs]:
                        dbg(I, 'no havoc', f, 'segments')
                        return None
                    for c in rb.cells:
                        if ('c', rid, c) not in X and ra.cells[c] != rb.cells[c]:
                            if not differs(('c', rid, c), bs, ra.cells[c][1]):
                                dbg(I, 'no havoc', f, 'cell %r: %r -> %r' % (c, rb.cells[c], ra.cells[c]))
                                return None
                            again = True
            except KeyError:
                return None
            if again:
                continue
            for i, c in enumerate(cands):
                if i not in bad and not bs.num.entails_ge(c.subst(sub)):
                    bad.add(i)
        if again:
            return 'again'
        if not bad:
            break
        cands = [c for i, c in enumerate(cands) if i not in bad]
    T1 = T.copy()
    for c in cands:
        T1.num.add_ge(c)
    if I.strict:
        T1.inexact('invariant of a loop')
    dbg(I, 'scalar havoc', f, '%s %s anchors %s' % ([(c, ATOMS[a]) for c, (a, _, _) in X.items()], [str(c) for c in cands], anchors))
    backs, others = one_iter(I, T1, H, f, fr, header, body)
    return others
