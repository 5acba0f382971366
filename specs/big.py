"""Big allocations: the masked singly linked lists of used and free mappings."""
from core import *
from zone import *
from root import RW, used, kpat

KEYS = {'u': ('@ul', 'ROOT.big_zone_used', 'ROOT.big_zone_used_count'), 'f': ('@fl', 'ROOT.big_zone_free', 'ROOT.big_zone_free_count')}
NAME = {'u': 'used', 'f': 'free'}
BIGMAX = 1 << 32
SMALL = 65536
NLIM = 1 << 30
SIZEOF = 48


def guard(eng):
    return c64(PAGE) if eng.cfg == 'guard' else c64(0)


def page(p):
    return and_(p, c64(~(PAGE - 1) & (2**64 - 1)))


def roundup(n):
    return and_(add(n, c64(PAGE - 1)), c64(~(PAGE - 1) & (2**64 - 1)))


class Node:
    """one piece of big-allocation metadata"""

    def __init__(self, S, p):
        self.S, self.p = S, p

    def _(self, f):
        return self.S.leaf('BIG.' + f, self.p)

    @property
    def user(self):
        return self._('user_pages_start')

    @property
    def size(self):
        return self._('size')

    @property
    def free(self):
        return ne(and_(self._('free'), const(1, 8)), const(0, 8))

    def canary_ok(self):
        return solve.opaque('BIGCANARY', self.p, self.user, self.S.leaf('ROOT.big_zone_canary_secret'), self._('canary_a'), self._('canary_b'))

    def geometry(self):
        return solve.opaque('BIGGEO', self.p, self.user, self.size)

    def apart(self, eng, o):
        return solve.opaque('BIGAPART', guard(eng), self.p, self.user, self.size, o.p, o.user, o.size)

    def own(self, eng):
        return solve.opaque('BIGOWN', guard(eng), self.p, self.user, self.size)


class Def:
    @staticmethod
    def canary(p, u, secret, a, b):
        c = tm.xor(tm.xor(p, app('BSWAP64', 64, u)), secret)
        return band(eq(a, c), eq(b, c))

    @staticmethod
    def geometry(p, u, s):
        pm = c64(PAGE - 1)
        return band(uge(p, c64(1 << 20)), ult(p, c64(1 << 46)), ule(and_(p, pm), c64(PAGE - SIZEOF)),
                    uge(u, c64(1 << 20)), ult(u, c64(1 << 46)), eq(and_(u, pm), c64(0)), eq(and_(s, pm), c64(0)),
                    uge(s, c64(SMALL)), ule(s, c64(BIGMAX)))

    @staticmethod
    def apart(g, p, u, s, q, v, t):
        """metadata pages and user ranges of two different nodes do not meet"""
        g2 = add(g, g)
        return band(ne(page(p), page(q)),
                    apart(sub(u, g), add(s, g2), sub(v, g), add(t, g2)),
                    apart(page(p), c64(PAGE), sub(v, g), add(t, g2)),
                    apart(page(q), c64(PAGE), sub(u, g), add(s, g2)))

    @staticmethod
    def own(g, p, u, s):
        return apart(page(p), c64(PAGE), sub(u, g), add(s, add(g, g)))


solve.OPAQUE.update(
    BIGCANARY=(Def.canary, 'all'),
    BIGGEO=(Def.geometry, lambda p, u, s: band(uge(p, c64(1 << 20)), ult(p, c64(1 << 46)), uge(u, c64(1 << 20)), ult(u, c64(1 << 46)), uge(s, c64(SMALL)), ule(s, c64(BIGMAX)))),
    BIGAPART=(Def.apart, lambda g, p, u, s, q, v, t: ne(p, q)),
    BIGOWN=(Def.own, None),
    BIGZONE=(lambda u, s, z: apart(u, s, z, c64(ZUSER)), None))


class BList:
    def __init__(self, eng, S, w):
        self.eng, self.S, self.w = eng, S, w
        self.key, self.headk, self.cntk = KEYS[w]
        self.n = zext(S.leaf(self.cntk), 64)
        self.head = S.leaf(self.headk)
        self.mask = S.leaf('ROOT.big_zone_next_mask')

    def N(self, i):
        return Node(self.S, self.S.leaf(self.key, i))

    def pats(self):
        return [[(self.key, (0,))], [('#', 'b')]]

    def all(self, nm, f, *lims):
        return forall('b' + self.w + nm, [('b', 64)], lambda i: imp(band(ult(i, self.n), *[ult(i, l) for l in lims]), f(self.N(i))), self.pats())

    def wf(self):
        """clauses of the invariant of one list"""
        nm = NAME[self.w]
        n = self.n
        link = lambda p: tm.xor(p, self.mask)

        def nxt(i):
            x = self.N(i)
            j = add(i, c64(1))
            return imp(ult(i, n), eq(x._('next'), ite(ult(j, n), link(self.N(j).p), c64(0))))

        def dist(i, j):
            return imp(band(ult(i, n), ult(j, n), ne(i, j)), self.N(i).apart(self.eng, self.N(j)))
        return [C('the head of the %s list is its first node' % nm, eq(self.head, ite(eq(n, c64(0)), c64(0), link(self.N(c64(0)).p))), 'P12', 'P13'),
                C('%s big allocations are well formed' % nm, self.all('g', lambda x: band(x.geometry(), x.own(self.eng), (x.free if self.w == 'f' else bnot(x.free)))), 'P12', 'P13'),
                C('the links of the %s list are intact' % nm, forall('bn' + self.w, [('b', 64)], nxt, self.pats()), 'P12', 'P13'),
                C('%s big allocations are pairwise disjoint' % nm, forall('bd' + self.w, [('b', 64), ('b', 64)], dist,
                  [[(self.key, (0,)), (self.key, (1,))], [('#', 'b'), ('#', 'b')]]), 'P12', 'P13'),
                zones_apart(self.eng, self.S, self.w)]

    def canaries(self, lim=None):
        return self.all('c', lambda x: x.canary_ok(), *([lim] if lim is not None else []))

    def apart_from(self, node):
        """no node of the list meets the given one"""
        return self.all('x', lambda x: x.apart(self.eng, node))


def cross(eng, S):
    u, f = BList(eng, S, 'u'), BList(eng, S, 'f')
    return C('used and free big allocations are disjoint', forall('bx', [('b', 64), ('b', 64)],
             lambda i, j: imp(band(ult(i, u.n), ult(j, f.n)), u.N(i).apart(eng, f.N(j))),
             [[('@ul', (0,)), ('@fl', (1,))], [('#', 'b'), ('#', 'b')]]), 'P12', 'P13')


def outside(x, z):
    return solve.opaque('BIGZONE', x.user, x.size, z.user)


def node_zones_apart(S, x):
    n = used(S)
    return forall('bzn', [('k', 64)], lambda k: imp(ult(k, n), outside(x, Zone(S, k))), [[('#', 'k')]])


def zones_apart(eng, S, w):
    l = BList(eng, S, w)
    n = used(S)
    return C('%s big allocations lie outside every zone' % NAME[w], forall('bz' + w, [('b', 64), ('k', 64)],
             lambda i, k: imp(band(ult(i, l.n), ult(k, n)), outside(l.N(i), Zone(S, k))),
             [[(l.key, (0,)), ('#', 'k')]]), 'P12')


def mask_ok(S):
    return C('the random list mask has a bit above the address space', uge(S.leaf('ROOT.big_zone_next_mask'), c64(1 << 47)))


def its(st):
    """iteration counters in scope, as list positions"""
    out = [c64(0)]
    seen = set()
    for x in atoms(st.pc):
        if x.op == 'v' and x.p.startswith('it!') and x.w < 64 and x not in seen:
            seen.add(x)
            t = zext(x, 64)
            out += [t, sub(t, c64(1)), add(t, c64(1))]
    return out


def index_of(eng, st, l, p):
    """list position of node p, proved"""
    for i in its(st):
        if eng.must(st, band(ult(i, l.n), eq(l.N(i).p, p))):
            return i
    return None


def removed(S, key, j):
    old = S.mem_ver(key)
    return Base(freshname(key + '@'), 64, lambda i: ite(ult(i, j), read(old, (i,)), read(old, (add(i, c64(1)),))))


def inserted(S, key, node):
    old = S.mem_ver(key)
    return Base(freshname(key + '@'), 64, lambda i: ite(eq(i, c64(0)), node, read(old, (sub(i, c64(1)),))))


BIGF = ['canary_a', 'free', 'size', 'ttl', 'user_pages_start', 'next', 'canary_b']


class BigContract(Contract):
    deftags = ('P13',)
    frame_default = 'P13'
    abort_tags = ('P13', 'P03')
    must_tags = ('P13',)
    ev_tags = ('P13', 'P13g')
    lists = 'u'

    def bind(self, eng, S0, args):
        a = Contract.bind(self, eng, S0, args)
        eng.big_on = True
        if eng.big_ok is None:
            eng.big_ok = big_ok
        return a

    def nodes(self, a):
        return []

    def wfs(self, eng, S, lists=None):
        ls = lists or self.lists
        # assumed, never re-established: the random mask and the address-space bound on the number of mappings
        out = [mask_ok(S), C('fewer big allocations than the address space has room for', band(*[ult(BList(eng, S, w).n, c64(NLIM)) for w in ls]))]
        for w in ls:
            out += BList(eng, S, w).wf()
        if len(ls) == 2:
            out.append(cross(eng, S))
        return out

    def loop_specs(self, eng, ctx, a):
        from loops import Cand
        out = []
        for w in self.lists:
            nm = NAME[w]
            out += self.visited(eng, ctx, a, w)
            for p in ctx.phis:
                if ctx.entry[p].w != 64:
                    continue
                L = lambda S, w=w: BList(eng, S, w)
                z = c64(0)

                def at(ph, S, it, p=p, L=L):
                    return band(ult(it, L(S).n), eq(ph[p], L(S).N(it).p))

                def at0(ph, S, it, p=p, L=L):
                    return eq(ph[p], ite(ult(it, L(S).n), L(S).N(it).p, z))

                def prev(ph, S, it, p=p, L=L):
                    return eq(ph[p], ite(eq(it, z), z, L(S).N(sub(it, c64(1))).p))
                def raw(ph, S, it, p=p, L=L):
                    return eq(ph[p], ite(ult(it, L(S).n), tm.xor(L(S).N(it).p, L(S).mask), z))
                out += [Cand('%s is node it of the %s list' % (p, nm), at), Cand('%s is node it of the %s list or null' % (p, nm), at0),
                        Cand('%s is the node before it of the %s list' % (p, nm), prev), Cand('%s is the link to node it of the %s list' % (p, nm), raw)]
            out.append(Cand('it within the %s list' % nm, lambda ph, S, it, w=w: ule(it, BList(eng, S, w).n)))
        return out

    def visited(self, eng, ctx, a, w):
        from loops import Cand
        if not canaries(eng):
            return []
        return [Cand('canaries of the visited %s nodes are right' % NAME[w], lambda ph, S, it, w=w: BList(eng, S, w).canaries(it))]


def big_ok(eng, st, base, write):
    a, c = eng.cur_a, eng.cur_c
    S = View(eng, st.mem, st)
    alts = []
    for p in getattr(c, 'nodes', lambda a: [])(a):
        alts.append(eq(base, p))
    for x, k in lin_of(base)[1].items():
        if k == 1 and x in eng.freshsize:
            off = sub(base, x)
            alts.append(ule(off, sub(eng.freshsize[x], c64(SIZEOF))))
    if alts and any(x is TRUE for x in alts):
        return TRUE
    for w in getattr(c, 'lists', 'uf'):
        l = BList(eng, View(eng, eng.cur_S0.mem, st), w)
        for i in its(st) + [x for x in st.hints.get('b', ()) if x.w == 64]:
            alts.append(band(ult(i, l.n), eq(base, l.N(i).p)))
    return bor(*alts)


class FindBig(BigContract):
    name = 'iso_find_big_zone'
    params = ('p', 'remove')
    forbid_locks = ('bigused',)
    must_tags = ('P13', 'P14')
    abort_tags = ('P13', 'P03')

    def cases(self, eng):
        return [('look', lambda e, s: [fresh('p', 64), FALSE]), ('take', lambda e, s: [fresh('p', 64), TRUE])]

    def requires(self, eng, S0, a):
        return self.wfs(eng, S0)

    def inside(self, x, p):
        return band(ugt(p, x.user), ult(p, add(x.user, x.size)))

    def outcomes(self, eng, S0, a):
        l = BList(eng, S0, 'u')
        o1 = Out('there are no big allocations', eq(l.n, c64(0)), abort=True)
        o1.tags = ('P13',)
        o2 = Out('a canary is damaged or the address points into a big allocation', TRUE, abort=True)
        o2.must = False
        o2.unless = [l.all('i', lambda x: bnot(self.inside(x, a.p)))] + ([l.canaries()] if canaries(eng) else [])

        def wit(st):
            e = fresh('bb', 64)
            st.hint('b', e)
            x = l.N(e)
            return band(ult(e, l.n), bor(bnot(x.canary_ok()) if canaries(eng) else FALSE, self.inside(x, a.p)))
        o2.witness = wit
        o3 = Out('none', ret=lambda s: c64(0), pick=lambda r: eq(r, c64(0)))
        o4 = Out('found', pick=lambda r: ne(r, c64(0)))
        if eng.applying:
            j = fresh('jb', 30)
            a.j = zext(j, 64)
            o4.cond = band(ult(a.j, l.n), eq(l.N(a.j).user, a.p))

            def ret(st):
                st.hint('b', a.j)
                return l.N(a.j).p
            o4.ret = ret

        def eff(e, st, a):
            if not e.applying:
                st0 = View(e, e.cur_S0.mem, st)
                a.j = index_of(e, st, BList(e, st0, 'u'), e.final_ret)
            if a.remove is TRUE and a.j is not None:
                st.mem['@ul'] = removed(S0, '@ul', a.j)
        o4.effect = eff
        return [o1, o2, o3, o4]

    def modifies(self, eng, S0, a, oc):
        if oc.name != 'found' or a.remove is FALSE or a.j is None:
            return []
        l = BList(eng, S0, 'u')
        pj = l.N(sub(a.j, c64(1))).p
        return [('@ul', None), ('ROOT.big_zone_used', None), ('ROOT.big_zone_used_count', None),
                ('BIG.next', lambda x: bor(eq(x, l.N(a.j).p), band(ne(a.j, c64(0)), eq(x, pj))))]

    def events(self, eng, S0, S1, a, ret, oc):
        return [('call:iso_find_big_zone', a.p, a.remove, ret, ret)] if eng.applying else []

    def ensures(self, eng, S0, S1, a, ret, oc):
        l = BList(eng, S0, 'u')
        if oc.name == 'none':
            out = [C('nothing is found only when no big allocation starts at the address', l.all('s', lambda x: ne(x.user, a.p)), 'P13')]
            if canaries(eng):
                out.append(C('a walk over the used list checks the canaries of every node', l.canaries(), 'P14'))
            return out
        if a.j is None:
            return [C('the node found is on the used list', FALSE, 'P13')]
        x = l.N(a.j)
        out = [C('the node found is on the used list', band(ult(a.j, l.n), eq(ret, x.p)), 'P13'),
               C('the node found starts at the address', eq(x.user, a.p), 'P13')]
        if canaries(eng):
            out.append(C('the canaries of the node found and of every node before it are right', l.canaries(add(a.j, c64(1))), 'P14'))
        if a.remove is TRUE:
            y = Node(S1, ret)
            u1 = BList(eng, S1, 'u')
            out += [C('the used list is one shorter', eq(u1.n, sub(l.n, c64(1))), 'P13'), C('the removed node is detached', eq(y._('next'), c64(0)), 'P13'),
                    C('the removed node is apart from those that remain', u1.apart_from(y), 'P13'),
                    C('the removed node lies outside every zone', node_zones_apart(S1, y), 'P13'),
                    C('the removed node is well formed', band(y.geometry(), y.own(eng), bnot(y.free)), 'P13')]
            out += self.wfs(eng, S1)[2:]
        return out

    def visited(self, eng, ctx, a, w):
        from loops import Cand
        return BigContract.visited(self, eng, ctx, a, w) + [
            Cand('no visited node starts at the address', lambda ph, S, it: BList(eng, S, w).all('s', lambda x: ne(x.user, a.p), it)),
            Cand('no visited node contains the address', lambda ph, S, it: BList(eng, S, w).all('i', lambda x: bnot(self.inside(x, a.p)), it))]


def multiset(ev, exp, what):
    """the events are exactly the expected ones, in any order"""
    import itertools
    if sorted(e[0] for e in ev) != sorted(x[0] for x in exp):
        return [('%s: expected %s, got %s' % (what, [x[0] for x in exp], [e[0] for e in ev]), FALSE, ())]
    alts = []
    for p in itertools.permutations(exp):
        if all(e[0] == x[0] for e, x in zip(ev, p)):
            alts.append(band(*[band(*[eq(u, v) for u, v in zip(norm(e), norm(x))]) for e, x in zip(ev, p)]))
    return [(what, bor(*alts), ())]


def norm(e):
    if e[0] in ('munmap', 'mprotect', 'mmap'):
        return (e[1], roundup(zx(e[2]))) + tuple(zx(x) for x in e[3:4])
    return tuple(zx(x) for x in e[1:])


class FreeBig(BigContract):
    name = 'iso_free_big_zone'
    params = ('node', 'permanent')
    forbid_locks = ('bigfree',)
    lists = 'uf'

    def cases(self, eng):
        return [('reusable', lambda e, s: [fresh('nd', 64), FALSE]), ('permanent', lambda e, s: [fresh('nd', 64), TRUE])]

    def nodes(self, a):
        return [a.node]

    def requires(self, eng, S0, a):
        x = Node(S0, a.node)
        return self.wfs(eng, S0) + [C('the node is well formed', band(x.geometry(), x.own(eng)), 'P13')] + [
            C('the node is on neither list', BList(eng, S0, w).apart_from(x), 'P13') for w in 'uf'] + [
            C('the node lies outside every zone', node_zones_apart(S0, x), 'P13')]

    def outcomes(self, eng, S0, a):
        x = Node(S0, a.node)
        f = BList(eng, S0, 'f')
        keep = band(bnot(a.permanent), ult(f.n, c64(64)), ult(x._('ttl'), const(16, 32)))
        o1 = Out('the allocation is already free', x.free, abort=True)
        o2 = Out('kept', keep)

        def eff(e, st, a):
            st.mem['@fl'] = inserted(S0, '@fl', a.node)
        o2.effect = eff
        return [o1, oom(), o2, Out('unmapped', band(bnot(keep), bnot(a.permanent))), Out('retired', a.permanent)]

    def modifies(self, eng, S0, a, oc):
        n = [('BIG.' + f, (a.node,)) for f in BIGF + ['pad7']]
        if oc.name == 'kept':
            return [('BIG.free', (a.node,)), ('BIG.next', (a.node,)), ('@fl', None), ('ROOT.big_zone_free', None), ('ROOT.big_zone_free_count', None)]
        return n

    def events(self, eng, S0, S1, a, ret, oc):
        return [('call:iso_free_big_zone', a.node, a.permanent, None)] if eng.applying else []

    def ensures(self, eng, S0, S1, a, ret, oc):
        out = self.wfs(eng, S1)[2:]
        if oc.name == 'kept':
            f0, f1 = BList(eng, S0, 'f'), BList(eng, S1, 'f')
            out += [C('the free list is one longer', eq(f1.n, add(f0.n, c64(1))), 'P13'),
                    C('the node is marked free', Node(S1, a.node).free, 'P13')]
        return out

    def check_events(self, eng, S0, S1, a, ret, oc, ev):
        x = Node(S0, a.node)
        g = guard(eng)
        g2 = add(g, g)
        pg = page(a.node)
        pages = c64(PAGE)
        adv = [e for e in ev if e[0] == 'madvise']
        oth = [e for e in ev if e[0] != 'madvise']
        none = c64(0)
        out = []
        if oc.name == 'kept':
            if len(adv) != 1:
                return [('the pages are offered back to the system once', FALSE, ())]
            e = adv[0]
            out = [('exactly the memory of the allocation is offered back', band(eq(e[1], x.user), eq(zx(e[2]), x.size), bor(eq(e[3], const(4, 32)), eq(e[3], const(8, 32)))), ())]
            exp = [('mprotect', x.user, x.size, none)] if eng.cfg == 'guard' else []
            return out + multiset(oth, exp, 'memory kept for reuse stays mapped' + (' and is made inaccessible' if exp else ''))
        for e in adv:
            out.append(('advice stays inside the allocation', band(uge(e[1], x.user), ule(sub(e[1], x.user), x.size), ule(zx(e[2]), sub(x.size, sub(e[1], x.user)))), ()))
        if oc.name == 'retired':
            return out + multiset(oth, [('mprotect', x.user, x.size, none), ('mprotect', pg, pages, none)], 'memory and metadata are made inaccessible')
        return out + multiset(oth, [('munmap', sub(x.user, g), add(x.size, g2)), ('munmap', sub(pg, g), add(pages, g2))],
                              'exactly the memory, the metadata and their guards are unmapped')


class BigAlloc(BigContract):
    name = '_iso_big_alloc'
    params = ('size',)
    forbid_locks = ('bigfree', 'bigused', 'root')
    lists = 'uf'
    deftags = ('P12',)
    frame_default = 'P12'
    ev_tags = ('P12', 'P12g')
    must_tags = ('P12',)
    abort_tags = ('P12', 'P03')

    def build(self, eng, st):
        return [fresh('size', 64)]

    def requires(self, eng, S0, a):
        w = RW(eng, S0)
        return self.wfs(eng, S0) + [w.bounds(), w.addr(), w.geo()]

    def outcomes(self, eng, S0, a):
        r = roundup(a.size)
        bad = bor(ult(r, a.size), ugt(r, c64(BIGMAX)), ult(a.size, c64(SMALL)))
        f = BList(eng, S0, 'f')
        out = [Out('refused', bad, ret=lambda s: c64(0))]
        if eng.cfg == 'abortnull':
            out = [Out('refused', bad, abort=True)]
        o = Out('a canary of a free big allocation is damaged', TRUE, abort=True)
        o.must = False
        o.unless = [f.canaries()] if canaries(eng) else []

        def wit(st):
            if not canaries(eng):
                return FALSE
            e = fresh('bb', 64)
            st.hint('b', e)
            return band(ult(e, f.n), bnot(f.N(e).canary_ok()))
        o.witness = wit
        if o.unless:
            o.unless = o.unless + [bnot(bad)] if eng.cfg == 'abortnull' else o.unless
            out.append(o)
        reuse, new = Out('recycled', bnot(bad)), Out('mapped', bnot(bad))
        reuse.spick = lambda s, v: FALSE if any(e[0] == 'mmap' for e in s.ev) else TRUE
        new.spick = lambda s, v: TRUE if any(e[0] == 'mmap' for e in s.ev) else FALSE
        if eng.applying:
            j = zext(fresh('jb', 30), 64)
            a.j = j
            reuse.cond = band(bnot(bad), ult(j, f.n))
            nd = {'recycled': f.N(j).p, 'mapped': fresh('nd', 64)}

        def eff(oc):
            def g(e, st, a):
                if e.applying:
                    a.node = nd[oc.name]
                else:
                    cur = View(e, st.mem, st)
                    a.node = tm.xor(cur.leaf('ROOT.big_zone_used'), S0.leaf('ROOT.big_zone_next_mask'))
                    a.j = index_of(e, st, BList(e, View(e, e.cur_S0.mem, st), 'f'), a.node) if oc.name == 'recycled' else None
                if oc.name == 'recycled' and a.j is not None:
                    st.mem['@fl'] = removed(S0, '@fl', a.j)
                st.mem['@ul'] = inserted(S0, '@ul', a.node)
            return g
        for o in (reuse, new):
            o.effect = eff(o)
            o.ret = lambda st: View(eng, st.mem, st).leaf('BIG.user_pages_start', a.node)
        return out + [oom(), reuse, new]

    def modifies(self, eng, S0, a, oc):
        if oc.name == 'refused':
            return []
        out = [('ROOT.seed', None), ('@ul', None), ('ROOT.big_zone_used', None), ('ROOT.big_zone_used_count', None)]
        node = lambda: a.node
        if oc.name == 'recycled':
            f = BList(eng, S0, 'f')
            if eng.applying:
                a.node = f.N(a.j).p
            if a.j is None:
                return out
            pj = f.N(sub(a.j, c64(1))).p
            out += [('@fl', None), ('ROOT.big_zone_free', None), ('ROOT.big_zone_free_count', None), ('BIG.free', (a.node,)), ('BIG.ttl', (a.node,)),
                    ('BIG.next', lambda x: bor(eq(x, a.node), band(ne(a.j, c64(0)), eq(x, pj))))]
        else:
            out += [('BIG.' + f, lambda x: eq(x, a.node)) for f in BIGF]
        return out

    def events(self, eng, S0, S1, a, ret, oc):
        return [('call:_iso_big_alloc', a.size, ret)] if eng.applying else []

    def ensures(self, eng, S0, S1, a, ret, oc):
        if oc.name == 'refused':
            return [C('an impossible request gives null', eq(ret, c64(0)), 'P12')]
        if oc.name == 'recycled' and a.j is None:
            return [C('a recycled mapping comes from the free list', FALSE, 'P12')]
        x = Node(S1, a.node)
        r = roundup(a.size)
        u0, u1 = BList(eng, S0, 'u'), BList(eng, S1, 'u')
        f0, f1 = BList(eng, S0, 'f'), BList(eng, S1, 'f')
        out = [C('the memory of the new head of the used list is returned', eq(ret, x.user), 'P12'),
               C('page aligned', eq(and_(ret, c64(PAGE - 1)), c64(0)), 'P12'),
               C('at least as big as requested', uge(x.size, a.size), 'P12'),
               C('recorded once: the used list is one longer', eq(u1.n, add(u0.n, c64(1))), 'P12')]
        if canaries(eng):
            out.append(C('its metadata carries the right canaries', x.canary_ok(), 'P14'))
        if oc.name == 'recycled':
            out += [C('a recycled mapping comes from the free list', band(ult(a.j, f0.n), eq(a.node, f0.N(a.j).p)), 'P12'),
                    C('a recycled mapping wastes no more than the limit', ule(sub(x.size, r), c64(16384)), 'P12'),
                    C('the free list is one shorter', eq(f1.n, sub(f0.n, c64(1))), 'P12'),
                    C('a recycled mapping gets older', eq(x._('ttl'), add(Node(S0, a.node)._('ttl'), const(1, 32))), 'P12')]
            if canaries(eng):
                out.append(C('the canaries of a recycled node and of every free node before it are right', f0.canaries(add(a.j, c64(1))), 'P14'))
        else:
            out += [C('a new mapping is the request rounded up to pages', eq(x.size, r), 'P12'), C('the free list keeps its length', eq(f1.n, f0.n), 'P12')]
            if canaries(eng):
                out.append(C('a new mapping is made only after the canaries of every free node were found right', f0.canaries(), 'P14'))
        return out + self.wfs(eng, S1)[2:]

    def check_events(self, eng, S0, S1, a, ret, oc, ev):
        if oc.name == 'refused':
            return multiset(ev, [], 'an impossible request maps nothing')
        g = guard(eng)
        g2 = add(g, g)
        if oc.name == 'recycled':
            x = Node(S1, a.node)
            exp = [('mprotect', x.user, x.size, c64(3))] if eng.cfg == 'guard' else []
            return multiset([e for e in ev if e[0] != 'madvise'], exp, 'a recycled mapping is ' + ('made accessible again' if exp else 'used as it is')) + [
                ('no advice on recycled memory', FALSE, ()) for e in ev if e[0] == 'madvise'][:1]
        x = Node(S1, a.node)
        ml, pl = add(roundup(a.size), g2), add(c64(PAGE), g2)
        ub, pb = sub(x.user, g), sub(page(a.node), g)
        exp = [('mmap', ub, ml, c64(3)), ('mmap', pb, pl, c64(3))]
        if eng.cfg == 'guard':
            z = c64(0)
            exp += [('mprotect', p, c64(PAGE), z) for p in (ub, sub(add(ub, ml), g), pb, sub(add(pb, pl), g))]
        out = multiset([e for e in ev if e[0] != 'madvise'], exp, 'exactly the memory and one metadata page are mapped' + (', each between guard pages' if eng.cfg == 'guard' else ''))
        for e in ev:
            if e[0] == 'madvise':
                out.append(('advice stays inside the new mappings', bor(*[band(uge(e[1], m[1]), ule(sub(e[1], m[1]), zx(m[2])),
                            ule(zx(e[2]), sub(zx(m[2]), sub(e[1], m[1])))) for m in ev if m[0] == 'mmap']), ()))
        return out

    def visited(self, eng, ctx, a, w):
        return BigContract.visited(self, eng, ctx, a, w) if w == 'f' else []


CONTRACTS = [FindBig(), FreeBig(), BigAlloc()]
