"""The middle layer: frees, the quarantine, sizes and the thread cache.  Callees that have a state contract are used
through it; the others appear as recorded calls."""
from core import *
from zone import *
from root import RW, used, KP, kpat, inzone, wasteful
import big
from big import BList, Node

QCAP = 64


def flag(t):
    return t if t.w == 0 else ne(and_(t, const(1, t.w)), const(0, t.w))


class Mid(Contract):
    verify_only = True
    recorded = {}          # name -> width of the result
    deftags = ('P13',)

    def record(self, eng):
        for n, w in self.recorded.items():
            def f(e, st, args, ins, n=n, w=w):
                st = st.copy()
                r = None if w is None else fresh('r_' + n, w)
                st.ev = st.ev + (('call:' + n,) + tuple(args) + (r,),)
                cnt = read(e.ver(st.mem, '@cn'), (c64(0),))
                if args:
                    st.mem['@cp'] = Store(e.ver(st.mem, '@cp'), (cnt,), args[0])
                    st.mem['@cn'] = Store(e.ver(st.mem, '@cn'), (c64(0),), add(cnt, c64(1)))
                return [('ret', st, r)]
            eng.externs[n] = f
            eng.contracts.pop(n, None)

    def cases(self, eng):
        eng.leafw['@cn'] = eng.leafw['@cp'] = 64     # ghost: how many calls were recorded, and their first arguments
        return self.mycases(eng)

    def mycases(self, eng):
        return [('', self.mk)]

    def mk(self, eng, st):
        self.record(eng)
        return [fresh(n, w) for n, w in self.extra]

    extra = ()

    def calls(self, ev):
        return [(e[0][5:], e[1:-1], e[-1]) for e in ev if e[0].startswith('call:')]

    def modifies(self, eng, S0, a, oc):
        return [('@cn', None), ('@cp', None)]


def exact(cs, exp, what):
    """the calls are exactly these: (name, args), None where an argument is free"""
    if [c[0] for c in cs] != [x[0] for x in exp]:
        return [('%s: expected calls of %s, got %s' % (what, [x[0] for x in exp], [c[0] for c in cs]), FALSE, ())]
    out = []
    for c, x in zip(cs, exp):
        out.append(('%s: arguments of %s' % (what, c[0]), band(*[imp(TRUE, iff(flag(g), flag(y)) if g.w == 0 or y.w == 0 else eq(zx(g), zx(y)))
                                                                 for g, y in zip(c[1], x[1]) if y is not None]), ()))
    return out


def zone_lookup(w):
    return [w.bounds(), w.clt(), w.zc(), w.zcn(), w.geo(), w.addr()]


class UsesBig(big.BigContract):
    """mixin: the list invariant as a precondition"""


class ChunkSize(Mid, big.BigContract):
    name = '_iso_chunk_size'
    params = ('p',)
    extra = (('p', 64),)
    deftags = ('P18',)
    frame_default = 'P18'
    ev_tags = ('P18',)
    abort_tags = ('P18',)
    must_tags = ('P18',)
    forbid_locks = ('root', 'bigused')
    lists = 'u'

    def bind(self, eng, S0, args):
        return big.BigContract.bind(self, eng, S0, args)

    def requires(self, eng, S0, a):
        return zone_lookup(RW(eng, S0)) + self.wfs(eng, S0)

    def zero(self, eng, S0, a):
        return FALSE if eng.cfg == 'zero0' else eq(a.p, S0.leaf('ROOT.zero_alloc_page'))

    def outcomes(self, eng, S0, a):
        l = BList(eng, S0, 'u')
        o = Out('not a live allocation', TRUE, abort=True)
        o.must = False
        # no abort for the start of a live big allocation as long as the metadata is intact, nor for a chunk address
        def unless(st):
            j = zext(fresh('jl', 30), 64)
            k = zext(fresh('kl', 13), 64)
            st.hint('b', j)
            st.hint('k', k)
            live = bor(band(ult(j, l.n), eq(l.N(j).user, a.p)), band(ult(k, used(S0)), inzone(Zone(S0, k), a.p)))
            return [live] + ([l.canaries()] if big.canaries(eng) else [])
        o.unless = unless
        null = bor(eq(a.p, c64(0)), self.zero(eng, S0, a))
        return [o, Out('nothing', null, ret=lambda s: c64(0)), Out('size', bnot(null))]

    def modifies(self, eng, S0, a, oc):
        return []

    def ensures(self, eng, S0, S1, a, ret, oc):
        if oc.name == 'nothing':
            return [C('a null pointer or the zero page has no size', eq(ret, c64(0)), 'P18', 'P24')]
        n = used(S0)
        l = BList(eng, S0, 'u')
        chunk = forall('szk', KP, lambda k: imp(band(ult(k, n), inzone(Zone(S0, k), a.p)), eq(ret, Zone(S0, k).cs)), kpat())
        bigs = [e for e in eng.final_ev if e[0] == 'call:iso_find_big_zone']
        out = []
        if not bigs:
            ks = eng.final_hint_k
            out.append(C('the size of a chunk is the chunk size of its zone', bor(*[band(ult(k, n), inzone(Zone(S0, k), a.p), eq(ret, Zone(S0, k).cs)) for k in ks]), 'P18'))
        else:
            out.append(C('no zone holds the address', forall('nzk', KP, lambda k: imp(ult(k, n), bnot(inzone(Zone(S0, k), a.p))), kpat()), 'P18'))
            x = Node(S0, bigs[0][3])
            out.append(C('the size of a big allocation is the one recorded for the allocation that starts at the address',
                         band(eq(x.user, a.p), eq(ret, x.size)), 'P18'))
        return out

    def check_events(self, eng, S0, S1, a, ret, oc, ev):
        cs = self.calls(ev)
        if oc.name == 'nothing':
            return exact(cs, [], 'nothing is looked up')
        out = [('a big allocation is looked up, not removed', bnot(flag(c[1][1])), ()) for c in cs if c[0] == 'iso_find_big_zone']
        return out + [('the system is not asked for anything', FALSE, ()) for e in ev if not e[0].startswith('call:')][:1]


class FreeUnlocked(Mid, big.BigContract):
    """route one free to its zone or to the big allocation that starts at the address"""
    name = '_iso_free_internal_unlocked'
    params = ('p', 'permanent', 'zone')
    deftags = ('P13',)
    frame_default = 'P13'
    ev_tags = ('P13', 'P06', 'P21')
    abort_tags = ('P13', 'P04')
    must_tags = ('P13',)
    need_locks = ('root',)
    forbid_locks = ('bigused', 'bigfree')
    lists = 'uf'
    recorded = {'_iso_alloc_destroy_zone_unlocked': None, '_iso_alloc_ptr_search': 64}

    def bind(self, eng, S0, args):
        a = big.BigContract.bind(self, eng, S0, args)
        a.k = None if is_c(a.zone) else eng.model.zidx(a.zone)
        if a.k is not None and S0.st is not None:
            S0.st.hint('k', a.k)
        return a

    def mycases(self, eng):
        def shared(e, st):
            self.record(e)
            return [userptr(e), fresh('permanent', 0), c64(0)]

        def private(e, st):
            self.record(e)
            return [userptr(e), fresh('permanent', 0), zparam(e, st)]
        return [('zone to be found', shared), ('zone given', private)]

    def requires(self, eng, S0, a):
        w = RW(eng, S0)
        out = zone_lookup(w) + self.wfs(eng, S0) + [C('retirement shift', ule(zx(S0.leaf('ROOT.zone_retirement_shf')), c64(8)))]
        if a.k is not None:
            out.append(C('the zone exists', ult(a.k, used(S0))))
        return out

    def outcomes(self, eng, S0, a):
        return [Out('big', pick=lambda r: eq(r, c64(0))), Out('chunk', pick=lambda r: ne(r, c64(0))), oom()] + [self.ab(eng, S0, a)]

    def ab(self, eng, S0, a):
        o = Out('not a live allocation', TRUE, abort=True)
        o.must = False
        return o

    def modifies(self, eng, S0, a, oc):
        # what the contracts of the callees allow; the quarantine, the tables and the caches are not among it
        keys = set(S0.mem) | set(eng.final_S1.mem)
        return [(k, None) for k in keys if k.startswith(('ZS.', 'BIG.', 'PM.', '@', 'ROOT.big', 'ROOT.seed')) and not k.startswith('@zone_cache')
                and k not in ('ZS.user_pages_start', 'ZS.bitmap_start', 'ZS.pointer_mask')]

    def ensures(self, eng, S0, S1, a, ret, oc):
        return []

    def check_events(self, eng, S0, S1, a, ret, oc, ev):
        cs = self.calls(ev)
        if oc.name == 'big':
            out = exact(cs, [('iso_find_big_zone', (a.p, TRUE, None)), ('iso_free_big_zone', (None, a.permanent))], 'a big allocation is looked up, removed and freed once')
            if out[0][1] is FALSE:
                return out
            node = cs[0][2]
            n = used(S0)
            return out + [('what is freed is the allocation that was removed', eq(cs[1][1][0], node), ()),
                          ('it starts at the address', eq(Node(S0, node).user, a.p), ()),
                          ('no zone holds the address', forall('nzk', KP, lambda k: imp(ult(k, n), bnot(inzone(Zone(S0, k), a.p))), kpat()), ())]
        fr = [c for c in cs if c[0] == 'iso_free_chunk_from_zone']
        if len(fr) != 1 or any(c[0].startswith(('iso_find_big', 'iso_free_big')) for c in cs):
            return [('a chunk is freed in its zone exactly once (got %s)' % [c[0] for c in cs], FALSE, ())]
        z, p, perm = fr[0][1]
        k = eng.model.zidx(z)
        out = [('the chunk freed is the one at the address', eq(p, a.p), ()), ('freed permanently only when asked to', iff(flag(perm), flag(a.permanent)), ()),
               ('the zone is returned', eq(ret, z), ())]
        if a.k is not None:
            out.append(('the zone is the one given', eq(z, a.zone), ()))
        else:
            out.append(('the zone is the one that holds the address', band(ult(k, used(S0)), inzone(Zone(S0, k), a.p)), ()))
        for c in cs:
            if c[0] == '_iso_alloc_destroy_zone_unlocked':
                zz = Zone(S1, k)
                out.append(('only the zone that was freed into is ever retired, in place', band(eq(c[1][0], z), bnot(flag(c[1][1])), flag(c[1][2])), ('P11',)))
                out.append(('a zone is retired only when it is internal and none of its chunks is in use', band(zz.internal, eq(zz._('af_count'), const(0, 32))), ('P11',)))
        return out


class FreeInternal(Mid):
    name = '_iso_free_internal'
    params = ('p', 'permanent')
    extra = (('p', 64), ('permanent', 0))
    recorded = {'_iso_free_internal_unlocked': 64, 'populate_zone_cache': None}
    ev_tags = ('P13', 'P06', 'P36')
    forbid_locks = ('root',)

    def check_events(self, eng, S0, S1, a, ret, oc, ev):
        cs = self.calls(ev)
        f = [c for c in cs if c[0] == '_iso_free_internal_unlocked']
        out = exact(f, [('_iso_free_internal_unlocked', (a.p, a.permanent, c64(0)))], 'freed exactly once')
        for c in cs:
            if c[0] == 'populate_zone_cache' and f:
                out.append(('only the zone that was freed into is cached', band(ne(f[0][2], c64(0)), eq(c[1][0], f[0][2])), ('P36',)))
        return out


class FreeFromZone(Mid):
    name = '_iso_free_from_zone'
    params = ('p', 'zone', 'permanent')
    recorded = {'_iso_free_internal_unlocked': 64}
    ev_tags = ('P13', 'P06', 'P05', 'P21', 'P37')
    forbid_locks = ('root',)

    def mycases(self, eng):
        def null(e, st):
            self.record(e)
            return [fresh('p', 64), c64(0), fresh('permanent', 0)]

        def zone(e, st):
            self.record(e)
            return [userptr(e), zparam(e, st), fresh('permanent', 0)]
        return [('no zone', null), ('zone', zone)]

    def requires(self, eng, S0, a):
        return []

    def check_events(self, eng, S0, S1, a, ret, oc, ev):
        cs = self.calls(ev)
        if is_c(a.zone):
            return exact(cs, [], 'nothing is freed without a zone')
        if not cs:
            return [('nothing is freed only when the pointer is null', eq(a.p, c64(0)), ())]
        return exact(cs, [('_iso_free_internal_unlocked', (a.p, a.permanent, a.zone))], 'freed exactly once, in the given zone')


class Quarantine(Mid):
    """frees that wait"""
    recorded = {'_iso_free_internal_unlocked': 64, 'clear_zone_cache': None, '_iso_free_internal': None}
    deftags = ev_tags = ('P08',)
    frame_default = 'P08'
    abort_tags = ('P08', 'P03')
    must_tags = ('P08',)

    def Q(self, S, i):
        return S.leaf('QUAR', i)

    def n(self, S):
        return S.leaf('ROOT.chunk_quarantine_count')

    def requires(self, eng, S0, a):
        return [C('the quarantine is within its capacity', ule(self.n(S0), c64(QCAP)), 'P08'),
                C('no free recorded yet', eq(S0.leaf('@cn', c64(0)), c64(0)))]

    def modifies(self, eng, S0, a, oc):
        return [('@cn', None), ('@cp', None), ('QUAR', None), ('ROOT.chunk_quarantine_count', None)]

    def flushed(self, eng, S0, S1):
        n = self.n(S0)
        return C('every quarantined chunk is freed exactly once, in order',
                 [eq(S1.leaf('@cn', c64(0)), n), forall('qf', [('i', 64)], lambda i: imp(ult(i, n), eq(S1.leaf('@cp', i), self.Q(S0, i))), [[('#', 'i')], [('@cp', (0,))]])], 'P08')

    def cleared(self, S1, lo=0):
        return forall('qz', [('i', 64)], lambda i: imp(band(uge(i, c64(lo)), ult(i, c64(QCAP))), eq(self.Q(S1, i), c64(0))), [[('#', 'i')]])

    def loop_specs(self, eng, ctx, a):
        from loops import Cand
        S0 = eng.cur_S0

        def cnt(ph, S, it):
            return eq(S.leaf('@cn', c64(0)), it)

        def all_(ph, S, it):
            return forall('qf', [('i', 64)], lambda i: imp(ult(i, it), eq(S.leaf('@cp', i), self.Q(S0, i))), [[('#', 'i')], [('@cp', (0,))]])
        return [Cand('one free per iteration', cnt), Cand('what was freed are the first entries', all_),
                Cand('within the quarantine', lambda ph, S, it: ule(it, self.n(S0)))]

    def rec_ok(self, ev):
        """the calls of the loop were recorded with their arguments; nothing else happened"""
        return [('only frees of quarantined chunks', FALSE, ()) for e in ev if not e[0].startswith(('call:', '?'))][:1]


class FlushQuarantine(Quarantine):
    name = 'flush_chunk_quarantine'
    params = ()
    need_locks = ('root',)

    def ensures(self, eng, S0, S1, a, ret, oc):
        return [self.flushed(eng, S0, S1), C('the quarantine is empty afterwards', eq(self.n(S1), c64(0)), 'P08'),
                C('no entry is left behind', self.cleared(S1), 'P08')]

    def check_events(self, eng, S0, S1, a, ret, oc, ev):
        return self.rec_ok(ev)


class FlushCaches(Quarantine):
    name = 'flush_caches'
    params = ()
    forbid_locks = ('root',)
    ev_tags = ('P08', 'P36')
    recorded = {'_iso_free_internal_unlocked': 64}

    def modifies(self, eng, S0, a, oc):
        return Quarantine.modifies(self, eng, S0, a, oc) + [('@zone_cache.zone', None), ('@zone_cache.chunk_size', None), ('@zone_cache_count', None), ('@zc', None)]

    def ensures(self, eng, S0, S1, a, ret, oc):
        return [self.flushed(eng, S0, S1), C('the quarantine is empty afterwards', eq(self.n(S1), c64(0)), 'P08'),
                C('the thread cache is empty afterwards', eq(S1.g('zone_cache_count'), c64(0)), 'P36')]

    def check_events(self, eng, S0, S1, a, ret, oc, ev):
        return self.rec_ok(ev)


class FreeDelayed(Quarantine):
    """the public free: now, or through the quarantine"""
    name = '_iso_free'
    params = ('p', 'permanent')
    extra = (('p', 64), ('permanent', 0))
    forbid_locks = ('root',)
    ev_tags = ('P08', 'P24', 'P06', 'P13')
    must_tags = ('P08',)
    recorded = {'_iso_free_internal_unlocked': 64, '_iso_free_internal': None, '_iso_free_profile': None}

    def never_aborts(self, eng, S0, a):
        return [] if eng.cfg == 'zero0' else [('a free of an allocation of size zero', band(eq(a.p, S0.leaf('ROOT.zero_alloc_page')), eq(and_(a.p, c64(4095)), c64(0))), ('P24',))]

    def nothing(self, eng, S0, a):
        z = FALSE if eng.cfg == 'zero0' else eq(a.p, S0.leaf('ROOT.zero_alloc_page'))
        return bor(eq(a.p, c64(0)), z)

    def outcomes(self, eng, S0, a):
        odd = ne(and_(a.p, c64(7)), c64(0))
        no = self.nothing(eng, S0, a)
        ok = band(bnot(odd), bnot(no))
        perm = flag(a.permanent)
        full = uge(self.n(S0), c64(QCAP))
        return [Out('a pointer that is not aligned', odd, abort=True), Out('nothing', band(no, bnot(odd))), Out('permanent', band(ok, perm)),
                Out('queued', band(ok, bnot(perm), bnot(full))), Out('flushed', band(ok, bnot(perm), full))]

    def modifies(self, eng, S0, a, oc):
        if oc.name == 'nothing':
            return []
        if oc.name == 'permanent':
            return [('@cn', None), ('@cp', None)]
        if oc.name == 'queued':
            return [('QUAR', (self.n(S0),)), ('ROOT.chunk_quarantine_count', None), ('@cn', None), ('@cp', None)]
        return Quarantine.modifies(self, eng, S0, a, oc)

    def ensures(self, eng, S0, S1, a, ret, oc):
        n = self.n(S0)
        cap = C('the quarantine is within its capacity', ule(self.n(S1), c64(QCAP)), 'P08')
        if oc.name == 'queued':
            return [cap, C('the chunk waits in the next entry of the quarantine', band(eq(self.Q(S1, n), a.p), eq(self.n(S1), add(n, c64(1)))), 'P08')]
        if oc.name == 'flushed':
            return [cap, self.flushed(eng, S0, S1), C('the chunk waits in the first entry of the emptied quarantine', band(eq(self.Q(S1, c64(0)), a.p), eq(self.n(S1), c64(1))), 'P08'),
                    C('no other entry is left behind', self.cleared(S1, 1), 'P08')]
        return []

    def check_events(self, eng, S0, S1, a, ret, oc, ev):
        cs = [c for c in self.calls(ev) if c[0] != '_iso_free_profile']
        if oc.name == 'nothing':
            return exact(cs, [], 'nothing is freed')
        if oc.name == 'permanent':
            return exact(cs, [('_iso_free_internal', (a.p, TRUE))], 'a permanent free does not wait')
        if oc.name == 'queued':
            return exact(cs, [], 'nothing is freed while there is room')
        return self.rec_ok(ev)


class FreeSize(Mid, big.BigContract):
    name = '_iso_free_size'
    params = ('p', 'size')
    extra = (('p', 64), ('size', 64))
    deftags = ('P31',)
    frame_default = 'P31'
    ev_tags = ('P31', 'P24', 'P13')
    abort_tags = ('P31', 'P03')
    must_tags = ('P31', 'P24')
    forbid_locks = ('root', 'bigused', 'bigfree')
    lists = 'uf'
    recorded = {'_iso_free_internal_unlocked': 64}

    def bind(self, eng, S0, args):
        return big.BigContract.bind(self, eng, S0, args)

    def requires(self, eng, S0, a):
        return zone_lookup(RW(eng, S0)) + [RW(eng, S0).disj_user()] + self.wfs(eng, S0)

    def outcomes(self, eng, S0, a):
        null = eq(a.p, c64(0))
        z = FALSE if eng.cfg == 'zero0' else band(bnot(null), eq(a.p, S0.leaf('ROOT.zero_alloc_page')))
        live = band(bnot(null), bnot(z))
        isbig = ugt(a.size, c64(65536))
        wrong = Out('not a live allocation of that size', TRUE, abort=True)
        wrong.must = False
        l = BList(eng, S0, 'u')

        def unless(st):
            j = zext(fresh('jl', 30), 64)
            k = zext(fresh('kl', 13), 64)
            st.hint('b', j)
            st.hint('k', k)
            return [mkgood(j, k)] + ([l.canaries()] if big.canaries(eng) else [])

        def mkgood(j, k):
            return bor(null, band(z, eq(a.size, c64(0))),
                   band(live, isbig, ult(j, l.n), eq(l.N(j).user, a.p), uge(l.N(j).size, a.size)),
                   band(live, bnot(isbig), ult(k, used(S0)), inzone(Zone(S0, k), a.p), uge(Zone(S0, k).cs, a.size)))
        wrong.unless = unless
        return [Out('the zero page with a size', band(z, ne(a.size, c64(0))), abort=True), wrong, oom(), Out('nothing', bor(null, z)),
                Out('big', band(live, isbig)), Out('chunk', band(live, bnot(isbig)))]

    def never_aborts(self, eng, S0, a):
        return [] if eng.cfg == 'zero0' else [('a free of an allocation of size zero', band(eq(a.p, S0.leaf('ROOT.zero_alloc_page')), eq(a.size, c64(0))), ('P24',))]

    def modifies(self, eng, S0, a, oc):
        keys = set(S0.mem) | set(eng.final_S1.mem)
        if oc.name == 'nothing':
            return []
        if oc.name == 'chunk':
            return [('@cn', None), ('@cp', None)]
        return [(k, None) for k in keys if k.startswith(('BIG.', '@', 'ROOT.big')) and not k.startswith('@zone_cache')]

    def check_events(self, eng, S0, S1, a, ret, oc, ev):
        cs = self.calls(ev)
        if oc.name == 'nothing':
            return exact(cs, [], 'nothing is freed')
        if oc.name == 'big':
            out = exact(cs, [('iso_find_big_zone', (a.p, TRUE, None)), ('iso_free_big_zone', (None, FALSE))], 'a big allocation is looked up, removed and freed once')
            if out[0][1] is FALSE:
                return out
            x = Node(S0, cs[0][2])
            return out + [('what is freed is the allocation that was removed', eq(cs[1][1][0], cs[0][2]), ()),
                          ('the allocation is at least as big as the stated size', band(eq(x.user, a.p), uge(x.size, a.size)), ())]
        out = exact(cs, [('_iso_free_internal_unlocked', (a.p, FALSE, None))], 'the chunk is freed exactly once')
        if out[0][1] is FALSE:
            return out
        z = cs[0][1][2]
        k = eng.model.zidx(z)
        if k is None:
            return out + [('the zone of the chunk is passed on', FALSE, ())]
        zz = Zone(S0, k)
        return out + [('the chunk is freed in the zone that holds it', band(ult(k, used(S0)), inzone(zz, a.p)), ()),
                      ('the chunks of that zone are at least as big as the stated size', uge(zz.cs, a.size), ())]


CONTRACTS = [ChunkSize(), FreeUnlocked(), FreeInternal(), FreeFromZone(), FlushQuarantine(), FlushCaches(), FreeDelayed(), FreeSize()]
