"""Allocation of small chunks: the zone cache, the choice of a zone, a new zone when none fits."""
from core import *
from zone import *
from root import RW, used, KP, kpat, inzone, inbm, wasteful, DYN
from route import Mid, flag, exact
from sound import slot_sound


def soundall(eng, S):
    """no chunk that carries a canary has been damaged, in any zone"""
    n = used(S)
    return forall('sndall', [('k', 64), ('s', 64)], lambda k, e: imp(ult(k, n), slot_sound(Zone(S, k), e)), [[('#', 'k'), ('#', 's')]])


def wellformed(eng, S):
    w = RW(eng, S)
    return w.static() + w.dyn() + w.tables() + w.caches()


class NewZone(Contract):
    """a fresh zone at the end of the array, or in place of the zone at an index"""
    name = '_iso_new_zone'
    params = ('size', 'internal', 'index')
    need_locks = ('root',)
    deftags = ('P10',)
    frame_default = 'P10'
    abort_tags = ('P10',)
    must_tags = ('P10',)
    assumed = True

    def neg(self, a):
        return slt(a.index, const(0, 32))

    def outcomes(self, eng, S0, a):
        idx = a.index
        full = bor(band(self.neg(a), uge(used(S0), c64(MAXZ))), sle(const(MAXZ, 32), idx))
        big = ugt(a.size, c64(65536))
        ok = band(bnot(full), bnot(big))
        new = band(ok, self.neg(a))
        return [Out('too many zones', full, abort=True), oom(), Out('too big', band(bnot(full), big), ret=lambda s: c64(0)),
                Out('new', new, ret=lambda s: eng.model.zaddr(used(S0))),
                Out('replaced', band(ok, bnot(self.neg(a))), ret=lambda s: eng.model.zaddr(zext(idx, 64)))]

    def events(self, eng, S0, S1, a, ret, oc):
        return [('call:_iso_new_zone', a.size, a.internal, a.index, ret)] if eng.applying else []

    def modifies(self, eng, S0, a, oc):
        if oc.name == 'too big':
            return []
        k = used(S0) if oc.name == 'new' else zext(a.index, 64)
        out = [('ROOT.seed', None), ('ROOT.bitmaps.in_use', None), ('CLT', None), ('ROOT.zone_lookup_table', None), ('PM.U', None), ('PM.B', None)]
        for f in eng.model.zone_leaves():
            out.append((f, (k, None) if f == 'ZS.free_bit_slots' else (k,)))
        if oc.name == 'new':
            out.append(('ROOT.zones_used', None))
        return out

    def frame_tag(self, key):
        return ('P10', 'P01', 'P27') if key.startswith('ZS.') else ('P10',)

    def rounded(self, size):
        return ite(ult(size, c64(32)), c64(32), and_(add(size, c64(31)), c64(-32 & (2**64 - 1))))

    def ensures(self, eng, S0, S1, a, ret, oc):
        if oc.name == 'too big':
            return []
        k = used(S0) if oc.name == 'new' else zext(a.index, 64)
        z = Zone(S1, k)
        out = [C('the zone holds chunks of the size asked for, rounded up', eq(z.cs, self.rounded(a.size)), 'P10', 'P02'),
               C('the zone is internal exactly when asked for', iff(z.internal, flag(a.internal)), 'P10', 'P37'),
               C('the zone has a free slot pending', band(ne(z.next, BAD), z.slot_ok(z.next), z.free(z.next)), 'P10', 'P03'),
               C('the zone is not full', bnot(z.full), 'P10', 'P03'),
               C('nothing in it is in use', eq(z._('af_count'), const(0, 32)), 'P10')]
        if oc.name == 'new':
            out.append(C('there is one more zone', eq(used(S1), add(used(S0), c64(1))), 'P10'))
        if canaries(eng):
            out.append(C('every canary of the new zone is right', forall('sndn', [('s', 64)], lambda e: slot_sound(z, e), [[('#', 's')]]), 'P10', 'P07'))
        for cl in ('U', 'B'):
            def inside(x, cl=cl):
                return inzone(z, x) if cl == 'U' else inbm(z, x)
            out.append(C('memory outside the new zone is untouched (%s)' % cl, forall('nzf' + cl, [('a', 64)],
                         lambda x, cl=cl: bor(inside(x, cl), eq(S1.leaf('PM.' + cl, x), S0.leaf('PM.' + cl, x))), [[('PM.' + cl, (0,))]]), 'P10'))
        return out + wellformed(eng, S1)


class Alloc(Mid):
    name = '_iso_alloc'
    params = ('zone', 'size')
    deftags = ('P02',)
    frame_default = 'P02'
    ev_tags = ('P02', 'P12')
    abort_tags = ('P03',)
    must_tags = ('P02',)
    forbid_locks = ('root', 'bigused', 'bigfree')
    recorded = {'_iso_big_alloc': 64, 'populate_zone_cache': None, '_iso_alloc_profile': None, '_verify_all_zones': None}

    def mycases(self, eng):
        def none(e, st):
            self.record(e)
            return [c64(0), fresh('size', 64)]

        def private(e, st):
            self.record(e)
            return [zparam(e, st), fresh('size', 64)]
        return [('no zone', none), ('zone given', private)]

    def bind(self, eng, S0, args):
        a = Mid.bind(self, eng, S0, args)
        a.k = None if is_c(a.zone) else eng.model.zidx(a.zone)
        s = a.size
        a.wrap = band(ne(and_(s, c64(31)), c64(0)), ugt(s, c64(2**64 - 1 - 32)))
        a.r = ite(ult(s, c64(32)), c64(32), and_(add(s, c64(31)), c64(-32 & (2**64 - 1))))
        return a

    def requires(self, eng, S0, a):
        out = wellformed(eng, S0)
        if a.k is not None:
            out += [C('the zone exists', ult(a.k, used(S0))), C('a zone that is handed in is private', bnot(Zone(S0, a.k).internal))]
        return out

    def outcomes(self, eng, S0, a):
        big = band(bnot(a.wrap), ugt(a.r, c64(65536)))
        zero = FALSE if eng.cfg == 'zero0' else eq(a.size, c64(0))
        o = Out('corruption', TRUE, abort=True)
        o.must = False
        o.unless = (lambda st: [soundall(eng, S0), ult(used(S0), c64(MAXZ))]) if canaries(eng) else (lambda st: [ult(used(S0), c64(MAXZ))])
        small = band(bnot(a.wrap), bnot(zero), ule(a.r, c64(65536)))
        outs = [oom(), o]
        if a.k is not None:
            outs.append(Out('the zone cannot hold the size', band(bnot(a.wrap), bnot(zero), ugt(a.r, Zone(S0, a.k).cs)), abort=True))
        return outs + [Out('zero', zero, ret=lambda s: S0.leaf('ROOT.zero_alloc_page')), Out('null', band(bnot(big), bnot(zero)), pick=lambda r: eq(r, c64(0))), Out('big', big), Out('chunk', small, pick=lambda r: ne(r, c64(0)))]

    def never_aborts(self, eng, S0, a):
        return [] if eng.cfg == 'zero0' else [('an allocation of size zero', eq(a.size, c64(0)), ('P24',))]

    def modifies(self, eng, S0, a, oc):
        keys = set(S0.mem) | set(eng.final_S1.mem)
        if oc.name == 'zero':
            return []
        if oc.name == 'big':
            return Mid.modifies(self, eng, S0, a, oc)
        out = [(x, None) for x in DYN] + [('@cn', None), ('@cp', None)]
        if oc.name == 'null':
            return out
        cs = [e for e in eng.final_ev if e[0] == 'call:_iso_alloc_bitslot_from_zone']
        if any(e[0] == 'call:_iso_new_zone' for e in eng.final_ev):
            return out + [(x, None) for x in keys if x.startswith(('ZS.', 'PM.')) or x in ('ROOT.zones_used', 'ROOT.bitmaps.in_use', 'CLT', 'ROOT.zone_lookup_table')]
        if len(cs) != 1:
            return out
        slot, zp = cs[0][1], cs[0][2]
        k = eng.model.zidx(zp)
        z = Zone(S0, k)
        out += [('ZS.af_count', (k,)), ('ZS.alloc_count', (k,)), ('PM.B', (add(z.bm, scale(lshr(slot, c64(6)), 8)),))]
        if canaries(eng):
            out.append(('PM.U', (eng.final_ret,)))
        return out

    def frame_tag(self, key):
        return ('P27', 'P02') if key in ('ZS.user_pages_start', 'ZS.bitmap_start') else ('P02', 'P01')

    def ensures(self, eng, S0, S1, a, ret, oc):
        if oc.name == 'zero':
            return [C('an allocation of size zero is the reserved page', eq(ret, S0.leaf('ROOT.zero_alloc_page')), 'P24')]
        if oc.name == 'big':
            return []
        w = RW(eng, S1)
        inv = w.dyn() + [w.geo(), w.addr(), w.tables()[0], w.tables()[1], w.bounds()]
        if oc.name == 'null':
            out = list(inv)
            if a.k is not None:
                z0, z1 = Zone(S0, a.k), Zone(S1, a.k)
                ref = bor(z0.full, wasteful(z0, a.r))
                if eng.cfg == 'strong':
                    ref = bor(ref, band(bnot(z0.internal), ne(a.r, z0.cs)))
                out.append(C('a zone refuses only sizes that waste its chunks, or when it is full', bor(a.wrap, ref, z1.full), 'P03'))
            else:
                out.append(C('without a zone null is returned only for sizes that cannot be rounded up', a.wrap, 'P03'))
            return out
        cs = [e for e in eng.final_ev if e[0] == 'call:_iso_alloc_bitslot_from_zone']
        if len(cs) != 1:
            return [C('exactly one chunk is handed out', FALSE, 'P02', 'P01')]
        slot, zp = cs[0][1], cs[0][2]
        k = eng.model.zidx(zp)
        z1 = Zone(S1, k)
        new = any(e[0] == 'call:_iso_new_zone' for e in eng.final_ev)
        out = list(inv)
        out += [C('the zone exists', ult(k, used(S1)), 'P02'),
                C('the address is the start of a chunk of the zone', band(eq(ret, z1.chunk(slot)), z1.slot_ok(slot)), 'P02'),
                C('the whole chunk lies inside the zone', band(inzone(z1, ret), inzone(z1, add(ret, sub(z1.cs, c64(1)))), ule(mul(lshr(slot, c64(1)), z1.cs), sub(c64(ZUSER), z1.cs))), 'P02'),
                C('the chunk holds the size asked for', band(uge(z1.cs, a.size), uge(z1.cs, a.r)), 'P02'),
                C('the chunk wastes no more than the limit', bnot(wasteful(z1, a.r)), 'P02'),
                C('the chunk is in use afterwards', eq(z1.bit(slot), c64(1)), 'P01', 'P02')]
        if a.k is None:
            out.append(C('without a zone the chunk comes from an internal zone', z1.internal, 'P02', 'P36'))
        else:
            out.append(C('the chunk comes from the zone given', eq(k, a.k), 'P02'))
        if not new:
            out.append(C('the chunk was free before', eq(Zone(S0, k).bit(slot), c64(0)), 'P01', 'P02'))
        else:
            out.append(C('a new zone is made only when every zone that fits is full', a.k is None and TRUE or FALSE, 'P02'))
        return out

    def check_events(self, eng, S0, S1, a, ret, oc, ev):
        cs = [c for c in self.calls(ev) if c[0] in ('_iso_big_alloc', 'populate_zone_cache', '_iso_alloc_bitslot_from_zone')]
        if oc.name == 'big':
            out = exact(cs, [('_iso_big_alloc', (a.r,))], 'served as a big allocation')
            return out + ([('what the big allocation returned', eq(ret, cs[0][2]), ())] if out[0][1] is not FALSE else [])
        if oc.name == 'zero':
            return [(n, f, ('P24',)) for n, f, _ in exact(cs, [], 'nothing is handed out for size zero')]
        if oc.name == 'null':
            return exact(cs, [], 'nothing is handed out')
        if [c[0] for c in cs] != ['_iso_alloc_bitslot_from_zone', 'populate_zone_cache']:
            return [('one chunk is handed out (%s)' % [c[0] for c in cs], FALSE, ())]
        return [('the zone that served the request is cached', eq(cs[1][1][0], cs[0][1][1]), ('P36',))]

    def loop_specs(self, eng, ctx, a):
        from loops import Cand
        out = []
        for nm in ('shape', 'nextok', 'entries', 'distinct', 'fullok', 'fulllist'):
            out.append(Cand('invariant ' + nm, lambda ph, S, it, nm=nm: getattr(RW(eng, S), nm)().f))
        return out


class PopulateCache(Contract):
    """remember the zone that served the last request"""
    name = 'populate_zone_cache'
    params = ('zone',)
    verify_only = True
    deftags = ('P36',)
    frame_default = 'P36'
    ev_tags = ('P36',)
    abort_tags = ('P03',)

    def build(self, eng, st):
        return [zparam(eng, st)]

    def bind(self, eng, S0, args):
        a = Contract.bind(self, eng, S0, args)
        a.k = eng.model.zidx(a.zone)
        return a

    def requires(self, eng, S0, a):
        w = RW(eng, S0)
        return [w.bounds(), w.geo(), C('the zone exists', ult(a.k, used(S0)))] + w.caches()

    def modifies(self, eng, S0, a, oc):
        return [('@zone_cache.zone', None), ('@zone_cache.chunk_size', None), ('@zone_cache_count', None)]

    def ensures(self, eng, S0, S1, a, ret, oc):
        n0, n1 = S0.g('zone_cache_count'), S1.g('zone_cache_count')
        i = fresh('ci', 64)
        z1, z0 = S1.g('zone_cache.zone', i), S0.g('zone_cache.zone', i)
        c1, c0 = S1.g('zone_cache.chunk_size', i), S0.g('zone_cache.chunk_size', i)
        z = Zone(S0, a.k)
        old = band(ult(i, n0), eq(z1, z0), eq(c1, c0))
        return [C('the cache is within its capacity', ule(n1, c64(8)), 'P36'),
                C('every entry in use is an earlier one or the zone given, with the size of its chunks', imp(ult(i, n1), bor(old, band(eq(z1, a.zone), eq(c1, z.cs), z.internal))), 'P36'),
                C('a private zone is never cached', imp(bnot(z.internal), band(eq(n1, n0), eq(z1, z0), eq(c1, c0))), 'P36')]


CONTRACTS = [NewZone(), Alloc(), PopulateCache()]
