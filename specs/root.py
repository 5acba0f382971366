"""The root: zone array, tables, caches; contracts for lookup functions."""
from core import *
from zone import *

KP = [('k', 64)]


def used(S):
    return zext(S.leaf('ROOT.zones_used'), 64)


def kpat(*leaves):
    return [[('#', 'k')]] + [[(l, (0,))] for l in leaves]


def inzone(z, p):
    return ult(sub(p, z.user), c64(ZUSER))


def inbm(z, p):
    return ult(sub(p, z.bm), z.bmsz)


class RW:
    """pieces of the invariant of the whole allocator; each is a clause over a memory snapshot"""

    def __init__(self, eng, S, raw=None):
        self.eng, self.S, self.M = eng, S, eng.model
        self.n = used(S)
        self.rawk = raw

    def ch(self, name, deps, f):
        return cached(self.M, (name,), deps + ['ROOT.zones_used'], self.S, f)

    def Z(self, k):
        return Zone(self.S, k)

    def bounds(self):
        return C('between 1 and %d zones' % MAXZ, band(uge(self.n, c64(1)), ule(self.n, c64(MAXZ))), 'P10')

    def index(self):
        return C('every zone carries its own index', self.ch('idx', ['ZS.index'], lambda: forall('idx', KP, lambda k: imp(ult(k, self.n),
                 eq(zext(self.Z(k).index, 64), k)), kpat('ZS.index'))), 'P09', 'P10')

    def geo(self):
        return C('geometry of every zone', self.ch('geo', GEO, lambda: forall('geo', KP, lambda k: imp(ult(k, self.n), geometry(self.Z(k))),
                 kpat('ZS.chunk_size', 'ZS.bitmap_size'))), 'P10')

    def addr(self):
        return C('addresses of every zone', self.ch('addr', PTRS, lambda: forall('addr', KP, lambda k: imp(ult(k, self.n), addr_ok(self.Z(k))),
                 kpat('ZS.user_pages_start', 'ZS.bitmap_start'))), 'P10')

    def disj_user(self):
        def f(k, j):
            a, b = self.Z(k).user, self.Z(j).user
            return imp(band(ult(k, self.n), ult(j, self.n), ne(k, j)), band(uge(sub(a, b), c64(ZUSER)), uge(sub(b, a), c64(ZUSER))))
        return C('user pages of different zones are disjoint', self.ch('du', PTRS, lambda: forall('du', [('k', 64), ('k', 64)], f,
                 [[('#', 'k'), ('#', 'k')]])), 'P09', 'P10')

    def disj_bm(self):
        def f(k, j):
            a, b = self.Z(k), self.Z(j)
            return imp(band(ult(k, self.n), ult(j, self.n), ne(k, j)), band(uge(sub(a.bm, b.bm), b.bmsz), uge(sub(b.bm, a.bm), a.bmsz)))
        return C('bitmaps of different zones are disjoint', self.ch('db', PTRS + GEO, lambda: forall('db', [('k', 64), ('k', 64)], f,
                 [[('#', 'k'), ('#', 'k')]])), 'P09', 'P10')

    def clt(self):
        return C('the chunk lookup table names existing zones', self.ch('clt', ['CLT'], lambda: forall('clt', [('c', 64)],
                 lambda c: imp(ult(c, c64(65536)), ult(zext(self.S.leaf('CLT', c), 64), self.n)), [[('CLT', (0,))]])), 'P09')

    def zc(self):
        return C('the thread cache names existing zones', self.ch('zc', [], lambda: forall('zc', [('c', 64)],
                 lambda c: imp(ult(c, c64(8)), ult(zext(self.S.leaf('@zc', c), 64), self.n)), [[('@zc', (0,))]])), 'P36', 'P09')

    def zcn(self):
        return C('the thread cache is within its capacity', ule(self.S.g('zone_cache_count'), c64(8)), 'P36')


    # ---- every zone is well formed
    def shape(self):
        return C('free list bounds of every zone', self.ch('rshape', LIST[1:], lambda: forall('rshape', KP, lambda k: imp(ult(k, self.n),
                 list_shape(self.Z(k))), kpat('ZS.free_bit_slots_index', 'ZS.free_bit_slots_usable'))), 'P01')

    def nextok(self):
        return C('the pending slot of every zone is free', self.ch('rnext', GEO + PTRS + NEXT + ['PM.B'], lambda: forall('rnext', KP,
                 lambda k: imp(ult(k, self.n), next_ok(self.Z(k))), kpat('ZS.next_free_bit_slot'))), 'P01')

    def entries(self):
        return C('the free list of every zone holds only free slots', self.ch('rwe', GEO + PTRS + LIST + NEXT + ['PM.B'], lambda: forall('rwe',
                 [('k', 64), ('i', 64)], lambda k, i: imp(ult(k, self.n), entry_ok(self.Z(k), i)), [[('ZS.free_bit_slots', (0, 1))], [('#', 'k'), ('#', 'i')]])), 'P01')

    def distinct(self):
        return C('the free list of every zone holds no slot twice', self.ch('rwd', LIST, lambda: forall('rwd',
                 [('k', 64), ('i', 64), ('i', 64)], lambda k, i, j: imp(ult(k, self.n), entry_dist(self.Z(k), i, j)),
                 [[('ZS.free_bit_slots', (0, 1)), ('ZS.free_bit_slots', (0, 2))], [('#', 'k'), ('#', 'i'), ('#', 'i')]])), 'P01')

    def fullok(self):
        return C('a zone marked full has no free chunk', self.ch('rwf', GEO + PTRS + ['PM.B', 'ZS.is_full'], lambda: forall('rwf',
                 [('k', 64), ('s', 64)], lambda k, e: imp(ult(k, self.n), full_ok(self.Z(k), e)), [[('#', 'k'), ('#', 's')]])), 'P03')

    def fulllist(self):
        return C('a zone marked full has an empty free list', self.ch('rfl', LIST[1:2] + ['ZS.is_full'], lambda: forall('rfl', KP,
                 lambda k: imp(ult(k, self.n), imp(self.Z(k).full, eq(self.Z(k).fidx, c64(0)))), kpat('ZS.is_full'))), 'P03')

    # ---- size tables
    def zlt(self):
        def f(i):
            e = zext(self.S.leaf('ROOT.zone_lookup_table', i), 64)
            z = self.Z(e)
            return imp(band(ult(i, c64(16384)), ne(e, c64(0))), band(ult(e, self.n), z.internal, eq(z.cs, shl(i, c64(4)))))
        return C('the size table names internal zones of that size', self.ch('zlt', ['ROOT.zone_lookup_table', 'ZS.internal', 'ZS.chunk_size'],
                 lambda: forall('zlt', [('t', 64)], f, [[('ROOT.zone_lookup_table', (0,))], [('#', 't')]])), 'P10', 'P02')

    def chain(self):
        def f(k):
            z = self.Z(k)
            e = zext(z._('next_sz_index'), 64)
            y = self.Z(e)
            return imp(band(ult(k, self.n), ne(e, c64(0))), band(ult(e, self.n), z.internal, y.internal, eq(y.cs32, z.cs32)))
        return C('zones are chained with internal zones of the same size', self.ch('chain', ['ZS.next_sz_index', 'ZS.internal', 'ZS.chunk_size'],
                 lambda: forall('chain', KP, f, kpat('ZS.next_sz_index'))), 'P10', 'P02')

    def zccs(self):
        def f(i):
            z = self.Z(zext(self.S.leaf('@zc', i), 64))
            return imp(ult(i, self.S.g('zone_cache_count')), band(z.internal, eq(z.cs, self.S.g('zone_cache.chunk_size', i))))
        return C('cached zones are internal and have the recorded chunk size', self.ch('zccs',
                 ['@zone_cache.chunk_size', '@zone_cache.zone', '@zone_cache_count', 'ZS.internal', 'ZS.chunk_size'],
                 lambda: forall('zccs', [('c', 64)], f, [[('@zc', (0,))], [('@zone_cache.chunk_size', (0,))]])), 'P36')

    def static(self):
        return [self.bounds(), self.index(), self.geo(), self.addr(), self.disj_user(), self.disj_bm()]

    def dyn(self):
        return [self.shape(), self.nextok(), self.entries(), self.distinct(), self.fullok(), self.fulllist()]

    def tables(self):
        return [self.zlt(), self.chain()]

    def caches(self):
        return [self.clt(), self.zc(), self.zcn(), self.zccs()]


DYN = ['ROOT.seed', 'ZS.free_bit_slots', 'ZS.free_bit_slots_usable', 'ZS.free_bit_slots_index', 'ZS.next_free_bit_slot', 'ZS.is_full']


def wasteful(z, size):
    return band(ugt(size, c64(1024)), uge(z.cs, shl(size, c64(3))))


def inv_cands(fs):
    """loop candidates: clauses of the invariant over the current memory"""
    from loops import Cand
    return fs


class FindSuitable(Contract):
    """pick a zone that can serve a request, leaving a free slot pending in it"""
    name = 'find_suitable_zone'
    params = ('size',)
    need_locks = ('root',)
    deftags = ('P02',)
    abort_tags = ('P03',)

    def build(self, eng, st):
        return [fresh('size', 64)]

    def requires(self, eng, S0, a):
        w = RW(eng, S0)
        return [C('request is a rounded small size', band(uge(a.size, c64(32)), ule(a.size, c64(65536)), eq(and_(a.size, c64(31)), c64(0))), 'P02'),
                w.bounds(), w.geo(), w.addr()] + w.dyn() + w.tables()

    def outcomes(self, eng, S0, a):
        def ret(st):
            k = zext(fresh('kf', 16), 64)
            st.hint('k', k)
            return eng.model.zaddr(k)
        return [Out('none', ret=lambda s: c64(0), pick=lambda r: eq(r, c64(0))), Out('found', ret=ret, pick=lambda r: ne(r, c64(0)))]

    def modifies(self, eng, S0, a, oc):
        return [(x, None) for x in DYN]

    def fits(self, eng, z, size):
        return band(z.internal, uge(z.cs, size), bnot(wasteful(z, size)))

    def ensures(self, eng, S0, S1, a, ret, oc):
        w = RW(eng, S1)
        out = list(w.dyn())
        if oc.name == 'none':
            out.append(C('no zone is offered only when every zone that fits the request is full',
                         forall('allfull', KP, lambda k: imp(ult(k, w.n), imp(self.fits(eng, w.Z(k), a.size), w.Z(k).full)), kpat()), 'P03'))
            return out
        k = eng.model.zidx(ret)
        z = w.Z(k)
        out += [C('the zone offered is an existing internal zone', band(ult(k, w.n), z.internal), 'P02', 'P36'),
                C('its chunks hold the request', uge(z.cs, a.size), 'P02'),
                C('its chunks do not waste more than the limit', bnot(wasteful(z, a.size)), 'P02'),
                C('it has a free slot pending', ne(z.next, BAD), 'P02', 'P03')]
        return out

    def loop_specs(self, eng, ctx, a):
        from loops import Cand
        out = []
        for i, nm in enumerate(('shape', 'nextok', 'entries', 'distinct', 'fullok', 'fulllist')):
            out.append(Cand('invariant ' + nm, lambda ph, S, it, nm=nm: getattr(RW(eng, S), nm)().f))
        for n in ctx.phis:
            w = ctx.entry[n].w
            if w in (32, 64):
                def ext(ph, n=n):
                    return sext(ph[n], 64) if ph[n].w == 32 else ph[n]
                out.append(Cand('%s below zones used' % n, lambda ph, S, it, ext=ext: ult(ext(ph), used(S))))

                def node(ph, S, it, ext=ext):
                    z = Zone(S, ext(ph))
                    sz = [v for m, v in ctx.entry.items() if m not in ctx.phis and v.w == 64 and not is_c(v)]
                    return z.internal
                out.append(Cand('%s names an internal zone' % n, node))
                for m, v in ctx.entry.items():
                    if m in ctx.phis or v.w != 64 or is_c(v) or v.op == 'v' and v.p.startswith(('ROOT', 'ZONES')):
                        continue
                    if tm.tz(v) >= 4 or True:
                        out.append(Cand('%s names a zone of size %s' % (n, m), lambda ph, S, it, ext=ext, v=v: eq(Zone(S, ext(ph)).cs, v)))
                if ctx.kind[n][0] == 'aff':
                    out.append(Cand('zones below %s are full or do not fit' % n, lambda ph, S, it, ext=ext: forall('ff', KP,
                               lambda k: imp(ult(k, ext(ph)), imp(self.fits(eng, Zone(S, k), a.size), Zone(S, k).full)), kpat())))
                    out.append(Cand('%s does not pass zones used' % n, lambda ph, S, it, ext=ext: ule(ext(ph), used(S))))
            if w == 64:
                out.append(Cand('%s small' % n, lambda ph, S, it, n=n: ule(ph[n], c64(1 << 17))))
                out.append(Cand('%s is a rounded size' % n, lambda ph, S, it, n=n: eq(and_(ph[n], c64(31)), c64(0))))
                out.append(Cand('%s is at least the request' % n, lambda ph, S, it, n=n: uge(ph[n], a.size)))
                out.append(Cand('%s is the request unless that is small' % n, lambda ph, S, it, n=n: bor(eq(ph[n], a.size), ule(a.size, c64(1024)))))
        return out


class SearchTable(Contract):
    name = 'search_chunk_lookup_table'
    params = ('p',)
    need_locks = ()

    def build(self, eng, st):
        return [fresh('p', 64)]

    def requires(self, eng, S0, a):
        w = RW(eng, S0)
        return [w.bounds(), w.clt()]

    def outcomes(self, eng, S0, a):
        k = zext(S0.leaf('CLT', and_(lshr(a.p, c64(32)), c64(0xffff))), 64)
        return [Out('hint', ret=lambda s: eng.model.zaddr(k))]

    def ensures(self, eng, S0, S1, a, ret, oc):
        k = eng.model.zidx(ret)
        return [C('the hint is an existing zone', ult(k, used(S1)), 'P09')]
    deftags = ('P09',)
    abort_tags = ('P09', 'P03')


class FindRange(Contract):
    name = 'iso_find_zone_range'
    params = ('p',)
    need_locks = ('root',)
    deftags = ('P09',)
    abort_tags = ('P09', 'P03')

    def build(self, eng, st):
        return [fresh('p', 64)]

    def inr(self, z, p):
        return inzone(z, p)

    def requires(self, eng, S0, a):
        w = RW(eng, S0)
        return [w.bounds(), w.clt(), w.zc(), w.zcn(), w.geo(), w.addr()]

    def outcomes(self, eng, S0, a):
        n = used(S0)

        def ret(st):
            k = zext(fresh('kz', 16), 64)
            st.hint('k', k)
            return eng.model.zaddr(k)
        return [Out('none', ret=lambda s: c64(0), pick=lambda r: eq(r, c64(0))),
                Out('found', ret=ret, pick=lambda r: ne(r, c64(0)))]

    what = 'user pages'

    def ensures(self, eng, S0, S1, a, ret, oc):
        n = used(S1)
        if oc.name == 'none':
            return [C('no zone is found only when the address lies in the %s of no zone' % self.what,
                      forall('nr', KP, lambda k: imp(ult(k, n), bnot(self.inr(Zone(S1, k), a.p))), kpat()), 'P09')]
        k = eng.model.zidx(ret)
        return [C('the zone found is an existing zone', ult(k, n), 'P09'),
                C('the zone found has the address in its %s' % self.what, self.inr(Zone(S1, k), a.p), 'P09')]

    def loop_specs(self, eng, ctx, a):
        from loops import Cand
        out = []
        for n in ctx.phis:
            if ctx.entry[n].w == 64 and ctx.kind[n][0] == 'aff':
                out.append(Cand('no zone below %s holds the address' % n, lambda ph, S, it, n=n: forall('nb', KP,
                           lambda k: imp(ult(k, ph[n]), bnot(self.inr(Zone(S, k), a.p))), kpat())))
        return out


class FindBitmapRange(FindRange):
    name = 'iso_find_zone_bitmap_range'
    what = 'bitmap'

    def inr(self, z, p):
        return inbm(z, p)


CONTRACTS = [FindSuitable(), SearchTable(), FindRange(), FindBitmapRange()]


# ---------------------------------------------------------------- zone creation
class CreateCanaryChunks(ZContract):
    """set aside some chunks of a new zone as canaries (zone unmasked, all chunks free)"""
    name = 'create_canary_chunks'
    raw = True
    params = ('zone',)
    deftags = ('P10',)

    def fresh_bits(self, z, f):
        return forall('nb', [('s', 64)], lambda e: imp(z.slot_ok(e), f(e)), [[('#', 's')]])

    def requires(self, eng, S0, a):
        z = a.z
        return self.zreq(a) + [C('every chunk of the new zone is free', forall('free0', [('i', 64)], lambda j: imp(ult(j, z.maxidx), eq(z.qword(j), c64(0))),
                                                                        [[('#', 'i')], [('#', 'j')]]), 'P10')]

    def modifies(self, eng, S0, a, oc):
        if not canaries(eng):
            return []
        z = a.z
        return [('ROOT.seed', None), ('PM.B', lambda x: ult(sub(x, z.bm), z.bmsz)), ('PM.U', lambda x: ult(sub(x, z.user), c64(ZUSER)))]

    def inv(self, eng, z):
        def q(j):
            w = z.qword(j)
            return bor(eq(w, c64(0)), band(eq(w, c64(3)), z.canary_ok(z.chunk(shl(j, c64(6))))))
        return forall('cc', [('i', 64)], lambda j: imp(ult(j, z.maxidx), q(j)), [[('#', 'i')], [('PM.B', (None,))]])

    def ensures(self, eng, S0, S1, a, ret, oc):
        z = Zone(S1, a.k, True)

        def q(j):
            w = z.qword(j)
            if not canaries(eng):
                return eq(w, c64(0))
            return bor(eq(w, c64(0)), band(eq(w, c64(3)), z.canary_ok(z.chunk(shl(j, c64(6))))))
        return [C('only the first chunk of a bitmap word is ever set aside, and it carries a valid canary',
                  forall('cc', [('i', 64)], lambda j: imp(ult(j, z.maxidx), q(j)), [[('#', 'i')]]), 'P10', 'P07')]

    def loop_specs(self, eng, ctx, a):
        from loops import Cand

        def f(ph, S, it):
            z = Zone(S, a.k, True)

            def q(j):
                w = z.qword(j)
                return bor(eq(w, c64(0)), band(eq(w, c64(3)), z.canary_ok(z.chunk(shl(j, c64(6))))))
            return forall('cc', [('i', 64)], lambda j: imp(ult(j, z.maxidx), q(j)), [[('#', 'i')]])
        return [Cand('words are empty or hold one canary', f)]


CONTRACTS += [CreateCanaryChunks()]
