"""Contracts for the per-zone functions: free list, bitmap scans, slot allocation, chunk free, canaries."""
from core import *


class Zone:
    """zone k seen through a memory snapshot; raw=True while its pointers are unmasked"""

    def __init__(self, S, k, raw=False):
        self.S, self.k, self.raw = S, k, raw

    def _(self, f):
        return self.S.leaf('ZS.' + f, self.k)

    @property
    def pmask(self):
        return self._('pointer_mask')

    @property
    def user(self):
        u = self._('user_pages_start')
        return u if self.raw else tm.xor(u, self.pmask)

    @property
    def bm(self):
        u = self._('bitmap_start')
        return u if self.raw else tm.xor(u, self.pmask)

    @property
    def cs32(self):
        return self._('chunk_size')

    @property
    def cs(self):
        return zext(self._('chunk_size'), 64)

    @property
    def count(self):
        return zext(self._('chunk_count'), 64)

    @property
    def bmsz(self):
        return zext(self._('bitmap_size'), 64)

    @property
    def maxidx(self):
        return self._('max_bitmap_idx')

    @property
    def next(self):
        return self._('next_free_bit_slot')

    @property
    def index(self):
        return self._('index')

    @property
    def fidx(self):
        return zext(self._('free_bit_slots_index'), 64)

    @property
    def fuse(self):
        return zext(self._('free_bit_slots_usable'), 64)

    @property
    def internal(self):
        return ne(and_(self._('internal'), const(1, 8)), const(0, 8))

    @property
    def full(self):
        return ne(and_(self._('is_full'), const(1, 8)), const(0, 8))

    @property
    def secret(self):
        return self._('canary_secret')

    def entry(self, i):
        return self.S.leaf('ZS.free_bit_slots', self.k, i)

    def qword(self, j):
        return self.S.leaf('PM.B', add(self.bm, scale(j, 8)))

    def bit(self, e):
        """in-use bit (bit 0 of the pair) of slot e as 64-bit 0/1"""
        return and_(lshr(self.qword(lshr(e, c64(6))), and_(e, c64(63))), c64(1))

    def bit2(self, e):
        return and_(lshr(self.qword(lshr(e, c64(6))), and_(add(e, c64(1)), c64(63))), c64(1))

    def slot_ok(self, e):
        return band(eq(and_(e, c64(1)), c64(0)), ult(lshr(e, c64(6)), self.maxidx))

    def free(self, e):
        return eq(self.bit(e), c64(0))

    def chunk(self, e):
        """address of the chunk of slot e"""
        return add(self.user, mul(lshr(e, c64(1)), self.cs))

    def canary(self, p):
        return and_(tm.xor(self.secret, p), c64(0xffffffffffffff00))

    def U(self, a):
        return self.S.leaf('PM.U', a)

    def canary_ok(self, p):
        c = self.canary(p)
        return band(eq(self.U(p), c), eq(self.U(sub(add(p, self.cs), c64(8))), c))


def geometry(z):
    """sizes of a zone; every zone satisfies this from creation on"""
    cs, cnt = z.cs32, z._('chunk_count')
    bs = z._('bitmap_size')
    return band(eq(and_(cs, const(31, 32)), const(0, 32)), uge(cs, const(32, 32)), ule(cs, const(65536, 32)),
                eq(cnt, udiv(const(ZUSER, 32), cs)),
                uge(cnt, const(64, 32)), ule(cnt, const(131072, 32)),
                eq(bs, lshr(shl(cnt, const(1, 32)), const(3, 32))),
                eq(z.maxidx, zext(lshr(bs, const(3, 32)), 64)))


def addr_ok(z):
    u, b = z.user, z.bm
    return band(eq(and_(u, c64(PAGE - 1)), c64(0)), uge(u, c64(1 << 20)), ult(u, c64(1 << 46)),
                eq(and_(b, c64(15)), c64(0)), uge(b, c64(1 << 20)), ult(b, c64(1 << 46)))


def list_shape(z):
    return ule(z.fuse, add(z.fidx, c64(1)))


def entry_ok(z, i):
    e = z.entry(i)
    return imp(band(ule(z.fuse, i), ult(i, z.fidx)), band(z.slot_ok(e), z.free(e), ne(e, z.next)))


def entry_dist(z, i, j):
    return imp(band(ule(z.fuse, i), ult(i, z.fidx), ule(z.fuse, j), ult(j, z.fidx), ne(i, j)), ne(z.entry(i), z.entry(j)))


def next_ok(z):
    return bor(eq(z.next, BAD), band(z.slot_ok(z.next), z.free(z.next)))


I64 = [('i', 64)]
SLOTP = [[('ZS.free_bit_slots', (None, 0))], [('#', 'i')]]


def zparam(eng, st, name='zone', raw=False, facts=True):
    """a zone parameter: some zone of the array"""
    k = zext(var(name + '.k', 16), 64)
    st.assume(ult(k, c64(MAXZ)))
    st.hint('k', k)
    return eng.model.zaddr(k)


def userptr(eng, name='p'):
    p = fresh(name, 64)
    eng.freshpm[p] = 'U'
    return p


class ZContract(Contract):
    """functions whose first parameter is a valid zone"""
    raw = True
    params = ('zone',)
    zpos = 0
    need_locks = ('root',)

    def bind(self, eng, S0, args):
        a = Contract.bind(self, eng, S0, args)
        p = args[self.zpos]
        k = eng.model.zidx(p)
        a.k = k
        if k is None:
            raise Unsupported('zone argument of %s is not an element of the zone array: %s' % (self.name, show(p)))
        if S0.st is not None:
            S0.st.hint('k', k)
        a.z = Zone(S0, k, self.raw)
        return a

    def build(self, eng, st):
        return [zparam(eng, st)] + [fresh(n, w) for n, w in self.extra]
    extra = ()

    def zreq(self, a):
        return [C('zone geometry', geometry(a.z), 'P10'), C('zone addresses', addr_ok(a.z), 'P10')]


class FillFreeBitSlots(ZContract):
    name = 'fill_free_bit_slots'
    deftags = ('P38',)

    def requires(self, eng, S0, a):
        return self.zreq(a)

    def modifies(self, eng, S0, a, oc):
        k = a.k
        return [('ROOT.seed', None), ('ZS.free_bit_slots', (k, None)), ('ZS.free_bit_slots_usable', (k,)), ('ZS.free_bit_slots_index', (k,))]

    def ensures(self, eng, S0, S1, a, ret, oc):
        z = Zone(S1, a.k, True)
        return [
            C('the refilled free list starts at its first entry', eq(z.fuse, c64(0)), 'P01'),
            C('every entry offered is a slot of this zone whose chunk is free',
              forall('fl', I64, lambda i: imp(ult(i, z.fidx), band(z.slot_ok(z.entry(i)), z.free(z.entry(i)))), SLOTP), 'P01'),
            C('no slot is offered twice',
              forall('fd', [('i', 64), ('i', 64)], lambda i, j: imp(band(ult(i, z.fidx), ult(j, z.fidx), ne(i, j)), ne(z.entry(i), z.entry(j))),
                     [[('ZS.free_bit_slots', (None, 0)), ('ZS.free_bit_slots', (None, 1))]]), 'P01'),
            C('an empty list offers nothing', imp(eq(z.fidx, c64(0)), eq(z.entry(c64(0)), BAD)), 'P01'),
            C('the list is not empty when the last bitmap word has a free chunk', self.last_word(z, z.fidx, None), 'P03', hints=bit_points),
        ]

    def last_word(self, z, P, B):
        def f(e):
            g = band(z.slot_ok(e), z.free(e), eq(lshr(e, c64(6)), sub(z.maxidx, c64(1))))
            if B is not None:
                g = band(g, ult(e, B))
            return imp(g, uge(P, c64(1)))
        return forall('lw', [('s', 64)], f, [[('#', 's')]])

    def loop_specs(self, eng, ctx, a):
        from loops import Cand
        out = []
        phi8 = [n for n in ctx.phis if ctx.entry[n].w == 8]
        env8 = []
        for n, v in ctx.entry.items():
            if n not in ctx.phis and v.w == 8 and not is_c(v) and v not in [x for _, x in env8]:
                env8.append((n, v))
        sh6 = []
        for n, v in ctx.entry.items():
            if n not in ctx.phis and v.w == 64 and not is_c(v) and v not in sh6:
                if tm.tz(v) >= 6 and v.op != 'v':
                    sh6.append(v)
        aff = [n for n in ctx.phis if ctx.entry[n].w == 64 and ctx.kind[n][0] == 'aff']

        def zz(S):
            return Zone(S, a.k, True)

        def getP(n, ph):
            return zext(ph[n], 64) if n in ph else zext(ctx.entry[n], 64)
        for n in phi8 if phi8 and ctx.kind[phi8[0]][0] != 'aff' or len(phi8) > 1 or phi8 and ctx.kind[phi8[0]][1] > 0 else [x for x, _ in env8]:
            def okf(ph, S, it, n=n):
                z = zz(S)
                P = getP(n, ph)
                return forall('ok', I64, lambda i: imp(ult(i, P), band(z.slot_ok(z.entry(i)), z.free(z.entry(i)))), SLOTP)
            out.append(Cand('entries below %s are free slots' % n, okf))

            def dist(ph, S, it, n=n):
                z = zz(S)
                P = getP(n, ph)
                return forall('d', [('i', 64), ('i', 64)], lambda i, j: imp(band(ult(i, P), ult(j, P), ne(i, j)), ne(z.entry(i), z.entry(j))),
                              [[('ZS.free_bit_slots', (None, 0)), ('ZS.free_bit_slots', (None, 1))]])
            out.append(Cand('entries below %s are distinct' % n, dist))
            out.append(Cand('%s=0: no entry' % n, lambda ph, S, it, n=n: imp(eq(getP(n, ph), c64(0)), eq(zz(S).entry(c64(0)), BAD))))
            bounds = []
            for m in aff:
                bounds.append(('%s' % m, lambda ph, m=m: ph[m]))
                bounds.append(('%s<<6' % m, lambda ph, m=m: shl(ph[m], c64(6))))
                for e in sh6:
                    bounds.append(('shf+%s' % m, lambda ph, m=m, e=e: add(e, ph[m])))
            for bn, bf in bounds:
                def below(ph, S, it, n=n, bf=bf):
                    z = zz(S)
                    P, B = getP(n, ph), bf(ph)
                    return forall('b', I64, lambda i: imp(ult(i, P), ult(z.entry(i), B)), SLOTP)
                out.append(Cand('entries below %s are < %s' % (n, bn), below))
                out.append(Cand('a free slot of the last word below %s makes %s positive' % (bn, n),
                                lambda ph, S, it, n=n, bf=bf: self.last_word(zz(S), getP(n, ph), bf(ph))))
        return out


class ScanFast(ZContract):
    name = 'iso_scan_zone_free_slot'

    def requires(self, eng, S0, a):
        return self.zreq(a)

    def outcomes(self, eng, S0, a):
        z = a.z
        n = z.maxidx
        return [Out('none', ret=lambda s: BAD, pick=lambda r: eq(r, BAD)),
                Out('found', ret=lambda s: zext_slot(fresh('slot', 26)), pick=lambda r: ne(r, BAD))]

    def ensures(self, eng, S0, S1, a, ret, oc):
        z = Zone(S1, a.k, True)
        if oc.name == 'found':
            return [C('the slot found belongs to the zone and is free', band(z.slot_ok(ret), z.free(ret)), 'P01')]
        return []


def bit_points(sk):
    out = []
    for v, s in sk.items():
        if s.w == 64:
            out += [lshr(s, c64(6)), lshr(s, c64(7)), lshr(and_(s, c64(63)), c64(1)), lshr(and_(s, c64(127)), c64(1)), and_(s, c64(63))]
    return {'*it': out}


def zext_slot(x):
    return zext(x, 64)


class ScanSlow(ScanFast):
    name = 'iso_scan_zone_free_slot_slow'

    def ensures(self, eng, S0, S1, a, ret, oc):
        z = Zone(S1, a.k, True)
        if oc.name == 'found':
            return [C('the slot found belongs to the zone and is free', band(z.slot_ok(ret), z.free(ret)), 'P01')]
        return [C('a zone is reported full only when every chunk is in use',
                  forall('full', [('s', 64)], lambda e: imp(z.slot_ok(e), eq(z.bit(e), c64(1))), [[('#', 's')]]), 'P03', hints=bit_points)]



def canaries(eng):
    return eng.cfg != 'nocanary'


def sanitize(eng):
    return eng.cfg == 'sanitize'


def other_slots(S0, S1, k, raw, e, tag='P01'):
    """all bits except the pair of slot e are unchanged"""
    z0, z1 = Zone(S0, k, raw), Zone(S1, k, raw)
    return forall('ob', [('s', 64)], lambda x: imp(ne(x, e), band(eq(z1.bit(x), z0.bit(x)), eq(z1.bit2(x), z0.bit2(x)))) if False else
                  imp(band(eq(and_(x, c64(1)), c64(0)), ne(x, e)), band(eq(z1.bit(x), z0.bit(x)), eq(z1.bit2(x), z0.bit2(x)))),
                  [[('#', 's')]])


class BitslotAlloc(ZContract):
    """hand out the chunk of one slot (zone unmasked)"""
    name = '_iso_alloc_bitslot_from_zone'
    params = ('s', 'zone')
    zpos = 1
    abort_tags = ('P03',)
    must_tags = ('P01', 'P07')

    def build(self, eng, st):
        return [fresh('slot', 64), zparam(eng, st)]

    def requires(self, eng, S0, a):
        return self.zreq(a) + [C('the slot belongs to the zone', a.z.slot_ok(a.s), 'P01')]

    def outcomes(self, eng, S0, a):
        z = a.z
        used = ne(z.bit(a.s), c64(0))
        p = z.chunk(a.s)
        bad = FALSE
        if canaries(eng):
            bad = band(eq(z.bit2(a.s), c64(1)), bnot(z.canary_ok(p)))
        o1 = Out('chunk already in use', used, abort=True)
        o1.tags = ('P01',)
        o2 = Out('canary overwritten', bad, abort=True)
        o2.tags = ('P07',)
        return [o1, o2, Out('chunk', band(bnot(used), bnot(bad)), ret=lambda s: p)]

    def events(self, eng, S0, S1, a, ret, oc):
        return [('call:_iso_alloc_bitslot_from_zone', a.s, a.zone, ret)] if eng.applying else []

    def modifies(self, eng, S0, a, oc):
        z = a.z
        p = z.chunk(a.s)
        m = [('ZS.af_count', (a.k,)), ('ZS.alloc_count', (a.k,)), ('PM.B', (add(z.bm, scale(lshr(a.s, c64(6)), 8)),))]
        if canaries(eng):
            m.append(('PM.U', (p,)))
        return m

    def frame_tag(self, key):
        return ('P01',)

    def ensures(self, eng, S0, S1, a, ret, oc):
        z0, z1 = Zone(S0, a.k, True), Zone(S1, a.k, True)
        p = z0.chunk(a.s)
        pair = and_(a.s, c64(63))
        m1, m2 = shl(c64(1), pair), shl(c64(1), add(pair, c64(1)))
        j = lshr(a.s, c64(6))
        out = [C('the address returned is the chunk of the slot', eq(ret, p), 'P02'),
               C('the slot becomes used, its previously-used mark is cleared and no other slot changes',
                 eq(z1.qword(j), and_(or_(z0.qword(j), m1), tm.xor(m2, c64(-1)))), 'P01'),
               C('active chunk count goes up by one', eq(z1._('af_count'), add(z0._('af_count'), const(1, 32))), 'P01', 'P33'),
               C('allocation count goes up by one', eq(z1._('alloc_count'), add(z0._('alloc_count'), const(1, 32))), 'P33')]
        if canaries(eng):
            out.append(C('the stale canary is wiped from the chunk handed out', eq(z1.U(p), ite(eq(z0.bit2(a.s), c64(1)), c64(0), z0.U(p))), 'P07'))
        return out



POISON8 = c64(0xdededededededede)


class FreeChunk(ZContract):
    """return one chunk to its zone (zone masked)"""
    name = 'iso_free_chunk_from_zone'
    raw = False
    params = ('zone', 'p', 'perm')
    must_tags = ('P04',)

    def build(self, eng, st):
        return [zparam(eng, st), userptr(eng), fresh('permanent', 1)]

    def bind(self, eng, S0, args):
        a = ZContract.bind(self, eng, S0, args)
        z = a.z
        a.off = sub(a.p, z.user)
        a.cn = udiv(a.off, z.cs)
        a.s = shl(a.cn, c64(1))
        a.j = lshr(a.s, c64(6))
        a.permanent = a.perm if a.perm.w == 0 else eq(a.perm, const(1, a.perm.w))
        return a

    def requires(self, eng, S0, a):
        return self.zreq(a)

    def outcomes(self, eng, S0, a):
        z = a.z

        def ab(name, c, *t):
            o = Out(name, c, abort=True)
            o.tags = t
            return o
        misaligned = ne(urem(a.off, z.cs), c64(0))
        outside = uge(a.j, z.maxidx)
        dbl = bor(eq(z.bit(a.s), c64(0)), ne(z.bit2(a.s), c64(0)))
        st = band(bnot(misaligned), bnot(outside))
        out = [ab('pointer is not the start of a chunk', misaligned, 'P04'), ab('pointer is outside the zone', band(bnot(misaligned), outside), 'P04'),
               ab('chunk is not live: free, freed permanently or a canary chunk', band(st, dbl), 'P04', 'P06')]
        bad = bor(misaligned, outside, dbl)
        if canaries(eng):
            so, su = add(a.s, c64(2)), sub(a.s, c64(2))
            over = band(ne(add(a.cn, c64(1)), z.count), ult(lshr(so, c64(6)), z.maxidx), eq(z.bit2(so), c64(1)), bnot(z.canary_ok(add(a.p, z.cs))))
            under = band(ne(a.cn, c64(0)), eq(z.bit2(su), c64(1)), bnot(z.canary_ok(sub(a.p, z.cs))))
            out.append(ab('next chunk has a damaged canary', band(st, bnot(dbl), over), 'P07'))
            out.append(ab('previous chunk has a damaged canary', band(st, bnot(dbl), under), 'P07'))
            bad = bor(bad, over, under)
        return out + [Out('freed', bnot(bad))]

    def events(self, eng, S0, S1, a, ret, oc):
        return [('call:iso_free_chunk_from_zone', a.zone, a.p, a.perm, None)] if eng.applying else []

    def modifies(self, eng, S0, a, oc):
        z = a.z
        return [('ZS.af_count', (a.k,)), ('ZS.free_bit_slots', (a.k, z.fidx)), ('ZS.free_bit_slots_index', (a.k,)), ('ZS.is_full', (a.k,)),
                ('PM.B', (add(z.bm, scale(a.j, 8)),)), ('PM.U', lambda x: ult(sub(x, a.p), z.cs))]

    def frame_tag(self, key):
        return ('P05', 'P01', 'P06') if key in NEXT + LIST + ['PM.B'] else ('P05',)

    def ensures(self, eng, S0, S1, a, ret, oc):
        z0, z1 = Zone(S0, a.k, False), Zone(S1, a.k, False)
        pair = and_(a.s, c64(63))
        m1, m2 = shl(c64(1), pair), shl(c64(1), add(pair, c64(1)))
        q1 = or_(z0.qword(a.j), m2)
        ins = band(bnot(a.permanent), ult(z0.fidx, c64(255)))
        cy = z0.canary(a.p)
        last = sub(add(a.p, z0.cs), c64(8))
        fill = TRUE if sanitize(eng) else a.permanent
        out = [C('the slot becomes free (stays used when freed permanently), is marked as having been used, and no other slot changes',
                 eq(z1.qword(a.j), ite(a.permanent, q1, and_(q1, tm.xor(m1, c64(-1))))), 'P05', 'P06', 'P01'),
               C('active chunk count goes down by one', eq(z1._('af_count'), sub(z0._('af_count'), const(1, 32))), 'P05', 'P33'),
               C('a freed slot is offered again through the free list when it has room, a permanently freed one never',
                 band(eq(z1.fidx, ite(ins, add(z0.fidx, c64(1)), z0.fidx)), eq(z1.entry(z0.fidx), ite(ins, a.s, z0.entry(z0.fidx)))), 'P05', 'P06', 'P01'),
               C('a zone with a freed slot is no longer full', band(imp(ins, bnot(z1.full)), imp(bnot(ins), eq(z1._('is_full'), z0._('is_full')))), 'P03')]
        if canaries(eng):
            out.append(C('canaries are written at both ends of the freed chunk', band(eq(z1.U(a.p), cy), eq(z1.U(last), cy)), 'P07'))
            mid = lambda x: band(ne(x, a.p), ne(x, last), eq(and_(x, c64(7)), c64(0)), ult(sub(x, a.p), z0.cs))
        else:
            mid = lambda x: band(eq(and_(x, c64(7)), c64(0)), ult(sub(x, a.p), z0.cs))
        out.append(C('a permanently freed (or sanitised) chunk is overwritten with the poison byte',
                     forall('poi', [('a', 64)], lambda x: imp(band(fill, mid(x)), eq(z1.U(x), POISON8)), [[('#', 'a')]]), 'P06', 'P05'))
        out.append(C('otherwise the rest of the chunk keeps its contents',
                     forall('keep', [('a', 64)], lambda x: imp(band(bnot(fill), mid(x)), eq(z1.U(x), z0.U(x))), [[('#', 'a')]]), 'P05'))
        return out



# ---------------------------------------------------------------- well-formed zone
def cached(M, key, deps, S, f):
    """the same clause over the same memory versions is the same object"""
    vs = tuple(S.mem_ver(d) for d in deps)
    k = (key,) + tuple(id(v) for v in vs)
    r = M.wfcache.get(k)
    if r is None:
        r = (vs, f())
        M.wfcache[k] = r
    return r[1]


GEO = ['ZS.chunk_size', 'ZS.chunk_count', 'ZS.bitmap_size', 'ZS.max_bitmap_idx']
PTRS = ['ZS.user_pages_start', 'ZS.bitmap_start', 'ZS.pointer_mask']
LIST = ['ZS.free_bit_slots', 'ZS.free_bit_slots_index', 'ZS.free_bit_slots_usable']
NEXT = ['ZS.next_free_bit_slot']
SLOTE = [[('#', 's')], [('PM.B', (None,))]]


def full_ok(z, e):
    return imp(band(z.full, z.slot_ok(e)), eq(z.bit(e), c64(1)))


def zone_wf(eng, S, k, raw=False):
    """clauses of one well-formed zone"""
    z = Zone(S, k, raw)
    M = eng.model

    def ch(name, deps, f):
        return cached(M, (name, k, raw), deps, S, f)
    return [
        C('zone geometry', geometry(z), 'P10'),
        C('zone addresses', addr_ok(z), 'P10'),
        C('free list bounds', list_shape(z), 'P01'),
        C('pending slot is free', next_ok(z), 'P01'),
        C('free list holds only free slots', ch('we', GEO + PTRS + LIST + NEXT + ['PM.B'], lambda: forall('we', I64, lambda i: entry_ok(z, i), SLOTP)), 'P01'),
        C('free list holds no slot twice', ch('wd', LIST, lambda: forall('wd', [('i', 64), ('i', 64)], lambda i, j: entry_dist(z, i, j),
          [[('ZS.free_bit_slots', (None, 0)), ('ZS.free_bit_slots', (None, 1))], [('#', 'i'), ('ZS.free_bit_slots', (None, 1))],
           [('#', 'i'), ('#', 'i')]])), 'P01'),
        C('a zone marked full has no free chunk', ch('wf', GEO + PTRS + ['PM.B', 'ZS.is_full'], lambda: forall('wf', [('s', 64)], lambda e: full_ok(z, e), [[('#', 's')]])), 'P03'),
        C('a zone marked full has an empty free list', imp(z.full, eq(z.fidx, c64(0))), 'P03'),
    ]


class IsZoneUsable(ZContract):
    """can this zone serve a request of this size?  If so a free slot is left pending"""
    name = 'is_zone_usable'
    raw = False
    params = ('zone', 'size')
    extra = (('size', 64),)

    def requires(self, eng, S0, a):
        return zone_wf(eng, S0, a.k)

    def refuse(self, eng, a):
        z = a.z
        waste = band(ugt(a.size, c64(1024)), uge(z.cs, shl(a.size, c64(3))))
        w = bor(z.full, waste)
        if eng.cfg == 'strong':
            w = bor(w, band(bnot(z.internal), ne(a.size, z.cs)))
        return w

    def outcomes(self, eng, S0, a):
        return [Out('no', TRUE, ret=lambda s: c64(0), pick=lambda r: eq(r, c64(0))),
                Out('yes', bnot(self.refuse(eng, a)), ret=lambda s: a.zone, pick=lambda r: ne(r, c64(0)))]

    def modifies(self, eng, S0, a, oc):
        k = a.k
        return [('ROOT.seed', None), ('ZS.free_bit_slots', (k, None)), ('ZS.free_bit_slots_usable', (k,)), ('ZS.free_bit_slots_index', (k,)),
                ('ZS.next_free_bit_slot', (k,)), ('ZS.is_full', (k,))]

    def frame_tag(self, key):
        return ('P27', 'P01', 'P11') if key in ('ZS.user_pages_start', 'ZS.bitmap_start') else ('P01',)

    def ensures(self, eng, S0, S1, a, ret, oc):
        z1 = Zone(S1, a.k)
        out = zone_wf(eng, S1, a.k)
        if oc.name == 'yes':
            out += [C('the zone itself is returned', eq(ret, a.zone), 'P02'),
                    C('a usable zone has a free slot pending', band(ne(z1.next, BAD), z1.slot_ok(z1.next), z1.free(z1.next)), 'P01', 'P03'),
                    C('a usable zone was not refused', bnot(self.refuse(eng, a)), 'P02'),
                    C('a usable zone is not marked full', eq(z1._('is_full'), a.z._('is_full')), 'P03')]
        else:
            out += [C('a zone that is not refused is reported unusable only when every chunk is in use', imp(bnot(self.refuse(eng, a)), z1.full), 'P03'),
                    C('a refused zone keeps its state', imp(self.refuse(eng, a), eq(z1._('is_full'), a.z._('is_full'))), 'P03')]
        return out


CONTRACTS = [FillFreeBitSlots(), ScanFast(), ScanSlow(), BitslotAlloc(), FreeChunk(), IsZoneUsable()]
