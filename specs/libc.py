"""Sanity-checked memcpy, memmove and memset (configuration 'libc') and the search for stale pointers."""
from core import *
from zone import *
from root import RW, used, inzone, kpat, KP
import root as _root

LIM = c64(1 << 40)
AMAX = c64(1 << 47)


class Xfer(Contract):
    """memory handed in by the caller is byte granular and may be anywhere (class X)"""
    deftags = ('P25',)
    frame_default = 'P25'
    abort_tags = ('P25',)
    must_tags = ('P25',)
    ev_tags = ('P25',)
    verify_only = True
    srcs = 1
    checked = True

    def bytes_(self, eng):
        eng.pm_cells['X'] = 1
        eng.pm_key('X')

    def buf(self, eng, n):
        p = fresh(n, 64)
        eng.freshpm[p] = 'X'
        return p

    def bind(self, eng, S0, args):
        a = Contract.bind(self, eng, S0, args)
        a.src = args[1] if self.srcs else None
        return a

    def pm_ok(self, eng, st, place, n, write):
        if place[1] != 'X':
            return None
        a = eng.cur_a
        addr = place[2]

        def within(p):
            off = sub(addr, p)
            return band(ule(n, a.n), ule(off, sub(a.n, n)))
        return within(a.dest) if write or a.src is None else bor(within(a.dest), within(a.src))

    def requires(self, eng, S0, a):
        out = [C('buffers lie in the address space', band(uge(a.dest, c64(1 << 16)), ult(a.dest, AMAX), ule(a.n, LIM)))]
        if a.src is not None:
            out.append(C('source lies in the address space', band(uge(a.src, c64(1 << 16)), ult(a.src, AMAX))))
            if not self.overlap:
                out.append(C('the buffers of a copy do not overlap', apart(a.dest, a.n, a.src, a.n)))
        if self.checked:
            w = RW(eng, S0)
            out += [w.bounds(), w.geo(), w.addr(), w.clt()]
        return out
    overlap = False

    def over(self, eng, S0, a, p):
        """the operation is longer than a chunk of the zone the lookup table names, and starts in that zone"""
        k = zext(S0.leaf('CLT', and_(lshr(p, c64(32)), c64(0xffff))), 64)
        z = Zone(S0, k)
        if S0.st is not None:
            S0.st.hint('k', k)
        off = sub(p, z.user)
        must = band(ugt(a.n, z.cs), ult(off, c64(ZUSER)), ult(a.n, sub(c64(ZUSER), off)))
        may = band(ugt(a.n, z.cs), uge(p, z.user))
        return must, may

    def outcomes(self, eng, S0, a):
        if not self.checked:
            return [Out('done', ret=lambda s: a.dest)]
        m, y = [], []
        for p in [a.dest] + ([a.src] if a.src is not None else []):
            c, d = self.over(eng, S0, a, p)
            m.append(c)
            y.append(d)
        o = Out('longer than the chunk it starts in', bor(*m), abort=True)
        o2 = Out('longer than a chunk', bor(*y), abort=True)
        o2.must = False
        return [o, o2, Out('done', bnot(bor(*m)), ret=lambda s: a.dest)]

    def modifies(self, eng, S0, a, oc):
        return [('PM.X', lambda x: ult(sub(x, a.dest), a.n))]

    def value(self, S0, a, x):
        return S0.leaf('PM.X', add(a.src, sub(x, a.dest)))

    def at(self, S0, S, a, done):
        """the bytes for which done(x) holds have their final value, all others the old one"""
        return forall('cp', [('a', 64)], lambda x: eq(S.leaf('PM.X', x), ite(done(x), self.value(S0, a, x), S0.leaf('PM.X', x))), [[('PM.X', (0,))], [('#', 'a')]])

    def first(self, a, it):
        return lambda x: ult(sub(x, a.dest), it)

    def last(self, a, it):
        return lambda x: ult(sub(sub(add(a.dest, a.n), c64(1)), x), it)

    def ensures(self, eng, S0, S1, a, ret, oc):
        return [C('exactly the bytes of the destination get their new value', self.at(S0, S1, a, self.first(a, a.n)), 'P25'),
                C('the destination is returned', eq(ret, a.dest), 'P25')]

    def loop_specs(self, eng, ctx, a):
        from loops import Cand
        S0 = eng.cur_S0
        out = [Cand('the first it bytes are done', lambda ph, S, it: self.at(S0, S, a, self.first(a, it))),
               Cand('the last it bytes are done', lambda ph, S, it: self.at(S0, S, a, self.last(a, it))),
               Cand('it within n', lambda ph, S, it: ule(it, a.n))]
        for n in ctx.phis:
            if ctx.entry[n].w == 64:
                out.append(Cand('%s+it=n' % n, lambda ph, S, it, n=n: eq(add(ph[n], it), a.n)))
        return out


class MemCpy(Xfer):
    params = ('dest', 'srcp', 'n')

    def __init__(self, name, checked=True):
        self.name, self.checked = name, checked

    def build(self, eng, st):
        self.bytes_(eng)
        return [self.buf(eng, 'dest'), self.buf(eng, 'src'), fresh('n', 64)]


class MemMove(MemCpy):
    overlap = True


class MemSet(Xfer):
    params = ('dest', 'b', 'n')
    srcs = 0

    def __init__(self, name, checked=True):
        self.name, self.checked = name, checked

    def build(self, eng, st):
        self.bytes_(eng)
        eng.externs.pop('__iso_memset', None)
        return [self.buf(eng, 'dest'), fresh('b', 32), fresh('n', 64)]

    def value(self, S0, a, x):
        return trunc(a.b, 8)


class Bzero(MemSet):
    params = ('dest', 'n')

    def build(self, eng, st):
        x = MemSet.build(self, eng, st)
        return [x[0], x[2]]

    def value(self, S0, a, x):
        return const(0, 8)

    def ensures(self, eng, S0, S1, a, ret, oc):
        return MemSet.ensures(self, eng, S0, S1, a, a.dest, oc)


# ---------------------------------------------------------------- search
class PtrSearch(Contract):
    name = '_iso_alloc_ptr_search'
    params = ('n', 'poison')
    deftags = ('P35',)
    frame_default = 'P35'
    need_locks = ('root',)
    abort_tags = ('P35', 'P03')
    verify_only = True

    def build(self, eng, st):
        self.eng = eng
        eng.pm_cells['U'] = 1
        eng.pm_key('U')
        return [fresh('n', 64), fresh('poison', 1)]

    def requires(self, eng, S0, a):
        w = RW(eng, S0)
        return [w.bounds(), w.geo(), w.addr(), w.disj_user()]

    def want(self, eng, a):
        return and_(a.n, c64((1 << 56) - 1)) if eng.cfg == 'tag' else a.n

    def word(self, S, x):
        return concat(*[S.leaf('PM.U', add(x, c64(i))) for i in range(7, -1, -1)])

    def absent(self, eng, S0, a, k, lim):
        z = Zone(S0, k)
        return forall('abs', [('a', 64)], lambda x: imp(band(ule(sub(x, z.user), c64(ZUSER - 8)), ult(sub(x, z.user), lim)), ne(self.word(S0, x), self.want(eng, a))), [[('#', 'a')]])

    def zones_absent(self, eng, S0, a, n):
        def f(k, x):
            z = Zone(S0, k)
            return imp(band(ult(k, n), ule(sub(x, z.user), c64(ZUSER - 8))), ne(self.word(S0, x), self.want(eng, a)))
        return forall('za', [('k', 64), ('a', 64)], f, [[('#', 'k'), ('#', 'a')]])

    def outcomes(self, eng, S0, a):
        return [Out('none', ret=lambda s: c64(0), pick=lambda r: eq(r, c64(0))), Out('found', ret=lambda s: fresh('hit', 64), pick=lambda r: ne(r, c64(0)))]

    def zone_of(self, ret):
        ats = list(tm.atoms([ret]))
        org = self.eng.phiorg
        while any(x.op == 'f' and x.p in org for x in ats):
            ats = [y for x in ats for y in (tm.atoms([org[x.p]]) if x.op == 'f' and x.p in org else [x])]
        ks = [x.args[0] for x in ats if x.op == 'f' and x.p.startswith('ZS.user_pages_start')]
        return ks[0] if len(set(ks)) == 1 else None

    def poisons(self, eng, a):
        return eq(a.poison, const(1, a.poison.w)) if eng.cfg == 'uaf' else FALSE

    def modifies(self, eng, S0, a, oc):
        if oc.name == 'found' and eng.cfg == 'uaf':
            return [('PM.U', lambda x: band(self.poisons(eng, a), bor(*[eq(x, add(eng.final_ret, c64(i))) for i in range(8)])))]
        return []

    def ensures(self, eng, S0, S1, a, ret, oc):
        if oc.name == 'none':
            return [C('when nothing is reported no zone holds the value anywhere', self.zones_absent(eng, S0, a, used(S0)), 'P35')]
        k = self.zone_of(ret)
        if k is None:
            return [C('a reported location lies in the user pages of a zone', FALSE, 'P35')]
        out = [C('a reported location lies in the user pages of a zone', band(ult(k, used(S0)), ule(sub(ret, Zone(S0, k).user), c64(ZUSER - 8))), 'P35'),
               C('a reported location holds the value', eq(self.word(S0, ret), self.want(eng, a)), 'P35')]
        if eng.cfg == 'uaf':
            out.append(C('only when asked for, exactly that location is overwritten with the address of the inaccessible page',
                         imp(self.poisons(eng, a), eq(self.word(S1, ret), S0.leaf('ROOT.uaf_ptr_page'))), 'P35'))
        return out

    def loop_specs(self, eng, ctx, a):
        from loops import Cand
        S0 = eng.cur_S0
        out = []
        for n in ctx.phis:
            w = ctx.entry[n].w
            if w == 32:
                out.append(Cand('zones below %s do not hold it' % n, lambda ph, S, it, n=n: self.zones_absent(eng, S0, a, sext(ph[n], 64))))
                out.append(Cand('%s within zones used' % n, lambda ph, S, it, n=n: ule(sext(ph[n], 64), used(S0))))
            if w == 64:
                u = ctx.entry[n]
                ks = [x.args[0] for x in tm.atoms([u]) if x.op == 'f' and x.p.startswith('ZS.user_pages_start')]
                for k in ks[:1]:
                    out.append(Cand('%s inside the zone' % n, lambda ph, S, it, n=n, u=u: ule(sub(ph[n], u), c64(ZUSER - 7))))
                    out.append(Cand('nothing below %s' % n, lambda ph, S, it, n=n, k=k, u=u: self.absent(eng, S0, a, k, sub(ph[n], u))))
        return out


CONTRACTS = [MemCpy('_iso_alloc_memcpy'), MemMove('_iso_alloc_memmove'), MemSet('_iso_alloc_memset'),
             MemCpy('memcpy'), MemMove('memmove'), MemSet('memset'), Bzero('bzero'), PtrSearch()]
