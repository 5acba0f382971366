"""Arithmetic helpers, mapping helpers, entropy."""
from core import *

RW, NONE = 3, 0


def roundup(n):
    return and_(add(n, c64(PAGE - 1)), c64(~(PAGE - 1) & (2**64 - 1)))


def pow2(v, w=64):
    return bor(*[eq(v, const(1 << i, w)) for i in range(w)])


class Util(Contract):
    verify_only = True
    deftags = ('P32',)
    frame_default = 'P32'


class IsPow2(Util):
    name = 'is_pow2'
    params = ('v',)
    deftags = ('P32', 'P26')

    def build(self, eng, st):
        return [fresh('v', 64)]

    def ensures(self, eng, S0, S1, a, ret, oc):
        r = ret if ret.w == 0 else ne(ret, const(0, ret.w))
        return [C('true exactly for zero and the powers of two', iff(r, bor(eq(a.v, c64(0)), pow2(a.v))), 'P32', 'P26')]


class NextPow2(Util):
    name = 'next_pow2'
    params = ('v',)

    def build(self, eng, st):
        return [fresh('v', 64)]

    def requires(self, eng, S0, a):
        return [C('the result is representable', ult(a.v, c64(1 << 63)))]

    def ensures(self, eng, S0, S1, a, ret, oc):
        return [C('the result is a power of two', pow2(ret), 'P32'),
                C('the result is larger than the argument', ugt(ret, a.v), 'P32'),
                C('no smaller power of two is larger than the argument', bor(eq(a.v, c64(0)), ule(lshr(ret, c64(1)), a.v)), 'P32'),
                C('one for zero', imp(eq(a.v, c64(0)), eq(ret, c64(1))), 'P32')]


class Log2(Util):
    name = '_log2'
    params = ('v',)

    def build(self, eng, st):
        return [fresh('v', 32)]

    def requires(self, eng, S0, a):
        return [C('argument is not zero', ne(a.v, const(0, 32)))]

    def ensures(self, eng, S0, S1, a, ret, oc):
        r = trunc(ret, 32) if ret.w > 32 else ret
        return [C('result %d exactly for arguments with top bit %d' % (i, i),
                  imp(eq(lshr(a.v, const(i, 32)), const(1, 32)), eq(r, const(i, 32))), 'P32') for i in range(32)]


class MapFn(Contract):
    verify_only = True
    deftags = ('P23',)
    ev_tags = ('P23', 'P32')
    frame_default = 'P23'
    abort_tags = ('P23',)
    must_tags = ('P23',)
    oom_must = ('P23',)
    maxsize = 1 << 40

    def requires(self, eng, S0, a):
        return [C('a size within the address space', ule(a.size, c64(self.maxsize)))]

    def outcomes(self, eng, S0, a):
        return [Out('maps')]

    def significant(self, ev):
        """what has an effect on which addresses are accessible: mappings and protections (advice has none)"""
        return [e for e in ev if e[0] != 'madvise']

    def advice(self, ev):
        """advice never touches anything outside the new mapping and never anything but discards fresh pages"""
        maps = [e for e in ev if e[0] == 'mmap']
        out = []
        for e in ev:
            if e[0] == 'madvise':
                out.append(('page advice stays inside the new mapping', bor(*[band(uge(e[1], m[1]), ule(sub(e[1], m[1]), zx(m[2])),
                           ule(zx(e[2]), sub(zx(m[2]), sub(e[1], m[1])))) for m in maps]), ()))
        return out

    def one_map(self, ev, size, prot):
        m = [e for e in ev if e[0] == 'mmap']
        if len(m) != 1:
            return None, [('exactly one mapping is created', FALSE, ())]
        m = m[0]
        out = [('the mapping has exactly the requested size in whole pages', eq(zx(m[2]), size), ('P23', 'P32')),
               ('the mapping has the requested protection', eq(m[3], prot), ()),
               ('the mapping is private, anonymous and does not replace another one', eq(and_(m[4], const(0x1f | 0x20, 32)), const(0x22, 32)), ())]
        return m[1], out


class MmapPages(MapFn):
    name = 'mmap_pages'
    params = ('size', 'populate', 'mname', 'prot')

    def build(self, eng, st):
        return [fresh('size', 64), fresh('pop', 0), c64(0), fresh('prot', 32)]

    def check_events(self, eng, S0, S1, a, ret, oc, ev):
        r, out = self.one_map(ev, roundup(a.size), a.prot)
        if r is None:
            return out
        return out + [('the mapping is returned', eq(ret, r), ())] + self.advice(ev) + ev_match(self.significant(ev), [e for e in ev if e[0] == 'mmap'])


class MmapRw(MmapPages):
    name = 'mmap_rw_pages'
    params = ('size', 'populate', 'mname')

    def build(self, eng, st):
        return [fresh('size', 64), fresh('pop', 0), c64(0)]

    def check_events(self, eng, S0, S1, a, ret, oc, ev):
        a.prot = const(RW, 32)
        return MmapPages.check_events(self, eng, S0, S1, a, ret, oc, ev)


class MmapGuarded(MapFn):
    name = 'mmap_guarded_rw_pages'
    params = ('size', 'populate', 'mname')
    build = MmapRw.build

    def check_events(self, eng, S0, S1, a, ret, oc, ev):
        n = roundup(a.size)
        r, out = self.one_map(ev, add(n, c64(2 * PAGE)), const(RW, 32))
        if r is None:
            return out
        g = [e for e in ev if e[0] == 'mprotect']
        if len(g) != 2:
            return out + [('two guard pages are made inaccessible', FALSE, ())]
        lo, hi = r, add(r, add(n, c64(PAGE)))
        out += [('the guards are single inaccessible pages', band(*[band(eq(zx(e[2]), c64(PAGE)), eq(e[3], const(NONE, 32))) for e in g]), ()),
                ('one guard lies right below and one right above the usable pages',
                 bor(band(eq(g[0][1], lo), eq(g[1][1], hi)), band(eq(g[1][1], lo), eq(g[0][1], hi))), ()),
                ('the first usable page is returned', eq(ret, add(r, c64(PAGE))), ())]
        return out + self.advice(ev) + ev_match([e for e in self.significant(ev) if e[0] != 'mprotect'], [e for e in ev if e[0] == 'mmap'])


class CreateGuard(MapFn):
    name = 'create_guard_page'
    params = ('p',)

    def cases(self, eng):
        return [('given', lambda e, s: [fresh('p', 64)]), ('null', lambda e, s: [c64(0)])]

    def requires(self, eng, S0, a):
        return [C('a page address', eq(and_(a.p, c64(PAGE - 1)), c64(0)))] + ([C('not null', ne(a.p, c64(0)))] if not is_c(a.p) else [])

    def check_events(self, eng, S0, S1, a, ret, oc, ev):
        g = [e for e in ev if e[0] == 'mprotect']
        out = []
        if is_c(a.p):
            r, out = self.one_map(ev, c64(PAGE), const(RW, 32))
            if r is None:
                return out
            out += self.advice(ev)
        else:
            r = a.p
            out = ev_match([e for e in ev if e[0] != 'mprotect'], [])
        if len(g) != 1:
            return out + [('one page is made inaccessible', FALSE, ())]
        g = g[0]
        return out + [('exactly the guard page is made inaccessible', band(eq(g[1], r), eq(zx(g[2]), c64(PAGE)), eq(g[3], const(NONE, 32))), ()),
                      ('the guard page is returned', eq(ret, r), ())]


class UnmapGuarded(MapFn):
    name = 'unmap_guarded_pages'
    params = ('p', 'size')

    def build(self, eng, st):
        return [fresh('p', 64), fresh('size', 64)]

    def requires(self, eng, S0, a):
        return MapFn.requires(self, eng, S0, a) + [C('a page address above the guard', band(eq(and_(a.p, c64(PAGE - 1)), c64(0)), uge(a.p, c64(1 << 20)), ult(a.p, c64(1 << 47))))]

    def check_events(self, eng, S0, S1, a, ret, oc, ev):
        return ev_match(ev, [('munmap', sub(a.p, c64(PAGE)), add(roundup(a.size), c64(2 * PAGE)))], 'releases the usable pages and both guards, and nothing else')


class MprotectPages(MapFn):
    name = 'mprotect_pages'
    params = ('p', 'size', 'prot')

    def build(self, eng, st):
        return [fresh('p', 64), fresh('size', 64), fresh('prot', 32)]

    def check_events(self, eng, S0, S1, a, ret, oc, ev):
        return ev_match(ev, [('mprotect', a.p, a.size, a.prot)])


class DontNeed(MapFn):
    name = 'dont_need_pages'
    params = ('p', 'size')

    def build(self, eng, st):
        return [fresh('p', 64), fresh('size', 64)]

    def check_events(self, eng, S0, S1, a, ret, oc, ev):
        if [e[0] for e in ev] != ['madvise']:
            return [('one piece of advice is given', FALSE, ())]
        e = ev[0]
        return [('the advice covers exactly the range', band(eq(e[1], a.p), eq(zx(e[2]), a.size)), ()),
                ('the pages are offered back (don\'t need or free)', bor(eq(e[3], const(4, 32)), eq(e[3], const(8, 32))), ())]


# ---------------------------------------------------------------- entropy
class RandU64(Contract):
    name = 'rand_uint64'
    verify_only = True
    deftags = ('P28',)
    ev_tags = ('P28',)
    frame_default = 'P28'
    abort_tags = ('P28',)

    def build(self, eng, st):
        del eng.externs['rand_uint64']

        def getrandom(e, st, args, ins):
            st = st.copy()
            got, val = fresh('got', 64), fresh('ent', 64)
            st.ev = st.ev + (('getrandom', args[1], args[2], got, val),)
            e.store(st, args[0], val, ins)
            return [('ret', st, got)]
        eng.externs['getrandom'] = getrandom
        return []

    def outcomes(self, eng, S0, a):
        o = Out('entropy is missing', TRUE, abort=True)
        return [o, Out('random')]

    def check_events(self, eng, S0, S1, a, ret, oc, ev):
        if [e[0] for e in ev] != ['getrandom']:
            return [('exactly one request to the system entropy source', FALSE, ())]
        e = ev[0]
        return [('a full 64-bit word is requested', eq(zx(e[1]), c64(8)), ()),
                ('only the documented source flags are used', eq(and_(zx(e[2]), c64(~3 & (2**64 - 1))), c64(0)), ()),
                ('never returns unless the whole word was delivered', eq(e[3], c64(8)), ()),
                ('the value returned is the value delivered', eq(ret, e[4]), ())]


CONTRACTS = [IsPow2(), NextPow2(), Log2(), MmapPages(), MmapRw(), MmapGuarded(), CreateGuard(), UnmapGuarded(), MprotectPages(), DontNeed(), RandU64()]
