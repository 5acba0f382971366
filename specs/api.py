"""Public entry points: what each one asks of the allocator core, in which order and with which arguments.
The core functions appear here as recorded calls; their own contracts are in zone.py / root.py / big.py."""
from core import *

MASK = ('ROOT.zone_handle_mask',)
CORE = {  # name -> (number of arguments, width of the result or None)
    '_iso_alloc': (2, 64), '_iso_calloc': (2, 64), '_iso_free': (2, None), '_iso_free_size': (2, None), '_iso_free_from_zone': (3, None),
    '_iso_chunk_size': (1, 64), 'iso_new_zone': (2, 64), '_iso_alloc_destroy_zone': (1, None), '_tag_ptr': (2, 64), '_untag_ptr': (2, 64),
    '_iso_alloc_verify_tag': (2, None), '_iso_alloc_get_mem_tag': (2, 8), '_iso_alloc_detect_leaks_in_zone': (1, 64), '_iso_alloc_detect_leaks': (0, 64),
    '_iso_alloc_zone_mem_usage': (1, 64), '_iso_alloc_mem_usage': (0, 64), 'verify_all_zones': (0, None), 'verify_zone': (1, None), 'flush_caches': (0, None),
    '_iso_alloc_initialize': (0, None), '_iso_alloc_destroy': (0, None), '_iso_alloc_protect_root': (0, None), '_iso_alloc_unprotect_root': (0, None),
    'name_mapping': (3, 32), '_iso_alloc_memcpy': (3, 64), '_iso_alloc_memmove': (3, 64), '_iso_alloc_memset': (3, 64),
    '_iso_get_alloc_traces': (1, 64), '_iso_get_free_traces': (1, 64), '_iso_alloc_reset_traces': (0, None), '_iso_big_alloc': (1, 64),
}


def b2(t):
    return t if t.w == 0 else ne(t, const(0, t.w))


def same(x, y):
    """equality of two arguments, whatever width the front end gave them"""
    if x.w == 0 or y.w == 0:
        return iff(b2(x), b2(y))
    if x.w != y.w:
        n = max(x.w, y.w)
        x, y = zext(x, n), zext(y, n)
    return eq(x, y)


class Api(Contract):
    verify_only = True
    api = True
    abort_tags = ('P37', 'P26', 'P16', 'P17', 'P15')
    own = ()                 # core functions that are verified here and not recorded
    extra_calls = {}

    def record(self, eng):
        for n, (k, w) in list(CORE.items()) + list(self.extra_calls.items()):
            if n in self.own or n == self.name:
                continue

            def f(e, st, args, ins, n=n, w=w):
                st = st.copy()
                r = fresh('r' + n, w) if w is not None else None
                if w == 8:
                    r = fresh('r' + n, 8)
                if n == '_iso_alloc':
                    e.pm_cells['X'] = 1
                    e.freshpm[r] = 'X'
                    e.freshsize[r] = args[1]
                    st.assume(imp(ne(r, c64(0)), band(uge(r, c64(1 << 20)), ult(r, c64(1 << 47)))))
                st.ev = st.ev + (('call:' + n,) + tuple(args) + (r,),)
                return [('ret', st, r)]
            eng.externs[n] = f

        def memset(e, st, args, ins):
            st = st.copy()
            st.ev = st.ev + (('memset', args[0], args[1], args[2]),)
            return [('ret', st, args[0])]
        eng.externs['llvm.memset.p0.i64'] = memset
        eng.externs['__iso_memset'] = memset

        def memcpy(e, st, args, ins):
            st = st.copy()
            st.ev = st.ev + (('call:_iso_alloc_memcpy', args[0], args[1], args[2], args[0]),)
            return [('ret', st, args[0])]
        for n in ('llvm.memcpy.p0.p0.i64', '__iso_memcpy', '__iso_memmove', 'llvm.memmove.p0.p0.i64'):
            eng.externs[n] = memcpy

        def strlen(e, st, args, ins):
            st = st.copy()
            r = fresh('len', 64)
            st.assume(ult(r, c64(1 << 47)))
            st.ev = st.ev + (('strlen', args[0], r),)
            return [('ret', st, r)]
        eng.externs['strlen'] = strlen

        def memchr(e, st, args, ins):
            st = st.copy()
            r, off = fresh('nul', 64), fresh('off', 64)
            p, ch, n = args[0], args[1], args[2]
            st.assume(bor(eq(r, c64(0)), band(eq(r, add(p, off)), ult(off, n), ult(off, c64(1 << 47)))), imp(eq(r, c64(0)), ult(n, c64(1 << 47))))
            st.ev = st.ev + (('memchr', p, ch, n, r),)
            return [('ret', st, r)]
        eng.externs['memchr'] = memchr

        def strnlen(e, st, args, ins):
            st = st.copy()
            r = fresh('nlen', 64)
            st.assume(ule(r, args[1]), ult(r, c64(1 << 47)))
            st.ev = st.ev + (('strnlen', args[0], args[1], r),)
            return [('ret', st, r)]
        eng.externs['strnlen'] = strnlen

    def build(self, eng, st):
        self.record(eng)
        return self.mk(eng, st)

    def mk(self, eng, st):
        return [fresh('arg', w) for w in self.widths]

    widths = ()

    def handle(self, eng, k):
        """a valid handle: the masked address of zone k"""
        mask = read(eng.leaf_base('ROOT.zone_handle_mask'), ())
        return tm.xor(eng.model.zaddr(k), mask)


def calls(ev):
    return [(e[0][5:], e[1:-1], e[-1]) for e in ev if e[0].startswith('call:')]


class Forward(Api):
    """hands its arguments to one core function and returns its result"""
    deftags = ('P26',)

    def __init__(self, name, callee, widths, args, ret=True, tags=('P26',), const_args=None, handle_at=None, null_ok=None, own=(), cond=None):
        self.name, self.callee, self.widths, self.argf, self.rets = name, callee, widths, args, ret
        self.deftags = self.ev_tags = tags
        self.frame_default = tags[0]
        self.abort_tags = tags
        self.handle_at = handle_at
        self.null_ok = null_ok
        self.own = own

    def cases(self, eng):
        if self.handle_at is None:
            return [('', self.build)]

        def valid(e, st):
            self.record(e)
            xs = [fresh('arg', w) for w in self.widths]
            k = fresh('k', 64)
            st.hint('k', k)
            st.assume(ult(k, c64(MAXZ)))
            xs[self.handle_at] = self.handle(e, k)
            # a valid handle is not the null handle
            st.assume(ne(xs[self.handle_at], c64(0)))
            return xs

        def null(e, st):
            self.record(e)
            xs = [fresh('arg', w) for w in self.widths]
            xs[self.handle_at] = c64(0)
            return xs
        out = [('valid handle', valid)]
        if self.null_ok is not None:
            out.append(('null handle', null))
        return out

    params = property(lambda self: tuple('x%d' % i for i in range(len(self.widths))))

    def bind(self, eng, S0, args):
        a = NS()
        a.x = args
        a.args = args
        a.null = self.handle_at is not None and is_c(args[self.handle_at])
        if self.handle_at is not None and not a.null:
            a.zone = tm.xor(args[self.handle_at], S0.leaf('ROOT.zone_handle_mask'))
            a.k = eng.model.zidx(a.zone)
        return a

    def check_events(self, eng, S0, S1, a, ret, oc, ev):
        if a.null and self.null_ok != 'pass':
            out = ev_match(ev, [], 'a null handle is never used')
            if ret is not None and self.rets:
                out.append(('a null handle yields nothing', eq(zx(ret), c64(0)), ()))
            return out
        cs = calls(ev)
        if len(cs) != 1 or cs[0][0] not in (self.callee if isinstance(self.callee, tuple) else (self.callee,)):
            return [('exactly one call, of %s (got %s)' % (self.callee, [c[0] for c in cs]), FALSE, ())]
        n, got, r = cs[0]
        exp = self.argf(eng, S0, a)
        out = [('argument %d of %s' % (i + 1, n), same(g, x), ()) for i, (g, x) in enumerate(zip(got, exp))]
        if self.rets:
            out.append(('its result is returned unchanged', same(ret, r), ()))
        return out


T, F = TRUE, FALSE
Z0 = c64(0)


def _(*f):
    return lambda eng, S0, a: [x(a) if callable(x) else x for x in f]


def x(i):
    return lambda a: a.x[i]


zone = lambda a: a.zone


def fw(name, callee, w, args, **kw):
    return Forward(name, callee, w, args, **kw)


API = [
    fw('iso_alloc', '_iso_alloc', [64], _(Z0, x(0))),
    fw('iso_calloc', '_iso_calloc', [64, 64], _(x(0), x(1)), tags=('P26', 'P15')),
    fw('iso_free', '_iso_free', [64], _(x(0), F), ret=False),
    fw('iso_free_size', '_iso_free_size', [64, 64], _(x(0), x(1)), ret=False, tags=('P26', 'P31')),
    fw('iso_free_permanently', '_iso_free', [64], _(x(0), T), ret=False, tags=('P26', 'P06')),
    fw('iso_chunksz', '_iso_chunk_size', [64], _(x(0)), tags=('P26', 'P18')),
    fw('iso_free_from_zone', '_iso_free_from_zone', [64, 64], _(x(0), zone, F), ret=False, tags=('P37',), handle_at=1),
    fw('iso_free_from_zone_permanently', '_iso_free_from_zone', [64, 64], _(x(0), zone, T), ret=False, tags=('P37', 'P06'), handle_at=1),
    fw('iso_alloc_tag_ptr', '_tag_ptr', [64, 64], _(x(0), zone), tags=('P37', 'P21'), handle_at=1, null_ok='nothing'),
    fw('iso_alloc_untag_ptr', '_untag_ptr', [64, 64], _(x(0), zone), tags=('P37', 'P21'), handle_at=1, null_ok='nothing'),
    fw('iso_alloc_verify_ptr_tag', '_iso_alloc_verify_tag', [64, 64], _(x(0), zone), ret=False, tags=('P37', 'P21'), handle_at=1, null_ok='nothing'),
    fw('iso_alloc_destroy_zone', '_iso_alloc_destroy_zone', [64], _(zone), ret=False, tags=('P37', 'P11'), handle_at=0, null_ok='nothing'),
    fw('iso_alloc_detect_zone_leaks', '_iso_alloc_detect_leaks_in_zone', [64], _(zone), tags=('P37', 'P20'), handle_at=0, null_ok='nothing'),
    fw('iso_alloc_detect_leaks', '_iso_alloc_detect_leaks', [], _(), tags=('P37', 'P20')),
    fw('iso_alloc_zone_mem_usage', '_iso_alloc_zone_mem_usage', [64], _(zone), tags=('P37', 'P33'), handle_at=0, null_ok='nothing'),
    fw('iso_alloc_mem_usage', '_iso_alloc_mem_usage', [], _(), tags=('P37', 'P33')),
    fw('iso_verify_zone', 'verify_zone', [64], _(zone), ret=False, tags=('P37', 'P19'), handle_at=0, null_ok='nothing'),
    fw('iso_verify_zones', 'verify_all_zones', [], _(), ret=False, tags=('P37', 'P19')),
    fw('iso_flush_caches', 'flush_caches', [], _(), ret=False, tags=('P37', 'P08')),
]


class ZoneAlloc(Forward):
    """iso_alloc_from_zone: one chunk of the zone's own size"""

    def __init__(self, name):
        Forward.__init__(self, name, '_iso_alloc', [64], lambda eng, S0, a: [a.zone, zext(S0.leaf('ZS.chunk_size', a.k), 64)], tags=('P37',), handle_at=0, null_ok='nothing')


class TaggedAlloc(ZoneAlloc):
    def __init__(self, name):
        ZoneAlloc.__init__(self, name)
        self.deftags = self.ev_tags = ('P37', 'P21')

    def check_events(self, eng, S0, S1, a, ret, oc, ev):
        if a.null:
            return Forward.check_events(self, eng, S0, S1, a, ret, oc, ev)
        cs = calls(ev)
        if [c[0] for c in cs] != ['_iso_alloc', '_tag_ptr']:
            return [('allocates from the zone, then tags the chunk (got %s)' % [c[0] for c in cs], FALSE, ())]
        al, tg = cs
        return [('allocates from the zone of the handle', eq(al[1][0], a.zone), ()),
                ('allocates a chunk of the zone\'s size', eq(al[1][1], zext(S0.leaf('ZS.chunk_size', a.k), 64)), ()),
                ('tags the chunk it got, with the tag of that zone', band(eq(tg[1][0], al[2]), eq(tg[1][1], a.zone)), ()),
                ('returns the tagged pointer', eq(ret, tg[2]), ())]


class GetMemTag(Forward):
    def __init__(self):
        Forward.__init__(self, 'iso_alloc_get_mem_tag', '_iso_alloc_get_mem_tag', [64, 64], _(x(0), zone), tags=('P37', 'P21'), handle_at=1, null_ok='nothing')

    def check_events(self, eng, S0, S1, a, ret, oc, ev):
        out = Forward.check_events(self, eng, S0, S1, a, ret, oc, ev)
        if not a.null and not calls(ev):
            return [('only a null pointer has no tag', band(eq(a.x[0], c64(0)), eq(zx(ret), c64(0))), ())]
        return out


class NewZone(Forward):
    def __init__(self):
        Forward.__init__(self, 'iso_alloc_new_zone', 'iso_new_zone', [64], _(x(0), F), tags=('P37',))

    def check_events(self, eng, S0, S1, a, ret, oc, ev):
        cs = calls(ev)
        if [c[0] for c in cs] != ['iso_new_zone']:
            return [('creates one zone', FALSE, ())]
        n, got, r = cs[0]
        return [('creates a private zone of the requested size', band(eq(got[0], a.x[0]), bnot(b2(got[1]))), ()),
                ('the handle is the zone, masked', imp(ne(r, c64(0)), eq(ret, tm.xor(r, S0.leaf('ROOT.zone_handle_mask')))), ()),
                ('a refused zone yields a null handle', imp(eq(r, c64(0)), eq(ret, c64(0))), ())]


class ChunkCount(Forward):
    def __init__(self):
        Forward.__init__(self, 'iso_zone_chunk_count', '', [64], None, tags=('P37',), handle_at=0)

    def check_events(self, eng, S0, S1, a, ret, oc, ev):
        cnt = zext(S0.leaf('ZS.chunk_count', a.k), 64)
        return ev_match(ev, []) + [('never more than the chunks of the zone of the handle', ule(ret, cnt), ()),
                                   ('at least the chunks less one in 128', uge(ret, sub(cnt, lshr(cnt, c64(7)))), ())]


API += [ZoneAlloc('iso_alloc_from_zone'), TaggedAlloc('iso_alloc_from_zone_tagged'), GetMemTag(), NewZone(), ChunkCount()]

HK = ('P26',)
FREE = dict(ret=False, tags=HK)
SHIMS = [
    fw('malloc', '_iso_alloc', [64], _(Z0, x(0)), tags=HK), fw('__libc_malloc', '_iso_alloc', [64], _(Z0, x(0)), tags=HK),
    fw('free', '_iso_free', [64], _(x(0), F), **FREE), fw('__libc_free', '_iso_free', [64], _(x(0), F), **FREE),
    fw('calloc', '_iso_calloc', [64, 64], _(x(0), x(1)), tags=HK), fw('__libc_calloc', '_iso_calloc', [64, 64], _(x(0), x(1)), tags=HK),
    fw('realloc', 'iso_realloc', [64, 64], _(x(0), x(1)), tags=HK), fw('__libc_realloc', 'iso_realloc', [64, 64], _(x(0), x(1)), tags=HK),
    fw('reallocarray', 'iso_reallocarray', [64] * 3, _(x(0), x(1), x(2)), tags=HK), fw('__libc_reallocarray', 'iso_reallocarray', [64] * 3, _(x(0), x(1), x(2)), tags=HK),
    fw('malloc_usable_size', '_iso_chunk_size', [64], _(x(0)), tags=HK),
    fw('libc_malloc', '_iso_alloc', [64, 64], _(Z0, x(0)), tags=HK), fw('libc_free', '_iso_free', [64, 64], _(x(0), F), **FREE),
    fw('libc_realloc', 'iso_realloc', [64] * 3, _(x(0), x(1)), tags=HK),
]
for c in SHIMS:
    c.extra_calls = {'iso_realloc': (2, 64), 'iso_reallocarray': (3, 64)}


class Memalign(Forward):
    """alignment, size -> memory; chunks are 32 byte aligned, larger alignments must be honoured or refused"""

    def __init__(self, name, extra=0):
        Forward.__init__(self, name, '_iso_alloc', [64] * (2 + extra), None, tags=HK)

    def check_events(self, eng, S0, S1, a, ret, oc, ev):
        al, n = a.x[0], a.x[1]
        cs = calls(ev)
        if [c[0] for c in cs] == []:
            return [('refuses by returning null', eq(ret, c64(0)), ())]
        if cs[0][0] != '_iso_alloc':
            return [('allocates', FALSE, ())]
        got, r = cs[0][1], cs[0][2]
        return [('allocates at least the requested size from the shared zones', band(eq(got[0], c64(0)), uge(got[1], n)), ()),
                ('returns that memory or refuses', bor(eq(ret, r), eq(ret, c64(0))), ()),
                ('the memory is aligned as requested', imp(band(ne(al, c64(0)), ne(ret, c64(0)), ugt(al, c64(32))), eq(and_(ret, sub(al, c64(1))), c64(0))), ())]


SHIMS += [Memalign('memalign'), Memalign('aligned_alloc'), Memalign('__libc_memalign'), Memalign('libc_memalign', 1)]


class PosixMemalign(Forward):
    def __init__(self, name):
        Forward.__init__(self, name, '_iso_alloc', [64] * 3, None, tags=HK)
        self.extra_calls = {}

    def mk(self, eng, st):
        p = var('&memptr', 64)
        if p not in eng.regions:
            from ir import Ty
            eng.add_region(p, '@memptr', Ty('i', 64))
        return [p, fresh('align', 64), fresh('size', 64)]

    def modifies(self, eng, S0, a, oc):
        return [('@memptr', None)]

    def check_events(self, eng, S0, S1, a, ret, oc, ev):
        from util import pow2
        al, n = a.x[1], a.x[2]
        r32 = trunc(ret, 32) if ret.w > 32 else ret
        out = S1.leaf('@memptr')
        cs = calls(ev)
        ok = bor(eq(al, c64(0)), pow2(al))
        if not cs:
            return [('refuses only an alignment that is no power of two', bnot(pow2(al)), ()), ('reports EINVAL', eq(r32, const(22, 32)), ())]
        if cs[0][0] != '_iso_alloc':
            return [('allocates', FALSE, ())]
        got, r = cs[0][1], cs[0][2]
        return [('an alignment that is no power of two is refused', ok, ()),
                ('allocates at least the requested size from the shared zones', band(eq(got[0], c64(0)), uge(got[1], n)), ()),
                ('an alignment above the size raises the size', uge(got[1], al), ()),
                ('success exactly when there is memory', iff(eq(r32, const(0, 32)), ne(out, c64(0))), ()),
                ('reports ENOMEM otherwise', imp(eq(out, c64(0)), eq(r32, const(12, 32))), ()),
                ('hands out that memory', imp(eq(r32, const(0, 32)), eq(out, r)), ()),
                ('the memory is aligned as requested', imp(band(ne(al, c64(0)), ne(out, c64(0)), ugt(al, c64(32))), eq(and_(out, sub(al, c64(1))), c64(0))), ())]


SHIMS += [PosixMemalign('__posix_memalign'), PosixMemalign('posix_memalign')]


# C++ operators
class OpNew(Forward):
    def __init__(self, name, k, aligned, nothrow):
        Forward.__init__(self, name, '_iso_alloc', [64] * k, None, tags=HK)
        self.aligned, self.nothrow = aligned, nothrow

    def check_events(self, eng, S0, S1, a, ret, oc, ev):
        cs = calls(ev)
        if [c[0] for c in cs] != ['_iso_alloc']:
            return [('one allocation', FALSE, ())]
        got, r = cs[0][1], cs[0][2]
        out = [('allocates at least the requested size from the shared zones', band(eq(got[0], c64(0)), uge(got[1], a.x[0])), ()),
               ('returns that memory', eq(ret, r), ())]
        if self.aligned:
            al = a.x[1]
            out.append(('the memory is aligned as requested', imp(band(ne(al, c64(0)), ne(ret, c64(0)), ugt(al, c64(32))), eq(and_(ret, sub(al, c64(1))), c64(0))), ()))
        if not self.nothrow:
            out.append(('a throwing operator new never returns null', ne(ret, c64(0)), ()))
        return out


for op in ('w', 'a'):
    b = '_Zn%sm' % op
    SHIMS += [OpNew(b, 1, False, False), OpNew(b + 'RKSt9nothrow_t', 2, False, True), OpNew(b + 'St11align_val_t', 2, True, False),
              OpNew(b + 'St11align_val_tRSt9nothrow_t', 3, True, True)]
for op in ('l', 'a'):
    b = '_Zd%sPv' % op
    SHIMS += [fw(b, '_iso_free', [64], _(x(0), F), **FREE), fw(b + 'm', '_iso_free_size', [64, 64], _(x(0), x(1)), **FREE),
              fw(b + 'RKSt9nothrow_t', '_iso_free', [64, 64], _(x(0), F), **FREE), fw(b + 'St11align_val_t', '_iso_free', [64, 64], _(x(0), F), **FREE),
              fw(b + 'St11align_val_tRSt9nothrow_t', '_iso_free', [64] * 3, _(x(0), F), **FREE)]


# ---------------------------------------------------------------- realloc
class Realloc(Api):
    name = 'iso_realloc'
    params = ('p', 'size')
    widths = (64, 64)
    deftags = ev_tags = ('P16',)
    frame_default = 'P16'
    abort_tags = ('P16',)

    def trace_ok(self, p, size, ret, ev):
        """obligations on the history of one resize"""
        out = []
        cs = [e for e in ev]
        alloc = csz = None
        copied = freed = False
        copy_n = None
        for e in cs:
            n, args, r = e[0], e[1:-1], e[-1]
            if n == 'call:_iso_alloc':
                if alloc is not None or freed:
                    return [('one allocation, before the old memory is freed', FALSE, ())]
                alloc = r
                out.append(('the new memory has at least the new size', band(eq(args[0], c64(0)), uge(args[1], size)), ()))
            elif n == 'call:_iso_chunk_size':
                out.append(('asks for the size of the old memory while it is live', band(eq(args[0], p), FALSE if freed else TRUE), ()))
                csz = r
            elif n in ('call:_iso_alloc_memcpy', 'call:_iso_alloc_memmove'):
                if alloc is None or freed or copied:
                    return out + [('one copy, from live memory to the new memory', FALSE, ())]
                copied = True
                copy_n = args[2]
                out.append(('copies from the old memory to the new memory', band(eq(args[0], alloc), eq(args[1], p)), ()))
            elif n in ('call:_iso_free', 'call:_iso_free_size'):
                if freed:
                    return out + [('the old memory is freed once', FALSE, ())]
                freed = True
                out.append(('what is freed is the old memory', eq(args[0], p), ()))
                if n.endswith('size'):
                    out.append(('freed with a size it has', ule(args[1], csz) if csz is not None else FALSE, ()))
            else:
                return out + [('no other effect (%s)' % n, FALSE, ())]
        zero, null = eq(size, c64(0)), eq(p, c64(0))
        if freed and alloc is None:
            out.append(('freeing without new memory is for size zero', band(zero, eq(ret, c64(0))), ()))
            return out
        if alloc is None and not freed:
            out.append(('without new memory the old one stays and must be large enough', band(bnot(zero), ule(size, csz) if csz is not None else FALSE, eq(ret, p)), ()))
            return out
        out.append(('a resize to zero allocates nothing', bnot(zero), ()))
        if not freed:
            out.append(('the old memory is kept only when there is no new memory', bor(band(eq(alloc, c64(0)), eq(ret, c64(0))), band(null, eq(ret, alloc))), ()))
            out.append(('nothing is copied to memory that does not exist', FALSE if copied else TRUE, ()))
            return out
        out.append(('the old memory is freed only when there is new memory', ne(alloc, c64(0)), ()))
        out.append(('the new memory is returned', eq(ret, alloc), ()))
        if copied:
            out.append(('the bytes copied are the smaller of the two sizes', eq(copy_n, ite(ugt(size, csz), csz, size)) if csz is not None else FALSE, ()))
        else:
            out.append(('the contents are copied unless there was no old memory', null, ()))
        return out

    def check_events(self, eng, S0, S1, a, ret, oc, ev):
        return self.trace_ok(a.p, a.size, ret, ev)


class ReallocArray(Realloc):
    name = 'iso_reallocarray'
    params = ('p', 'n', 'm')
    widths = (64, 64, 64)

    def check_events(self, eng, S0, S1, a, ret, oc, ev):
        prod = mul(a.n, a.m)
        ov = app('UMULO64', 0, a.n, a.m)
        if not ev:
            return [('refuses only a product that does not fit', band(bor(ov, ugt(prod, c64(0xffffffff))), eq(ret, c64(0))), ())]
        return [('a product that overflows is refused', bnot(ov), ())] + self.trace_ok(a.p, prod, ret, ev)


# ---------------------------------------------------------------- calloc
class Calloc(Api):
    name = '_iso_calloc'
    params = ('n', 'm')
    widths = (64, 64)
    deftags = ev_tags = ('P15',)
    frame_default = 'P15'
    abort_tags = ('P15',)

    def check_events(self, eng, S0, S1, a, ret, oc, ev):
        out = []
        # monotonicity of the exact product (lemma over the integers, checked by the solver in lemmas())
        al = [e for e in ev if e[0] == 'call:_iso_alloc']
        if not al:
            return ev_match(ev, []) + [('a refused request yields nothing', eq(ret, c64(0)), ())]
        if len(al) != 1:
            return [('one allocation', FALSE, ())]
        al = al[0]
        sz, r = al[2], al[3]
        ms = [e for e in ev if e[0] == 'memset']
        rest = [e for e in ev if e[0] not in ('call:_iso_alloc', 'memset')]
        ov, prod = app('UMULO64', 0, a.n, a.m), mul(a.n, a.m)
        out += [('no other effect', FALSE if rest else TRUE, ()),
                ('a product that overflows is refused', bnot(ov), ()),
                ('allocates at least the product from the shared zones', band(eq(al[1], c64(0)), uge(sz, prod)), ()),
                ('the memory is returned', eq(ret, r), ())]
        if ms:
            m = ms[0]
            out += [('zeroes the new memory', band(eq(m[1], r), eq(zx(m[2]), c64(0))), ()),
                    ('zeroes at least the product', uge(m[3], prod), ()),
                    ('zeroes no more than was allocated', ule(m[3], sz), ()),
                    ('never writes to memory that was not granted', ne(r, c64(0)), ()),
                    ('one fill', FALSE if len(ms) > 1 else TRUE, ())]
        else:
            out.append(('only memory that was not granted or has no byte is not zeroed', bor(eq(r, c64(0)), eq(sz, c64(0))), ()))
        return out

    def build(self, eng, st):
        xs = Api.build(self, eng, st)

        def umul(e, st, args, ins):
            n, s = args
            ov, r = app('UMULO64', 0, n, s), mul(n, s)
            st = st.copy()
            st.assume(*umulo_facts(n, s, ov, r))
            st.assume(*mono(xs[0], xs[1], s))
            return [('ret', st, (r, ov))]
        eng.externs['llvm.umul.with.overflow.i64'] = umul
        return xs


def mono(n, m, s):
    """n*s does not overflow and m <= s  ==>  n*m does not overflow and n*m <= n*s  (true of the integers)"""
    return [imp(band(bnot(app('UMULO64', 0, n, s)), ule(m, s)), band(bnot(app('UMULO64', 0, n, m)), ule(mul(n, m), mul(n, s))))]


# ---------------------------------------------------------------- strings
class Strdup(Api):
    deftags = ev_tags = ('P17',)
    frame_default = 'P17'
    abort_tags = ('P17',)
    zoned = False
    bound = False

    def __init__(self, name, zoned, bound):
        self.name, self.zoned, self.bound = name, zoned, bound
        if zoned:
            self.deftags = self.ev_tags = ('P17', 'P37')

    def modifies(self, eng, S0, a, oc):
        return [('PM.X', None)]

    def cases(self, eng):
        def mk(kind, strnull):
            def f(e, st):
                self.record(e)
                xs = []
                if self.zoned:
                    if kind == 'zone':
                        k = fresh('k', 64)
                        st.hint('k', k)
                        st.assume(ult(k, c64(MAXZ)))
                        xs.append(self.handle(e, k))
                        st.assume(ne(xs[0], c64(0)))
                    else:
                        xs.append(c64(0))
                s = c64(0) if strnull else fresh('str', 64)
                if not strnull:
                    st.assume(ne(s, c64(0)), ult(s, c64(1 << 47)))
                xs.append(s)
                if self.bound:
                    xs.append(fresh('n', 64))
                return xs
            return f
        out = [('string', mk('', False)), ('null string', mk('', True))]
        if self.zoned:
            out += [('zone', mk('zone', False)), ('zone, null string', mk('zone', True))]
        return out

    def bind(self, eng, S0, args):
        a = NS()
        args = list(args)
        a.zone = c64(0)
        if self.zoned:
            h = args.pop(0)
            a.zone = h if is_c(h) else tm.xor(h, S0.leaf('ROOT.zone_handle_mask'))
        a.str = args[0]
        a.n = args[1] if self.bound else None
        return a

    def check_events(self, eng, S0, S1, a, ret, oc, ev):
        if is_c(a.str):
            return ev_match(ev, [], 'a null string is never used') + [('a null string yields null', eq(ret, c64(0)), ())]
        out = []
        length = None
        alloc = None
        copies = []
        for e in ev:
            if e[0] == 'strlen':
                out.append(('measures the source', eq(e[1], a.str), ()))
                if self.bound:
                    out.append(('never reads past the bound', FALSE, ()))
                length = e[2]
            elif e[0] == 'memchr':
                out += [('looks for the terminator of the source', band(eq(e[1], a.str), eq(and_(zx(e[2]), c64(255)), c64(0))), ()),
                        ('never reads past the bound', eq(e[3], a.n) if self.bound else FALSE, ())]
                length = ite(ne(e[4], c64(0)), sub(e[4], a.str), e[3])
            elif e[0] == 'strnlen':
                out += [('measures the source', eq(e[1], a.str), ()), ('never reads past the bound', eq(e[2], a.n) if self.bound else FALSE, ())]
                length = e[3]
            elif e[0] == 'call:_iso_alloc':
                if alloc is not None or length is None:
                    return out + [('one allocation once the length is known', FALSE, ())]
                alloc = e[3]
                out += [('allocates from the requested zone', eq(e[1], a.zone), ()), ('allocates room for the terminator', uge(e[2], add(length, c64(1))), ())]
                self.room = e[2]
            elif e[0] == 'call:_iso_alloc_memcpy':
                copies.append(e)
            else:
                return out + [('no other effect (%s)' % e[0], FALSE, ())]
        if alloc is None:
            return out + [('allocates', FALSE, ())]
        out.append(('the new memory is returned', eq(ret, alloc), ()))
        if not copies:
            return out + [('the string is copied whenever memory was granted', eq(alloc, c64(0)), ())]
        if len(copies) > 1:
            return out + [('one copy', FALSE, ())]
        c = copies[0]
        if self.bound:
            ln = eq(c[3], length)
        else:
            ln = bor(eq(c[3], length), eq(c[3], add(length, c64(1))))
        # the terminator: copied with the string, or stored behind it
        end = add(alloc, length)
        term = eq(c[3], add(length, c64(1))) if not self.bound else FALSE
        if 'PM.X' in S1.mem:
            term = bor(term, eq(S1.leaf('PM.X', end), const(0, 8)))
        v = fresh('sk_a', 64)
        stray = TRUE
        if 'PM.X' in S1.mem:
            stray = bor(eq(v, end), eq(S1.leaf('PM.X', v), S0.leaf('PM.X', v)))
        out += [('copies the source into the new memory', band(eq(c[1], alloc), eq(c[2], a.str)), ()),
                ('copies exactly the string', ln, ()),
                ('nothing is copied to memory that was not granted', ne(alloc, c64(0)), ()),
                ('the copy is terminated right behind the string', term, ()),
                ('no other byte is changed', stray, ())]
        return out


STR = [Strdup('iso_strdup', False, False), Strdup('iso_strndup', False, True), Strdup('iso_strdup_from_zone', True, False), Strdup('iso_strndup_from_zone', True, True)]
CONTRACTS = API + SHIMS + [Realloc(), ReallocArray(), Calloc()] + STR
