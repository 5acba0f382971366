"""Common parts of the specifications: the memory model of isoalloc, external functions, contract base class."""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'engine'))
import terms as tm
from terms import *
from mem import Base, Store, Fill, read, Region
from exec import Eng, Clause, St, View, PathBudget
import solve
from solve import Forall, forall
from ir import Unsupported, size_of

PAGE = 4096
ZUSER = 4194304
ZSTRIDE = 2120
MAXZ = 8192
BAD = const(-1, 64)


def c64(v):
    return const(v, 64)


def C(name, f, *tags, hints=None):
    return Clause(name, f, tags, hints)


class Out:
    """one outcome of a contract"""

    def __init__(self, name, cond=TRUE, abort=False, ret=None, effect=None, pick=None):
        self.name, self.cond, self.abort, self.ret, self.effect, self.pick = name, cond, abort, ret, effect, pick
        self.oom = False


def oom():
    o = Out('the system refuses a mapping', TRUE, abort=True)
    o.must = False
    o.oom = True
    return o


def ev_match(ev, exp, what='system calls'):
    """obligations: the events are exactly the expected ones, in order"""
    if any(e[0].startswith('?') for e in ev) or [e[0] for e in ev] != [x[0] for x in exp]:
        return [('%s: expected %s, got %s' % (what, [x[0] for x in exp], [e[0] for e in ev]), FALSE, ())]
    return [('%s: %s #%d' % (what, e[0], i + 1), band(*[eq(zx(p), zx(q)) for p, q in zip(e[1:], x[1:])]), ()) for i, (e, x) in enumerate(zip(ev, exp))]


def zx(t):
    return zext(t, 64) if t.w and t.w < 64 else t


def leaf_dims(e, key):
    return key == '@cn'


class NS:
    pass


class Contract:
    name = None
    inline_in = ()
    need_locks = ()
    forbid_locks = ()
    after_locks = None      # None: unchanged
    deftags = ('P38',)
    frame_default = 'P38'
    nparams = None
    rettype = None
    doc = ''
    api = False             # part of the public interface: must exist

    def locks(self, eng, st, a):
        return (self.need_locks, self.forbid_locks, self.after_lock_fn)

    def after_lock_fn(self, locks, oc):
        return locks

    def bind(self, eng, S0, args):
        a = NS()
        a.args = args
        for n, v in zip(self.params, args):
            setattr(a, n, v)
        return a

    params = ()

    def cases(self, eng):
        return [('', self.build)]

    def build(self, eng, st):
        raise NotImplementedError

    def requires(self, eng, S0, a):
        return []

    def outcomes(self, eng, S0, a):
        return [Out('returns')]

    def modifies(self, eng, S0, a, oc):
        return []

    def ensures(self, eng, S0, S1, a, ret, oc):
        return []

    def frame_tag(self, key):
        return (self.frame_default,)

    def loop_specs(self, eng, ctx, a):
        return []

    # system calls and other outside effects
    ev_tags = ('P38',)

    def events(self, eng, S0, S1, a, ret, oc):
        return ()

    def check_events(self, eng, S0, S1, a, ret, oc, ev):
        return ev_match(ev, list(self.events(eng, S0, S1, a, ret, oc)))

    abort_tags = ('P03',)      # reaching an abort that the contract does not allow
    must_tags = ('P04',)       # returning where the contract demands an abort


def apart(p, n, q, m):
    """[p, p+n) and [q, q+m) do not overlap (no wrap around)"""
    return bor(band(ule(p, q), uge(sub(q, p), n)), band(ule(q, p), uge(sub(p, q), m)))


# ------------------------------------------------------------------ model
class Model:
    def __init__(self, eng):
        self.e = eng
        m = eng.mod
        self.ROOT = var('ROOT', 64)
        self.ZONES = var('ZONES', 64)
        self.CLT = var('CLT', 64)
        self.QUAR = var('QUAR', 64)
        di = eng.di
        from ir import Ty
        sty = {}
        for n in m._typetext:
            sty[n.replace('struct.', '').replace('%', '').strip('"')] = m.named(n)
        self.sty = sty
        eng.add_region(self.ROOT, 'ROOT', sty['iso_alloc_root'])
        eng.add_region(self.ZONES, 'ZS', sty['iso_alloc_zone_t'], count=MAXZ, stride=ZSTRIDE)
        eng.add_region(self.CLT, 'CLT', Ty('arr', 65536 + 0, Ty('i', 16)))
        eng.add_region(self.QUAR, 'QUAR', Ty('arr', 512, Ty('i', 64)))
        for n in ('_root', 'g_page_size', 'g_page_size_shift', 'zone_cache', 'zone_cache_count'):
            if n in m.globals:
                eng.global_base(n)
        K = eng.leafinit

        def cb(key, f):
            w = eng.leafw[key]
            K[key] = Base(key + '@0', w, f)
        cb('@_root', lambda *i: self.ROOT)
        cb('ROOT.zones', lambda *i: self.ZONES)
        cb('ROOT.chunk_lookup_table', lambda *i: self.CLT)
        cb('ROOT.chunk_quarantine', lambda *i: self.QUAR)
        cb('@g_page_size', lambda *i: const(PAGE, 32))
        cb('@g_page_size_shift', lambda *i: const(12, 32))
        # thread zone cache: entries below the count are zone pointers (ghost index ZC)
        eng.leafw['@zc'] = 16
        eng.leafw['@ul'] = eng.leafw['@fl'] = 64      # ghost: the nodes of the used and free lists of big allocations
        eng.big_on = False
        if '@zone_cache.zone' in eng.leafw:
            cb('@zone_cache.zone', lambda i: self.zaddr(zext(app('@zc@0', 16, i), 64)))
            # only entries below the count are known to be zone pointers
            eng.read_guard['@zone_cache.zone'] = lambda e, st, idx: ult(idx[0], read(e.ver(st.mem, '@zone_cache_count'), (c64(0),) if leaf_dims(e, '@zone_cache_count') else ()))
        self.zoneptr_hi = c64(1 << 47)

        def cls(a):
            op = a.op
            if op == 'f':
                p = a.p
                if p.startswith('ZS.user_pages_start'):
                    return 'U'
                if p.startswith('ZS.bitmap_start') or p.startswith('ROOT.bitmaps.bitmap@'):
                    return 'B'
                if p.startswith('BIG.user_pages_start'):
                    return 'G'
            elif op == 'xor':
                for q in a.args:
                    r = cls(q)
                    if r is not None:
                        return r
            return None
        eng.pmclass.append(cls)
        big = sty.get('iso_alloc_big_zone_t')
        self.bigreg = eng.add_region(None, 'BIG', big)
        eng.burstall['iso_alloc_big_zone_t'] = self.bigreg
        self.wfcache = {}
        eng.model = self
        eng.background += self.background()
        install_externs(eng, self)
        eng.pm_valid = self.pm_valid
        eng.store_hook = self.store_hook

    def zaddr(self, k):
        return add(self.ZONES, scale(k, ZSTRIDE))

    def zindex(self, p):
        """k with p == zaddr(k), syntactically; None otherwise"""
        d = sub(p, self.ZONES)
        c, dd = lin_of(d)
        if c % ZSTRIDE:
            return None
        r = c64(c // ZSTRIDE)
        for a, q in dd.items():
            q = q if q < (1 << 63) else q - (1 << 64)
            if q % ZSTRIDE:
                return None
            r = add(r, scale(a, q // ZSTRIDE))
        return r

    def zidx(self, p):
        """index term of a zone pointer; conditional pointers give conditional indices"""
        if p.op == 'ite':
            a, b = self.zidx(p.args[1]), self.zidx(p.args[2])
            if a is None or b is None:
                return b if is_c(p.args[1]) else a if is_c(p.args[2]) else None
            return ite(p.args[0], a, b)
        if is_c(p):
            return None
        return self.zindex(p)

    def background(self):
        return []

    def zone_leaves(self):
        return sorted(k for k in self.e.leafw if k.startswith('ZS.'))

    def mmap_facts(self, S, r, size):
        """what the kernel guarantees about a new mapping: page aligned, zero, disjoint from every live one"""
        eng = self.e
        size = zx(size)
        out = [eq(and_(r, c64(PAGE - 1)), c64(0)), uge(r, c64(1 << 20)), ult(r, c64((1 << 46) - (1 << 40))),
               imp(ult(size, c64(1 << 40)), ule(add(r, size), c64(1 << 46)))]
        for cl in ('U', 'B'):
            eng.pm_key(cl)
            out.append(forall('zero' + cl, [('a', 64)], lambda x: imp(ult(sub(x, r), size), eq(S.leaf('PM.' + cl, x), c64(0))),
                              [[('PM.' + cl, (0,))], [('#', 'a')]]))
        n = zext(S.leaf('ROOT.zones_used'), 64)

        def live(k):
            u = tm.xor(S.leaf('ZS.user_pages_start', k), S.leaf('ZS.pointer_mask', k))
            b = tm.xor(S.leaf('ZS.bitmap_start', k), S.leaf('ZS.pointer_mask', k))
            bs = zext(S.leaf('ZS.bitmap_size', k), 64)
            g = c64(PAGE)
            return band(imp(uge(u, c64(1 << 20)), apart(r, size, sub(u, g), c64(ZUSER + 2 * PAGE))),
                        imp(uge(b, c64(1 << 20)), apart(r, size, b, bs)))
        out.append(forall('mapz', [('k', 64)], lambda k: imp(ule(k, n), live(k)), [[('#', 'k')], [('ZS.user_pages_start', (0,))], [('ZS.bitmap_start', (0,))]]))
        if eng.big_on:
            import big
            for w in 'uf':
                l = big.BList(eng, S, w)
                g = big.guard(eng)
                out.append(l.all('m', lambda x: band(apart(r, size, big.page(x.p), c64(PAGE)), apart(r, size, sub(x.user, g), add(x.size, add(g, g))))))
            if S.st is not None and not any(e[0] == 'munmap' or e[0].startswith('?') for e in S.st.ev):
                for e in S.st.ev:
                    if e[0] == 'mmap':
                        out.append(apart(r, size, e[1], zx(e[2])))
            out.append(forall('zbig', [('a', 64)], lambda x: imp(ult(sub(x, r), size), eq(S.leaf('BIG.ttl', x), const(0, 32))), [[('BIG.ttl', (0,))]]))
        for i in range(8):
            pg = S.leaf('ROOT.bitmaps.bitmap', c64(i))
            bk = S.leaf('ROOT.bitmaps.bucket', c64(i))
            out.append(imp(ne(bk, const(0, 32)), apart(r, size, pg, c64(PAGE))))
        return out

    def ground(self):
        """facts about the fixed metadata objects"""
        out = []
        for b in (self.ROOT, self.ZONES, self.CLT, self.QUAR):
            out.append(uge(b, c64(1 << 20)))
            out.append(ult(b, c64(1 << 46)))
            out.append(eq(and_(b, c64(PAGE - 1)), c64(0)))
        return out

    # ---- validity of page memory accesses
    def pm_valid(self, eng, st, place, n, write):
        cl, addr = place[1], place[2]
        n = c64(n) if isinstance(n, int) else n
        ok = getattr(eng.cur_c, 'pm_ok', None)
        if ok is not None:
            r = ok(eng, st, place, n, write)
            if r is not None:
                return r
        c, d = lin_of(addr)
        alts = []
        for _ in range(3):
            org = [(a, q) for a, q in d.items() if a.op == 'f' and a.p in eng.phiorg]
            if not org:
                break
            d = dict(d)
            for a, q in org:
                del d[a]
                if q == 1:
                    for b, r in lin_of(eng.phiorg[a.p])[1].items():
                        d.setdefault(b, r)
        for a, q in d.items():
            if q != 1:
                continue
            if a in eng.freshsize:
                off = sub(addr, a)
                sz = eng.freshsize[a]
                return band(ule(n, sz), ule(off, sub(sz, n)))
            k = None
            for x in ([a] if a.op == 'f' else a.args if a.op == 'xor' else []):
                if x.op == 'f' and (x.p.startswith('ZS.user_pages_start') or x.p.startswith('ZS.bitmap_start')):
                    if self.real_form(eng, a, x):
                        k = x
                elif x.op == 'f' and x.p.startswith('ROOT.bitmaps.bitmap@'):
                    return ule(sub(addr, a), sub(c64(PAGE), n))
            if k is not None:
                off = sub(addr, a)
                zi = k.args[0]
                if k.p.startswith('ZS.user'):
                    alts.append(band(ule(n, c64(ZUSER)), ule(off, sub(c64(ZUSER), n))))
                    if eng.cfg == 'tag':
                        # the tag area: one page below the user pages, one byte per chunk rounded up to pages
                        cnt = zext(read(eng.ver(st.mem, 'ZS.chunk_count'), (zi,)), 64)
                        tsz = and_(add(cnt, c64(PAGE - 1)), c64(-PAGE & (2**64 - 1)))
                        toff = add(off, add(tsz, c64(PAGE)))
                        tg = ne(and_(read(eng.ver(st.mem, 'ZS.tagged'), (zi,)), const(1, 8)), const(0, 8))
                        alts.append(band(tg, ule(n, tsz), ule(toff, sub(tsz, n))))
                else:
                    sz = zext(read(eng.ver(st.mem, 'ZS.bitmap_size'), (zi,)), 64)
                    alts.append(band(ule(n, sz), ule(off, sub(sz, n))))
        if alts:
            return bor(*alts)
        if cl == 'U':
            for zi in st.hints.get('k', []):
                u = self.user_any(st, zi)
                for uu in u:
                    off = sub(addr, uu)
                    alts.append(band(ule(n, c64(ZUSER)), ule(off, sub(c64(ZUSER), n))))
            return bor(*alts)
        return FALSE

    def real_form(self, eng, a, x):
        """is a (containing the leaf x) the unmasked pointer?  Zone pointers are masked except in functions
        whose contract says the zone is unmasked on entry"""
        if getattr(eng.cur_c, 'raw', False):
            return a is x
        return a.op == 'xor' and len(a.args) == 2 and any(y.op == 'f' and y.p.startswith('ZS.pointer_mask') and y.args == x.args for y in a.args)

    def user_any(self, st, k):
        S0 = self.e.cur_S0
        ups, pm = S0.leaf('ZS.user_pages_start', k), S0.leaf('ZS.pointer_mask', k)
        return [ups if getattr(self.e.cur_c, 'raw', False) else tm.xor(ups, pm)]

    # ---- lock discipline on shared metadata
    SHARED = ('ZS.', 'ROOT.', 'CLT', 'QUAR', 'PM.B')
    BIGF = ('ROOT.big_zone_free', 'ROOT.big_zone_free_count')
    BIGU = ('ROOT.big_zone_used', 'ROOT.big_zone_used_count')

    def store_hook(self, eng, st, pl, g, inst):
        if not eng.lock_check:
            return
        key = pl[1] if pl[0] != 'pm' else 'PM.' + pl[1]
        if key in self.BIGF:
            need = 'bigfree'
        elif key in self.BIGU:
            need = 'bigused'
        elif key.startswith(self.SHARED):
            need = 'root'
        else:
            return
        if need not in st.locks:
            eng.oblige(st, 'shared %s written only with the %s lock held' % (key, need), bnot(g), inst, ('P22',))


# ------------------------------------------------------------------ externals
def install_externs(eng, M):
    X = eng.externs
    eng.freshsize = {}
    eng.lock_check = True

    def nop(e, st, args, ins):
        return [('ret', st, const(0, 32))]

    def nop64(e, st, args, ins):
        return [('ret', st, None)]
    for n in ('llvm.dbg.declare', 'llvm.dbg.value', 'llvm.lifetime.start.p0', 'llvm.lifetime.end.p0', 'llvm.va_start', 'llvm.va_end',
              '_iso_alloc_printf'):
        X[n] = nop64

    def ident(e, st, args, ins):
        return [('ret', st, args[0])]
    X['llvm.threadlocal.address.p0'] = ident

    def expect(e, st, args, ins):
        return [('ret', st, args[0])]
    X['llvm.expect.i64'] = expect

    def freshret(w, nm):
        def f(e, st, args, ins):
            return [('ret', st, fresh(nm, w))]
        return f
    X['getpid'] = freshret(32, 'pid')
    X['mlock'] = freshret(32, 'mlock')
    X['strerror'] = freshret(64, 'strerror')
    X['write'] = freshret(64, 'write')

    def errno(e, st, args, ins):
        b = var('&errno', 64)
        if b not in e.regions:
            from ir import Ty
            e.add_region(b, '@errno', Ty('i', 32))
        return [('ret', st, b)]
    X['__errno_location'] = errno

    def abort(e, st, args, ins):
        return [('abort', st, ('abort', e.mod.line_in(ins.dbg) if ins.dbg else ''))]
    X['abort'] = abort

    def bsw(e, st, args, ins):
        return [('ret', st, app('BSWAP64', 64, args[0]))]     # an uninterpreted function is enough everywhere
    X['llvm.bswap.i64'] = bsw

    def umul(e, st, args, ins):
        a, b = args
        # exact 64-bit overflow: expressed by division-free lemma atoms
        ov = app('UMULO64', 0, a, b) if not (is_c(a) and is_c(b)) else (TRUE if a.p * b.p >> 64 else FALSE)
        r = mul(a, b)
        if ov is not TRUE and ov is not FALSE:
            st = st.copy()
            st.assume(*umulo_facts(a, b, ov, r))
        return [('ret', st, (r, ov))]
    X['llvm.umul.with.overflow.i64'] = umul

    def memset(e, st, args, ins):
        st = st.copy()
        p, b, n = args[0], args[1], args[2]
        if b.w > 8:
            b = trunc(b, 8)
        if n.w < 64:
            n = zext(n, 64)
        e.memset(st, p, b, n, ins)
        return [('ret', st, p)]
    X['llvm.memset.p0.i64'] = memset
    X['__iso_memset'] = memset

    def randd(e, st, args, ins):
        st = st.copy()
        e.store(st, args[0], fresh('seed', 64), ins)
        return [('ret', st, fresh('rnd', 64))]
    X['us_rand_uint64'] = randd
    X['rand_uint64'] = freshret(64, 'rnd')

    def lockname(e, st, addr, ins):
        if addr is e.global_base('root_busy_mutex') or addr.op == 'v' and addr.p in ('&root_busy_mutex', '&root_busy_flag'):
            return 'root'
        if addr.op == 'v' and addr.p == '&sane_cache_mutex':
            return 'sane'
        reg = M.e.regions[M.ROOT]
        off = sub(addr, M.ROOT)
        if is_c(off):
            for f in reg.fields:
                if f.off <= off.p < f.off + f.size * (f.dims[0][0] if f.dims else 1) and ('mutex' in f.path or 'flag' in f.path):
                    return 'bigfree' if 'free' in f.path else 'bigused'
        return None
    eng.lockname = lockname

    def lock(e, st, args, ins):
        n = lockname(e, st, args[0], ins)
        if n is None:
            raise Unsupported('unknown mutex ' + show(args[0]))
        if n in st.locks:
            e.oblige(st, 'no self-deadlock: %s lock is not already held' % n, FALSE, ins, ('P22',))
        order = ('bigused', 'bigfree', 'sane')
        st = st.copy()
        st.locks = tuple(sorted(set(st.locks) | {n}))
        return [('ret', st, const(0, 32))]

    def unlock(e, st, args, ins):
        n = lockname(e, st, args[0], ins)
        if n is None:
            raise Unsupported('unknown mutex ' + show(args[0]))
        if n not in st.locks:
            e.oblige(st, 'unlock only a held lock (%s)' % n, FALSE, ins, ('P22',))
        st = st.copy()
        st.locks = tuple(x for x in st.locks if x != n)
        return [('ret', st, const(0, 32))]
    X['pthread_mutex_lock'] = lock
    X['pthread_mutex_unlock'] = unlock
    X['pthread_mutex_init'] = nop
    X['pthread_mutex_destroy'] = nop

    # ---- the kernel
    def sysc(name, w, emit=lambda a: True):
        def f(e, st, args, ins):
            r = fresh(name, w)
            st = st.copy()
            if emit(args):
                st.ev = st.ev + ((name,) + tuple(args),)
            return [('ret', st, r)]
        return f
    X['munmap'] = sysc('munmap', 32)
    X['madvise'] = sysc('madvise', 32)
    X['sysconf'] = freshret(64, 'sysconf')
    X['prctl'] = freshret(32, 'prctl')

    def mprotect(e, st, args, ins):
        ok, bad = st.copy(), st.copy()
        ok.ev = ok.ev + (('mprotect',) + tuple(args),)
        bad.ghost['oom'] = True
        return [('ret', ok, const(0, 32)), ('ret', bad, const(-1, 32))]
    X['mprotect'] = mprotect

    def mmap(e, st, args, ins):
        ok, bad = st.copy(), st.copy()
        bad.ghost['oom'] = True
        # huge pages are a wish: their refusal is no lack of memory
        huge = ne(and_(args[3], const(0x40000, 32)), const(0, 32))
        rest = []
        if huge is not FALSE:
            b2 = st.copy()
            b2.assume(huge)
            bad.assume(bnot(huge))
            if e.feasible(st, huge):
                rest = [('ret', b2, BAD)]
        r = fresh('map', 64)
        e.freshpm.setdefault(r, None)
        e.freshsize[r] = args[1]
        ok.assume(*M.mmap_facts(View(e, dict(ok.mem), ok), r, args[1]))
        ok.ev = ok.ev + (('mmap', r, args[1], args[2], args[3]),)
        return [('ret', ok, r), ('ret', bad, BAD)] + rest
    X['mmap'] = mmap

    # spin locks
    def a_rmw(e, st, a, v, ins):
        n = lockname(e, st, a, ins)
        if n is None:
            raise Unsupported('atomicrmw')
        if n in st.locks:
            e.oblige(st, 'no self-deadlock: %s lock is not already held' % n, FALSE, ins, ('P22',))
        st.locks = tuple(sorted(set(st.locks) | {n}))
        return const(0, v.w)

    def a_store(e, st, a, v, ins):
        n = lockname(e, st, a, ins)
        if n is None:
            return False
        if n not in st.locks:
            e.oblige(st, 'unlock only a held lock (%s)' % n, FALSE, ins, ('P22',))
        st.locks = tuple(x for x in st.locks if x != n)
        return True
    eng.atomic_rmw = lambda e, st, a, v, ins: a_rmw(e, st, a, v, ins)
    eng.atomic_store = lambda e, st, a, v, ins: a_store(e, st, a, v, ins)


def umulo_facts(a, b, ov, r):
    z = c64(0)
    lim = c64(1 << 32)
    out = [imp(band(ult(a, lim), ult(b, lim)), bnot(ov)),
           imp(bor(eq(a, z), eq(b, z)), bnot(ov)),
           imp(eq(a, c64(1)), bnot(ov)), imp(eq(b, c64(1)), bnot(ov)),
           imp(band(bnot(ov), ne(b, z)), uge(r, a)), imp(band(bnot(ov), ne(a, z)), uge(r, b)),
           imp(band(uge(a, lim), uge(b, lim)), ov)]
    return out
