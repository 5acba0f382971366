"""Initialisation of the allocator."""
from core import *
from route import Mid, flag, exact
from util import PAGE, roundup

NONE = 0


class Init(Mid):
    """every helper appears as a recorded call; `_root` is null before the first use"""
    deftags = ('P30',)
    frame_default = 'P30'
    ev_tags = ('P30',)
    abort_tags = ('P30',)
    must_tags = ('P30',)
    ghosts = {}            # helper -> (counter, first argument, result)
    makes_root = ()        # helpers that create the root

    def mycases(self, eng):
        def first(e, st):
            self.record(e)
            self.setup(e)
            st.mem['@_root'] = Store(e.ver(st.mem, '@_root'), (), c64(0))
            for n, (cn, cp, cr) in self.ghosts.items():
                st.assume(eq(read(e.ver(st.mem, cn), (c64(0),)), c64(0)))
            return []

        def again(e, st):
            self.record(e)
            self.setup(e)
            return []
        return [('first use', first), ('later', again)]

    def setup(self, eng):
        for n, w in self.recorded.items():
            def f(e, st, args, ins, n=n, w=w):
                st = st.copy()
                r = None if w is None else fresh('r_' + n, w)
                if n in self.makes_root:
                    r = None if w is None else eng.model.ROOT
                    st.mem['@_root'] = Store(e.ver(st.mem, '@_root'), (), eng.model.ROOT)
                elif r is not None:
                    st.assume(ne(r, c64(0)))         # the mapping helpers abort rather than return null (P23)
                st.ev = st.ev + (('call:' + n,) + tuple(args) + (r,),)
                if n in self.ghosts:
                    cn, cp, cr = self.ghosts[n]
                    cnt = read(e.ver(st.mem, cn), (c64(0),))
                    st.mem[cp] = Store(e.ver(st.mem, cp), (cnt,), args[0])
                    st.mem[cr] = Store(e.ver(st.mem, cr), (cnt,), r)
                    st.mem[cn] = Store(e.ver(st.mem, cn), (c64(0),), add(cnt, c64(1)))
                return [('ret', st, r)]
            eng.externs[n] = f
            eng.contracts.pop(n, None)
        for n, (cn, cp, cr) in self.ghosts.items():
            for x in (cn, cp, cr):
                eng.leafw[x] = 64
        eng.externs['sysconf'] = lambda e, st, args, ins: [('ret', st, c64(PAGE) if is_c(args[0]) and args[0].p == 30 else fresh('sysconf', 64))]

        def ent(e, st, args, ins):
            st = st.copy()
            r = fresh('rnd', 64)
            st.ev = st.ev + (('rand', r),)
            return [('ret', st, r)]
        eng.externs['rand_uint64'] = ent

        def mix(e, st, args, ins):
            st = st.copy()
            r = fresh('rnd', 64)
            e.store(st, args[0], fresh('seed', 64), ins)
            st.ev = st.ev + (('mix', args[0], r),)
            return [('ret', st, r)]
        eng.externs['us_rand_uint64'] = mix
        for n in ('sigaction', 'sigemptyset'):
            eng.externs[n] = lambda e, st, args, ins: [('ret', st, const(0, 32))]

        def minit(e, st, args, ins):
            st = st.copy()
            st.ev = st.ev + (('mutex', args[0]),)
            return [('ret', st, const(0, 32))]
        eng.externs['pthread_mutex_init'] = minit
        eng.lock_check = False                       # nothing is shared before the first use ends

    def outcomes(self, eng, S0, a):
        o = Out('out of resources', TRUE, abort=True)
        o.must = False
        return [o, Out('ready')]

    def first(self, eng):
        return eng.case == 'first use'

    def modifies(self, eng, S0, a, oc):
        if not self.first(eng):
            return []
        keys = set(S0.mem) | set(eng.final_S1.mem)
        return [(k, None) for k in keys if k.startswith(('ROOT.', '@'))]


class Initialize(Init):
    name = '_iso_alloc_initialize'
    recorded = {'iso_alloc_initialize_global_root': None, 'mmap_pages': 64, '_initialize_profiler': None, '_iso_alloc_setup_userfaultfd': None}
    makes_root = ('iso_alloc_initialize_global_root',)
    ev_tags = ('P30', 'P24', 'P22')
    frame_default = 'P30'

    def ensures(self, eng, S0, S1, a, ret, oc):
        out = [C('the root exists', ne(S1.g('_root'), c64(0)), 'P30')]
        if self.first(eng):
            out.append(C('the page size is the one the system reports', eq(zx(S1.g('g_page_size')), c64(PAGE)), 'P30'))
        return out

    def check_events(self, eng, S0, S1, a, ret, oc, ev):
        cs = self.calls(ev)
        if not self.first(eng):
            return [('nothing happens when the allocator is already initialised', FALSE, ('P30',))] * bool(ev)
        out = [('the root is created exactly once, first', band(*[TRUE if (c[0] == 'iso_alloc_initialize_global_root') == (i == 0) else FALSE for i, c in enumerate(cs)]) if cs else FALSE, ('P30',))]
        maps = [c for c in cs if c[0] == 'mmap_pages']
        if eng.cfg != 'zero0':
            z = S1.leaf('ROOT.zero_alloc_page')
            out.append(('the page for allocations of size zero is one inaccessible page of its own',
                        bor(*[band(eq(z, m[2]), eq(zx(m[1][0]), c64(PAGE)), eq(m[1][3], const(NONE, 32))) for m in maps]) if maps else FALSE, ('P24',)))
            out += [('no page is made accessible', FALSE, ('P24',)) for e in ev if e[0] in ('mprotect', 'mmap')][:1]
        locks = [e[1] for e in ev if e[0] == 'mutex']
        if 'pthread_mutex_init' in eng.mod.decls if hasattr(eng.mod, 'decls') else locks:
            names = [eng.lockname(eng, None, x, None) for x in locks]
            want = ['bigfree', 'bigused', 'root']
            out.append(('every lock is initialised exactly once', TRUE if sorted(n for n in names if n != 'sane') == want else FALSE, ('P22', 'P30')))
        return out


class GlobalRoot(Init):
    name = 'iso_alloc_initialize_global_root'
    recorded = {'iso_alloc_new_root': 64, 'mmap_guarded_rw_pages': 64, 'mmap_rw_pages': 64, '_iso_new_zone': 64}
    makes_root = ('iso_alloc_new_root',)
    ghosts = {'_iso_new_zone': ('@zn', '@zp', '@zr'), 'mmap_rw_pages': ('@bn', '@bp', '@br')}

    def sizes(self, eng):
        g = eng.mod.globals['default_zones']
        return [v[1] for v in g.init[1]]

    def buckets(self, eng):
        g = eng.mod.globals['small_bitmap_sizes']
        return [v[1] for v in g.init[1]][:-2]

    def zones_made(self, S, n):
        return forall('zm', [('i', 64)], lambda i: imp(ult(i, n), eq(S.leaf('@zp', i), S.g('default_zones', i))), [[('#', 'i')], [('@zp', (0,))]])

    def pages_made(self, S, n):
        return forall('bm', [('i', 64)], lambda i: imp(ult(i, n), band(eq(S.leaf('@br', i), S.leaf('ROOT.bitmaps.bitmap', i)), ne(S.leaf('ROOT.bitmaps.bitmap', i), c64(0)), eq(S.leaf('@bp', i), c64(PAGE)),
                      eq(zx(S.leaf('ROOT.bitmaps.bucket', i)), zx(S.g('small_bitmap_sizes', i))))), [[('#', 'i')], [('@bp', (0,))]])

    def ensures(self, eng, S0, S1, a, ret, oc):
        out = [C('the root exists', ne(S1.g('_root'), c64(0)), 'P30')]
        if not self.first(eng):
            return out
        n = c64(len(self.sizes(eng)))
        m = c64(len(self.buckets(eng)))
        return out + [C('one zone is made for every default size, in order', [eq(S1.leaf('@zn', c64(0)), n), self.zones_made(S1, n)], 'P30'),
                      C('every page for shared bitmaps is a page of its own', [eq(S1.leaf('@bn', c64(0)), m), self.pages_made(S1, m)], 'P30', 'P10'),
                      C('a zone is retired after the documented number of allocations', eq(zx(S1.leaf('ROOT.zone_retirement_shf')), c64(5)), 'P30', 'P11')]

    def check_events(self, eng, S0, S1, a, ret, oc, ev):
        cs = self.calls(ev)
        if not self.first(eng):
            return [('nothing happens when the root exists', FALSE, ())] * bool(ev)
        out = []
        g = [c for c in cs if c[0] == 'mmap_guarded_rw_pages']
        for what, leaf, least in (('zone metadata', 'ROOT.zones', MAXZ * ZSTRIDE), ('quarantine', 'ROOT.chunk_quarantine', 512), ('lookup table', 'ROOT.chunk_lookup_table', 131072)):
            p = S1.leaf(leaf)
            out.append(('the %s is a guarded mapping of its own, big enough' % what, bor(*[band(eq(p, c[2]), uge(roundup(zx(c[1][0])), c64(least))) for c in g]) if g else FALSE, ()))
        rnd = [e[1] for e in ev if e[0] == 'rand']
        mix = [e[2] for e in ev if e[0] == 'mix' and e[1] is add(eng.model.ROOT, c64(self.off(eng, 'seed')))]
        hm, nm, cs_ = S1.leaf('ROOT.zone_handle_mask'), S1.leaf('ROOT.big_zone_next_mask'), S1.leaf('ROOT.big_zone_canary_secret')
        out.append(('the secrets of the process are drawn from the system\'s entropy', band(bor(*[eq(hm, r) for r in rnd]), bor(*[eq(nm, r) for r in mix + rnd]), bor(*[eq(cs_, r) for r in mix + rnd])), ('P28', 'P30')))
        roots = [c for c in cs if c[0] == 'iso_alloc_new_root']
        out.append(('one root is made', TRUE if len(roots) == 1 else FALSE, ()))
        return out

    def off(self, eng, f):
        return next(x.off for x in eng.regions[eng.model.ROOT].fields if x.path == f)

    def loop_specs(self, eng, ctx, a):
        from loops import Cand
        n, m = c64(len(self.sizes(eng))), c64(len(self.buckets(eng)))
        return [Cand('zones made', lambda ph, S, it: eq(S.leaf('@zn', c64(0)), it)), Cand('zones made in order', lambda ph, S, it: self.zones_made(S, it)),
                Cand('all zones made', lambda ph, S, it: eq(S.leaf('@zn', c64(0)), n)), Cand('all zones made in order', lambda ph, S, it: self.zones_made(S, n)),
                Cand('no bitmap page', lambda ph, S, it: eq(S.leaf('@bn', c64(0)), c64(0))),
                Cand('bitmap pages', lambda ph, S, it: eq(S.leaf('@bn', c64(0)), it)), Cand('bitmap pages in order', lambda ph, S, it: self.pages_made(S, it)),
                Cand('n zones', lambda ph, S, it: ule(it, n)), Cand('m pages', lambda ph, S, it: ule(it, m))]


class NewRoot(Init):
    name = 'iso_alloc_new_root'
    recorded = {'mmap_guarded_rw_pages': 64}

    def mycases(self, eng):
        def f(e, st):
            self.record(e)
            self.setup(e)
            return []
        return [('', f)]

    def check_events(self, eng, S0, S1, a, ret, oc, ev):
        cs = self.calls(ev)
        if [c[0] for c in cs] != ['mmap_guarded_rw_pages']:
            return [('the root is one guarded mapping', FALSE, ())]
        return [('the root is a guarded mapping big enough for it', band(eq(ret, cs[0][2]), uge(zx(cs[0][1][0]), c64(size_of(eng.model.sty['iso_alloc_root'])))), ())]


CONTRACTS = [Initialize(), GlobalRoot(), NewRoot()]


# ---------------------------------------------------------------- teardown
import big
from big import BList, Node, BigContract


def ghost_munmap(eng, poison=True):
    """munmap with its arguments in ghost arrays; metadata of big allocations in the range is lost"""
    for x in ('@mn', '@mp', '@ml'):
        eng.leafw[x] = 64

    def f(e, st, args, ins):
        st = st.copy()
        p, n = args[0], zx(args[1])
        cnt = read(e.ver(st.mem, '@mn'), (c64(0),))
        st.mem['@mp'] = Store(e.ver(st.mem, '@mp'), (cnt,), p)
        st.mem['@ml'] = Store(e.ver(st.mem, '@ml'), (cnt,), n)
        st.mem['@mn'] = Store(e.ver(st.mem, '@mn'), (c64(0),), add(cnt, c64(1)))
        st.ev = st.ev + (('munmap', p, n),)
        if poison:
            for k in [k for k in e.leafw if k.startswith('BIG.')]:
                nm = freshname('lost')
                st.mem[k] = Fill(e.ver(st.mem, k), lambda i, p=p, n=n: ult(sub(i, and_(p, c64(~(PAGE - 1) & (2**64 - 1)))), roundup(n)),
                                 lambda i, old, nm=nm: app(nm, old.w, *i))
        return [('ret', st, fresh('munmap', 32))]
    eng.externs['munmap'] = f


class FreeBigList(BigContract):
    name = '_free_big_zone_list'
    params = ('head',)
    verify_only = True
    deftags = ('P30',)
    frame_default = 'P30'
    abort_tags = ('P30',)
    must_tags = ('P14', 'P30')
    ev_tags = ('P30',)
    lists = 'uf'

    def cases(self, eng):
        def mk(w):
            def f(e, st):
                ghost_munmap(e)
                st.assume(eq(read(e.ver(st.mem, '@mn'), (c64(0),)), c64(0)))
                self.w = w
                return [read(e.ver(st.mem, big.KEYS[w][1]), ())]
            return f
        return [('used', mk('u')), ('free', mk('f'))]

    def bind(self, eng, S0, args):
        a = BigContract.bind(self, eng, S0, args)
        self.lists = self.w = 'u' if eng.case == 'used' else 'f'
        return a

    @staticmethod
    def survives(g, p, u, s, q):
        """releasing the pages and metadata page of the allocation at p leaves the metadata at q alone"""
        def hit(lo, n):
            return ult(sub(q, and_(lo, c64(~(PAGE - 1) & (2**64 - 1)))), roundup(n))
        g2 = add(g, g)
        return band(bnot(hit(sub(u, g), add(s, g2))), bnot(hit(u, s)), bnot(hit(big.page(p), c64(PAGE))), bnot(hit(big.page(p), c64(1))))

    def lemma(self, eng):
        p, u, s, q, v, t = [fresh(x, 64) for x in ('p', 'u', 's', 'q', 'v', 't')]
        g = big.guard(eng)
        st = St()
        st.assume(big.Def.geometry(p, u, s), big.Def.geometry(q, v, t), big.Def.apart(g, p, u, s, q, v, t), big.Def.apart(g, q, v, t, p, u, s))
        eng.prove(st, 'lemma: what is released of one big allocation holds no other metadata', self.survives(g, p, u, s, q), ('P30',))
        st = St()
        st.assume(big.Def.geometry(p, u, s), big.Def.own(g, p, u, s))
        eng.prove(st, 'lemma: the pages of a big allocation do not hold its metadata', self.own(g, p, u, s), ('P30',))

    @staticmethod
    def own(g, p, u, s):
        def hit(lo, n):
            return ult(sub(p, and_(lo, c64(~(PAGE - 1) & (2**64 - 1)))), roundup(n))
        return band(bnot(hit(sub(u, g), add(s, add(g, g)))), bnot(hit(u, s)))

    def requires(self, eng, S0, a):
        if not eng.want or 'P30' in eng.want:
            self.lemma(eng)
        l = BList(eng, S0, self.w)
        g = big.guard(eng)

        def f(i, j):
            x, y = l.N(i), l.N(j)
            return imp(band(ult(i, l.n), ult(j, l.n), ne(i, j)), self.survives(g, x.p, x.user, x.size, y.p))
        return self.wfs(eng, S0, self.w) + [C('released memory holds no other metadata', forall('sv', [('b', 64), ('b', 64)], f, [[('#', 'b'), ('#', 'b')]])),
                                            C('released pages do not hold their metadata', l.all('ow', lambda x: self.own(g, x.p, x.user, x.size)))]

    def outcomes(self, eng, S0, a):
        l = BList(eng, S0, self.w)
        o = Out('a canary is damaged', TRUE, abort=True)
        o.must = False
        if big.canaries(eng):
            o.unless = [l.canaries()]
        else:
            o.unless = [TRUE]
        return [o, Out('all released')]

    def ranges(self, eng, x):
        g = big.guard(eng)
        return (sub(x.user, g), add(x.size, add(g, g))), (big.page(x.p), c64(PAGE))

    def released(self, eng, S0, S, n, user_first):
        l = BList(eng, S0, self.w)

        def f(j):
            x = l.N(j)
            u, m = self.ranges(eng, x)
            o1, o2 = (c64(0), c64(1)) if user_first else (c64(1), c64(0))
            i = scale(j, 2)

            def is_(o, r):
                k = add(i, o)
                return band(eq(S.leaf('@mp', k), r[0]), eq(roundup(S.leaf('@ml', k)), r[1]))
            return imp(ult(j, n), band(is_(o1, u), is_(o2, m)))
        return forall('rel%d' % user_first, [('b', 64)], f, [[('#', 'b')]])

    def modifies(self, eng, S0, a, oc):
        return [('@mn', None), ('@mp', None), ('@ml', None)] + [(k, None) for k in eng.leafw if k.startswith('BIG.')]

    def ensures(self, eng, S0, S1, a, ret, oc):
        l = BList(eng, S0, self.w)
        out = [C('two ranges are released for every big allocation of the list', eq(S1.leaf('@mn', c64(0)), scale(l.n, 2)), 'P30')]
        both = [self.released(eng, S0, S1, l.n, u) for u in (True, False)]
        st = S1.st
        f = both[0]
        for b in both:
            if self.must(eng, st, b):
                f = b
        out.append(C('the pages and the metadata of every big allocation of the list are released, exactly once each', f, 'P30'))
        if big.canaries(eng):
            out.append(C('returns only when every big allocation carries its canaries', l.canaries(), 'P14', 'P30'))
        return out

    def must(self, eng, st, f):
        j = fresh('jr', 64)
        s = st.copy()
        s.hint('b', j)
        q = f.inst((j,)) if hasattr(f, 'inst') else None
        return q is not None and eng.must(s, q)

    def check_events(self, eng, S0, S1, a, ret, oc, ev):
        return [('only mappings are released', FALSE, ()) for e in ev if e[0] not in ('munmap',) and not e[0].startswith('?')][:1]

    def loop_specs(self, eng, ctx, a):
        from loops import Cand
        S0 = eng.cur_S0
        l = BList(eng, S0, self.w)
        out = BigContract.loop_specs(self, eng, ctx, a)
        out.append(Cand('two ranges per round', lambda ph, S, it: eq(S.leaf('@mn', c64(0)), scale(it, 2))))
        for u in (True, False):
            out.append(Cand('released so far (%s)' % u, lambda ph, S, it, u=u: self.released(eng, S0, S, it, u)))

        def rest(ph, S, it):
            def f(j):
                x = l.N(j)
                y = Node(S, x.p)
                return imp(band(ule(it, j), ult(j, l.n)), band(*[eq(x._(q), y._(q)) for q in big.BIGF]))
            return forall('rest', [('b', 64)], f, l.pats())
        out.append(Cand('the rest of the list is as it was', rest))
        if big.canaries(eng):
            out.append(Cand('visited canaries were right', lambda ph, S, it: l.canaries(it)))
        return out


CONTRACTS.append(FreeBigList())


class Destroy(Init):
    """teardown of the whole allocator"""
    name = '_iso_alloc_destroy'
    forbid_locks = ('root', 'bigused', 'bigfree')
    recorded = {'flush_chunk_quarantine': None, '_verify_zone': None, '_free_big_zone_list': None, '_iso_alloc_destroy_zone_unlocked': None, '_iso_output_profile': None,
                '_iso_alloc_zone_leak_detector': 64, '__iso_alloc_mem_usage': 64, '_iso_alloc_big_zone_mem_usage': 64, '_iso_alloc_print_stats': None}
    ghosts = {'_verify_zone': ('@zn', '@zp', None), '_iso_alloc_destroy_zone_unlocked': ('@dn', '@dp', None)}
    ev_tags = ('P30', 'P24', 'P22')

    def mycases(self, eng):
        def f(e, st):
            self.record(e)
            self.setup(e)
            e.lock_check = True
            for n, (cn, cp, cr) in self.ghosts.items():
                st.assume(eq(read(e.ver(st.mem, cn), (c64(0),)), c64(0)))
            return []
        return [('', f)]

    def setup(self, eng):
        for n, w in self.recorded.items():
            def f(e, st, args, ins, n=n, w=w):
                st = st.copy()
                r = None if w is None else fresh('r_' + n, w)
                st.ev = st.ev + (('call:' + n,) + tuple(args) + (st.locks, r),)
                if n in self.ghosts:
                    cn, cp, _ = self.ghosts[n]
                    cnt = read(e.ver(st.mem, cn), (c64(0),))
                    st.mem[cp] = Store(e.ver(st.mem, cp), (cnt,), args[0])
                    st.mem[cn] = Store(e.ver(st.mem, cn), (c64(0),), add(cnt, c64(1)))
                return [('ret', st, r)]
            eng.externs[n] = f
            eng.contracts.pop(n, None)
        for n, (cn, cp, cr) in self.ghosts.items():
            for x in (cn, cp):
                eng.leafw[x] = 64

    def n(self, S):
        return zext(S.leaf('ROOT.zones_used'), 64)

    def requires(self, eng, S0, a):
        return [C('at most the maximum of zones', ule(self.n(S0), c64(MAXZ)))]

    def each(self, eng, S, cp, n):
        return forall('dz' + cp[1:], [('i', 64)], lambda i: imp(ult(i, n), eq(S.leaf(cp, i), eng.model.zaddr(i))), [[('#', 'i')], [(cp, (0,))]])

    def modifies(self, eng, S0, a, oc):
        return [(x, None) for x in ('@zn', '@zp', '@dn', '@dp', '@cn', '@cp')]

    def ensures(self, eng, S0, S1, a, ret, oc):
        out = [C('every zone is checked exactly once', [eq(S1.leaf('@zn', c64(0)), self.n(S0)), self.each(eng, S1, '@zp', self.n(S0))], 'P30', 'P19')]
        if eng.cfg == 'dtor':
            out.append(C('every zone is destroyed exactly once', [eq(S1.leaf('@dn', c64(0)), self.n(S0)), self.each(eng, S1, '@dp', self.n(S0))], 'P30', 'P11'))
        else:
            out.append(C('no zone is destroyed', eq(S1.leaf('@dn', c64(0)), c64(0)), 'P30', 'P11'))
        return out

    def check_events(self, eng, S0, S1, a, ret, oc, ev):
        out = []
        fl = [e for e in ev if e[0] == 'call:_free_big_zone_list']
        ok = len(fl) == 2
        out.append(('both lists of big allocations are released', TRUE if ok else FALSE, ()))
        if ok:
            heads = {'u': S0.leaf('ROOT.big_zone_used'), 'f': S0.leaf('ROOT.big_zone_free')}
            h = [e[1] for e in fl]
            for w, nm, lk in (('u', 'used', 'bigused'), ('f', 'free', 'bigfree')):
                m = [e for e in fl if e[1] is heads[w]]
                out.append(('the list of %s big allocations is released exactly once, from its head' % nm, TRUE if len(m) == 1 else FALSE, ()))
                out.append(('the %s list is released under its lock' % nm, TRUE if m and lk in m[0][2] else FALSE, ('P22',)))
        out.append(('the quarantine is emptied exactly once', TRUE if sum(e[0] == 'call:flush_chunk_quarantine' for e in ev) == 1 else FALSE, ('P30', 'P08')))
        if eng.cfg != 'zero0':
            z = S0.leaf('ROOT.zero_alloc_page')
            m = [e for e in ev if e[0] == 'munmap' and e[1] is z]
            out.append(('the page for allocations of size zero is released exactly once', band(*[eq(zx(e[2]), c64(PAGE)) for e in m]) if len(m) == 1 else FALSE, ('P30', 'P24')))
        if eng.cfg != 'dtor':
            out += [('nothing else is released', FALSE, ()) for e in ev if e[0] == 'munmap' and e[1] is not S0.leaf('ROOT.zero_alloc_page')][:1]
        return out

    def loop_specs(self, eng, ctx, a):
        from loops import Cand
        n = self.n(eng.cur_S0)
        out = [Cand('zones in range', lambda ph, S, it: ule(it, n))]
        for cn, cp, _ in self.ghosts.values():
            out += [Cand('visited %s' % cn, lambda ph, S, it, cn=cn: eq(S.leaf(cn, c64(0)), it)), Cand('all visited %s' % cn, lambda ph, S, it, cn=cn: eq(S.leaf(cn, c64(0)), n)),
                    Cand('none visited %s' % cn, lambda ph, S, it, cn=cn: eq(S.leaf(cn, c64(0)), c64(0))),
                    Cand('in order %s' % cp, lambda ph, S, it, cp=cp: self.each(eng, S, cp, it)), Cand('all in order %s' % cp, lambda ph, S, it, cp=cp: self.each(eng, S, cp, n))]
        return out


CONTRACTS.append(Destroy())
