"""Symbolic execution of LLVM SSA with contracts and inductive loops; generates proof obligations."""
import heapq, itertools, re, sys, time
import terms as tm
from terms import *
from ir import size_of, struct_layout, Unsupported, PTR
import mem as M
from mem import Region, Base, Store, Fill, read, flatten as flatten_ty
import solve
from solve import Forall, forall

sys.setrecursionlimit(20000)
PTRW = 64
MASK64 = (1 << 64) - 1


class Clause:
    """one specification clause.  f: Bool term or Forall or list of either"""
    __slots__ = ('name', 'f', 'tags', 'hints', 'facts')

    def __init__(self, name, f, tags=(), hints=None, facts=None):
        self.name, self.f, self.tags, self.hints, self.facts = name, f, tuple(tags), hints, facts


class Obl:
    __slots__ = ('fn', 'name', 'tags', 'st', 'time', 'where', 'detail', 'cex', 'smt')

    def __init__(self, fn, name, tags, st, time, where, detail='', cex=None):
        self.fn, self.name, self.tags, self.st, self.time, self.where, self.detail, self.cex = fn, name, tags, st, time, where, detail, cex
        self.smt = None


class St:
    __slots__ = ('mem', 'pc', 'facts', 'hints', 'locks', 'ev', 'ghost', 'trace', 'known')

    def __init__(self):
        self.mem = {}
        self.pc = []
        self.facts = []
        self.hints = {}
        self.locks = ()
        self.ev = ()
        self.ghost = {}
        self.trace = ()
        self.known = {}

    def copy(self):
        s = St()
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.facts = list(self.facts)
        s.hints = {k: list(v) for k, v in self.hints.items()}
        s.locks = self.locks
        s.ev = self.ev
        s.ghost = dict(self.ghost)
        s.trace = self.trace
        return s

    def assume(self, *ts):
        for t in ts:
            if isinstance(t, Forall):
                self.facts.append(t)
            elif isinstance(t, (list, tuple)):
                self.assume(*t)
            elif isinstance(t, Clause):
                self.assume(t.f)
                if t.hints and not callable(t.hints):
                    for k, v in t.hints.items():
                        self.hint(k, *v)
            elif t is not TRUE:
                for q in (t.args if t.op == 'band' else (t,)):
                    self.pc.append(q)

    def hint(self, sort, *ts):
        l = self.hints.setdefault(sort, [])
        for t in ts:
            if t not in l:
                l.append(t)


class View:
    """read access to one memory snapshot, used by specifications"""

    def __init__(self, eng, mem, st=None):
        self.e, self.mem, self.st = eng, mem, st

    def leaf(self, key, *idx):
        return read(self.mem_ver(key), tuple(self.e.i64(i) for i in idx))

    def mem_ver(self, key):
        v = self.mem.get(key)
        if v is None:
            v = self.e.leaf_base(key)
        return v

    def load(self, addr, w):
        r = None
        for g, place in self.e.resolve(addr, w // 8):
            x = self.e.read_place(self.mem, place, w)
            r = x if r is None else ite(g, x, r)
        return r

    def g(self, name, *idx):
        return self.leaf('@' + name, *idx)


class Abort(Exception):
    pass


class Wild(Exception):
    """address with no known region"""

    def __init__(self, addr, what=''):
        self.addr, self.what = addr, what


class PathBudget(Exception):
    pass


class Eng:
    def __init__(self, mod, cfg='default', prune=True):
        self.mod = mod
        self.cfg = cfg
        self.di = mod.di_structs()
        self.regions = {}      # base term -> Region
        self.leafw = {}        # leaf key -> bit width
        self.leafinit = {}     # leaf key -> Base
        self.pmclass = []      # list of fn(atom)->class or None
        self.freshpm = {}      # fresh base var -> class
        self.phiorg = {}       # loop variable -> its value on entry (pointers keep their region)
        self.nodebase = {}     # resulting address term -> (struct, base, field)
        self.burstall = {}     # struct name -> Region
        self.big_ok = None     # validity of a burstall node
        self.applying = False
        self.contracts = {}
        self.externs = {}
        self.obls = []
        self.want = None       # set of tags to prove, None = all
        self.dry = 0
        self.prune = prune
        self.curfn = '?'
        self.deftags = ()
        self.paths = 0
        self.maxpaths = 4000
        self.pm_cell = 8
        self.pm_cells = {}
        self.ext_hook = {}
        self.store_hook = None
        self.read_guard = {}        # leaf -> condition under which an entry may be read
        self.pm_valid = None
        self.loop_specs = None
        self.strs = {}
        self.allocas = 0
        self.globals_base = {}
        self.assumptions = set()
        self.undecided = []
        self.t_end = None
        self.call_depth = 0
        self.inlined = set()
        self.used_contracts = set()
        self.loop_report = []
        self.background = []   # Forall facts always available
        self.xdef = {}
        self.inv_in = {}
        self.used_warm = False
        self.only_case = None
        self.cur_c = self.cur_S0 = self.cur_a = None
        self.inv_out = {}

    # ------------------------------------------------------------ leaves
    def i64(self, t):
        if isinstance(t, int):
            return const(t, 64)
        if t.w < 64:
            return zext(t, 64)
        return t

    def leaf_base(self, key):
        b = self.leafinit.get(key)
        if b is None:
            b = Base(key + '@0', self.leafw[key])
            self.leafinit[key] = b
        return b

    def ver(self, memd, key):
        v = memd.get(key)
        return self.leaf_base(key) if v is None else v

    def add_region(self, base, name, ty=None, fields=None, count=None, stride=None):
        if fields is None:
            fields = flatten_ty(ty, self.di)
            if ty.k == 'arr' and ty.el.k != 'struct' and False:
                pass
            size = size_of(ty)
        else:
            size = max(f.off + f.size for f in fields)
        r = Region(name, fields, size, stride, count)
        for f in fields:
            self.leafw[name + ('.' + f.path if f.path != 'v' else '')] = f.size * 8
        if base is not None:
            self.regions[base] = r
        return r

    def global_base(self, name):
        b = self.globals_base.get(name)
        if b is None:
            b = var('&' + name, 64)
            self.globals_base[name] = b
            g = self.mod.globals.get(name)
            if g is not None and g.ty is not None and not g.ext:
                self.add_region(b, '@' + name, g.ty)
                if g.const and g.init is not None:
                    self._const_init(name, g)
        return b

    def _const_init(self, name, g):
        """constant arrays: leaf content is an ITE over the table"""
        if g.ty.k == 'arr' and g.ty.el.k == 'i':
            w = g.ty.el.n
            if g.init[0] == 's':
                vals = list(g.init[1])
            elif g.init[0] == 'a':
                vals = [v[1] for v in g.init[1]]
            else:
                vals = [0] * g.ty.n
            key = '@' + name

            def fn(i, vals=vals, w=w):
                if is_c(i):
                    return const(vals[i.p], w) if i.p < len(vals) else None
                if len(vals) > 64:
                    return None
                r = const(vals[-1], w)
                for j in range(len(vals) - 2, -1, -1):
                    r = ite(eq(i, const(j, 64)), const(vals[j], w), r)
                return r
            self.leafinit[key] = Base(key + '@0', w, fn)

    # ------------------------------------------------------------ address resolution
    def split_ite(self, addr):
        """find an ITE atom of a linear form -> (cond, addr_then, addr_else) or None"""
        c, d = lin_of(addr)
        for a, k in d.items():
            if a.op == 'ite':
                rest = sub(addr, scale(a, k))
                return a.args[0], add(rest, scale(a.args[1], k)), add(rest, scale(a.args[2], k))
            if a.op == 'xor':
                for q in a.args:
                    if q.op == 'ite':
                        o = tm.xor(a, q)
                        rest = sub(addr, scale(a, k))
                        return q.args[0], add(rest, scale(tm.xor(o, q.args[1]), k)), add(rest, scale(tm.xor(o, q.args[2]), k))
        return None

    def resolve(self, addr, nbytes):
        """-> [(guard, place)]"""
        p = self.nodebase.get(addr)
        if p is not None:
            return [(TRUE, p)]
        r = self.resolve1(addr, nbytes)
        if r is not None:
            return [(TRUE, r)]
        s = self.split_ite(addr)
        if s is None:
            raise Wild(addr)
        c, a, b = s
        out = []
        for g, x in ((c, a), (bnot(c), b)):
            try:
                rs = self.resolve(x, nbytes)
            except Wild:
                rs = [(TRUE, ('bad', 'a pointer outside every known object', x, nbytes))]
            for g2, pl in rs:
                g3 = band(g, g2)
                if g3 is not FALSE:
                    out.append((g3, pl))
        return out

    def resolve1(self, addr, nbytes):
        if addr in self.regions:
            return self.place(self.regions[addr], const(0, 64), nbytes)
        c, d = lin_of(addr)
        for a, k in d.items():
            if k == 1 and a in self.regions:
                r = self.regions[a]
                return self.place(r, sub(addr, a), nbytes)
        cl = self.pm_class(addr, d)
        if cl is not None:
            return ('pm', cl, addr)
        return None

    def pm_class(self, addr, d):
        for a, k in d.items():
            if k != 1:
                continue
            if self.freshpm.get(a):
                return self.freshpm[a]
            for f in self.pmclass:
                c = f(a)
                if c is not None:
                    return c
            if a.op == 'f' and a.p in self.phiorg:
                c = self.pm_class(None, lin_of(self.phiorg[a.p])[1])
                if c is not None:
                    return c
        return None

    def place(self, r, off, nbytes):
        """typed place: ('t', leafkey, idx tuple, bounds obligations, field)"""
        c, d = lin_of(off)
        if c >> 63:
            c -= 1 << 64
        idx0 = []
        bounds = []
        rest = dict(d)
        if r.stride:
            st = r.stride
            k = const(0, 64)
            for a, q in d.items():
                sq = q - (1 << 64) if q >> 63 else q
                if sq % st == 0:
                    k = add(k, scale(a, sq // st))
                    del rest[a]
            k = add(k, const(c // st, 64))
            c = c % st
            idx0 = [k]
            if r.count is not None:
                bounds.append((k, r.count))
        cands = []
        for f in r.fields:
            if not rest:
                if not f.dims:
                    if c == f.off and nbytes == f.size:
                        cands.append((f, idx0, list(bounds)))
                else:
                    o = c - f.off
                    ix = []
                    ok = True
                    for n, s in f.dims:
                        j = o // s
                        o -= j * s
                        if j < 0 or j >= n:
                            ok = False
                            break
                        ix.append(const(j, 64))
                    if ok and o == 0 and nbytes == f.size:
                        cands.append((f, idx0 + ix, list(bounds)))
            elif f.dims:
                o = c - f.off
                rem = dict(rest)
                ix = []
                bs = list(bounds)
                ok = True
                for n, s in f.dims:
                    k = const(0, 64)
                    for a, q in list(rem.items()):
                        sq = q - (1 << 64) if q >> 63 else q
                        if sq % s == 0:
                            k = add(k, scale(a, sq // s))
                            del rem[a]
                    j = o // s
                    o -= j * s
                    k = add(k, const(j, 64))
                    ix.append(k)
                    bs.append((k, n))
                if rem or o != 0 or nbytes != f.size:
                    continue
                tot = f.dims[0][0] * f.dims[0][1]
                dist = 0 if f.off <= c < f.off + tot else min(abs(c - f.off), abs(c - f.off - tot)) + 1
                cands.append((f, idx0 + ix, bs, dist))
        if not cands:
            return ('bad', r.name, off, nbytes)
        if len(cands) > 1:
            cands.sort(key=lambda x: x[3] if len(x) > 3 else 0)
        f, ix, bs = cands[0][:3]
        key = r.name + ('.' + f.path if f.path != 'v' else '')
        return ('t', key, tuple(ix), bs, f)

    # ------------------------------------------------------------ reading/writing places
    def pm_key(self, cl):
        k = 'PM.' + cl
        cell = self.pm_cells.get(cl, self.pm_cell)
        self.leafw[k] = cell * 8
        return k, cell

    def read_place(self, memd, place, w):
        if place[0] == 't':
            v = read(self.ver(memd, place[1]), place[2])
            assert v.w == w, (place, w)
            return v
        if place[0] == 'bn':     # burstall node field
            _, key, base = place
            return read(self.ver(memd, key), (base,))
        if place[0] == 'pm':
            key, cell = self.pm_key(place[1])
            ver = self.ver(memd, key)
            n = w // 8
            if cell == 8 and n < 8:
                a = place[2]
                lo = and_(a, const(7, 64))
                v = read(ver, (sub(a, lo),))
                if is_c(lo):
                    return extract(v, 8 * lo.p + w - 1, 8 * lo.p)
                return extract(lshr(v, shl(lo, const(3, 64))), w - 1, 0)
            parts = [read(ver, (add(place[2], const(i, 64)),)) for i in range(0, n, cell)]
            return concat(*reversed(parts)) if len(parts) > 1 else parts[0]
        raise Unsupported('read of %r' % (place,))

    def write_place(self, st, place, val, guard=TRUE):
        if place[0] == 't' or place[0] == 'bn':
            key = place[1]
            idx = place[2] if place[0] == 't' else (place[2],)
            ver = self.ver(st.mem, key)
            if guard is not TRUE:
                val = ite(guard, val, read(ver, idx))
            if self.leafw[key] != val.w:
                raise Unsupported('store width %s %d' % (key, val.w))
            st.mem[key] = Store(ver, idx, val)
            return
        if place[0] == 'pm':
            key, cell = self.pm_key(place[1])
            n = val.w // 8
            a = place[2]
            ver = self.ver(st.mem, key)
            if cell == 8 and n < 8:
                lo = and_(a, const(7, 64))
                base = sub(a, lo)
                old = read(ver, (base,))
                sh = shl(lo, const(3, 64))
                m = shl(const((1 << val.w) - 1, 64), sh)
                new = or_(and_(old, tm.xor(m, const(-1, 64))), shl(zext(val, 64), sh))
                if guard is not TRUE:
                    new = ite(guard, new, old)
                st.mem[key] = Store(ver, (base,), new)
                return
            for i in range(0, n, cell):
                b = extract(val, 8 * (i + cell) - 1, 8 * i)
                ai = (add(a, const(i, 64)),)
                if guard is not TRUE:
                    b = ite(guard, b, read(ver, ai))
                ver = Store(ver, ai, b)
            st.mem[key] = ver
            return
        raise Unsupported('write of %r' % (place,))

    def check_place(self, st, place, nbytes, guard, inst, write):
        """in-bounds obligations for one access"""
        w = 'write' if write else 'read'
        if place[0] == 'bad':
            self.oblige(st, 'safety: %s of %d bytes at unmodelled offset in %s' % (w, nbytes, place[1]), imp(guard, FALSE), inst)
            return False
        if place[0] == 't':
            for k, n in place[3]:
                if is_c(k):
                    if k.p >= n:
                        self.oblige(st, 'safety: %s in bounds of %s' % (w, place[1]), bnot(guard), inst)
                    continue
                self.oblige(st, 'safety: %s in bounds of %s' % (w, place[1]), imp(guard, ult(k, const(n, 64))), inst)
        elif place[0] == 'bn':
            if self.big_ok is not None:
                g = self.big_ok(self, st, place[2], write)
                if g is not TRUE:
                    self.oblige(st, 'safety: %s of live big allocation metadata (%s)' % (w, place[1]), imp(guard, g), inst)
        elif place[0] == 'pm':
            if self.pm_valid is not None:
                g = self.pm_valid(self, st, place, nbytes, write)
                if g is not TRUE:
                    self.oblige(st, 'safety: %s of mapped page memory (%s)' % (w, place[1]), imp(guard, g), inst)
            key, cell = self.pm_key(place[1])
            if cell == 8 and nbytes >= 8 and tz(place[2]) < 3:
                self.oblige(st, 'safety: aligned %s of page memory (%s)' % (w, place[1]),
                            imp(guard, eq(and_(place[2], const(7, 64)), const(0, 64))), inst)
        return True

    def load(self, st, addr, w, inst=None):
        try:
            pls = self.resolve(addr, w // 8)
        except Wild:
            self.oblige(st, 'safety: load through a pointer outside every known object', FALSE, inst, detail=show(addr))
            return fresh('wild', w)
        r = None
        for g, pl in pls:
            if pl[0] == 'bad':
                self.check_place(st, pl, w // 8, g, inst, False)
                x = fresh('bad', w)
            else:
                self.check_place(st, pl, w // 8, g, inst, False)
                rg = self.read_guard.get(pl[1]) if pl[0] == 't' else None
                if rg is not None:
                    self.oblige(st, 'only entries in use are read (%s)' % pl[1], imp(g, rg(self, st, pl[2])), inst, ('P36',))
                x = self.read_place(st.mem, pl, w)
            r = x if r is None else ite(g, x, r)
        return r

    def store(self, st, addr, val, inst=None):
        try:
            pls = self.resolve(addr, val.w // 8)
        except Wild:
            self.oblige(st, 'safety: store through a pointer outside every known object', FALSE, inst, detail=show(addr))
            return
        for g, pl in pls:
            if self.check_place(st, pl, val.w // 8, g, inst, True):
                if val.w == 64 and pl[0] == 't' and pl[1] in self.ptrclass:
                    for a, k in lin_of(val)[1].items():
                        if k == 1 and a in self.freshpm and not self.freshpm[a]:
                            self.freshpm[a] = self.ptrclass[pl[1]]
                if self.store_hook:
                    self.store_hook(self, st, pl, g, inst)
                self.write_place(st, pl, val, g)

    ptrclass = {'ZS.user_pages_start': 'U', 'ZS.bitmap_start': 'B', 'BIG.user_pages_start': 'G', 'ROOT.bitmaps.bitmap': 'B'}

    # ------------------------------------------------------------ memset
    def memset(self, st, addr, byte, n, inst):
        """byte: 8-bit term, n: 64-bit term"""
        if is_c(n) and n.p == 0:
            return
        try:
            base = self.resolve(addr, 1)
        except Wild:
            reg = self.burstall.get('iso_alloc_big_zone_t')
            if self.big_ok is not None and is_c(n) and reg is not None and n.p == reg.size:
                self.oblige(st, 'safety: memset of live big allocation metadata', self.big_ok(self, st, addr, True), inst)
                for f in reg.fields:
                    key = reg.name + '.' + f.path
                    st.mem[key] = Store(self.ver(st.mem, key), (addr,), concat(*[byte] * (self.leafw[key] // 8)))
                return
            self.oblige(st, 'safety: memset through a pointer outside every known object', eq(n, const(0, 64)), inst, detail=show(addr))
            return
        if len(base) == 1 and base[0][1][0] == 'pm':
            cl = base[0][1][1]
            key, cell = self.pm_key(cl)
            if self.pm_valid is not None:
                g = self.pm_valid(self, st, ('pm', cl, addr), n, True)
                if g is not TRUE:
                    self.oblige(st, 'safety: memset of mapped page memory (%s)' % cl, g, inst)
            if cell == 8:
                al = eq(and_(or_(addr, n), const(7, 64)), const(0, 64))
                if not (tz(addr) >= 3 and tz(n) >= 3):
                    self.oblige(st, 'safety: qword granular memset', al, inst)
                v = concat(*[byte] * 8)
            else:
                v = byte
            ver = self.ver(st.mem, key)
            st.mem[key] = Fill(ver, lambda a: ult(sub(a, addr), n), lambda a, o: v)
            if self.store_hook:
                self.store_hook(self, st, ('pm', cl, addr), TRUE, inst)
            return
        if not is_c(n):
            raise Unsupported('memset of a typed object with symbolic size')
        n = n.p
        # typed region: must be a single base
        for a, k in lin_of(addr)[1].items():
            if k == 1 and a in self.regions:
                r = self.regions[a]
                off = sub(addr, a)
                break
        else:
            if addr in self.regions:
                r, off = self.regions[addr], const(0, 64)
            else:
                raise Unsupported('memset target ' + show(addr))
        c, d = lin_of(off)
        if c >> 63:
            c -= 1 << 64
        k = const(0, 64)
        if r.stride:
            for a, q in d.items():
                sq = q - (1 << 64) if q >> 63 else q
                if sq % r.stride:
                    raise Unsupported('memset offset')
                k = add(k, scale(a, sq // r.stride))
            k = add(k, const(c // r.stride, 64))
            c = c % r.stride
            lim = r.stride
            if r.count is not None and not is_c(k):
                self.oblige(st, 'safety: memset in bounds of %s' % r.name, ult(k, const(r.count, 64)), inst)
            pre = (k,)
        else:
            if d:
                raise Unsupported('memset offset')
            pre = ()
            lim = r.size
        if c + n > lim:
            self.oblige(st, 'safety: memset stays inside %s' % r.name, FALSE, inst)
            n = lim - c
        for f in r.fields:
            key = r.name + ('.' + f.path if f.path != 'v' else '')
            if not f.dims:
                lo, hi = max(c, f.off), min(c + n, f.off + f.size)
                if lo >= hi:
                    continue
                pl = ('t', key, pre, [], f)
                old = self.read_place(st.mem, pl, f.size * 8)
                if self.store_hook:
                    self.store_hook(self, st, pl, TRUE, inst)
                self.write_place(st, pl, self.blend(old, byte, lo - f.off, hi - f.off, f.size))
            else:
                # all elements are at f.off + sum idx_j*stride_j
                tot = f.dims[0][0] * f.dims[0][1]
                if f.off >= c + n or f.off + tot <= c:
                    continue
                nd = len(f.dims)
                npre = len(pre)
                full = (f.off >= c and f.off + (f.dims[0][0] - 1) * f.dims[0][1] + f.size <= c + n)
                v = concat(*[byte] * f.size) if f.size > 1 else byte
                ver = self.ver(st.mem, key)
                if self.store_hook:
                    self.store_hook(self, st, ('t', key, pre + (const(0, 64),) * nd, [], f), TRUE, inst)

                def same(ix):
                    r_ = TRUE
                    for p, q in zip(pre, ix):
                        r_ = band(r_, eq(p, q))
                    return r_
                if full:
                    st.mem[key] = Fill(ver, lambda *ix: same(ix), lambda *a: v)
                    continue
                if nd != 1:
                    raise Unsupported('partial memset of nested array')
                s = f.dims[0][1]
                a0, a1 = c - f.off, c + n - f.off     # byte window relative to array
                # full elements: i*s >= a0 and i*s+size <= a1
                i0 = max(0, -(-a0 // s))
                i1 = max(i0, (a1 - f.size) // s + 1 if a1 >= f.size else 0)
                if i1 > i0:
                    ver = Fill(ver, lambda *ix, i0=i0, i1=i1: band(same(ix), uge(ix[npre], const(i0, 64)), ult(ix[npre], const(i1, 64))),
                               lambda *a: v)
                for i in ({(i0 - 1), i1}):
                    if 0 <= i < f.dims[0][0]:
                        lo, hi = max(a0, i * s), min(a1, i * s + f.size)
                        if lo < hi and not (i0 <= i < i1):
                            ix = pre + (const(i, 64),)
                            old = read(ver, ix)
                            ver = Store(ver, ix, self.blend(old, byte, lo - i * s, hi - i * s, f.size))
                st.mem[key] = ver

    def blend(self, old, byte, lo, hi, size):
        parts = []
        for i in range(size - 1, -1, -1):
            parts.append(byte if lo <= i < hi else extract(old, 8 * i + 7, 8 * i))
        return concat(*parts) if len(parts) > 1 else parts[0]

    # ------------------------------------------------------------ obligations
    def tagset(self, tags):
        return tuple(tags) if tags else tuple(self.deftags)

    def oblige(self, st, name, f, inst=None, tags=None, detail='', hints=None, facts=None):
        if self.dry:
            return
        if f is TRUE:
            return
        tags = self.tagset(tags)
        if name.startswith('safety:') and 'P38' not in tags:
            tags = tuple(tags) + ('P38',)
        if isinstance(f, Forall) and any(f is x for x in st.facts):
            if self.want is None or set(tags) & self.want:
                self.obls.append(Obl(self.curfn, name, tags, 'proved', 0.0, self.mod.line_in(inst.dbg) if inst is not None and inst.dbg else ''))
            return
        if self.want is not None and not (set(tags) & self.want):
            return
        where = self.mod.line_in(inst.dbg) if inst is not None and inst.dbg else ''
        self.prove(st, name, f, tags, where, detail, hints, facts)

    def ground_query(self, st, goals, hints=None, extra=()):
        """assumptions of the state with facts instantiated"""
        base = list(st.pc) + list(extra)
        h = {k: list(v) for k, v in st.hints.items()}
        if hints:
            for k, v in hints.items():
                l = h.setdefault(k, [])
                for t in v:
                    if t not in l:
                        l.append(t)
        facts = self.background + st.facts
        ins = solve.instantiate(base + list(goals), facts, h, rounds=self.rounds)
        return base + ins

    rounds = 2
    shallow = 0
    warm = None
    unroll_max = 20
    use_history = True

    def skolem(self, f):
        """-> (ground goal, hints)"""
        if isinstance(f, Forall):
            sk = {}
            hints = {}
            for v in f.vars:
                s = v.p.split('?')[0]
                x = fresh('sk_' + s, v.w)
                sk[v] = x
                hints.setdefault(s, []).append(x)
            return subst(f.body, sk), hints, sk
        return f, {}, {}

    def prove(self, st, name, f, tags, where='', detail='', hints=None, facts=None):
        t0 = time.time()
        if isinstance(f, (list, tuple)):
            for i, g in enumerate(f):
                self.prove(st, name if len(f) == 1 else '%s #%d' % (name, i + 1), g, tags, where, detail, hints, facts)
            return
        if self.defer is not None:
            s = st.copy()
            s.trace = list(st.trace)
            self.defer.append((len(self.obls), s, self.curfn, name, f, tags, where, detail, hints, facts))
            return
        goal, h, sk = self.skolem(f)
        if hints:
            for k, v in (hints(sk) if callable(hints) else hints).items():
                h.setdefault(k, []).extend(v)
        if goal is TRUE:
            self.obls.append(Obl(self.curfn, name, tags, 'proved', 0.0, where))
            return
        saved = st.facts
        if facts:
            st.facts = st.facts + list(facts)
        try:
            ng = bnot(goal)
            q = self.ground_query(st, [ng], h)
            cs = self.split_conds(goal, set(sk.values()))
            r = None
            if cs:
                r = solve.check_sat(q + [ng], timeout=1500, name=self.curfn + ': ' + name, want_model=True)
                if r.st == 'unknown':
                    r = self.by_cases(st, ng, h, cs, name) or r
            if r is None or r.st == 'unknown':
                r = solve.check_sat(q + [ng], name=self.curfn + ': ' + name, want_model=True)
            if r.st == 'unsat':
                o = Obl(self.curfn, name, tags, 'proved', time.time() - t0, where)
                self.obls.append(o)
                if self.on_proved:
                    self.on_proved(o, q + [ng])
                return
            st_, det, cex = self.refute(st, q + [ng], r)
            if st_ == 'proved':
                self.obls.append(Obl(self.curfn, name, tags, 'proved', time.time() - t0, where, det))
                return
            o = Obl(self.curfn, name, tags, st_, time.time() - t0, where, (detail + ' ' + det).strip(), cex)
            o.cex = dict(o.cex or {})
            o.cex['trace'] = list(st.trace)
            o.cex['goal'] = show(goal, 12)
            self.obls.append(o)
            self.last_failed = (q, ng, st)
        finally:
            st.facts = saved

    def split_conds(self, goal, sks):
        """conditions of conditional values that depend on the quantified variables of a goal"""
        if not sks:
            return []
        out = []
        for x in atoms([goal]):
            if x.op == 'ite' and x.args[0] not in out and any(y in sks for y in atoms([x.args[0]])):
                out.append(x.args[0])
        return out if len(out) <= 6 else []

    def by_cases(self, st, ng, h, cs, name):
        """the negated goal is refuted in every combination of the conditions; None if some case is not"""
        todo = [(ng, [])]
        for c in cs:
            nx = []
            for g, hyp in todo:
                c1 = subst(c, {x: TRUE if v else FALSE for x, v in [(y, True) for y in hyp if y.op != 'bnot']} | {y.args[0]: FALSE for y in hyp if y.op == 'bnot'})
                for v in (TRUE, FALSE):
                    if c1 is bnot(v):
                        continue
                    g1 = subst(g, {c: v})
                    if g1 is not FALSE:
                        nx.append((g1, hyp + ([c if v is TRUE else bnot(c)] if c1 is not v else [])))
            todo = nx
        r = None
        for g, hyp in todo:
            q = self.ground_query(st, [g] + hyp, h)
            r = solve.check_sat(q + hyp + [g], timeout=20000, name=self.curfn + ': ' + name + ' (case)', want_model=True)
            if r.st != 'unsat':
                return None
        return r

    on_proved = None
    defer = None
    concretize = None

    def refute(self, st, q, r):
        """abstract sat/unknown: look for a model with the real nonlinear semantics"""
        has_nl = any(x.op in ('udiv', 'urem') or x.op == 'mul' and not solve.tinymul(x) for x in atoms(q))
        if not has_nl:
            if r.st == 'sat':
                return 'failed', '', self.model_of(q, r)
            return 'undecided', 'solver: ' + r.why, None
        # candidate concretisations: choose value for each factor term that is a leaf app/var
        facs = self.nl_factors(q)
        res = None
        unsat_all = True
        for choice in self.concretizations(facs):
            m = {}
            qs = [subst_all(t, choice) for t in q]
            extra = [eq(k, v) for k, v in choice.items()]
            rr = solve.check_sat(qs + extra, timeout=10000, want_model=True, name=self.curfn + ' refute')
            if rr.st == 'sat':
                still = any(x.op in ('mul',) for x in atoms(qs))
                cex = self.model_of(qs, rr)
                cex['choice'] = {show(k): show(v) for k, v in choice.items()}
                return 'failed', '', cex
            if rr.st != 'unsat':
                unsat_all = False
        if r.st == 'sat':
            return 'undecided', 'no model with concrete chunk sizes found (abstract model only)', None
        return 'undecided', 'solver: ' + r.why, None

    def nl_factors(self, q):
        """divisors / multiplication factors that are leaf reads"""
        fs = {}
        for x in atoms(q):
            if x.op == 'mul':
                for a in x.args:
                    fs[a] = fs.get(a, 0) + 1
            elif x.op in ('udiv', 'urem'):
                fs[x.args[1]] = fs.get(x.args[1], 0) + 3
        return fs

    def concretizations(self, fs):
        """choose the chunk-size-like atoms"""
        cs = set()
        for a in fs:
            b = a
            while b.op in ('zext', 'ext'):
                b = b.args[0]
            if b.op == 'f' and b.p.startswith('ZS.chunk_size') or b.op == 'v' and b.p.startswith('cs'):
                cs.add(b)
        cs = sorted(cs, key=lambda t: t.id)
        if not cs:
            yield {}
            return
        for v in (32, 64, 96, 1024, 4096, 8192, 65536, 49152, 40960, 2080, 160, 128):
            yield {c: const(v, c.w) for c in cs}

    def model_of(self, q, r):
        out = {}
        if r.model is None:
            return out
        seen = set()
        for x in atoms(q):
            if x.op == 'v' or x.op == 'f':
                z = r.tr.memo.get(x) if not isinstance(r.tr, solve.Tr) else r.tr.z.memo.get(x)
                if z is None:
                    continue
                try:
                    v = r.model.eval(z, model_completion=True)
                    args = [r.model.eval(r.tr.tr(a), model_completion=True) for a in x.args]
                    out[x.p + ('(%s)' % ','.join(hexs(a) for a in args) if args else '')] = hexs(v)
                except Exception:
                    pass
        return out

    def feasible(self, st, c):
        if c is FALSE:
            return False
        if not self.prune:
            return True
        r = solve.check_sat(st.pc + [c], timeout=1500, name='feasibility')
        return r.st != 'unsat'

    def must(self, st, c):
        """is c implied (with facts)?"""
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        q = self.ground_query(st, [c])
        return solve.check_sat(q + [bnot(c)], timeout=4000, name='must').st == 'unsat'

    # ------------------------------------------------------------ values
    def val(self, env, v):
        k, x, ty = v
        if k == 'l':
            return env[x]
        if k == 'c':
            if ty.k == 'ptr':
                return const(x, 64)
            if ty.n == 1:
                return TRUE if x & 1 else FALSE
            return const(x, ty.n)
        if k == 'g':
            if x in self.mod.funcs or x in self.mod.decls:
                return var('&' + x, 64)
            return self.global_base(x)
        if k == 'u':
            if ty.k == 'ptr':
                return fresh('undef', 64)
            if ty.n == 1:
                return fresh('undef', 0)
            return fresh('undef', ty.n)
        if k == 'gep':
            bt, ops = x
            return self.gep(env, bt, ops)
        if k == 'cast':
            op, a, tt = x
            r = self.val(env, a)
            w = 64 if tt.k == 'ptr' else tt.n
            return r if r.w == w else trunc(r, w)
        if k == 'z' and ty.k in ('i', 'ptr'):
            return const(0, 64 if ty.k == 'ptr' else ty.n)
        raise Unsupported('value %r' % (v,))

    def gep(self, env, bt, ops):
        a = self.val(env, ops[0])
        base = a
        t = bt
        first = True
        path_struct = None
        for o in ops[1:]:
            i = self.val(env, o)
            i = sext(i, 64) if i.w < 64 else i
            if first:
                a = add(a, scale(i, size_of(t)))
                first = False
                nodeb = a
                continue
            if t.k == 'struct':
                offs, _ = struct_layout(t)
                j = i.p
                nm = (t.name or '').replace('%struct.', '')
                a2 = add(a, const(offs[j], 64))
                if nm in self.burstall:
                    reg = self.burstall[nm]
                    for f in reg.fields:
                        if f.off == offs[j]:
                            self.nodebase[a2] = ('bn', reg.name + '.' + f.path, a)
                a = a2
                t = t.fields[j]
            elif t.k == 'arr':
                a = add(a, scale(i, size_of(t.el)))
                t = t.el
            else:
                raise Unsupported('gep into %r' % t)
        return a

    # ------------------------------------------------------------ running functions
    def run(self, fn, st, args):
        """-> list of (kind, state, value) with kind in ret/abort"""
        f = self.mod.get(fn)
        if f is None:
            raise Unsupported('no body for ' + fn)
        env = {}
        for (n, t), a in zip(f.params, args):
            env[n] = a
        prep(f)
        outs = []
        for kind, s, x in self.explore(f, [(f.order[0], None, env, st)], None):
            outs.append((kind, s, x))
        return outs

    def explore(self, f, starts, loop):
        """starts: [(block, pred, env, st)].  loop: Loop being analysed (its header's back edges are
        returned as ('back', st, (pred, env)), edges leaving it as ('exit', st, (target, pred, env)))"""
        outs = []
        order = f.rpo
        pend = {}
        heap = []
        cnt = itertools.count()

        def push(b, pred, env, st):
            if b not in pend:
                pend[b] = []
                heapq.heappush(heap, (order[b], b))
            pend[b].append((pred, env, st))

        first = True
        for b, p, e, s in starts:
            push(b, p, e, s)
        started = set()
        while heap:
            _, b = heapq.heappop(heap)
            items = pend.pop(b)
            L = f.loops.get(b)
            is_start = loop is not None and b == loop.header
            its = []
            for pred, env, st in items:
                if is_start:
                    # loop body start: phis already bound by caller
                    its.append((pred, env, st))
                    continue
                if L is not None:
                    its.append((pred, env, st))
                    continue
                env2 = self.phis(f, b, pred, env)
                its.append((pred, env2, st))
            if L is not None and not is_start:
                for pred, env, st in its:
                    for kind, s, x in self.loop(f, L, pred, env, st):
                        if kind == 'goto':
                            self.edge(f, x[0], x[1], x[2], s, loop, outs, push)
                        else:
                            outs.append((kind, s, x))
                continue
            if len(its) > 1:
                its = self.merge(f, b, its)
            for pred, env, st in its:
                for kind, s, x in self.block(f, b, 0, env, st):
                    if kind == 'goto':
                        self.edge(f, x[0], x[1], x[2], s, loop, outs, push)
                    else:
                        outs.append((kind, s, x))
        return outs

    def edge(self, f, tgt, pred, env, st, loop, outs, push):
        if loop is not None:
            if tgt == loop.header:
                outs.append(('back', st, (pred, env)))
                return
            if tgt not in loop.body:
                outs.append(('exit', st, (tgt, pred, env)))
                return
        push(tgt, pred, env, st)

    def phis(self, f, b, pred, env):
        ph = f.blocks[b].phis
        if not ph:
            return env
        vals = []
        for p in ph:
            for v, bl in p.a:
                if bl == pred:
                    vals.append((p.dst, self.val(env, v)))
                    break
            else:
                raise Unsupported('phi without incoming %s' % pred)
        env = dict(env)
        for n, v in vals:
            env[n] = v
        return env

    def merge(self, f, b, its):
        """merge states whose memory/ghost are identical"""
        groups = []
        live = f.livein[b]
        for pred, env, st in its:
            for g in groups:
                st0 = g[0][2]
                if st.locks == st0.locks and st.ev == st0.ev and st.ghost == st0.ghost and same_mem(st.mem, st0.mem) \
                        and len(st.facts) == len(st0.facts) and all(x is y for x, y in zip(st.facts, st0.facts)):
                    # pointer-valued differences prevent merging
                    ok = True
                    e0 = g[0][1]
                    for n in live:
                        a, c = env.get(n), e0.get(n)
                        if a is c or a is None or c is None:
                            continue
                        if n in f.ptrvals or a.w != c.w:
                            ok = False
                            break
                        if a.w and a.w >= 16 and not (is_c(a) and is_c(c)) and False:
                            ok = False
                            break
                    if ok:
                        g.append((pred, env, st))
                        break
            else:
                groups.append([(pred, env, st)])
        out = []
        for g in groups:
            if len(g) == 1:
                out.append(g[0])
                continue
            pcs = [x[2].pc for x in g]
            n = 0
            while all(len(p) > n for p in pcs) and all(p[n] is pcs[0][n] for p in pcs):
                n += 1
            conds = [band(*p[n:]) for p in pcs]
            env = dict(g[0][1])
            for nme in live:
                v = None
                for (pred, e, s), c in zip(reversed(g), reversed(conds)):
                    x = e.get(nme)
                    if x is None:
                        v = None
                        break
                    v = x if v is None else (v if v is x else ite(c, x, v))
                if v is not None:
                    env[nme] = v
            st = g[0][2].copy()
            st.pc = pcs[0][:n]
            st.assume(simp_or(conds))
            hs = {}
            for x in g:
                for k, l in x[2].hints.items():
                    for t in l:
                        if t not in hs.setdefault(k, []):
                            hs[k].append(t)
            st.hints = hs
            out.append((g[0][0], env, st))
        return out

    def block(self, f, b, i, env, st):
        """execute from instruction i; yields outcomes / gotos"""
        blk = f.blocks[b]
        insts = blk.insts
        n = len(insts)
        own = False
        while i < n:
            ins = insts[i]
            op = ins.op
            if op == 'br':
                if not ins.a:
                    return [('goto', st, (ins.x[0], b, env))]
                c = self.val(env, ins.a[0])
                t, e = ins.x
                if c is TRUE:
                    return [('goto', st, (t, b, env))]
                if c is FALSE:
                    return [('goto', st, (e, b, env))]
                out = []
                pcs = set(st.pc)
                if c in pcs:
                    return [('goto', st, (t, b, env))]
                if bnot(c) in pcs:
                    return [('goto', st, (e, b, env))]
                for cc, tgt in ((c, t), (bnot(c), e)):
                    if not self.feasible(st, cc):
                        continue
                    s = st.copy()
                    s.assume(cc)
                    if ins.dbg:
                        s.trace = s.trace + ((self.mod.loc(ins.dbg), cc is c),)
                    out.append(('goto', s, (tgt, b, dict(env))))
                self.paths += max(0, len(out) - 1)
                if self.paths > self.maxpaths:
                    raise PathBudget(self.curfn)
                return out
            if op == 'switch':
                c = self.val(env, ins.a[0])
                d, cs = ins.x
                out = []
                rest = TRUE
                for v, tgt in cs:
                    e_ = eq(c, const(v, c.w))
                    rest = band(rest, bnot(e_))
                    if e_ is FALSE or not self.feasible(st, e_):
                        continue
                    s = st.copy()
                    s.assume(e_)
                    out.append(('goto', s, (tgt, b, dict(env))))
                if rest is not FALSE and self.feasible(st, rest):
                    s = st.copy()
                    s.assume(rest)
                    out.append(('goto', s, (d, b, dict(env))))
                return out
            if op == 'ret':
                v = self.val(env, ins.a[0]) if ins.a else None
                return [('ret', st, v)]
            if op == 'unreachable':
                return []
            if op == 'call':
                res = self.call(f, ins, env, st)
                if len(res) == 1 and res[0][0] == 'ret':
                    st = res[0][1]
                    if ins.dst is not None:
                        if not own:
                            env = dict(env)
                            own = True
                        env[ins.dst] = res[0][2]
                    i += 1
                    continue
                out = []
                for kind, s, v in res:
                    if kind != 'ret':
                        out.append((kind, s, v))
                        continue
                    e2 = dict(env)
                    if ins.dst is not None:
                        e2[ins.dst] = v
                    out += self.block(f, b, i + 1, e2, s)
                return out
            if not own:
                env = dict(env)
                st = st.copy()
                own = True
            self.step(f, ins, env, st)
            i += 1
        raise Unsupported('block without terminator')

    def step(self, f, ins, env, st):
        op = ins.op
        if op in BINOPS:
            a = self.val(env, ins.a[0])
            b = self.val(env, ins.a[1])
            if a.w == 0:
                env[ins.dst] = {'xor': tm.bxor, 'and': band, 'or': bor}[op](a, b)
                return
            if op in ('udiv', 'sdiv', 'urem', 'srem'):
                if not is_c(b):
                    self.oblige(st, 'safety: division by zero', ne(b, const(0, b.w)), ins)
            elif op in ('shl', 'lshr', 'ashr'):
                if not is_c(b):
                    self.oblige(st, 'safety: shift amount below width', ult(b, const(b.w, b.w)), ins)
                elif b.p >= b.w:
                    self.oblige(st, 'safety: shift amount below width', FALSE, ins)
            env[ins.dst] = BINOPS[op](a, b)
        elif op == 'icmp':
            a = self.val(env, ins.a[0])
            b = self.val(env, ins.a[1])
            env[ins.dst] = ICMP[ins.x](a, b)
        elif op == 'zext':
            env[ins.dst] = zext(self.val(env, ins.a[0]), ins.ty.n)
        elif op == 'sext':
            env[ins.dst] = sext(self.val(env, ins.a[0]), ins.ty.n)
        elif op == 'trunc':
            a = self.val(env, ins.a[0])
            if ins.ty.n == 1:
                env[ins.dst] = eq(and_(a, const(1, a.w)), const(1, a.w))
            else:
                env[ins.dst] = trunc(a, ins.ty.n)
        elif op in ('ptrtoint', 'inttoptr', 'bitcast'):
            a = self.val(env, ins.a[0])
            w = 64 if ins.ty.k == 'ptr' else ins.ty.n
            env[ins.dst] = a if a.w == w else (trunc(a, w) if a.w > w else zext(a, w))
        elif op == 'gep':
            env[ins.dst] = self.gep(env, ins.x, ins.a)
        elif op == 'load':
            a = self.val(env, ins.a[0])
            if ins.ty.k not in ('i', 'ptr'):
                raise Unsupported('load of %r' % ins.ty)
            w = 64 if ins.ty.k == 'ptr' else ins.ty.n
            if w == 1:
                v = self.load(st, a, 8, ins)
                env[ins.dst] = ne(v, const(0, 8))
            else:
                env[ins.dst] = self.load(st, a, w, ins)
        elif op == 'store':
            v = self.val(env, ins.a[0])
            a = self.val(env, ins.a[1])
            if ins.x and self.atomic_store:
                if self.atomic_store(self, st, a, v, ins):
                    return
            if v.w == 0:
                v = zext(v, 8)
            self.store(st, a, v, ins)
        elif op == 'select':
            c, a, b = [self.val(env, x) for x in ins.a]
            env[ins.dst] = ite(c, a, b)
        elif op == 'alloca':
            self.allocas += 1
            base = var('alloca!%d' % self.allocas, 64)
            cnt = 1
            if ins.a:
                c = self.val(env, ins.a[0])
                if not is_c(c):
                    raise Unsupported('variable alloca')
                cnt = c.p
            ty = ins.ty
            if cnt != 1:
                from ir import Ty
                ty = Ty('arr', cnt, ty)
            self.add_region(base, 'alloca!%d' % self.allocas, ty)
            env[ins.dst] = base
        elif op == 'extractvalue':
            a = ins.a[0]
            env[ins.dst] = env[a[1]][ins.x]
        elif op == 'atomicrmw':
            a = self.val(env, ins.a[0])
            v = self.val(env, ins.a[1])
            env[ins.dst] = self.atomic_rmw(self, st, a, v, ins)
        else:
            raise Unsupported('%s: %s (%s)' % (op, ins.raw, ins.x))

    atomic_store = None
    atomic_rmw = None

    # ------------------------------------------------------------ calls
    def call(self, f, ins, env, st):
        cal = ins.x
        if cal[0] != 'g':
            raise Unsupported('indirect call in %s: %s' % (f.name, ins.raw))
        name = cal[1]
        args = []
        for a in ins.a:
            if a[0] == 'm':
                continue
            args.append(self.val(env, a))
        if name in self.externs:
            return self.externs[name](self, st, args, ins)
        c = self.contracts.get(name)
        if c is not None and not (c.inline_in and self.curfn in c.inline_in):
            return self.apply(c, st, args, ins)
        if name in self.mod.funcs:
            self.inlined.add(name)
            self.call_depth += 1
            if self.call_depth > 30:
                raise Unsupported('inline depth')
            try:
                return self.run(name, st, args)
            finally:
                self.call_depth -= 1
        raise Unsupported('external function %s' % name)

    def apply(self, c, st, args, ins):
        """replace a call by the callee's contract"""
        self.applying = True
        try:
            return self.apply1(c, st, args, ins)
        finally:
            self.applying = False

    def apply1(self, c, st, args, ins):
        self.used_contracts.add(c.name)
        where = self.mod.line_in(ins.dbg) if ins is not None and ins.dbg else ''
        S0 = View(self, dict(st.mem), st)
        a = c.bind(self, S0, args)
        for cl in c.requires(self, S0, a):
            if cl.name.startswith('lemma:'):
                st.assume(cl.f)      # arithmetic fact decided when the contract is loaded
                continue
            self.oblige(st, 'precondition of %s: %s' % (c.name, cl.name), cl.f, ins, cl.tags or None, hints=cl.hints)
        lk = c.locks(self, st, a)
        if lk is not None:
            need, forbid, after = lk
            for l in need:
                if l not in st.locks:
                    self.oblige(st, 'lock %s held at call of %s' % (l, c.name), FALSE, ins, ('P22',))
            for l in forbid:
                if l in st.locks:
                    self.oblige(st, 'lock %s not held at call of %s (self-deadlock)' % (l, c.name), FALSE, ins, ('P22',))
        outs = []
        ocs = c.outcomes(self, S0, a)
        # a call that must abort under some condition does not return under it (proved when the callee is verified)
        musts = [x for x in ocs if x.abort and getattr(x, 'must', True) and x.cond is not None and x.cond is not TRUE and x.cond is not FALSE]
        for oc in ocs:
            cond = oc.cond if oc.cond is not None else TRUE
            if cond is FALSE:
                continue
            if oc.abort and getattr(oc, 'witness', None):
                cond = oc.witness(st)
            if oc.abort:
                if cond is not TRUE and not self.feasible(st, cond):
                    continue
                s = st.copy()
                s.assume(cond)
                s.trace = s.trace + (('abort in ' + c.name, True),)
                if oc.oom:
                    s.ghost['oom'] = True
                outs.append(('abort', s, (c.name, where)))
                continue
            s = st.copy()
            s.assume(cond)
            for x in musts:
                s.assume(bnot(x.cond))
            ret = oc.ret
            # havoc
            for m in c.modifies(self, S0, a, oc):
                self.havoc(s, m, S0)
            if oc.effect:
                oc.effect(self, s, a)
            if callable(ret):
                ret = ret(s)
            S1 = View(self, s.mem, s)
            for cl in c.ensures(self, S0, S1, a, ret, oc):
                s.assume(cl)
            if self.prune and len(outs) >= 0 and (cond is not TRUE):
                if solve.check_sat(s.pc, timeout=1500, name='feasibility').st == 'unsat':
                    continue
            if lk is not None and lk[2] is not None:
                s.locks = lk[2](s.locks, oc)
            s.ev = s.ev + tuple(c.events(self, S0, S1, a, ret, oc))
            outs.append(('ret', s, ret))
        self.paths += max(0, len(outs) - 1)
        if self.paths > self.maxpaths:
            raise PathBudget(self.curfn)
        return outs

    def havoc(self, s, m, S0):
        """m: (leaf, slice-or-None).  slice: fn(*idx)->Bool of indices that may change"""
        key, sl = m
        if key.startswith('PM.'):
            self.pm_key(key[3:])
        w = self.leafw.get(key)
        if w is None:
            raise Unsupported('unknown leaf ' + key)
        old = self.ver(s.mem, key)
        nb = Base(freshname(key + '@'), w)
        if sl is None:
            s.mem[key] = nb
        else:
            comps = None
            if isinstance(sl, tuple):
                comps = sl

                def sl(*idx, comps=comps):
                    r = TRUE
                    for x, y in zip(idx, comps):
                        if y is not None:
                            r = band(r, eq(x, y))
                    return r
            s.mem[key] = Fill(old, sl, lambda idx, o, nb=nb: nb.rd(idx))
            s.mem[key].comps = comps

    # ------------------------------------------------------------ loops
    def loop(self, f, L, pred, env, st):
        from loops import do_loop
        return do_loop(self, f, L, pred, env, st)


def hexs(v):
    try:
        return hex(v.as_long())
    except Exception:
        return str(v)


def subst_all(t, m):
    return subst(t, m) if m else t


def same_mem(a, b):
    if a is b:
        return True
    for k in a.keys() | b.keys():
        if a.get(k) is not b.get(k):
            return False
    return True


def simp_or(conds):
    """OR of path conditions, dropping complementary literals: (a&x) | (!a&x)"""
    cs = [list(c.args) if c.op == 'band' else [c] for c in conds]
    changed = True
    while changed and len(cs) > 1:
        changed = False
        for i in range(len(cs)):
            for j in range(i + 1, len(cs)):
                A, B = set(cs[i]), set(cs[j])
                if A <= B:
                    cs.pop(j)
                    changed = True
                    break
                if B <= A:
                    cs.pop(i)
                    changed = True
                    break
                d1, d2 = A - B, B - A
                if len(d1) == 1 and len(d2) == 1 and bnot(next(iter(d1))) is next(iter(d2)):
                    cs[i] = [x for x in cs[i] if x in B]
                    cs.pop(j)
                    changed = True
                    break
            if changed:
                break
    return bor(*[band(*c) for c in cs])


BINOPS = {'add': add, 'sub': sub, 'mul': mul, 'udiv': udiv, 'sdiv': sdiv, 'urem': urem, 'srem': srem, 'and': and_, 'or': or_,
          'xor': lambda a, b: tm.xor(a, b), 'shl': shl, 'lshr': lshr, 'ashr': ashr}
ICMP = {'eq': eq, 'ne': ne, 'ult': ult, 'ule': ule, 'ugt': ugt, 'uge': uge, 'slt': slt, 'sle': sle, 'sgt': sgt, 'sge': sge}


# ------------------------------------------------------------------ CFG preparation
class Loop:
    __slots__ = ('header', 'body', 'latches', 'exits', 'parent')


def prep(f):
    if hasattr(f, 'rpo'):
        return
    entry = f.order[0]
    seen = set()
    post = []
    st = [(entry, iter(f.blocks[entry].succ))]
    seen.add(entry)
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(f.blocks[s].succ)))
                break
        else:
            post.append(b)
            st.pop()
    rpo = list(reversed(post))
    f.rpo = {b: i for i, b in enumerate(rpo)}
    # dominators
    idom = {entry: entry}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            ps = [p for p in f.blocks[b].preds if p in idom]
            n = ps[0]
            for p in ps[1:]:
                x, y = p, n
                while x != y:
                    while f.rpo[x] > f.rpo[y]:
                        x = idom[x]
                    while f.rpo[y] > f.rpo[x]:
                        y = idom[y]
                n = x
            if idom.get(b) != n:
                idom[b] = n
                ch = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == entry:
                return False
            b = idom[b]
    f.loops = {}
    for b in rpo:
        for s in f.blocks[b].succ:
            if dom(s, b):
                L = f.loops.get(s)
                if L is None:
                    L = Loop()
                    L.header = s
                    L.body = {s}
                    L.latches = []
                    L.parent = None
                    f.loops[s] = L
                L.latches.append(b)
                w = [b]
                while w:
                    x = w.pop()
                    if x in L.body:
                        continue
                    L.body.add(x)
                    w += [p for p in f.blocks[x].preds if p in f.rpo]
            elif f.rpo[s] <= f.rpo[b]:
                raise Unsupported('irreducible control flow in ' + f.name)
    # RPO must schedule loop exits after all of the loop body: renumber with loop-aware order
    f.rpo = loop_order(f, entry, rpo)
    # liveness (names used in blocks reachable), pointer-typed values
    f.ptrvals = {n for n, t in f.params if t.k == 'ptr'}
    use = {}
    dfn = {}
    for b in rpo:
        u, d = set(), set()
        blk = f.blocks[b]
        for i in blk.phis:
            d.add(i.dst)
            if i.ty.k == 'ptr':
                f.ptrvals.add(i.dst)
        for i in blk.insts:
            for v in ops_of(i):
                if v not in d:
                    u.add(v)
            if i.dst is not None:
                d.add(i.dst)
                if i.ty is not None and i.ty.k == 'ptr' or i.op in ('gep', 'alloca', 'inttoptr'):
                    f.ptrvals.add(i.dst)
        use[b], dfn[b] = u, d
    live = {b: set(use[b]) for b in rpo}
    ch = True
    while ch:
        ch = False
        for b in reversed(rpo):
            o = set()
            for s in f.blocks[b].succ:
                o |= live[s] - {p.dst for p in f.blocks[s].phis}
                for p in f.blocks[s].phis:
                    for v, bl in p.a:
                        if bl == b and v[0] == 'l':
                            o.add(v[1])
            n = use[b] | (o - dfn[b])
            if not n <= live[b]:
                live[b] |= n
                ch = True
    # include phi dsts of the block itself
    f.livein = {}
    f.phiuse = {}
    used = set()
    for b in rpo:
        for i in f.blocks[b].insts:
            used |= set(ops_of(i))
        for p in f.blocks[b].phis:
            for v, bl in p.a:
                if v[0] == 'l':
                    used.add(v[1])
    for b in rpo:
        f.livein[b] = live[b] | {p.dst for p in f.blocks[b].phis if p.dst in used}


def ops_of(i):
    out = []

    def go(v):
        if v[0] == 'l':
            out.append(v[1])
        elif v[0] == 'gep':
            for o in v[1][1]:
                go(o)
        elif v[0] == 'cast':
            go(v[1][1])
    for v in i.a:
        if isinstance(v, tuple):
            go(v)
    if i.op == 'call' and i.x[0] == 'l':
        out.append(i.x[1])
    return out


def loop_order(f, entry, rpo):
    """topological order of the acyclic (back-edge free) graph in which all blocks of a loop precede the
    blocks after it"""
    idx = {b: i for i, b in enumerate(rpo)}
    # edges without back edges
    succ = {}
    indeg = {b: 0 for b in rpo}
    for b in rpo:
        ss = []
        for s in f.blocks[b].succ:
            if s in f.loops and b in f.loops[s].latches:
                continue
            ss.append(s)
        succ[b] = ss
    # add artificial edges latch -> loop exit targets
    for L in f.loops.values():
        exits = set()
        for b in L.body:
            for s in f.blocks[b].succ:
                if s not in L.body:
                    exits.add(s)
        for x in exits:
            for l in L.body:
                if x not in succ[l]:
                    succ[l].append(x)
    for b in rpo:
        for s in succ[b]:
            indeg[s] += 1
    heap = [(idx[b], b) for b in rpo if indeg[b] == 0]
    heapq.heapify(heap)
    out = {}
    while heap:
        _, b = heapq.heappop(heap)
        out[b] = len(out)
        for s in succ[b]:
            indeg[s] -= 1
            if indeg[s] == 0:
                heapq.heappush(heap, (idx[s], s))
    if len(out) != len(rpo):
        return idx
    return out
