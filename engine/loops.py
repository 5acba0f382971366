"""Loops: complete unrolling when the trip count is a constant of the code, otherwise induction.

Induction uses a ghost iteration counter `it`; phis that advance by a constant are V0+step*it, the others
(and every memory leaf the body may change) are arbitrary functions of `it` constrained only by invariants
that are proved (base case and every back edge) before they are assumed.  The history fact
"forall j<it: iteration j left through one of the back edges" is the transition relation itself and needs no
guess: it holds by construction.
"""
import re
import terms as tm
from terms import *
from mem import Base, Store, Fill, read
import solve
from solve import Forall, forall
from ir import Unsupported

UNROLL = 20
HMAX = 90


def do_loop(eng, f, L, pred, env, st):
    env0 = eng.phis(f, L.header, pred, env)
    n = trip_count(eng, f, L, env0)
    if n is not None and n <= eng.unroll_max:
        return unroll(eng, f, L, env0, st, n)
    return Inductive(eng, f, L, env0, st).go()


# ------------------------------------------------------------------ unrolling
def defs_of(f):
    d = getattr(f, 'defs', None)
    if d is None:
        d = {}
        for b in f.order:
            blk = f.blocks[b]
            for i in list(blk.phis) + list(blk.insts):
                if i.dst is not None:
                    d[i.dst] = i
        f.defs = d
    return d


def strip(d, v):
    """look through width changes: -> (name or None)"""
    while v[0] == 'l':
        i = d.get(v[1])
        if i is not None and i.op in ('zext', 'sext', 'trunc'):
            v = i.a[0]
            continue
        return v
    return v


def phi_step(f, L, p, d):
    """constant step of a header phi, or None"""
    step = None
    for v, bl in p.a:
        if bl not in L.body:
            continue
        if v[0] != 'l':
            return None
        i = d.get(v[1])
        if i is None or i.op not in ('add', 'sub'):
            return None
        a, b = i.a
        if a[0] == 'l' and a[1] == p.dst and b[0] == 'c':
            s = b[1]
        elif i.op == 'add' and b[0] == 'l' and b[1] == p.dst and a[0] == 'c':
            s = a[1]
        else:
            return None
        if i.op == 'sub':
            s = -s
        if step is not None and step != s:
            return None
        step = s
    return step


def trip_count(eng, f, L, env0):
    d = defs_of(f)
    best = None
    for p in f.blocks[L.header].phis:
        if p.ty.k != 'i':
            continue
        v0 = env0[p.dst]
        if not is_c(v0):
            continue
        s = phi_step(f, L, p, d)
        if not s:
            continue
        for b in L.body:
            br = f.blocks[b].insts[-1]
            if br.op != 'br' or not br.a:
                continue
            if all(t in L.body for t in br.x):
                continue
            if b != L.header and b not in L.latches:
                continue
            c = br.a[0]
            if c[0] != 'l':
                continue
            ic = d.get(c[1])
            if ic is None or ic.op != 'icmp':
                continue
            x, y = ic.a
            px, py = strip(d, x), strip(d, y)
            if not (px[0] == 'l' and px[1] == p.dst and y[0] in ('c', 'l')):
                continue
            if y[0] == 'l':
                yy = env0.get(y[1])
                if yy is None or not is_c(yy) or y[1] in {i.dst for bb in L.body for i in f.blocks[bb].insts}:
                    continue
                lim = yy
            else:
                lim = const(y[1], x[2].n if x[2].k == 'i' else 64)
            # simulate
            cur = v0
            w = cur.w
            stay_true = br.x[0] in L.body
            from exec import ICMP
            k = 0
            while k <= 70:
                cv = cur
                if lim.w > w:
                    i2 = d.get(x[1])
                    cv = (sext if i2 is not None and i2.op == 'sext' else zext)(cur, lim.w)
                elif lim.w < w:
                    cv = trunc(cur, lim.w)
                if (ICMP[ic.x](cv, lim) is TRUE) != stay_true:
                    break
                cur = add(cur, const(s, w))
                k += 1
            else:
                continue
            if best is None or k < best:
                best = k
    return best


def unroll(eng, f, L, env0, st, n):
    outs = []
    cur = [(L.header, None, env0, st)]
    for k in range(n + 3):
        res = eng.explore(f, cur, L)
        cur = []
        for kind, s, x in res:
            if kind == 'back':
                p, e = x
                cur.append((L.header, p, eng.phis(f, L.header, p, e), s))
            elif kind == 'exit':
                outs.append(('goto', s, x))
            else:
                outs.append((kind, s, x))
        if not cur:
            return outs
    raise Unsupported('loop in %s did not terminate after %d unrollings' % (f.name, n))


# ------------------------------------------------------------------ induction
class LoopCtx:
    """what a loop specification sees"""

    def __init__(self, ind):
        self.eng, self.f, self.L = ind.eng, ind.f, ind.L
        self.entry = ind.env0
        self.S0 = ind.S0
        self.st = ind.st
        self.phis = [p.dst for p in ind.phis]
        self.kind = ind.kind
        self.mod = ind.mod
        self.ind = ind


class Cand:
    __slots__ = ('name', 'f', 'need')

    def __init__(self, name, f, need=False):
        self.name, self.f, self.need = name, f, need


class Inductive:
    def __init__(self, eng, f, L, env0, st):
        self.eng, self.f, self.L, self.env0, self.st = eng, f, L, env0, st
        self.phis = list(f.blocks[L.header].phis)
        from exec import View
        self.S0 = View(eng, dict(st.mem), st)
        self.kind = {p.dst: ('sym',) for p in self.phis}
        self.mod = {}
        self.B = 31
        self.nid = tm.freshname('L')
        self.bases = {}
        self.loud = False

    # ---- header state
    def head(self, active, hist=()):
        eng = self.eng
        self.ctr0 = next(tm._fresh)
        if not hasattr(self, 'itv') or self.itv.w != self.B:
            self.itv = tm.fresh('it', self.B)
            self.phiname = {p.dst: tm.freshname('phi.' + p.dst) for p in self.phis}
            self.bases = {}
        self.it64 = zext(self.itv, 64)
        env = dict(self.env0)
        for p in self.phis:
            env[p.dst] = self.phival(p.dst, self.itv)
        s = self.st.copy()
        for key, comps in self.mod.items():
            old = eng.ver(s.mem, key)
            kk = (key, None if comps is None else tuple(comps))
            b = self.bases.get(kk)
            if b is None:
                nm = tm.freshname(key + '@L')
                b = Base(nm, eng.leafw[key], lambda *idx, nm=nm, w=eng.leafw[key]: app(nm, w, *idx, self.itv))
                self.bases[kk] = b
            if comps is None:
                s.mem[key] = b
            else:
                def sl(*idx, comps=comps):
                    r = TRUE
                    for a, c in zip(idx, comps):
                        if c is not None:
                            r = band(r, eq(a, c))
                    return r
                s.mem[key] = Fill(old, sl, lambda idx, o, b=b: b.rd(idx))
                s.mem[key].comps = tuple(comps)
        from exec import View
        S = View(eng, dict(s.mem), s)
        for c in active:
            s.assume(c.f(self.phienv(env), S, self.it64))
        for h in hist:
            s.assume(h)
        s.hint('it' + self.nid, *self.itpoints())
        if self.loud:
            s.ev = s.ev + (('?loop', self.f.name),)
        return env, s

    def itpoints(self):
        pts = [const(0, self.B), sub(self.itv, const(1, self.B))]
        return pts

    def phienv(self, env):
        return {p.dst: env[p.dst] for p in self.phis}

    def phival(self, d, itv):
        k = self.kind[d]
        v0 = self.env0[d]
        if k[0] == 'same':
            return v0
        if k[0] == 'aff':
            w = v0.w
            t = zext(itv, w) if w >= itv.w else trunc(itv, w)
            return add(v0, scale(t, k[1]))
        if v0.w == 64:
            self.eng.phiorg[self.phiname[d]] = v0
        return app(self.phiname[d], v0.w, itv)

    # ---- exploration
    def body(self, active, hist=(), dry=True):
        eng = self.eng
        env, s = self.head(active, hist)
        self.hst = s
        self.henv = env
        if dry:
            eng.dry += 1
        try:
            outs = eng.explore(self.f, [(self.L.header, None, env, s)], self.L)
        finally:
            if dry:
                eng.dry -= 1
        return outs

    def go(self):
        eng = self.eng
        for B, prove in ((31, True), (48, False)):
            self.B = B
            try:
                return self.attempt(prove)
            except ItOverflow:
                self.kind = {p.dst: ('sym',) for p in self.phis}
                self.mod = {}
                continue
        raise Unsupported('loop')

    def attempt(self, prove_bound):
        eng = self.eng
        # --- A: fixpoint of modified leaves and phi kinds
        first = True
        for _ in range(14):
            eng.shallow += 1
            try:
                outs = self.body([])
            finally:
                eng.shallow -= 1
            backs = [(s, x) for k, s, x in outs if k == 'back']
            ch = False
            for p in self.phis:
                d = p.dst
                cur = self.henv[d]
                ks = set()
                for s, (pr, e) in backs:
                    b = eng.phis(self.f, self.L.header, pr, e)[d]
                    df = sub(b, cur) if b.w else None
                    if b is cur:
                        ks.add(0)
                    elif df is not None and is_c(df):
                        ks.add(sval(df))
                    else:
                        ks.add(None)
                k = self.kind[d]
                if len(ks) == 1 and None not in ks:
                    s = ks.pop()
                    nk = ('same',) if s == 0 else ('aff', s)
                elif not ks:
                    nk = ('same',)
                else:
                    nk = ('sym',)
                if first:
                    if nk != k:
                        self.kind[d] = nk
                        ch = True
                elif nk != k and k[0] != 'sym':
                    # after the first pass: only downgrades, unless nothing else is known
                    self.kind[d] = ('sym',)
                    ch = True
                elif k[0] == 'sym' and nk[0] != 'sym' and _ < 3:
                    self.kind[d] = nk
                    ch = True
            for s, x in backs:
                ch |= self.collect_mods(self.hst.mem, s.mem)
                if s.ev != self.hst.ev and not self.loud:
                    self.loud = ch = True
                if s.locks != self.st.locks:
                    eng.oblige(s, 'lock state is the same at every loop iteration', FALSE, tags=('P22',))
                    if not eng.dry:
                        pass
                    raise Unsupported('lock state changes across loop iterations in ' + self.f.name)
            first = False
            if not ch:
                break
        else:
            raise Unsupported('loop analysis did not converge in ' + self.f.name)
        if eng.shallow:
            res = []
            for k, s, x in outs:
                if k == 'exit':
                    res.append(('goto', s, x))
                elif k != 'back':
                    res.append((k, s, x))
            return res
        # --- B/C: candidate invariants
        cands = self.candidates()
        wkey = (self.f.name, self.L.header)
        outer_warm = eng.warm
        if outer_warm is not None and wkey in outer_warm[0]:
            cands = [c for c in cands if c.name in outer_warm[0][wkey]]
        kn = self.known_names()
        if kn is not None:
            cands = [c for c in cands if c.name in kn]
        active = self.base(cands)
        rounds = 0
        mywarm = {}
        while True:
            eng.warm = (mywarm, {})
            try:
                outs = self.body(active)
            finally:
                mywarm = eng.warm[1]
                eng.warm = outer_warm
            backs = [(s, x) for k, s, x in outs if k == 'back']
            if prove_bound:
                mx = const((1 << self.B) - 1, self.B)
                for s, x in backs:
                    if not eng.must(s, ne(self.itv, mx)):
                        raise ItOverflow()
            drop = set()
            for s, (pr, e) in backs:
                be = eng.phis(self.f, self.L.header, pr, e)
                from exec import View
                S = View(eng, s.mem, s)
                it1 = add(self.it64, const(1, 64))
                todo = [(c, c.f(self.phienv(be), S, it1)) for c in active if c not in drop]
                drop |= self.failing(s, todo)
            if not drop:
                break
            active = [c for c in active if c not in drop]
            rounds += 1
            if rounds > 12:
                raise Unsupported('invariant inference did not converge')
        if outer_warm is not None:
            outer_warm[1].setdefault(wkey, set()).update(c.name for c in active)
        self.save_names(active)
        # --- D: history
        hist = self.history(backs)
        self.report = [c.name for c in active]
        eng.loop_report.append((eng.curfn, self.f.name, self.L.header, [c.name for c in active],
                                {k: v for k, v in self.kind.items()}, list(self.mod)))
        eng.warm = (mywarm, {})
        try:
            outs = self.body(active, hist, dry=bool(eng.dry))
        finally:
            eng.warm = outer_warm
        res = []
        for k, s, x in outs:
            if k == 'back':
                continue
            if k == 'exit':
                res.append(('goto', s, x))
            else:
                res.append((k, s, x))
        return res

    def holds(self, s, g):
        eng = self.eng
        gs = g if isinstance(g, (list, tuple)) else [g]
        for t in gs:
            goal, h, sk = eng.skolem(t)
            if goal is TRUE:
                continue
            if goal is FALSE and not s.pc:
                return False
            ng = bnot(goal)
            q = eng.ground_query(s, [ng], h)
            if solve.check_sat(q + [ng], timeout=20000, name='invariant').st != 'unsat':
                return False
        return True

    def failing(self, s, todo):
        """candidates not implied by the state (all checked together; a model drops several at once)"""
        eng = self.eng
        items = []
        bad = set()
        H = {}
        for c, g in todo:
            for t in (g if isinstance(g, (list, tuple)) else [g]):
                if isinstance(t, Forall):
                    if c not in bad and not any(t is x for x in s.facts) and not self.holds(s, t):
                        bad.add(c)
                    continue
                goal, h, sk = eng.skolem(t)
                if goal is TRUE:
                    continue
                items.append((c, goal))
                for k, v in h.items():
                    H.setdefault(k, []).extend(v)
        while True:
            items = [(c, g) for c, g in items if c not in bad]
            if not items:
                return bad
            if len(items) == 1:
                ng = bnot(items[0][1])
            else:
                ng = bnot(band(*[g for c, g in items]))
            q = eng.ground_query(s, [ng], H)
            r = solve.check_sat(q + [ng], timeout=6000 if len(items) == 1 else 8000, name='invariant', want_model=True)
            if r.st == 'unsat':
                return bad
            if r.st == 'sat' and r.model is not None:
                import z3
                nb = set()
                for c, g in items:
                    try:
                        if not z3.is_true(r.model.eval(r.tr.tr(g), model_completion=True)):
                            nb.add(c)
                    except Exception:
                        pass
                if nb:
                    bad |= nb
                    continue
            if len(items) == 1:
                bad.add(items[0][0])
                return bad
            for c, g in items:
                if c not in bad and not self.holds(s, g):
                    bad.add(c)
            return bad

    def base(self, cands):
        from exec import View
        S = View(self.eng, self.st.mem, self.st)
        todo = []
        for c in cands:
            try:
                todo.append((c, c.f(self.phienv(self.env0), S, const(0, 64))))
            except NotApplicable:
                continue
        bad = self.failing(self.st, todo)
        return [c for c, g in todo if c not in bad]

    def save_names(self, active):
        k = (self.eng.cfg, self.eng.curfn, self.f.name, self.L.header)
        self.eng.inv_out.setdefault(k, set()).update(c.name for c in active)

    def known_names(self):
        r = self.eng.inv_in.get((self.eng.cfg, self.eng.curfn, self.f.name, self.L.header))
        if r is not None:
            self.eng.used_warm = True
        return r

    # ---- modified leaves
    def collect_mods(self, m0, m1):
        ch = False
        for key in m0.keys() | m1.keys():
            a = self.eng.ver(m0, key)
            v = self.eng.ver(m1, key)
            if a is v:
                continue
            idxs = []
            full = False
            while v is not a:
                if isinstance(v, Store):
                    idxs.append(v.idx)
                elif isinstance(v, Fill):
                    full = True
                    fc = fill_comps(v)
                    if fc is not None:
                        idxs.append(fc)
                        full = False
                else:
                    full = True
                    break
                if full:
                    break
                v = v.prev
            comps = None
            if not full and idxs and not key.startswith('PM.'):
                comps = []
                for i in range(len(idxs[0])):
                    c = idxs[0][i]
                    if c is None or any(x[i] is not c for x in idxs) or self.varies(c):
                        c = None
                    comps.append(c)
                if all(c is None for c in comps) and comps:
                    comps = None
            old = self.mod.get(key, 0)
            if old == 0:
                self.mod[key] = comps
                ch = True
            elif old is not None:
                if comps is None:
                    new = None
                else:
                    new = [a_ if a_ is b_ else None for a_, b_ in zip(old, comps)]
                    if all(c is None for c in new) and new:
                        new = None
                if new != old:
                    self.mod[key] = new
                    ch = True
        return ch

    def varies(self, t):
        for x in atoms([t]):
            if x is self.itv:
                return True
            if x.op in 'vf' and self.is_fresh(x.p):
                return True
            if x.op == 'f' and x.p in self.phiname.values():
                return True
        return False

    def is_fresh(self, name):
        i = name.rfind('!')
        if i < 0:
            return False
        j = i + 1
        while j < len(name) and name[j].isdigit():
            j += 1
        return j > i + 1 and int(name[i + 1:j]) > self.ctr0

    # ---- candidate invariants
    def frame_cands(self):
        """what the contract says may not change has not changed so far"""
        eng = self.eng
        c = eng.cur_c
        out = []
        if c is None:
            return out
        from verify import slice_fn, frame_sort, leaf_arity
        mods = {}
        try:
            for oc in c.outcomes(eng, eng.cur_S0, eng.cur_a):
                if not oc.abort:
                    for key, sl in c.modifies(eng, eng.cur_S0, eng.cur_a, oc):
                        mods.setdefault(key, []).append(sl)
        except Exception:
            return out
        for key in self.mod:
            if key.startswith('alloca!') or key.startswith('PM.local') or key == '@errno':
                continue
            sls = mods.get(key, [])
            if any(x is None for x in sls):
                continue
            n = leaf_arity(eng)(key)
            if n == 0:
                continue
            srt = [frame_sort(key, i) for i in range(n)]

            def g(ph, S, it, key=key, sls=sls, srt=srt, n=n):
                def body(*ix):
                    v1, v0 = S.leaf(key, *ix), eng.cur_S0.leaf(key, *ix)
                    return bor(*([slice_fn(x)(*ix) for x in sls] + [eq(v1, v0) if v1.w else iff(v1, v0)]))
                return forall('fr', [(x, 64) for x in srt], body, [[(solve.base_name(key), tuple(range(n)))], [('#', x) for x in srt]])
            out.append(Cand('footprint of %s' % key, g))
        return out

    def candidates(self):
        eng, f, L = self.eng, self.f, self.L
        out = self.frame_cands()
        d = defs_of(f)
        ivar = {i.dst for b in L.body for i in list(f.blocks[b].phis) + list(f.blocks[b].insts) if i.dst is not None}

        def lim(v, w):
            if v[0] == 'c':
                return const(v[1], w)
            if v[0] == 'l' and v[1] not in ivar:
                t = self.env0.get(v[1])
                return t
            return None
        cmps = []
        pd = {p.dst: p for p in self.phis}
        for b in L.body:
            for i in f.blocks[b].insts:
                if i.op != 'icmp':
                    continue
                for x, y in ((i.a[0], i.a[1]), (i.a[1], i.a[0])):
                    px = strip(d, x)
                    if px[0] == 'l' and px[1] in pd and x[2].k == 'i':
                        t = lim(y, x[2].n)
                        if t is not None:
                            sx = x is not px and d.get(x[1]) is not None and d[x[1]].op == 'sext'
                            cmps.append((px[1], t, sx))
        # every limit the loop compares against, for every integer phi
        lims = []
        for b in L.body:
            for i in f.blocks[b].insts:
                if i.op == 'icmp' and i.a[0][2].k == 'i':
                    for y in i.a:
                        t = lim(y, i.a[0][2].n)
                        if t is not None and t.w and t not in lims:
                            lims.append(t)
        for p in self.phis:
            if p.ty.k == 'i' and self.env0[p.dst].w > 1:
                for t in lims:
                    if not is_c(t) or t.p < (1 << min(62, self.env0[p.dst].w)):
                        cmps.append((p.dst, t, False))
        seen = set()
        for n, t, sx in cmps:
            for off in (0, 1, -1):
                key = (n, t, off)
                if key in seen:
                    continue
                seen.add(key)

                def mk(n=n, t=t, off=off):
                    def g(ph, S, it, strict=False):
                        v = ph[n]
                        tt = t
                        w = max(v.w, tt.w)
                        v, tt = zext(v, w), zext(tt, w)
                        return ule(v, add(tt, const(off, w)))
                    return g
                out.append(Cand('%s <= %s%+d' % (n, show(t, 2), off), mk()))
                if off == 0:
                    def mk2(n=n, t=t):
                        def g(ph, S, it):
                            v, tt = ph[n], t
                            w = max(v.w, tt.w)
                            return bor(eq(it, const(0, 64)), ule(zext(v, w), zext(tt, w)))
                        return g
                    out.append(Cand('it=0 or %s <= %s' % (n, show(t, 2)), mk2()))
        for p in self.phis:
            n = p.dst
            v0 = self.env0[n]
            if v0.w == 0 or p.ty.k != 'i' or self.kind[n][0] == 'same':
                continue
            if self.kind[n][0] == 'aff':
                if self.kind[n][1] < 0:
                    out.append(Cand('%s <= init' % n, lambda ph, S, it, n=n, v0=v0: ule(ph[n], v0)))
                    out.append(Cand('it + %s = init' % n, lambda ph, S, it, n=n, v0=v0: ule(scale(it, -self.kind[n][1]), zext(v0, 64)) if v0.w <= 64 else TRUE))
                else:
                    out.append(Cand('%s >= init' % n, lambda ph, S, it, n=n, v0=v0: uge(ph[n], v0)))
                continue
            out.append(Cand('%s >= init' % n, lambda ph, S, it, n=n, v0=v0: uge(ph[n], v0)))
            out.append(Cand('%s <= init' % n, lambda ph, S, it, n=n, v0=v0: ule(ph[n], v0)))
            out.append(Cand('%s <= init+it' % n, lambda ph, S, it, n=n, v0=v0: ule(zext(ph[n], 64), add(zext(v0, 64), it)) if v0.w <= 64 else TRUE))
            for k in (1, 3, 7, 31):
                out.append(Cand('%s aligned %d' % (n, k + 1), lambda ph, S, it, n=n, k=k: eq(and_(ph[n], const(k, ph[n].w)), const(0, ph[n].w))))
            for q in self.phis:
                m = q.dst
                if m != n and q.ty.k == 'i' and self.kind[m][0] == 'aff':
                    out.append(Cand('%s <= %s' % (n, m), lambda ph, S, it, n=n, m=m: ule(zext(ph[n], 64), zext(ph[m], 64)) if max(ph[n].w, ph[m].w) <= 64 else TRUE))
        if eng.loop_specs is not None:
            ctx = LoopCtx(self)
            out += eng.loop_specs(ctx) or []
        nm = {}
        for c in out:
            k = nm[c.name] = nm.get(c.name, 0) + 1
            if k > 1:
                c.name += ' #%d' % k
        return out

    # ---- history
    def history(self, backs):
        eng = self.eng
        if not backs or len(backs) > 10 or not eng.use_history:
            return []
        n0 = len(self.hst.pc)
        nf = len(self.hst.facts)
        alts = []
        nested = []
        for s, (pr, e) in backs:
            conj = [c for c in s.pc if not any(c is x for x in self.hst.pc)]
            if len(conj) > HMAX:
                conj = conj[:HMAX]
            be = eng.phis(self.f, self.L.header, pr, e)
            for p in self.phis:
                if self.kind[p.dst][0] == 'sym':
                    nx = app(self.phiname[p.dst], be[p.dst].w, add(self.itv, const(1, self.B)))
                    conj.append(eq(nx, be[p.dst]))
            conj = [self.skol(c) for c in conj]
            alts.append(band(*conj))
            for fc in s.facts[nf:]:
                if fc.name.startswith('H:'):
                    nested.append((band(*conj), Forall(fc.name, fc.vars, self.skol(fc.body), fc.pats)))
        h = bor(*alts)
        if h is TRUE and not nested:
            return []
        jv = var('it%s?%d' % (self.nid, next(tm._fresh)), self.B)
        out = []
        body = imp(ult(jv, self.itv), subst(h, {self.itv: jv}))
        pats = self.patterns(body, jv, 0)
        out.append(Forall('H:' + self.f.name, [jv], body, [[('#', 'it' + self.nid)]] + pats))
        for g, fc in nested:
            j2 = var('it%s?%d' % (self.nid, next(tm._fresh)), self.B)
            body = subst(imp(band(ult(self.itv, self.itv), g), fc.body), {})
            body = imp(ult(j2, self.itv), subst(imp(g, fc.body), {self.itv: j2}))
            vs = list(fc.vars) + [j2]
            # patterns: solve outer index and inner index from leaf reads is left to hint points
            alts2 = []
            inner = [a for a in fc.pats]
            for a in inner:
                for o in [[('#', 'it' + self.nid, len(vs) - 1)]] + self.patterns(body, j2, len(vs) - 1):
                    al = [fix_pat(p, a, fc) for p in a]
                    alts2.append(al + o)
            out.append(Forall('H:' + self.f.name, vs, body, alts2))
        return out

    def skol(self, t):
        """terms created inside the body become functions of `it`"""
        memo = {}
        st = [t]
        while st:
            x = st[-1]
            if x in memo:
                st.pop()
                continue
            if not x.args:
                st.pop()
                if x.op in 'vf' and self.is_fresh(x.p) and x is not self.itv and '?' not in x.p:
                    memo[x] = app(x.p, x.w, self.itv)
                else:
                    memo[x] = x
                continue
            need = [a for a in x.args if a not in memo]
            if need:
                st.extend(need)
                continue
            st.pop()
            na = [memo[a] for a in x.args]
            if x.op == 'f' and self.is_fresh(x.p) and self.itv not in x.args:
                memo[x] = app(x.p, x.w, *na, self.itv)
            elif all(a is b for a, b in zip(na, x.args)):
                memo[x] = x
            else:
                memo[x] = tm.rebuild(x, na)
        return memo[t]

    def patterns(self, body, jv, vi):
        """instantiate j from reads of the leaves the body mentions, inverting the affine index"""
        pats = []
        seen = set()
        for x in atoms([body]):
            if x.op != 'f' or not x.args:
                continue
            bn = solve.base_name(x.p)
            for ai, a in enumerate(x.args):
                if a is jv or a.w != 64:
                    continue
                c, dct = lin_of(a)
                hit = None
                for at, k in dct.items():
                    if at is jv or (at.op == 'zext' and at.args[0] is jv):
                        hit = (at, k)
                if hit is None:
                    continue
                rest = sub(a, scale(hit[0], hit[1]))
                if any(y is jv for y in atoms([rest])):
                    continue
                key = (bn, ai, rest, hit[1])
                if key in seen:
                    continue
                seen.add(key)
                pats.append([('inv', bn, ai, vi, inverter(rest, hit[1], jv.w))])
        return pats


def fix_pat(p, alt, fc):
    if p[0] == '#' and len(p) == 2:
        vi = alt.index(p) if alt.count(p) == 1 else 0
        return ('#', p[1], vi)
    return p


def inverter(rest, k, w):
    sk = k - (1 << 64) if k >> 63 else k

    def inv(t):
        if t.w != 64:
            return None
        d = sub(t, rest)
        if sk < 0:
            d = tm.neg(d)
        m = abs(sk)
        if m == 1:
            return trunc(d, w)
        c, dc = lin_of(d)
        if c % m == 0 and all((q if q < (1 << 63) else q - (1 << 64)) % m == 0 for q in dc.values()):
            cs = c if c < (1 << 63) else c - (1 << 64)
            r = const(cs // m, 64)
            for at, q in dc.items():
                q = q if q < (1 << 63) else q - (1 << 64)
                r = add(r, scale(at, q // m))
            return trunc(r, w)
        if m & (m - 1) == 0:
            return trunc(lshr(d, const(m.bit_length() - 1, 64)), w)
        return None
    return inv


def fill_comps(v):
    """index components pinned by a Fill's condition, when it is a conjunction with equalities"""
    cn = getattr(v, 'comps', None)
    return cn


class NotApplicable(Exception):
    pass


class ItOverflow(Exception):
    pass
