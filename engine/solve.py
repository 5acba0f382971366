"""Ground queries: quantified facts are instantiated by us, z3 (or cvc5) decides QF_UFBV."""
import time
import z3
import terms as tm
from terms import *

STATS = {'queries': 0, 'time': 0.0, 'max': 0.0, 'maxname': '', 'syntactic': 0, 'cvc5': 0, 'cvc5_disagree': 0}
TIMEOUT = 20000


class Forall:
    """forall v1..vn. body(v1..vn).  `pats` is a list of alternatives; each alternative lists patterns
    (ufname, (argpos or None...)) whose applications in the query give candidate bindings; a pattern may
    also be ('#', sort) meaning "every hint term of that sort"."""
    __slots__ = ('name', 'vars', 'body', 'pats', 'guard')

    def __init__(self, name, vars, body, pats):
        self.name, self.vars, self.body, self.pats = name, vars, body, pats

    def inst(self, args):
        return subst(self.body, dict(zip(self.vars, args)))


_fa = [0]


def forall(name, sorts, f, pats=None):
    """sorts: list of (sortname, width); f: python function over terms"""
    vs = []
    for s, w in sorts:
        _fa[0] += 1
        vs.append(var('%s?%d' % (s, _fa[0]), w))
    body = f(*vs)
    if isinstance(body, (list, tuple)):
        body = band(*body)
    if pats is None:
        pats = [[('#', s) for s, w in sorts]]
    return Forall(name, vs, body, pats)


# ------------------------------------------------------------------ z3 translation
class Z3T:
    def __init__(self):
        self.memo = {}
        self.ufs = {}
        self.side = []          # lemma terms discovered in translation
        self.muls = {}          # (x,y)->node

    def uf(self, name, argw, w):
        k = (name, argw, w)
        f = self.ufs.get(k)
        if f is None:
            so = [z3.BitVecSort(a) if a else z3.BoolSort() for a in argw] + [z3.BitVecSort(w) if w else z3.BoolSort()]
            f = z3.Function(name, *so)
            self.ufs[k] = f
        return f

    def tr(self, t):
        memo = self.memo
        st = [t]
        while st:
            x = st[-1]
            if x in memo:
                st.pop()
                continue
            need = [a for a in x.args if a not in memo]
            if need:
                st.extend(need)
                continue
            st.pop()
            memo[x] = self.one(x)
        return memo[t]

    def one(self, x):
        op = x.op
        w = x.w
        m = self.memo
        a = [m[q] for q in x.args]
        if op == 'c':
            return z3.BitVecVal(x.p, w)
        if op == 'bc':
            return z3.BoolVal(x.p)
        if op == 'v':
            return z3.BitVec(x.p, w) if w else z3.Bool(x.p)
        if op == 'f':
            if not a:
                return z3.BitVec(x.p, w) if w else z3.Bool(x.p)
            return self.uf(x.p, tuple(q.w for q in x.args), w)(*a)
        if op == 'lin':
            c, cs = x.p
            r = None
            for k, q in zip(cs, a):
                if k >> (w - 1):
                    kk = (1 << w) - k
                    e = q if kk == 1 else self.cmul(q, kk, w)
                    r = -e if r is None else r - e
                else:
                    e = q if k == 1 else self.cmul(q, k, w)
                    r = e if r is None else r + e
            if c:
                r = r + z3.BitVecVal(c, w)
            return r
        if op == 'mul':
            if tinymul(x):
                n = 18
                if w <= n:
                    return a[0] * a[1]
                return z3.ZeroExt(w - n, z3.Extract(n - 1, 0, a[0]) * z3.Extract(n - 1, 0, a[1]))
            return self.uf('MUL%d' % w, (w, w), w)(*a)
        if op == 'udiv':
            if is_c(x.args[1]) and x.args[1].p < 0:
                pass
            return self.uf('DIV%d' % w, (w, w), w)(*a)
        if op == 'urem':
            return self.uf('REM%d' % w, (w, w), w)(*a)
        if op == 'sdiv':
            return a[0] / a[1]
        if op == 'srem':
            return z3.SRem(a[0], a[1])
        if op == 'and':
            r = a[0]
            for q in a[1:]:
                r = r & q
            return r
        if op == 'or':
            r = a[0]
            for q in a[1:]:
                r = r | q
            return r
        if op == 'xor':
            r = a[0]
            for q in a[1:]:
                r = r ^ q
            if x.p:
                r = r ^ z3.BitVecVal(x.p, w)
            return r
        if op == 'shl':
            return a[0] << a[1]
        if op == 'lshr':
            return z3.LShR(a[0], a[1])
        if op == 'ashr':
            return a[0] >> a[1]
        if op == 'zext':
            return z3.ZeroExt(w - x.args[0].w, a[0])
        if op == 'sext':
            return z3.SignExt(w - x.args[0].w, a[0])
        if op == 'ext':
            return z3.Extract(x.p[0], x.p[1], a[0])
        if op == 'concat':
            return z3.Concat(*a)
        if op == 'ite':
            return z3.If(a[0], a[1], a[2])
        if op == 'eq':
            return a[0] == a[1]
        if op == 'ult':
            return z3.ULT(a[0], a[1])
        if op == 'slt':
            return a[0] < a[1]
        if op == 'not':
            return z3.Not(a[0])
        if op == 'band':
            return z3.And(*a)
        if op == 'bor':
            return z3.Or(*a)
        raise Exception('z3 op ' + op)

    def cmul(self, q, k, w):
        # multiplication by a constant as few shifts/adds
        n = bin(k).count('1')
        if n <= 3:
            r = None
            i = 0
            while k:
                if k & 1:
                    e = q if i == 0 else q << i
                    r = e if r is None else r + e
                k >>= 1
                i += 1
            return r
        return q * z3.BitVecVal(k, w)


def tinymul(x):
    return ub(x.args[0]) * ub(x.args[1]) < (1 << 18)


# ------------------------------------------------------------------ nonlinear lemmas
def C64(x):
    return const(x, 64)


def nl_lemmas(ts, done):
    """lemma instances for every symbolic product / quotient occurring in ts (see terms.py: these are
    uninterpreted for the solver, so a proof never depends on bit-blasting them)"""
    out = []
    muls = []
    sums = []
    for x in atoms(ts):
        if x.op == 'mul' and x.w == 64 and not tinymul(x):
            muls.append(x)
        elif x.op == 'lin' and x.w == 64:
            ms = [(a, k) for a, k in zip(x.args, x.p[1]) if a.op == 'mul' and not tinymul(a) and k < (1 << 20)]
            if len(ms) > 1:
                sums.append(ms)
        elif x.op in ('udiv', 'urem'):
            key = ('dv', x.args, x.w)
            if key in done:
                continue
            done.add(key)
            a, b = x.args
            w = x.w
            q = tm._mk('udiv', None, (a, b), w)
            r = tm._mk('urem', None, (a, b), w)
            nz = ne(b, const(0, w))
            if w <= 64:
                a6, b6, q6, r6 = [zext(v, 64) for v in (a, b, q, r)]
                out.append(imp(nz, eq(a6, add(mul(q6, b6), r6))))
                out.append(imp(nz, ult(r, b)))
                out.append(imp(nz, ule(q, a)))
                out.append(imp(nz, ule(r, a)))
                # q*b does not overflow: q*b <= a
                out.append(imp(nz, ule(mul(q6, b6), a6)))
                out.append(imp(band(nz, ult(a, b)), eq(q, const(0, w))))
                out.append(imp(band(nz, uge(a, b)), uge(q, const(1, w))))
                # bounds of a quotient by a divisor >= 32
                out.append(imp(uge(b, const(32, w)), ule(q, lshr(a, const(5, w)))))
    # group by common factor
    by = {}
    for m in muls:
        x, y = m.args
        for f, o in ((x, y), (y, x)):
            by.setdefault(f, []).append((o, m))
        if ('m', m) not in done:
            done.add(('m', m))
            z = C64(0)
            out.append(imp(eq(x, z), eq(m, z)))
            out.append(imp(eq(y, z), eq(m, z)))
            out.append(imp(eq(x, C64(1)), eq(m, y)))
            out.append(imp(eq(y, C64(1)), eq(m, x)))
            sm = _small(x, y)
            out.append(imp(band(sm, ne(y, z)), uge(m, x)))
            out.append(imp(band(sm, ne(x, z)), uge(m, y)))
            for f in (x, y):
                out.append(imp(eq(and_(f, C64(31)), z), eq(and_(m, C64(31)), z)))
                out.append(imp(eq(and_(f, C64(7)), z), eq(and_(m, C64(7)), z)))
            out.append(imp(sm, ult(m, C64(1 << 60))))
            for f, o in ((x, y), (y, x)):
                if p2ish(f):
                    for lg in range(4, 11):
                        out.append(imp(eq(f, C64(1 << lg)), eq(m, tm.shl(o, C64(lg)))))
            for f, o in ((x, y), (y, x)):
                out.append(imp(band(sm, ule(f, C64(65536))), ule(m, scale(o, 65536))))
                out.append(imp(band(sm, uge(f, C64(32))), uge(m, scale(o, 32))))
    # a sum of products with a common factor is itself a product
    for ms in sums:
        for f in {y for a, k in ms for y in a.args}:
            o = m = C64(0)
            g = TRUE
            n = 0
            for a, k in ms:
                if f in a.args:
                    n += 1
                    oa = a.args[1] if a.args[0] is f else a.args[0]
                    o = add(o, scale(oa, k))
                    m = add(m, scale(a, k))
                    g = band(g, TRUE if ub(oa) < (1 << 32) else ult(oa, C64(1 << 32)))
            if n > 1 and g is TRUE and f in by:
                by[f].append((o, m))
    for f, l in by.items():
        seen = {}
        for o, m in l:
            seen[m] = o
        l = list(seen.items())
        for i in range(len(l)):
            for j in range(len(l)):
                if i == j:
                    continue
                (m1, o1), (m2, o2) = l[i], l[j]
                key = ('mm', f, m1, m2)
                if key in done:
                    continue
                done.add(key)
                g = band(_small(o1, f), _small(o2, f))
                out.append(imp(band(g, ult(o1, o2)), ule(add(m1, f), m2)))
                out.append(imp(band(g, ult(o1, o2), ne(add(o1, C64(1)), o2)), ule(add(m1, add(f, f)), m2)))
                if i < j:
                    out.append(imp(eq(o1, o2), eq(m1, m2)))
    return [t for t in out if t is not TRUE]


def p2ish(f):
    """a bitmap size: the only factors that are known to equal one of a few powers of two"""
    for x in atoms([f]):
        if x.op == 'udiv' and f is not x and not (f.op == 'zext' and f.args[0] is x) or x.op == 'f' and x.p.startswith('ZS.bitmap_size'):
            return True
    return False


def _small(x, y):
    def s(a):
        if ub(a) < (1 << 40):
            return TRUE
        return ult(a, C64(1 << 40))

    def t(a):
        if ub(a) <= (1 << 20):
            return TRUE
        return ule(a, C64(1 << 20))
    return bor(band(s(x), t(y)), band(t(x), s(y)))


# ------------------------------------------------------------------ instantiation
def base_name(n):
    i = n.rfind('@')
    return n if i <= 0 else n[:i]


def collect_pools(ts, hints):
    ufs = {}
    for x in atoms(ts):
        if x.op == 'f' and x.args:
            ufs.setdefault(base_name(x.p), {})[x.args] = 1
    pools = {k: list(v) for k, v in ufs.items()}
    return pools


def ground_vars(t):
    """does t mention a bound (schematic) variable?"""
    for x in atoms([t]):
        if x.op == 'v' and '?' in x.p:
            return True
    return False


def instantiate(base, facts, hints, rounds=2, limit=4000, stats=None):
    """base: ground terms.  returns list of instances"""
    out = []
    done = set()
    cur = list(base)
    hints = {k: list(v) for k, v in hints.items()}
    for rd in range(rounds):
        pools = collect_pools(cur, hints)
        new = []
        for f in facts:
            for alt in f.pats:
                for b in match(f, alt, pools, hints):
                    key = (f, tuple(x.id for x in b))
                    if key in done:
                        continue
                    done.add(key)
                    t = f.inst(b)
                    if t is TRUE:
                        continue
                    new.append(t)
                    if len(out) + len(new) > limit:
                        if stats is not None:
                            stats['limit'] = True
                        return out + new
        if not new:
            break
        out += new
        cur = cur + new
    return out


def match(f, alt, pools, hints):
    n = len(f.vars)
    res = [dict()]
    for pat in alt:
        nxt = []
        if pat[0] == '#':
            # next unbound var(s) of that sort
            if len(pat) > 2:
                vi = pat[2]
            else:
                vi = alt.index(pat) if alt.count(pat) == 1 else None
            cands = hints.get(pat[1], [])
            if pat[1].startswith('it') and '*it' in hints and n:
                w0 = f.vars[vi if vi is not None else 0].w
                ex = []
                for c in hints['*it']:
                    c = c if c.w == w0 else (tm.trunc(c, w0) if c.w > w0 else tm.zext(c, w0))
                    if c not in cands and c not in ex:
                        ex.append(c)
                cands = list(cands) + ex
            for r in res:
                i = vi if vi is not None else min(k for k in range(n) if k not in r)
                if i in r:
                    nxt.append(r)
                    continue
                w = f.vars[i].w
                for c in cands:
                    if c.w != w:
                        continue
                    q = dict(r)
                    q[i] = c
                    nxt.append(q)
        elif pat[0] == 'inv':
            _, name, ai, vi, fn = pat
            for args in pools.get(name, []):
                if ai >= len(args):
                    continue
                c = fn(args[ai])
                if c is None:
                    continue
                for r in res:
                    if vi in r:
                        if r[vi] is c:
                            nxt.append(r)
                        continue
                    q = dict(r)
                    q[vi] = c
                    nxt.append(q)
        else:
            name, pos = pat[0], pat[1]
            for args in pools.get(name, []):
                for r in res:
                    q = dict(r)
                    ok = True
                    for p, a in zip(pos, args):
                        if p is None:
                            continue
                        if f.vars[p].w != a.w:
                            ok = False
                            break
                        if p in q and q[p] is not a:
                            ok = False
                            break
                        q[p] = a
                    if ok:
                        nxt.append(q)
        res = nxt
        if not res:
            return
        if len(res) > 3000:
            res = res[:3000]
    for r in res:
        if len(r) == n:
            yield tuple(r[i] for i in range(n))


# ------------------------------------------------------------------ relevance
def relevant(goal_terms, pool, depth=None):
    return pool


class Result:
    __slots__ = ('st', 'model', 'tr', 'time', 'why')

    def __init__(self, st, model=None, tr=None, time=0.0, why=''):
        self.st, self.model, self.tr, self.time, self.why = st, model, tr, time, why


def flatten(ts):
    out = []
    for t in ts:
        if t is TRUE:
            continue
        if t.op == 'band':
            out.extend(flatten(t.args))
        else:
            out.append(t)
    return out


import os
LIA_MS = int(os.environ.get('LIA_MS', '1000'))
SLOWLOG = float(os.environ.get('SLOWLOG', '0'))


class Z3I:
    """over-approximating translation to linear integer arithmetic: every word is an integer in [0, 2^w), wrap around is a
    free quotient, and bit operations that are not shifts or masks are uninterpreted.  Unsatisfiable here implies unsatisfiable
    for words; satisfiable here means nothing."""

    def __init__(self):
        self.memo = {}
        self.ufs = {}
        self.side = []
        self.n = 0
        self.named = {}

    def rng(self, v, w):
        self.side.append(v >= 0)
        self.side.append(v < (1 << w))
        return v

    def new(self, w=None):
        self.n += 1
        v = z3.Int('i!%d' % self.n)
        if w is not None:
            self.rng(v, w)
        return v

    def uf(self, name, a, args, w):
        k = (name, tuple(q.w for q in args), w)
        f = self.ufs.get(k)
        if f is None:
            so = [z3.IntSort() if q.w else z3.BoolSort() for q in args] + [z3.IntSort() if w else z3.BoolSort()]
            f = z3.Function('%s/%d/%s' % (name, w, '.'.join(str(q.w) for q in args)), *so)
            self.ufs[k] = f
        r = f(*a)
        if w:
            v = self.new()
            self.side.append(v == r)
            return self.rng(v, w)
        return r

    def mod(self, e, w):
        """e mod 2^w"""
        q = self.new()
        r = self.new(w)
        self.side.append(e == r + q * (1 << w))
        return r

    def split(self, x, k):
        """x = hi*2^k + lo"""
        key = (x.get_id(), k)
        r = self.named.get(key)
        if r is None:
            lo, hi = self.new(k), self.new()
            self.side.append(hi >= 0)
            self.side.append(x == hi * (1 << k) + lo)
            r = self.named[key] = (hi, lo, x)
        return r[0], r[1]

    def signed(self, x, w):
        return z3.If(x >= (1 << (w - 1)), x - (1 << w), x)

    def tr(self, t):
        memo = self.memo
        st = [t]
        while st:
            x = st[-1]
            if x in memo:
                st.pop()
                continue
            need = [a for a in x.args if a not in memo]
            if need:
                st.extend(need)
                continue
            st.pop()
            memo[x] = self.one(x)
        return memo[t]

    def one(self, x):
        op, w, m = x.op, x.w, self.memo
        a = [m[q] for q in x.args]
        A = x.args
        if op == 'c':
            return z3.IntVal(x.p)
        if op == 'bc':
            return z3.BoolVal(x.p)
        if op in ('v', 'f') and not a:
            if not w:
                return z3.Bool(x.p)
            return self.rng(z3.Int('%s/%d' % (x.p, w)), w)
        if op == 'f':
            return self.uf(x.p, a, A, w)
        if op == 'lin':
            c, cs = x.p
            e = z3.IntVal(c if c < (1 << (w - 1)) else c - (1 << w))
            for k, q in zip(cs, a):
                kk = k if k < (1 << (w - 1)) else k - (1 << w)
                e = e + (q if kk == 1 else q * kk)
            return self.mod(e, w)
        if op in ('shl', 'lshr', 'ashr') and is_c(A[1]) and A[1].p < w:
            k = A[1].p
            if op == 'shl':
                return self.mod(a[0] * (1 << k), w)
            if op == 'lshr':
                return self.split(a[0], k)[0]
        if op == 'and' and len(a) == 2:
            for i in (0, 1):
                if is_c(A[i]):
                    k = A[i].p
                    y = a[1 - i]
                    if k & (k + 1) == 0 and k:
                        return self.split(y, k.bit_length())[1]
                    nk = (~k) & ((1 << w) - 1)
                    if nk & (nk + 1) == 0 and nk:
                        return y - self.split(y, nk.bit_length())[1]
                    sh = (k & -k).bit_length() - 1
                    top = k >> sh
                    if top & (top + 1) == 0 and k:
                        # a field: bits sh .. sh+n-1
                        hi = self.split(y, sh)[0]
                        f = self.split(hi, top.bit_length())[1]
                        return f * (1 << sh)
        if op == 'zext':
            return a[0]
        if op == 'sext':
            v = A[0].w
            return z3.If(a[0] >= (1 << (v - 1)), a[0] + ((1 << w) - (1 << v)), a[0])
        if op == 'ext':
            hi, lo = x.p
            y = a[0] if lo == 0 else self.split(a[0], lo)[0]
            return y if hi == A[0].w - 1 else self.split(y, hi - lo + 1)[1]
        if op == 'concat':
            r = a[0]
            for q, t in zip(a[1:], A[1:]):
                r = r * (1 << t.w) + q
            return r
        if op == 'ite':
            return z3.If(a[0], a[1], a[2])
        if op == 'eq':
            return a[0] == a[1]
        if op == 'ult':
            return a[0] < a[1]
        if op == 'slt':
            v = A[0].w
            return self.signed(a[0], v) < self.signed(a[1], v)
        if op == 'not':
            return z3.Not(a[0])
        if op == 'band':
            return z3.And(*a)
        if op == 'bor':
            return z3.Or(*a)
        if op == 'xor' and x.p:
            return self.uf('XOR#%x' % x.p, a, A, w)
        r = self.uf(op.upper() + '#', a, A, w)
        if op == 'and':
            for q in a:
                self.side.append(r <= q)
        if op == 'or':
            for q in a:
                self.side.append(r >= q)
        return r


def lia_unsat(ts, to):
    tr = Z3I()
    fs = [tr.tr(t) for t in ts]
    s = z3.SolverFor('QF_UFLIA')
    s.set('timeout', to)
    s.add(fs)
    s.add(tr.side)
    return s.check() == z3.unsat


def mk_smt():
    return z3.Then('simplify', 'propagate-values', 'solve-eqs', 'smt').solver()


def mk_ufbv():
    return z3.SolverFor('QF_UFBV')


# named predicates: kept opaque first (with a few consequences), unfolded only when that does not decide the query
OPAQUE = {}
OPAQUE_MS = 4000


def opaque(name, *args):
    return app(name, 0, *args)


def trichotomy(ts):
    """tautologies that let the solver branch on how list positions compare"""
    idx = []
    for x in atoms(ts):
        if x.op == 'f' and x.p.startswith(('@ul@', '@fl@')) and x.args[0] not in idx:
            idx.append(x.args[0])
    out = []
    for x in idx:
        if x.op == 'v' and x.p.startswith('sk_b'):
            for y in idx:
                if y is not x and not any(z is x for z in atoms([y])):
                    out.append(bor(ult(x, y), eq(x, y), ult(y, x)))
    return out[:60]


class Tr:
    """translation of a term for evaluation in a model of a query whose loop variables were eliminated"""

    def __init__(self, tr, maps):
        self.z, self.maps = tr, maps

    def tr(self, t):
        for m in self.maps:
            t = subst(t, m)
        return self.z.tr(t)


def widen(ts):
    """scaled random offsets (c*x)>>32 with a 32-bit x become arbitrary values below c (sound for unsat)"""
    m = {}
    for x in atoms(ts):
        if x.op == 'lshr' and x.w == 64 and x.args[1].op == 'c' and x.args[1].p == 32:
            l = x.args[0]
            if l.op == 'lin' and l.p[0] == 0 and len(l.args) == 1 and l.args[0].op == 'zext' and l.args[0].args[0].w == 32 and 0 < l.p[1][0] < 1 << 31:
                m[x] = (fresh('rndoff', 64), l.p[1][0])
    if not m:
        return ts
    return flatten([subst(t, {k: v for k, (v, c) in m.items()}) for t in ts] + [ult(v, const(c, 64)) for v, c in m.values()])


def elim_phis(ts, maps):
    """replace loop variables that the assumptions equate with another term (equality-preserving)"""
    for _ in range(6):
        m = {}
        for t in ts:
            if t.op == 'eq':
                for x, y in ((t.args[0], t.args[1]), (t.args[1], t.args[0])):
                    if x.op == 'f' and x.w == 64 and x.p.startswith('phi.') and x not in m and not any(z is x or z in m for z in atoms([y])):
                        if not any(x in atoms([v]) for v in m.values()):
                            m[x] = y
                        break
        if not m:
            return ts
        maps.append(m)
        ts = flatten([subst(t, m) for t in ts])
    return ts


def check_sat(ts, timeout=None, want_model=False, name=''):
    STATS['queries'] += 1
    t0 = time.time()
    maps = []
    ts = elim_phis(flatten(ts), maps)
    for t in ts:
        if t is FALSE:
            STATS['syntactic'] += 1
            return Result('unsat')
    if OPAQUE:
        ops = [x for x in atoms(ts) if x.op == 'f' and x.p in OPAQUE]
        if ops:
            T = timeout or TIMEOUT
            cons = [iff(x, OPAQUE[x.p][0](*x.args)) if OPAQUE[x.p][1] == 'all' else imp(x, OPAQUE[x.p][1](*x.args)) for x in ops if OPAQUE[x.p][1]]
            cons += trichotomy(ts)
            # what involves fresh mappings is unfolded at once
            new = [x for x in ops if any(y.op == 'v' and y.p.startswith('map!') for y in atoms([x]))]
            cons += [iff(x, OPAQUE[x.p][0](*x.args)) for x in new]
            r = check1(widen(flatten(ts + cons)), min(T, OPAQUE_MS), False, name, t0, ((mk_smt, OPAQUE_MS),) if new else ((mk_smt, 300), ('lia', 2500), (mk_smt, OPAQUE_MS)))
            if r.st == 'unsat':
                return r
            ts = flatten(ts + [iff(x, OPAQUE[x.p][0](*x.args)) for x in ops])
    r = check1(ts, timeout, want_model, name, t0, None)
    if maps and r.tr is not None:
        r.tr = Tr(r.tr, maps)
    return r


def check1(ts, timeout, want_model, name, t0, plan):
    done = set()
    lem = nl_lemmas(ts, done)
    lem += nl_lemmas(list(ts) + lem, done)
    tr = Z3T()
    fs = [tr.tr(t) for t in ts + lem]
    T = timeout or TIMEOUT
    r = z3.unknown
    for mk, to in plan or ((mk_smt, min(300, T)), ('lia', min(LIA_MS, T)), (mk_ufbv, T), (mk_smt, T)):
        if mk == 'lia':
            if LIA_MS and lia_unsat(ts + lem, to):
                r = z3.unsat
                STATS['lia'] = STATS.get('lia', 0) + 1
                break
            continue
        s = mk()
        s.set('timeout', to)
        s.add(fs)
        r = s.check()
        if r != z3.unknown:
            break
    dt = time.time() - t0
    STATS['time'] += dt
    if SLOWLOG and dt > SLOWLOG:
        print('slow %.2f %s %s n=%d lem=%d' % (dt, name, r, len(ts), len(lem)), flush=True)
    if dt > STATS['max']:
        STATS['max'] = dt
        STATS['maxname'] = name
    if r == z3.unsat:
        return Result('unsat', time=dt)
    if r == z3.sat:
        return Result('sat', s.model() if want_model else None, tr, dt)
    return Result('unknown', time=dt, why=s.reason_unknown())


def smtlib(ts):
    done = set()
    ts = flatten(ts)
    lem = nl_lemmas(ts, done)
    lem += nl_lemmas(list(ts) + lem, done)
    tr = Z3T()
    s = z3.SolverFor('QF_UFBV')
    for t in ts + lem:
        s.add(tr.tr(t))
    return '(set-logic QF_UFBV)\n' + s.to_smt2()
