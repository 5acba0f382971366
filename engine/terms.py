"""Hash-consed bit-vector terms with a linear normal form.

Widths: w==0 is Bool, w>0 a bit-vector of w bits.  All rewriting done here is
valid modulo 2^w for every value of the atoms (no side conditions), except where
`ub` (a computed upper bound that always holds) justifies it.
"""
import itertools

_tab = {}
_cnt = itertools.count()


class T:
    __slots__ = ('op', 'p', 'args', 'w', 'id', '_ub', '_al', '__weakref__')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    # operators for specs (unsigned by default)
    def __add__(self, o): return add(self, lift(o, self.w))
    def __radd__(self, o): return add(lift(o, self.w), self)
    def __sub__(self, o): return sub(self, lift(o, self.w))
    def __rsub__(self, o): return sub(lift(o, self.w), self)
    def __mul__(self, o): return mul(self, lift(o, self.w))
    def __rmul__(self, o): return mul(self, lift(o, self.w))
    def __xor__(self, o): return xor(self, lift(o, self.w))
    def __and__(self, o): return and_(self, lift(o, self.w)) if self.w else band(self, o)
    def __or__(self, o): return or_(self, lift(o, self.w)) if self.w else bor(self, o)
    def __invert__(self): return bnot(self) if self.w == 0 else xor(self, const(-1, self.w))
    def __lshift__(self, o): return shl(self, lift(o, self.w))
    def __rshift__(self, o): return lshr(self, lift(o, self.w))


def _mk(op, p, args, w):
    key = (op, p, w, tuple(a.id for a in args))
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = op
        t.p = p
        t.args = args
        t.w = w
        t.id = next(_cnt)
        t._ub = None
        t._al = None
        _tab[key] = t
    return t


def lift(x, w):
    if isinstance(x, T):
        return x
    if isinstance(x, bool):
        return TRUE if x else FALSE
    return const(x, w)


def const(v, w):
    assert w > 0
    return _mk('c', v & ((1 << w) - 1), (), w)


def var(name, w):
    return _mk('v', name, (), w)


def app(name, w, *args):
    return _mk('f', name, tuple(args), w)


_fresh = itertools.count()


def fresh(name, w):
    return var('%s!%d' % (name, next(_fresh)), w)


def freshname(name):
    return '%s!%d' % (name, next(_fresh))


TRUE = _mk('bc', True, (), 0)
FALSE = _mk('bc', False, (), 0)


def is_c(t):
    return t.op == 'c'


def sval(t):
    v = t.p
    return v - (1 << t.w) if v >> (t.w - 1) else v


# ---------------------------------------------------------------- bounds
def ub(t):
    if t._ub is not None:
        return t._ub
    m = (1 << t.w) - 1
    r = m
    op = t.op
    if op == 'c':
        r = t.p
    elif op == 'zext':
        r = ub(t.args[0])
    elif op == 'and':
        r = min([ub(a) for a in t.args])
    elif op == 'lshr' and is_c(t.args[1]):
        r = ub(t.args[0]) >> t.args[1].p if t.args[1].p < t.w else 0
    elif op == 'lshr':
        r = ub(t.args[0])
    elif op == 'urem' and is_c(t.args[1]) and t.args[1].p:
        r = min(t.args[1].p - 1, ub(t.args[0]))
    elif op == 'udiv' and is_c(t.args[1]) and t.args[1].p:
        r = ub(t.args[0]) // t.args[1].p
    elif op == 'ite':
        r = max(ub(t.args[1]), ub(t.args[2]))
    elif op in ('or', 'xor'):
        x = max(ub(a) for a in t.args)
        r = (1 << x.bit_length()) - 1
    elif op == 'lin':
        c, cs = t.p
        s = c
        for k, a in zip(cs, t.args):
            s += k * ub(a)
        r = s if s <= m else m
    elif op == 'mul':
        s = ub(t.args[0]) * ub(t.args[1])
        r = s if s <= m else m
    elif op == 'ext':
        hi, lo = t.p
        u = ub(t.args[0]) >> lo
        r = min(m, u) if u <= m else m
    t._ub = min(r, m)
    return t._ub


def tz(t):
    """number of trailing zero bits guaranteed"""
    if t._al is not None:
        return t._al
    op = t.op
    r = 0
    if op == 'c':
        r = t.w if t.p == 0 else (t.p & -t.p).bit_length() - 1
    elif op == 'lin':
        c, cs = t.p
        r = t.w if c == 0 else (c & -c).bit_length() - 1
        for k, a in zip(cs, t.args):
            r = min(r, (k & -k).bit_length() - 1 + tz(a))
    elif op == 'zext':
        r = tz(t.args[0])
        if r >= t.args[0].w:
            r = t.w
    elif op == 'and':
        r = max(tz(a) for a in t.args)
    elif op in ('or', 'xor'):
        r = min(tz(a) for a in t.args)
    elif op == 'mul':
        r = tz(t.args[0]) + tz(t.args[1])
    elif op == 'ite':
        r = min(tz(t.args[1]), tz(t.args[2]))
    t._al = min(r, t.w) if t.w else 0
    return t._al


# ---------------------------------------------------------------- linear forms
def lin_of(t):
    if t.op == 'c':
        return t.p, {}
    if t.op == 'lin':
        c, cs = t.p
        return c, dict(zip(t.args, cs))
    return 0, {t: 1}


def mk_lin(c, d, w):
    m = (1 << w) - 1
    c &= m
    items = []
    for a, k in d.items():
        k &= m
        if k:
            items.append((a, k))
    if not items:
        return const(c, w)
    if len(items) == 1 and c == 0 and items[0][1] == 1:
        return items[0][0]
    items.sort(key=lambda x: x[0].id)
    return _mk('lin', (c, tuple(k for _, k in items)), tuple(a for a, _ in items), w)


def add(a, b):
    assert a.w == b.w and a.w, (a, b)
    if a.op == 'c' and a.p == 0:
        return b
    if b.op == 'c' and b.p == 0:
        return a
    c1, d1 = lin_of(a)
    c2, d2 = lin_of(b)
    if len(d1) < len(d2):
        d1, d2 = d2, d1
    d = dict(d1)
    for k, v in d2.items():
        d[k] = d.get(k, 0) + v
    r = mk_lin(c1 + c2, d, a.w)
    return r


def scale(a, k):
    c, d = lin_of(a)
    if k & ((1 << a.w) - 1) == 1:
        return a
    out = {}
    cc = c * k
    res = None
    for t, v in d.items():
        # 2^n * lshr(x, n) == x - (x & (2^n-1))
        kk = (v * k) & ((1 << a.w) - 1)
        if t.op == 'lshr' and is_c(t.args[1]) and kk and kk % (1 << t.args[1].p) == 0 and t.args[1].p:
            n = t.args[1].p
            q = kk >> n
            x = t.args[0]
            e = sub(x, and_(x, const((1 << n) - 1, a.w)))
            ec, ed = lin_of(e)
            cc += ec * q
            for t2, v2 in ed.items():
                out[t2] = out.get(t2, 0) + v2 * q
        else:
            out[t] = out.get(t, 0) + kk
    return mk_lin(cc, out, a.w)


def neg(a):
    return scale(a, -1)


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    assert a.w == b.w
    if is_c(a):
        return scale(b, a.p)
    if is_c(b):
        return scale(a, b.p)
    w = a.w
    c1, d1 = lin_of(a)
    c2, d2 = lin_of(b)
    if len(d1) * len(d2) > 12:
        x, y = sorted((a, b), key=lambda t: t.id)
        return _mk('mul', None, (x, y), w)
    r = const(c1 * c2, w)
    for t, v in d1.items():
        r = add(r, scale(t, v * c2))
    for t, v in d2.items():
        r = add(r, scale(t, v * c1))
    for t, v in d1.items():
        for u, v2 in d2.items():
            x, y = sorted((t, u), key=lambda q: q.id)
            r = add(r, scale(_mk('mul', None, (x, y), w), v * v2))
    return r


def udiv(a, b):
    if is_c(b):
        k = b.p
        if k == 0:
            return const(-1, a.w)
        if is_c(a):
            return const(a.p // k, a.w)
        if k & (k - 1) == 0:
            return lshr(a, const(k.bit_length() - 1, a.w))
        c, d = lin_of(a)
        if c % k == 0 and all(v % k == 0 for v in d.values()) and _noovf(a):
            return mk_lin(c // k, {t: v // k for t, v in d.items()}, a.w)
    return _mk('udiv', None, (a, b), a.w)


def urem(a, b):
    if is_c(b):
        k = b.p
        if k == 0:
            return a
        if is_c(a):
            return const(a.p % k, a.w)
        if k & (k - 1) == 0:
            return and_(a, const(k - 1, a.w))
    return _mk('urem', None, (a, b), a.w)


def sdiv(a, b):
    if is_c(a) and is_c(b) and b.p:
        x, y = sval(a), sval(b)
        q = abs(x) // abs(y)
        return const(q if (x < 0) == (y < 0) else -q, a.w)
    h = 1 << (a.w - 1)
    if ub(a) < h and ub(b) < h:
        return udiv(a, b)
    return _mk('sdiv', None, (a, b), a.w)


def srem(a, b):
    if is_c(a) and is_c(b) and b.p:
        x, y = sval(a), sval(b)
        r = abs(x) % abs(y)
        return const(r if x >= 0 else -r, a.w)
    h = 1 << (a.w - 1)
    if ub(a) < h and ub(b) < h:
        return urem(a, b)
    return _mk('srem', None, (a, b), a.w)


def _noovf(a):
    """linear form evaluates without wrap-around"""
    c, d = lin_of(a)
    s = c
    for t, v in d.items():
        s += v * ub(t)
    return s < (1 << a.w)


def shl(a, b):
    w = a.w
    if is_c(b):
        if b.p >= w:
            return const(0, w)
        return scale(a, 1 << b.p)
    if is_c(a) and a.p == 0:
        return a
    if b.op == 'ite' and is_c(b.args[1]) and is_c(b.args[2]):
        return ite(b.args[0], shl(a, b.args[1]), shl(a, b.args[2]))
    return _mk('shl', None, (a, b), w)


def lshr(a, b):
    w = a.w
    if is_c(b):
        n = b.p
        if n == 0:
            return a
        if n >= w:
            return const(0, w)
        if is_c(a):
            return const(a.p >> n, w)
        if ub(a) >> n == 0:
            return const(0, w)
        if a.op == 'lshr' and is_c(a.args[1]):
            return lshr(a.args[0], const(min(w, a.args[1].p + n), w))
        if a.op == 'lin' and _noovf(a):
            c, d = lin_of(a)
            hi = {}
            lo = {}
            m = (1 << n) - 1
            for t, v in d.items():
                if v & m == 0:
                    hi[t] = v >> n
                else:
                    lo[t] = v
            clo = c & m
            chi = c >> n
            # also allow splitting v = vh*2^n + vl is not done
            s = clo + sum(v * ub(t) for t, v in lo.items())
            if hi or chi:
                rest = mk_lin(clo, lo, w)
                return add(mk_lin(chi, hi, w), lshr(rest, b))
        if a.op == 'zext' and a.args[0].w <= n:
            return const(0, w)
        if a.op == 'and' and len(a.args) == 2 and is_c(a.args[0]):
            # (x & m) >> n  = (x>>n) & (m>>n)
            return and_(lshr(a.args[1], b), const(a.args[0].p >> n, w))
    elif is_c(a) and a.p == 0:
        return a
    return _mk('lshr', None, (a, b), w)


def ashr(a, b):
    w = a.w
    if is_c(b) and is_c(a):
        return const(sval(a) >> min(b.p, w - 1), w)
    if ub(a) < (1 << (w - 1)):
        return lshr(a, b)
    if is_c(b) and b.p == 0:
        return a
    return _mk('ashr', None, (a, b), w)


def and_(a, b):
    assert a.w == b.w
    if a.w == 0:
        return band(a, b)
    w = a.w
    m = (1 << w) - 1
    if is_c(b):
        a, b = b, a
    if is_c(a):
        k = a.p
        if is_c(b):
            return const(k & b.p, w)
        if k == 0:
            return a
        if k == m:
            return b
        if k & (k + 1) == 0:          # low mask
            n = k.bit_length()
            if ub(b) <= k:
                return b
            if tz(b) >= n:
                return const(0, w)
            if b.op == 'lin':
                c, d = lin_of(b)
                if any(t.op == 'and' and is_c(t.args[0]) and t.args[0].p & k == k for t in d):
                    # y & m is y modulo the mask
                    s = const(c, w)
                    for t, v in d.items():
                        s = add(s, scale(t.args[1] if t.op == 'and' and is_c(t.args[0]) and t.args[0].p & k == k else t, v))
                    return and_(a, s)
                d2 = {t: v & k for t, v in d.items() if (v << tz(t)) & k}
                b2 = mk_lin(c & k, d2, w)
                if b2 is not b:
                    return and_(a, b2)
            if b.op == 'and' and is_c(b.args[0]):
                return and_(const(k & b.args[0].p, w), b.args[1])
            if b.op == 'xor' or b.op == 'or':
                pass
            if b.op == 'ashr' and is_c(b.args[1]) and b.args[1].p + n <= w:
                return and_(a, _mk('lshr', None, b.args, w))
            if b.op == 'lshr' and is_c(b.args[1]) and b.args[1].p == w - n:
                return b
        else:
            inv = (~k) & m
            if inv & (inv + 1) == 0:      # high mask: x & ~low == x - (x & low)
                return sub(b, and_(const(inv, w), b))
            if b.op == 'and' and is_c(b.args[0]):
                return and_(const(k & b.args[0].p, w), b.args[1])
        if b.op == 'ite' and is_c(b.args[1]) and is_c(b.args[2]):
            return ite(b.args[0], and_(a, b.args[1]), and_(a, b.args[2]))
        return _mk('and', None, (a, b), w)
    if a is b:
        return a
    if a.id > b.id:
        a, b = b, a
    return _mk('and', None, (a, b), w)


def or_(a, b):
    assert a.w == b.w
    if a.w == 0:
        return bor(a, b)
    w = a.w
    m = (1 << w) - 1
    if is_c(b):
        a, b = b, a
    if is_c(a):
        if is_c(b):
            return const(a.p | b.p, w)
        if a.p == 0:
            return b
        if a.p == m:
            return a
        if b.op == 'or' and is_c(b.args[0]):
            return or_(const(a.p | b.args[0].p, w), b.args[1])
        if tz(b) >= a.p.bit_length():      # disjoint
            return add(a, b)
        return _mk('or', None, (a, b), w)
    if a is b:
        return a
    if tz(a) >= ub(b).bit_length() or tz(b) >= ub(a).bit_length():
        return add(a, b)
    if a.id > b.id:
        a, b = b, a
    return _mk('or', None, (a, b), w)


def xor(*ts):
    w = ts[0].w
    if w == 0:
        r = ts[0]
        for t in ts[1:]:
            r = bxor(r, t)
        return r
    m = (1 << w) - 1
    c = 0
    cnt = {}
    for t in ts:
        assert t.w == w
        if t.op == 'c':
            c ^= t.p
            continue
        if t.op == 'xor':
            c ^= t.p
            for a in t.args:
                cnt[a] = cnt.get(a, 0) ^ 1
            continue
        cnt[t] = cnt.get(t, 0) ^ 1
    at = [t for t, k in cnt.items() if k]
    if not at:
        return const(c, w)
    if len(at) == 1:
        if c == 0:
            return at[0]
        if c == m:
            return sub(const(-1, w), at[0])   # ~x = -1 - x
        if at[0].op == 'ite' and is_c(at[0].args[1]) and is_c(at[0].args[2]):
            i = at[0]
            return ite(i.args[0], const(i.args[1].p ^ c, w), const(i.args[2].p ^ c, w))
    at.sort(key=lambda t: t.id)
    return _mk('xor', c, tuple(at), w)


def zext(a, w):
    if a.w == 0:
        return ite(a, const(1, w), const(0, w))
    assert w >= a.w
    if w == a.w:
        return a
    if is_c(a):
        return const(a.p, w)
    if a.op == 'zext':
        return zext(a.args[0], w)
    if a.op == 'ite':
        return ite(a.args[0], zext(a.args[1], w), zext(a.args[2], w))
    if a.op == 'ext' and a.p[1] == 0:
        x = a.args[0]
        if x.w == w:
            return and_(const((1 << a.w) - 1, w), x)
        if x.w < w:
            return zext(and_(const((1 << a.w) - 1, x.w), x), w)
    if a.op == 'and' and is_c(a.args[0]):
        return and_(const(a.args[0].p, w), zext(a.args[1], w))
    if a.op == 'lin' and _noovf(a):
        c, d = lin_of(a)
        r = const(c, w)
        for t, v in d.items():
            r = add(r, scale(zext(t, w), v))
        return r
    return _mk('zext', None, (a,), w)


def sext(a, w):
    if a.w == 0:
        return ite(a, const(-1, w), const(0, w))
    if w == a.w:
        return a
    if is_c(a):
        return const(sval(a), w)
    if ub(a) < (1 << (a.w - 1)):
        return zext(a, w)
    if a.op == 'sext':
        return sext(a.args[0], w)
    if a.op == 'ite':
        return ite(a.args[0], sext(a.args[1], w), sext(a.args[2], w))
    return _mk('sext', None, (a,), w)


def extract(a, hi, lo):
    w = hi - lo + 1
    if w == a.w:
        return a
    if is_c(a):
        return const(a.p >> lo, w)
    if a.op == 'ext':
        return extract(a.args[0], hi + a.p[1], lo + a.p[1])
    if a.op == 'zext' or a.op == 'sext':
        x = a.args[0]
        if hi < x.w:
            return extract(x, hi, lo)
        if a.op == 'zext':
            if lo >= x.w:
                return const(0, w)
            if lo == 0:
                return zext(x, w)
        elif lo == 0:
            return sext(x, w)
    if a.op == 'concat':
        p = a.w
        for x in a.args:
            p -= x.w
            if lo >= p and hi < p + x.w:
                return extract(x, hi - p, lo - p)
    if a.op == 'ite':
        return ite(a.args[0], extract(a.args[1], hi, lo), extract(a.args[2], hi, lo))
    if lo == 0:
        if a.op == 'lin':
            c, d = lin_of(a)
            r = const(c, w)
            for t, v in d.items():
                r = add(r, scale(extract(t, hi, 0), v))
            return r
        if a.op == 'and' and is_c(a.args[0]):
            return and_(extract(a.args[0], hi, 0), extract(a.args[1], hi, 0))
        if a.op == 'and':
            return and_(extract(a.args[0], hi, 0), extract(a.args[1], hi, 0))
        if a.op == 'or':
            return or_(extract(a.args[0], hi, 0), extract(a.args[1], hi, 0))
        if a.op == 'xor':
            return xor(const(a.p, w), *[extract(x, hi, 0) for x in a.args])
        if a.op == 'shl' and is_c(a.args[0]) and False:
            pass
    if a.op == 'lshr' and is_c(a.args[1]) and hi + a.args[1].p < a.w:
        n = a.args[1].p
        return extract(a.args[0], hi + n, lo + n)
    return _mk('ext', (hi, lo), (a,), w)


def trunc(a, w):
    if w == 0 or w == 1 and False:
        return eq(and_(a, const(1, a.w)), const(1, a.w))
    return extract(a, w - 1, 0)


def concat(*ts):
    """most significant first"""
    out = []
    for t in ts:
        if t.op == 'concat':
            out.extend(t.args)
        else:
            out.append(t)
    # merge
    r = []
    for t in out:
        if r:
            p = r[-1]
            if is_c(p) and is_c(t):
                r[-1] = const((p.p << t.w) | t.p, p.w + t.w)
                continue
            if p.op == 'ext' and t.op == 'ext' and p.args[0] is t.args[0] and p.p[1] == t.p[0] + 1:
                r[-1] = extract(p.args[0], p.p[0], t.p[1])
                continue
        r.append(t)
    if len(r) == 1:
        return r[0]
    w = sum(t.w for t in r)
    if is_c(r[0]) and r[0].p == 0:
        return zext(concat(*r[1:]), w)
    return _mk('concat', None, tuple(r), w)


# ---------------------------------------------------------------- booleans
def bnot(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    return _mk('not', None, (a,), 0)


def band(*ts):
    s = []
    seen = set()
    for t in ts:
        if t is TRUE:
            continue
        if t is FALSE:
            return FALSE
        for x in (t.args if t.op == 'band' else (t,)):
            if x in seen:
                continue
            if bnot(x) in seen:
                return FALSE
            seen.add(x)
            s.append(x)
    if not s:
        return TRUE
    if len(s) == 1:
        return s[0]
    s.sort(key=lambda t: t.id)
    return _mk('band', None, tuple(s), 0)


def bor(*ts):
    s = []
    seen = set()
    for t in ts:
        if t is FALSE:
            continue
        if t is TRUE:
            return TRUE
        for x in (t.args if t.op == 'bor' else (t,)):
            if x in seen:
                continue
            if bnot(x) in seen:
                return TRUE
            seen.add(x)
            s.append(x)
    if not s:
        return FALSE
    if len(s) == 1:
        return s[0]
    s.sort(key=lambda t: t.id)
    return _mk('bor', None, tuple(s), 0)


def bxor(a, b):
    if a is TRUE:
        return bnot(b)
    if b is TRUE:
        return bnot(a)
    if a is FALSE:
        return b
    if b is FALSE:
        return a
    if a is b:
        return FALSE
    return bnot(iff(a, b))


def iff(a, b):
    if a is b:
        return TRUE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE:
        return bnot(b)
    if b is FALSE:
        return bnot(a)
    if a.id > b.id:
        a, b = b, a
    return _mk('eq', None, (a, b), 0)


def imp(a, b):
    return bor(bnot(a), b)


def eq(a, b):
    assert a.w == b.w, (a, a.w, b, b.w)
    if a is b:
        return TRUE
    if a.w == 0:
        return iff(a, b)
    if is_c(a):
        a, b = b, a
    if is_c(b):
        if is_c(a):
            return FALSE
        if b.p > ub(a):
            return FALSE
        if b.p and tz(a) and b.p & ((1 << tz(a)) - 1):
            return FALSE
        if a.op == 'ite':
            x, y = a.args[1], a.args[2]
            if is_c(x) or is_c(y):
                return bor(band(a.args[0], eq(x, b)), band(bnot(a.args[0]), eq(y, b)))
        if a.op == 'zext':
            return eq(a.args[0], const(b.p, a.args[0].w)) if b.p < (1 << a.args[0].w) else FALSE
        if a.op == 'sext':
            x = a.args[0]
            if sext(const(b.p, x.w), a.w) is b:
                return eq(x, const(b.p, x.w))
            return FALSE
        if a.op == 'xor' and a.p:
            return eq(xor(a, const(a.p, a.w)), const(b.p ^ a.p, a.w))
        if a.op == 'lin':
            c, d = lin_of(a)
            if c:
                return eq(mk_lin(0, d, a.w), const(b.p - c, a.w))
            if len(d) == 1:
                (t, k), = d.items()
                if k == (1 << a.w) - 1:
                    return eq(t, const(-b.p, a.w))
                if k & 1:
                    inv = pow(k, -1, 1 << a.w)
                    return eq(t, const(b.p * inv, a.w))
            elif len(d) == 2 and b.p == 0:
                its = list(d.items())
                m1 = (1 << a.w) - 1
                for i in (0, 1):
                    if its[i][1] == 1 and its[1 - i][1] == m1:
                        x, y = its[i][0], its[1 - i][0]
                        if x.id > y.id:
                            x, y = y, x
                        return _mk('eq', None, (x, y), 0)
    else:
        d = sub(a, b)
        if is_c(d):
            return FALSE
        if a.op == 'lin' or b.op == 'lin':
            # canonical orientation
            c, dd = lin_of(d)
            if dd:
                f = min(dd, key=lambda t: t.id)
                if dd[f] >> (a.w - 1):
                    d = neg(d)
            if d.op == 'lin':
                c, dd = lin_of(d)
                return eq(mk_lin(0, dd, a.w), const(-c, a.w))
            return eq(d, const(0, a.w))
        if a.op == 'zext' and b.op == 'zext' and a.args[0].w == b.args[0].w:
            return eq(a.args[0], b.args[0])
        if a.op == 'xor' or b.op == 'xor':
            x = xor(a, b)
            if is_c(x):
                return FALSE if x.p else TRUE
            if x.op == 'xor' and len(x.args) == 2 and x.p == 0:
                a, b = x.args
            elif x.op != 'xor':
                return eq(x, const(0, a.w))
    if a.id > b.id and not is_c(b):
        a, b = b, a
    return _mk('eq', None, (a, b), 0)


def ne(a, b):
    return bnot(eq(a, b))


def ult(a, b):
    assert a.w == b.w, (a, b)
    if a is b:
        return FALSE
    if is_c(a) and is_c(b):
        return TRUE if a.p < b.p else FALSE
    if is_c(b):
        if b.p == 0:
            return FALSE
        if ub(a) < b.p:
            return TRUE
        if b.p == 1:
            return eq(a, const(0, a.w))
    if is_c(a):
        if a.p >= ub(b):
            return FALSE
        if a.p == 0:
            return ne(b, const(0, a.w))
    if a.op == 'zext' and b.op == 'zext' and a.args[0].w == b.args[0].w:
        return ult(a.args[0], b.args[0])
    return _mk('ult', None, (a, b), 0)


def ule(a, b):
    return bnot(ult(b, a))


def ugt(a, b):
    return ult(b, a)


def uge(a, b):
    return bnot(ult(a, b))


def slt(a, b):
    assert a.w == b.w
    if a is b:
        return FALSE
    if is_c(a) and is_c(b):
        return TRUE if sval(a) < sval(b) else FALSE
    h = 1 << (a.w - 1)
    if ub(a) < h and ub(b) < h:
        return ult(a, b)
    return _mk('slt', None, (a, b), 0)


def sle(a, b):
    return bnot(slt(b, a))


def sgt(a, b):
    return slt(b, a)


def sge(a, b):
    return bnot(slt(a, b))


def ite(c, a, b):
    assert a.w == b.w, (a, b)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if a.w == 0:
        return bor(band(c, a), band(bnot(c), b))
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return _mk('ite', None, (c, a, b), a.w)


def bswap(a):
    n = a.w // 8
    return concat(*[extract(a, 8 * i + 7, 8 * i) for i in range(n)])


# ---------------------------------------------------------------- substitution & traversal
_REB = {
    'udiv': udiv, 'urem': urem, 'sdiv': sdiv, 'srem': srem, 'and': and_, 'or': or_, 'shl': shl,
    'lshr': lshr, 'ashr': ashr, 'mul': mul, 'eq': eq, 'ult': ult, 'slt': slt, 'not': bnot,
    'band': band, 'bor': bor, 'ite': ite, 'concat': concat,
}


def rebuild(t, args):
    op = t.op
    if op == 'f':
        return _mk('f', t.p, tuple(args), t.w)
    if op == 'lin':
        c, cs = t.p
        r = const(c, t.w)
        for k, a in zip(cs, args):
            r = add(r, scale(a, k))
        return r
    if op == 'xor':
        return xor(const(t.p, t.w), *args)
    if op == 'zext':
        return zext(args[0], t.w)
    if op == 'sext':
        return sext(args[0], t.w)
    if op == 'ext':
        return extract(args[0], *t.p)
    return _REB[op](*args)


def subst(t, m, memo=None):
    """m: dict term->term"""
    if memo is None:
        memo = {}
    st = [t]
    while st:
        x = st[-1]
        if x in memo:
            st.pop()
            continue
        if x in m:
            memo[x] = m[x]
            st.pop()
            continue
        if not x.args:
            memo[x] = x
            st.pop()
            continue
        need = [a for a in x.args if a not in memo]
        if need:
            st.extend(need)
            continue
        st.pop()
        na = [memo[a] for a in x.args]
        if all(p is q for p, q in zip(na, x.args)):
            memo[x] = x
        else:
            memo[x] = rebuild(x, na)
    return memo[t]


def atoms(ts):
    """iterate all distinct subterms"""
    seen = set()
    st = list(ts)
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        st.extend(x.args)


def vars_of(t):
    return [x for x in atoms([t]) if x.op == 'v']


def show(t, depth=6):
    op = t.op
    if op == 'c':
        v = t.p
        if t.w >= 32 and v >> (t.w - 1):
            s = v - (1 << t.w)
            if s > -65536:
                return str(s)
        return str(v) if v < 65536 else hex(v)
    if op == 'bc':
        return str(t.p)
    if op == 'v':
        return t.p
    if depth <= 0:
        return '…'
    if op == 'f':
        return '%s(%s)' % (t.p, ', '.join(show(a, depth - 1) for a in t.args))
    if op == 'lin':
        c, cs = t.p
        s = []
        for k, a in zip(cs, t.args):
            if k >> (t.w - 1):
                k -= 1 << t.w
            s.append(('%s' if k == 1 else '-%s' if k == -1 else '%d*' % k + '%s') % show(a, depth - 1))
        if c:
            s.append(show(const(c, t.w)))
        return '(' + ' + '.join(s) + ')'
    if op == 'xor':
        return '(' + ' ^ '.join([show(a, depth - 1) for a in t.args] + ([hex(t.p)] if t.p else [])) + ')'
    if op == 'ext':
        return '%s[%d:%d]' % (show(t.args[0], depth - 1), t.p[0], t.p[1])
    if op in ('zext', 'sext'):
        return '%s%d(%s)' % (op[0], t.w, show(t.args[0], depth - 1))
    return '(%s %s)' % (op, ' '.join(show(a, depth - 1) for a in t.args))


# ---------------------------------------------------------------- concrete evaluation
def evaluate(t, env, fenv, memo=None):
    """env: var name -> int/bool ; fenv: (name,args tuple)-> int"""
    if memo is None:
        memo = {}

    def ev(x):
        st = [x]
        while st:
            y = st[-1]
            if y in memo:
                st.pop()
                continue
            need = [a for a in y.args if a not in memo]
            if need:
                st.extend(need)
                continue
            st.pop()
            memo[y] = one(y, [memo[a] for a in y.args])
        return memo[x]

    def one(y, a):
        op = y.op
        if op == 'c' or op == 'bc':
            return y.p
        if op == 'v':
            return env(y)
        if op == 'f':
            return fenv(y, tuple(a))
        args = []
        for k, v in zip(y.args, a):
            if k.w == 0:
                args.append(TRUE if v else FALSE)
            else:
                args.append(const(v, k.w))
        if op == 'mul':
            return (a[0] * a[1]) & ((1 << y.w) - 1)
        r = rebuild(y, args)
        assert r.op in ('c', 'bc'), (y, r)
        return r.p
    return ev(t)
