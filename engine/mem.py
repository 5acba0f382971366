"""Memory: typed leaves (struct fields, burstall style) plus flat page memory by absolute address."""
import terms as tm
from terms import *
from ir import size_of, struct_layout, Unsupported


class Field:
    __slots__ = ('path', 'off', 'size', 'dims')

    def __init__(self, path, off, size, dims):
        self.path, self.off, self.size, self.dims = path, off, size, dims

    def __repr__(self):
        return '%s@%d:%d%s' % (self.path, self.off, self.size, self.dims or '')


def flatten(ty, di, prefix='', off=0, dims=()):
    """-> [Field]"""
    if ty.k in ('i', 'ptr', 'double', 'float', 'x86_fp80'):
        return [Field(prefix or 'v', off, size_of(ty), tuple(dims))]
    if ty.k == 'arr':
        if ty.n == 0:
            return []
        return flatten(ty.el, di, prefix, off, tuple(dims) + ((ty.n, size_of(ty.el)),))
    if ty.k == 'struct':
        offs, _ = struct_layout(ty)
        nm = (ty.name or '').replace('%struct.', '').replace('%union.', '').replace('%class.', '')
        names = {}
        if nm in di:
            for fn, fo, fs, c, bt in di[nm][1]:
                names.setdefault(fo, fn)
        out = []
        for i, (f, o) in enumerate(zip(ty.fields, offs)):
            fn = names.get(o, 'f%d' % i)
            if f.k == 'arr' and f.el.k == 'i' and f.el.n == 8 and o not in names:
                fn = 'pad%d' % i
            out += flatten(f, di, (prefix + '.' if prefix else '') + fn, off + o, dims)
        return out
    raise Unsupported('layout %r' % ty)


class Region:
    """typed memory: `count` elements (None = unbounded/1) of a struct layout starting at a base term"""

    def __init__(self, name, fields, size, stride=None, count=None):
        self.name, self.fields, self.size, self.stride, self.count = name, fields, size, stride, count
        self.zero = False


# ------------------------------------------------------------------ versions
class Ver:
    __slots__ = ('memo',)


class Base(Ver):
    __slots__ = ('name', 'w', 'fn')

    def __init__(self, name, w, fn=None):
        self.name, self.w, self.fn, self.memo = name, w, fn, None

    def rd(self, idx):
        if self.fn is not None:
            r = self.fn(*idx)
            if r is not None:
                return r
        return app(self.name, self.w, *idx)


class Store(Ver):
    __slots__ = ('prev', 'idx', 'val')

    def __init__(self, prev, idx, val):
        self.prev, self.idx, self.val, self.memo = prev, idx, val, {}


class Fill(Ver):
    """cond(idx)->Bool ; val(idx, old)->term"""
    __slots__ = ('prev', 'cond', 'val', 'comps')

    def __init__(self, prev, cond, val):
        self.prev, self.cond, self.val, self.memo, self.comps = prev, cond, val, {}, None


def read(ver, idx):
    st = []
    v = ver
    while True:
        if isinstance(v, Base):
            r = v.rd(idx)
            break
        m = v.memo.get(idx)
        if m is not None:
            r = m
            break
        if isinstance(v, Store):
            c = TRUE
            for a, b in zip(v.idx, idx):
                c = band(c, eq(a, b))
                if c is FALSE:
                    break
            if c is TRUE:
                r = v.val
                v.memo[idx] = r
                break
            st.append((v, c))
        else:
            c = v.cond(*idx)
            st.append((v, c))
        v = v.prev
    while st:
        v, c = st.pop()
        if c is FALSE:
            pass
        elif isinstance(v, Store):
            r = ite(c, v.val, r)
        else:
            r = ite(c, v.val(idx, r), r)
        v.memo[idx] = r
    return r
