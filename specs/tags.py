"""Memory tags (configuration 'tag')."""
from core import *
from zone import *

M56 = c64((1 << 56) - 1)


def tagsize(z):
    return and_(add(z.count, c64(PAGE - 1)), c64(~(PAGE - 1) & (2**64 - 1)))


def tagbase(z):
    return sub(sub(z.user, c64(PAGE)), tagsize(z))


def ubyte(S, a):
    lo = and_(a, c64(7))
    return extract(lshr(S.leaf('PM.U', sub(a, lo)), shl(lo, c64(3))), 7, 0)


def room(z):
    """lemma, decided by enumerating every chunk size: every chunk that starts inside the zone has its own byte in the tag area"""
    return ult(udiv(c64(ZUSER - 1), z.cs), tagsize(z))


assert all((ZUSER - 1) // cs < -(-(ZUSER // cs) // PAGE) * PAGE for cs in range(32, 65537, 32))


class TagContract(ZContract):
    raw = False
    params = ('p', 'zone')
    zpos = 1
    deftags = ('P21',)
    frame_default = 'P21'
    abort_tags = ('P21',)
    must_tags = ('P21',)

    def build(self, eng, st):
        return [userptr(eng), zparam(eng, st)]

    def requires(self, eng, S0, a):
        if a.k is None:
            return []
        return self.zreq(a) + [C('lemma: the tag area has a byte for every chunk', room(a.z), 'P21'), C('the zone is tagged', ne(and_(a.z._('tagged'), const(1, 8)), const(0, 8)), 'P21')]

    def bad(self, a, p):
        off = sub(p, a.z.user)
        return bor(uge(off, c64(ZUSER)), ne(urem(off, a.z.cs), c64(0)))

    def tag(self, S, a, p):
        return ubyte(S, add(tagbase(a.z), udiv(sub(p, a.z.user), a.z.cs)))


class GetTag(TagContract):
    name = '_iso_alloc_get_mem_tag'

    def outcomes(self, eng, S0, a):
        b = self.bad(a, a.p)
        return [Out('the address is not the start of a chunk of the zone', b, abort=True),
                Out('tag', bnot(b), ret=lambda s: self.tag(S0, a, a.p))]

    def ensures(self, eng, S0, S1, a, ret, oc):
        return [C('the tag returned is the one tag of that chunk', eq(ret, self.tag(S0, a, a.p)), 'P21')]


class NullTag(TagContract):
    """the pointer or the zone may be null: nothing is looked up then"""
    strip = True

    def bind(self, eng, S0, args):
        if is_c(args[1]) and args[1].p == 0:
            a = Contract.bind(self, eng, S0, args)
            a.k = None
            return a
        return TagContract.bind(self, eng, S0, args)

    def cases(self, eng):
        return [('zone', self.build), ('no zone', lambda e, s: [userptr(e), c64(0)])]

    def plain(self, a):
        return and_(a.p, M56) if self.strip else a.p

    def wrong(self, S0, a):
        return self.bad(a, self.plain(a))

    def outcomes(self, eng, S0, a):
        null = TRUE if a.k is None else eq(a.p, c64(0))
        out = [Out('null', null, ret=lambda s: c64(0))]
        if a.k is not None:
            w = self.wrong(S0, a)
            o1 = Out('rejected', band(bnot(null), w), abort=True)
            out = [o1, Out('null', null, ret=lambda s: c64(0)), Out('accepted', band(bnot(null), bnot(w)), ret=lambda s: self.value(S0, a))]
        return out

    def value(self, S0, a):
        raise NotImplementedError

    def ensures(self, eng, S0, S1, a, ret, oc):
        if oc.name == 'null':
            return [C('null stays null', eq(ret, c64(0)), 'P21')]
        return [C(self.what, eq(ret, self.value(S0, a)), 'P21')]


class TagPtr(NullTag):
    name = '_tag_ptr'
    strip = False
    what = 'the top byte of the tagged pointer is the tag of its chunk and the address is unchanged'

    def value(self, S0, a):
        return or_(shl(zext(self.tag(S0, a, self.plain(a)), 64), c64(56)), a.p)


class UntagPtr(NullTag):
    name = '_untag_ptr'
    what = 'the tag of the chunk is removed from the top byte and the address is unchanged'

    def value(self, S0, a):
        return tm.xor(shl(zext(self.tag(S0, a, self.plain(a)), 64), c64(56)), a.p)


class VerifyTag(NullTag):
    name = '_iso_alloc_verify_tag'

    def wrong(self, S0, a):
        p = self.plain(a)
        return bor(self.bad(a, p), ne(zext(self.tag(S0, a, p), 64), lshr(a.p, c64(56))))

    def ensures(self, eng, S0, S1, a, ret, oc):
        return []

    def outcomes(self, eng, S0, a):
        out = NullTag.outcomes(self, eng, S0, a)
        for o in out:
            o.ret = None
        return out


class RefreshTags(TagContract):
    name = '_refresh_zone_mem_tags'
    params = ('zone',)
    zpos = 0

    def build(self, eng, st):
        return [zparam(eng, st)]

    def requires(self, eng, S0, a):
        return TagContract.requires(self, eng, S0, a) + [C('retirement shift', ule(zx(S0.leaf('ROOT.zone_retirement_shf')), c64(8)), 'P21')]

    def due(self, S0, a):
        z = a.z
        shf = S0.leaf('ROOT.zone_retirement_shf')
        lim = lshr(shl(z._('chunk_count'), trunc(shf, 32) if shf.w > 32 else zext(shf, 32)), const(2, 32))
        return band(eq(z._('af_count'), const(0, 32)), ugt(z._('alloc_count'), lim))

    def outcomes(self, eng, S0, a):
        d = self.due(S0, a)
        return [Out('kept', bnot(d), ret=lambda s: const(0, 1) if False else FALSE), Out('refreshed', d, ret=lambda s: TRUE)]

    def modifies(self, eng, S0, a, oc):
        if oc.name == 'kept':
            return []
        z = a.z
        return [('ROOT.seed', None), ('PM.U', lambda x: ult(sub(x, tagbase(z)), tagsize(z)))]

    def ensures(self, eng, S0, S1, a, ret, oc):
        r = ret if ret.w == 0 else ne(ret, const(0, ret.w))
        return [C('reports whether the tags of the zone were replaced', r if oc.name == 'refreshed' else bnot(r), 'P21')]


CONTRACTS = [GetTag(), TagPtr(), UntagPtr(), VerifyTag(), RefreshTags()]
