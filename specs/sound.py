"""Zone verification, leak detection and memory usage figures."""
from core import *
from zone import *
from root import RW, used, kpat, KP


def slot_sound(z, e):
    return imp(band(z.slot_ok(e), eq(z.bit2(e), c64(1))), z.canary_ok(z.chunk(e)))


def sound(z, lim=None):
    """every chunk of the zone that carries a canary (below slot lim) carries the right one at both ends"""
    return forall('snd', [('s', 64)], lambda e: imp(TRUE if lim is None else ult(e, lim), slot_sound(z, e)), [[('#', 's')]])


class VerifyZone(ZContract):
    name = '_verify_zone'
    raw = False
    deftags = ('P19',)
    frame_default = 'P19'
    abort_tags = ('P19',)
    must_tags = ('P19',)

    def requires(self, eng, S0, a):
        w = RW(eng, S0)
        return self.zreq(a) + [w.bounds()]

    def outcomes(self, eng, S0, a):
        z = a.z
        n = used(S0)
        nx = zext(z._('next_sz_index'), 64)
        zt = Zone(S0, nx)
        o1 = Out('the next zone of the same size does not exist', uge(nx, n), abort=True)
        o2 = Out('the next zone has another chunk size', band(ult(nx, n), ne(nx, c64(0)), ne(zt.cs32, z.cs32)), abort=True)
        out = [o1, o2]
        if canaries(eng):
            o3 = Out('a canary is damaged', TRUE, abort=True)
            o3.must = False          # stated as: it returns only when every canary is right
            o3.unless = [sound(z)]

            def wit(st):
                e = fresh('bad', 64)
                st.hint('s', e)
                return bnot(slot_sound(z, e))
            o3.witness = wit
            out.append(o3)
        return out + [Out('sound')]

    def ensures(self, eng, S0, S1, a, ret, oc):
        if not canaries(eng):
            return []
        return [C('returns only when every free or canary chunk carries the right canary at both ends', sound(a.z), 'P19')]

    def loop_specs(self, eng, ctx, a):
        from loops import Cand
        S0 = eng.cur_S0
        z0 = Zone(S0, a.k)
        out = []
        for lim_name, lim in limits(ctx):
            out.append(Cand('canaries below %s-1 are right' % lim_name, lambda ph, S, it, lim=lim: sound(z0, sub(lim(ph), c64(1)))))
            out.append(Cand('canaries below %s are right' % lim_name, lambda ph, S, it, lim=lim: sound(z0, lim(ph))))
        return out


def limits(ctx):
    """slot bounds a scan over words and bit pairs has reached"""
    out = []
    envw = []
    for n, v in ctx.entry.items():
        if n not in ctx.phis and v.w in (32, 64) and not is_c(v) and v.op not in ('v',) and v not in envw:
            envw.append(v)
    for n in ctx.phis:
        w = ctx.entry[n].w
        if w not in (32, 64):
            continue

        def val(ph, n=n):
            return zext(ph[n], 64) if ph[n].w == 32 else ph[n]
        out.append(('%s' % n, val))
        out.append(('%s<<6' % n, lambda ph, val=val: shl(val(ph), c64(6))))
        if ctx.kind[n][0] == 'aff':
            for i, v in enumerate(envw):
                vv = zext(v, 64)
                if not ctx_counter(v):
                    continue
                out.append(('%d<<6+%s' % (i, n), lambda ph, val=val, vv=vv: add(shl(vv, c64(6)), val(ph))))
                out.append(('%d+%s' % (i, n), lambda ph, val=val, vv=vv: add(vv, val(ph))))
    return out


def ctx_counter(v):
    """is the value a loop counter (linear in an iteration variable), possibly shifted?"""
    c, d = lin_of(v)
    return len(d) == 1 and all(a.op == 'zext' or a.op == 'v' and a.p.startswith('it!') or a.op == 'f' and a.p.startswith('phi.') for a in d)


class VerifyZoneLocked(VerifyZone):
    """takes the root lock around the check"""
    name = 'verify_zone'
    need_locks = ()
    forbid_locks = ('root',)

    def loop_specs(self, eng, ctx, a):
        return []


CONTRACTS = [VerifyZone(), VerifyZoneLocked()]
