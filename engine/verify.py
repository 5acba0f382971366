"""Verify one function of /repo against its contract."""
import os, sys, time, json, traceback, resource
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'specs'))
import terms as tm
from terms import *
import solve
from solve import Forall
from exec import Eng, St, View, Clause, Obl, PathBudget, same_mem
from ir import Unsupported
from mem import read


def verify(eng, c, want=None, log=None):
    """-> list of Obl"""
    eng.curfn = c.name
    eng.want = want
    eng.deftags = c.deftags
    eng.obls = []
    eng.defer = [] if SHARDS > 1 else None
    for cname, builder in c.cases(eng):
        if eng.only_case is not None and cname != eng.only_case:
            continue
        verify_case(eng, c, cname, builder, log)
    if eng.defer:
        discharge(eng)
    return eng.obls


SHARDS = 1
MASKED = ('ZS.user_pages_start', 'ZS.bitmap_start', 'ZS.pointer_mask')      # a zone is masked again when a function returns
TOKENS = None       # pipe holding one byte per processor


def grab():
    if TOKENS:
        os.read(TOKENS[0], 1)


def give():
    if TOKENS:
        os.write(TOKENS[1], b'x')


def discharge(eng):
    """decide the collected obligations in parallel child processes"""
    import pickle
    todo, eng.defer = eng.defer, None
    own = [(i, 0, o) for i, o in enumerate(eng.obls)]
    n = min(SHARDS, max(1, len(todo)))
    kids = []
    give()
    for k in range(n):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                grab()
                st0 = dict(solve.STATS)
                out = []
                for j in range(k, len(todo), n):
                    at, s, fn, name, f, tags, where, detail, hints, facts = todo[j]
                    eng.obls, eng.curfn = [], fn
                    eng.prove(s, name, f, tags, where, detail, hints, facts)
                    out += [(at, j + 1, (o.fn, o.name, tuple(o.tags), o.st, o.time, o.where, o.detail, json.loads(json.dumps(o.cex, default=str)))) for o in eng.obls]
                d = {k: solve.STATS[k] - st0.get(k, 0) for k in solve.STATS if isinstance(solve.STATS[k], (int, float)) and k != 'max'}
                with os.fdopen(w, 'wb') as fh:
                    pickle.dump((out, d), fh)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                give()
                os._exit(code)
        os.close(w)
        kids.append((pid, r))
    got = []
    for pid, r in kids:
        with os.fdopen(r, 'rb') as fh:
            data = fh.read()
        os.waitpid(pid, 0)
        try:
            out, d = pickle.loads(data)
        except Exception:
            raise Unsupported('a proof worker died')
        got += [(at, j, Obl(*o[:7], o[7])) for at, j, o in out]
        for k, v in d.items():
            solve.STATS[k] = solve.STATS.get(k, 0) + v
    grab()
    eng.obls = [o for _, _, o in sorted(own + got, key=lambda x: (x[0], x[1] == 0, x[1]))]


def add_obl(eng, name, tags, st, why, time_=0.0, where='', cex=None):
    if eng.want is not None and not (set(tags) & eng.want):
        return
    eng.obls.append(Obl(eng.curfn, name, tags, st, time_, where, why, cex))


def verify_case(eng, c, cname, builder, log=None):
    sfx = ' [%s]' % cname if cname else ''
    eng.case = cname
    st = St()
    eng.regs = {}
    args = builder(eng, st)
    st.assume(*eng.model.ground())
    S0 = View(eng, dict(st.mem), st)
    a = c.bind(eng, S0, args)
    eng.cur_a, eng.cur_S0, eng.cur_c = a, S0, c
    for cl in c.requires(eng, S0, a):
        st.assume(cl)
    st.locks = tuple(sorted(c.need_locks))
    # vacuity: the assumptions are satisfiable
    t0 = time.time()
    if eng.want is None or True:
        q = eng.ground_query(st, [])
        r = solve.check_sat(q, timeout=8000, name='vacuity')
        if r.st == 'unsat':
            eng.obls.append(Obl(eng.curfn, 'contract assumptions are satisfiable' + sfx, tuple(eng.want or ('P38',)), 'failed', time.time() - t0, '', 'vacuous precondition'))
            return
    eng.loop_specs = lambda ctx: c.loop_specs(eng, ctx, a)
    entry = st.copy()
    t1 = time.time()
    outs = eng.run(c.name, st, args)
    eng.t_explore = getattr(eng, "t_explore", 0) + time.time() - t1
    nret = nab = 0
    ocs = c.outcomes(eng, S0, a)
    for kind, s, v in outs:
        if kind == 'abort':
            nab += 1
            if s.ghost.get('oom'):
                continue
            for nm, g, tg in getattr(c, 'never_aborts', lambda *x: ())(eng, S0, a):
                if eng.want is None or set(tg) & eng.want:
                    eng.prove(s, 'never aborts for %s%s' % (nm, sfx), bnot(g), tg, v[1] if len(v) > 1 else '')
            conds = [o.cond for o in ocs if o.abort and not o.oom]
            g = bor(*conds) if not any(getattr(o, 'unless', None) for o in ocs) else FALSE
            if g is not TRUE:
                want = eng.want
                s = s.copy()
                hyp = [x for o in ocs if o.abort for u in [getattr(o, 'unless', None) or ()] for x in (u(s) if callable(u) else u)]
                if hyp:
                    s.assume(*hyp)
                    s.hint('s', *[scale(x, 2) for x in factors(s.pc[-12:])])
                    g = bor(*[o.cond for o in ocs if o.abort and not o.oom and not getattr(o, 'unless', None)])
                name = 'aborts only when its contract says so (abort in %s)%s' % (v[0] if v[0] != 'abort' else eng.curfn, sfx)
                if want is None or set(c.abort_tags) & want:
                    eng.prove(s, name, g, c.abort_tags, v[1] if len(v) > 1 else '')
            continue
        if kind == 'diverge':
            continue
        nret += 1
        check_return(eng, c, S0, a, s, v, ocs, sfx)
    add_reach(eng, c, sfx, nret, nab, ocs)


def add_reach(eng, c, sfx, nret, nab, ocs):
    if nret == 0 and any(not o.abort and o.cond is not FALSE for o in ocs):
        eng.obls.append(Obl(eng.curfn, 'some execution returns' + sfx, tuple(eng.want or c.deftags), 'failed', 0.0, '', 'no return path found'))


def check_return(eng, c, S0, a, s, v, ocs, sfx):
    want = eng.want

    def wanted(tags):
        return want is None or bool(set(tags) & want)
    if s.ghost.get('oom') and getattr(c, 'oom_must', None) and wanted(c.oom_must):
        eng.prove(s, 'never returns after a refused system call' + sfx, FALSE, c.oom_must)
        return
    rets = [o for o in ocs if not o.abort]
    ab = [o for o in ocs if o.abort and getattr(o, 'must', True)]
    for o in ab:
        mt = getattr(o, 'tags', None) or c.must_tags
        if o.cond is FALSE or o.cond is TRUE or not wanted(mt):
            continue
        eng.prove(s, 'never returns when it must abort: %s%s' % (o.name, sfx), bnot(o.cond), mt)
    guards = []
    for o in rets:
        g = o.cond
        if o.pick is not None:
            g = band(g, o.pick(v))
        if getattr(o, 'spick', None):
            g = band(g, o.spick(s, v))
        guards.append(g)
    ex = bor(*guards)
    if ex is not TRUE and wanted(c.deftags):
        eng.prove(s, 'return value is one the contract allows' + sfx, ex, c.deftags)
    for o, g in zip(rets, guards):
        if g is FALSE:
            continue
        s1 = s
        if g is not TRUE:
            if solve.check_sat(s.pc + [g], timeout=3000, name='outcome').st == 'unsat':
                continue
            s1 = s.copy()
            s1.assume(g)
        if o.effect:
            s1 = s1.copy()
            eng.final_ret = v
            o.effect(eng, s1, a)
        S1 = View(eng, s1.mem, s1)
        eng.final_S1, eng.final_ret = S1, v
        eng.final_ev, eng.final_hint_k = s1.ev, list(s1.hints.get('k', []))
        lk = c.locks(eng, s, a)
        if lk is not None and not wanted(('P22',)):
            pass
        elif lk is not None:
            exp = tuple(sorted(lk[2](tuple(sorted(c.need_locks)), o)))
            if tuple(sorted(s.locks)) != exp:
                eng.prove(s1, 'lock state on return (%s expected, %s held)%s' % (exp, s.locks, sfx), FALSE, ('P22',))
            else:
                add_obl(eng, 'lock state on return' + sfx, ('P22',), 'proved', 'syntactic')
        osfx = sfx + (' {%s}' % o.name if len(rets) > 1 else '')
        for cl in c.ensures(eng, S0, S1, a, v, o):
            tags = cl.tags or c.deftags
            if not wanted(tags):
                continue
            eng.prove(s1, 'ensures ' + cl.name + osfx, cl.f, tags, hints=cl.hints)
        if wanted(c.ev_tags):
            for nm, f, tg in c.check_events(eng, S0, S1, a, v, o, s1.ev):
                eng.prove(s1, nm + osfx, f, tg or c.ev_tags)
        # frame
        mods = {}
        for key, sl in c.modifies(eng, S0, a, o):
            mods.setdefault(key, []).append(sl)
        for key in sorted(set(S0.mem) | set(s1.mem) | {k for k in MASKED if k in eng.leafw}):
            if key.startswith('alloca!') or key.startswith('PM.local') or key == '@errno':
                continue
            v0, v1 = S0.mem_ver(key), s1.mem.get(key) or eng.leaf_base(key)
            if v0 is v1:
                if key in MASKED and not getattr(c, 'raw', False):
                    add_obl(eng, 'frame: %s unchanged%s' % (key, osfx), ('P27',), 'proved', 'syntactic')
                continue
            tags = c.frame_tag(key)
            if key in MASKED and not getattr(c, 'raw', False):
                tags = tuple(tags) + ('P27',)
            if not wanted(tags):
                continue
            sls = mods.get(key, [])
            if any(x is None for x in sls):
                continue
            nidx = leaf_arity(eng)(key)
            vs = [fresh('sk_' + frame_sort(key, i), 64) for i in range(nidx)]
            inside = bor(*[slice_fn(x)(*vs) for x in sls]) if sls else FALSE
            lhs, rhs = read(v1, tuple(vs)), read(v0, tuple(vs))
            goal = bor(inside, eq(lhs, rhs)) if lhs.w else bor(inside, iff(lhs, rhs))
            h = {}
            for i, x in enumerate(vs):
                h.setdefault(frame_sort(key, i), []).append(x)
            eng.prove(s1, 'frame: %s unchanged outside the footprint%s' % (key, osfx), goal, tags, hints=h)


def factors(ts):
    """o for every product (or sum of products with a common factor) f*o that occurs"""
    out = []
    for x in atoms(ts):
        ms = [(x, 1)] if x.op == 'mul' else [(a, k) for a, k in zip(x.args, x.p[1]) if a.op == 'mul'] if x.op == 'lin' and x.w == 64 else []
        for f in {y for a, k in ms for y in a.args}:
            o = const(0, 64)
            for a, k in ms:
                if f in a.args:
                    o = add(o, scale(a.args[1] if a.args[0] is f else a.args[0], k))
            if o not in out and not is_c(o):
                out.append(o)
    return out[:40]


def slice_fn(x):
    if isinstance(x, tuple):
        def f(*idx):
            r = TRUE
            for a, b in zip(idx, x):
                if b is not None:
                    r = band(r, eq(a, b))
            return r
        return f
    return x


def frame_sort(key, i):
    if key.startswith('ZS.'):
        return 'k' if i == 0 else 'i'
    if key.startswith('PM.'):
        return 'a'
    return 'i'


def leaf_arity(eng):
    tab = {}
    for r in list(eng.regions.values()) + list(eng.burstall.values()):
        for f in r.fields:
            k = r.name + ('.' + f.path if f.path != 'v' else '')
            tab[k] = (1 if (r.stride or r.name == 'BIG') else 0) + len(f.dims)

    def g(key):
        if key.startswith('PM.'):
            return 1
        return tab.get(key, 1)
    return g


def report(obls):
    out = {}
    for o in obls:
        out[o.st] = out.get(o.st, 0) + 1
    return out
