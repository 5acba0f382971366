#!/usr/bin/env python3-vt
"""Decide one property: extract the code of /repo, generate and discharge the obligations of every function
the property depends on.   check.py P01 [--tier quick|thorough] [--jobs N] [-v]"""
import json, os, re, sys, time, traceback, pickle, signal, select, subprocess
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.path.insert(0, os.path.join(HERE, 'specs'))
sys.path.insert(0, os.path.join(HERE, 'replay'))
import build, ir, verify, solve
import specs_all, props
from exec import Obl, PathBudget
from ir import Unsupported

T0 = time.time()
SEED = int(os.environ.get('VERIF_SEED', '1'))


def load_inv():
    p = os.path.join(HERE, 'specs', 'invariants.json')
    if not os.path.exists(p):
        return {}
    return {tuple(k.split('|')): set(v) for k, v in json.load(open(p)).items()}


def run_job(mod, fn, cfg, case, want, thorough, inv):
    """in the child process -> dict"""
    t0 = time.time()
    c = None
    res = dict(fn=fn, cfg=cfg, case=case, obls=[], paths=0, contracts=[], inlined=[], notes=[])

    def attempt(warm):
        eng = specs_all.make_engine(mod, cfg)
        eng.inv_in = inv if warm else {}
        eng.only_case = case
        if thorough:
            eng.rounds = 3
        c = specs_all.find(eng, fn)
        try:
            obls = verify.verify(eng, c, want)
            obls = [(o.fn, o.name, tuple(o.tags), o.st, o.time, o.where, o.detail, jsonable(o.cex)) for o in obls]
        except (Unsupported, PathBudget) as e:
            tb = traceback.format_exc()
            obls = [(fn, 'the function is within reach of the verifier', tuple(want), 'undecided', 0.0, '', '%s: %s' % (type(e).__name__, e), {'traceback': tb[-1500:]})]
        except Exception as e:
            tb = traceback.format_exc()
            obls = [(fn, 'the verifier handles the function', tuple(want), 'undecided', 0.0, '', '%s: %s' % (type(e).__name__, e), {'traceback': tb[-3000:]})]
        return obls, eng
    obls, eng = attempt(True)
    if any(o[3] != 'proved' for o in obls) and inv and eng.used_warm:
        o2, e2 = attempt(False)
        res['notes'].append('loop invariants inferred from scratch')
        if sum(o[3] != 'proved' for o in o2) <= sum(o[3] != 'proved' for o in obls):
            obls, eng = o2, e2
    res.update(obls=obls, paths=eng.paths, contracts=sorted(eng.used_contracts), inlined=sorted(eng.inlined),
               stats=dict(solve.STATS), wall=time.time() - t0, assumptions=sorted(eng.assumptions))
    return res


def jsonable(x):
    if x is None:
        return None
    return json.loads(json.dumps(x, default=str))


def schedule(jobs, mods, want, thorough, inv, nproc, limit):
    """fork one child per job, at most nproc at a time"""
    todo = list(jobs)
    verify.SHARDS = nproc
    verify.TOKENS = os.pipe()
    os.write(verify.TOKENS[1], b'x' * nproc)
    end = time.time() + limit
    live = {}
    out = []
    while todo or live:
        while todo and len(live) < 3 * nproc:
            fn, cfg, case, jw = todo.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                os.setpgid(0, 0)
                code = 0
                try:
                    import z3
                    z3.set_param('smt.random_seed', SEED)
                    z3.set_param('sat.random_seed', SEED)
                    verify.grab()
                    res = run_job(mods[cfg], fn, cfg, case, jw or want, thorough, inv)
                    verify.give()
                except BaseException:
                    res = dict(fn=fn, cfg=cfg, case=case, paths=0, contracts=[], inlined=[], notes=[], stats={}, wall=0, assumptions=[],
                               obls=[(fn, 'the verifier handles the function', tuple(want), 'undecided', 0.0, '', traceback.format_exc()[-2000:], None)])
                with os.fdopen(w, 'wb') as f:
                    pickle.dump(res, f)
                os._exit(0)
            os.close(w)
            live[r] = (pid, fn, cfg, case, time.time(), b'')
        rs, _, _ = select.select(list(live), [], [], 1.0)
        for r in rs:
            pid, fn, cfg, case, t, buf = live[r]
            d = os.read(r, 1 << 16)
            if d:
                live[r] = (pid, fn, cfg, case, t, buf + d)
                continue
            os.close(r)
            os.waitpid(pid, 0)
            del live[r]
            try:
                out.append(pickle.loads(buf))
            except Exception:
                out.append(dict(fn=fn, cfg=cfg, case=case, paths=0, contracts=[], inlined=[], notes=[], stats={}, wall=time.time() - t, assumptions=[],
                                obls=[(fn, 'the verifier finishes', tuple(want), 'undecided', 0.0, '', 'worker died', None)]))
        for r in list(live):
            pid, fn, cfg, case, t, buf = live[r]
            if time.time() > end:
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(r)
                del live[r]
                out.append(dict(fn=fn, cfg=cfg, case=case, paths=0, contracts=[], inlined=[], notes=[], stats={}, wall=time.time() - t, assumptions=[],
                                obls=[(fn, 'the verifier finishes within its time limit', tuple(want), 'undecided', 0.0, '', 'time limit %d s' % limit, None)]))
    return out


def known(pid):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k.get('property') == pid and k.get('status') == 'known']


def main():
    pid = sys.argv[1]
    if pid == '--setup':
        import z3
        print('z3 %s, clang %s' % (z3.get_version_string(), subprocess.run(['clang', '--version'], capture_output=True, text=True).stdout.split(chr(10))[0]))
        for d in ('evidence', 'evidence/replay'):
            os.makedirs(os.path.join(HERE, d), exist_ok=True)
        sys.exit(0)
    tier = os.environ.get('VERIF_TIER', 'quick')
    nproc = os.cpu_count() or 4
    verbose = '-v' in sys.argv
    for i, a in enumerate(sys.argv):
        if a == '--tier':
            tier = sys.argv[i + 1]
        if a == '--jobs':
            nproc = int(sys.argv[i + 1])
    thorough = tier == 'thorough'
    P = props.PROPS[pid]
    want = {pid} | set(P.get('tags', ()))
    jobs0 = list(P['jobs']) + (list(P.get('thorough', [])) if thorough else [])
    cfgs = sorted({j[1] for j in jobs0})
    texts = {}
    try:
        import concurrent.futures as cf
        with cf.ThreadPoolExecutor(4) as ex:
            for cfg, t in zip(cfgs, ex.map(build.build_ir, cfgs)):
                texts[cfg] = t
    except build.BuildError as e:
        print('ERROR: /repo does not build: %s' % e)
        sys.exit(2)
    mods = {cfg: ir.Module(t) for cfg, t in texts.items()}
    inv = load_inv()
    jobs, missing = [], []
    results = []
    for j in jobs0:
        fn, cfg = j[0], j[1]
        if fn not in mods[cfg].funcs or mods[cfg].funcs[fn] is None:
            missing.append((fn, cfg))
            continue
        jobs.append((fn, cfg, j[2] if len(j) > 2 else None, {j[3]} if len(j) > 3 else None))
    for fn, cfg in missing:
        c = specs_all.find(None, fn)
        if c.api:
            results.append(dict(fn=fn, cfg=cfg, case=None, paths=0, contracts=[], inlined=[], notes=[], stats={}, wall=0, assumptions=[],
                                obls=[(fn, 'the function exists', tuple(want), 'undecided', 0.0, '', 'not defined in this tree', None)]))
    w = props.WEIGHT
    jobs.sort(key=lambda j: -w.get(j[0], 5))
    results += schedule(jobs, mods, want, thorough, inv, nproc, 1500 if thorough else 690)
    # every function the property reaches that is neither under contract nor inlined is a gap
    obls = [(r, o) for r in results for o in r['obls']]
    bad = [(r, o) for r, o in obls if o[3] != 'proved']
    kn = known(pid)
    viol, hits = [], []
    for r, o in bad:
        k = None
        for q in kn:
            if q['fn'] == o[0] and re.search(q['obligation'], o[1]) and re.search(q.get('where', ''), o[5] or '') and (not q.get('cfg') or q['cfg'] == r['cfg']):
                k = q
        if k:
            if k not in hits:
                hits.append(k)
        else:
            viol.append((r, o))
    for k in hits:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    n = len(obls)
    ok = sum(1 for _, o in obls if o[3] == 'proved')
    if n == 0 or (not jobs):
        print('ERROR: no obligations were generated for %s' % pid)
        sys.exit(2)
    st = {}
    for r in results:
        for k, v in r['stats'].items():
            if isinstance(v, (int, float)) and k != 'max':
                st[k] = st.get(k, 0) + v
    per = {}
    for r in results:
        d = per.setdefault('%s [%s]' % (r['fn'], r['cfg']), dict(obligations=0, discharged=0, paths=0, seconds=0.0))
        d['obligations'] += len(r['obls'])
        d['discharged'] += sum(o[3] == 'proved' for o in r['obls'])
        d['paths'] += r['paths']
        d['seconds'] = round(d['seconds'] + r['wall'], 1)
    level = P.get('level', 'proof')
    cov = dict(obligations=n, discharged=ok, checker_cmd='python3-vt check.py %s --tier %s' % (pid, tier),
               trusted_base=props.TRUSTED, functions_under_contract=sorted({r['fn'] for r in results}),
               callee_contracts_used=sorted({c for r in results for c in r['contracts']}), inlined=sorted({c for r in results for c in r['inlined']}),
               configurations=cfgs, per_function=per, solver_queries=st.get('queries', 0), solver_seconds=round(st.get('time', 0.0), 1),
               backends=dict(z3=ok, cvc5_cross_checked=st.get('cvc5', 0), cvc5_disagreements=st.get('cvc5_disagree', 0)),
               assumptions=props.ASSUME + list(P.get('assume', [])), known_findings=len(hits),
               samples=['%s: %s' % (o[0], o[1]) for _, o in obls[:: max(1, n // 25)]][:25],
               notes=sorted({x for r in results for x in r['notes']}))
    ev = dict(property=pid, tier=tier, seed=SEED, level=level, coverage=cov, assumptions=props.ASSUME + list(P.get('assume', [])),
              violations=len(viol), wall_s=round(time.time() - T0, 1))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    if verbose:
        for r, o in bad:
            print('  %-9s %s [%s] %s %s %s' % (o[3], o[0], r['cfg'], o[1], o[5], o[6][:200]))
        for k, v in sorted(per.items(), key=lambda kv: -kv[1]['seconds']):
            print('  %-50s %4d/%4d %6.1fs' % (k, v['discharged'], v['obligations'], v['seconds']))
    print('%s: %d of %d obligations discharged in %d functions, %d solver queries, %.1f s' % (
        pid, ok, n, len(cov['functions_under_contract']), st.get('queries', 0), time.time() - T0))
    rc = 0
    if viol:
        rc = 1
        rdir = os.path.join(HERE, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s.json' % pid)
        rec = dict(property=pid, tree=build.tree_hash(), violated=[
            dict(function=o[0], configuration=r['cfg'], obligation=o[1], status=o[3], where=o[5], detail=o[6], counterexample=o[7]) for r, o in viol[:20]])
        found = None
        if P.get('replay') and '--no-replay' not in sys.argv:
            import replay
            try:
                found = replay.hunt(pid, P['replay'], viol)
            except Exception as e:
                rec['replay_error'] = str(e)
        if found:
            rec['replayed'] = found
        json.dump(rec, open(path, 'w'), indent=1)
        for r, o in viol[:8]:
            print('  failed obligation: %s [%s]: %s (%s) %s' % (o[0], r['cfg'], o[1], o[3], o[5]))
        print('VIOLATION property=%s replay=%s%s' % (pid, path, '' if found else ' no-failing-input-found'))
        cov['violations'] = len(viol)
    json.dump(ev, open(os.path.join(HERE, 'evidence', '%s.json' % pid), 'w'), indent=1)
    sys.exit(rc)


if __name__ == '__main__':
    main()
