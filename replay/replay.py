"""Look for a concrete failing history on the real code, after an obligation failed."""
import os, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, '..', 'engine'))
import build

WRAP = ['pthread_mutex_lock', 'pthread_mutex_unlock', 'mmap', 'getrandom']


def compile_driver(cfg, tmp):
    """the driver includes iso_alloc.c; the other sources of /repo are compiled with the flags of the configuration"""
    fl = [f for f in build.flags(cfg) if not f.startswith(('-O', '-flto', '-W', '-fvisibility', '-shared'))]
    fl += ['-w', '-O1', '-g', '-I' + build.REPO, '-I' + os.path.join(build.REPO, 'include'), '-D_GNU_SOURCE=1']
    srcs = sorted(f for f in os.listdir(os.path.join(build.REPO, 'src')) if f.endswith('.c') and f != 'iso_alloc.c')
    ps, objs = [], []
    for s, path in [(s, os.path.join(build.REPO, 'src', s)) for s in srcs] + [('driver.c', os.path.join(HERE, 'driver.c'))]:
        o = os.path.join(tmp, '%s.%s.o' % (cfg, s))
        objs.append(o)
        ps.append((s, subprocess.Popen(['clang'] + fl + ['-c', path, '-o', o], cwd=build.REPO, stderr=subprocess.PIPE, text=True)))
    err = ''
    for s, p in ps:
        e = p.communicate()[1]
        if p.returncode:
            err += '%s: %s' % (s, e[:1500])
    if err:
        raise RuntimeError(err)
    exe = os.path.join(tmp, 'driver.' + cfg)
    r = subprocess.run(['clang'] + objs + ['-o', exe, '-lpthread', '-ldl', '-lm'] + ['-Wl,--wrap=' + w for w in WRAP], capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError(r.stderr[:1500])
    return exe


def hunt(pid, spec, viol=None, budget=100, seed=1, jobs=8):
    """spec: [(cfg, mode, rounds)...] -> dict of the first failing run, or None"""
    tmp = tempfile.mkdtemp(prefix='isoreplay.')
    end = time.time() + budget
    try:
        exes = {}
        for cfg, _, _ in spec:
            if cfg not in exes:
                try:
                    exes[cfg] = compile_driver(cfg, tmp)
                except Exception as e:
                    exes[cfg] = None
                    sys.stderr.write('replay driver [%s]: %s\n' % (cfg, str(e)[:600]))
        live, n = [], 0
        ran = 0
        while time.time() < end or live:
            while len(live) < jobs and time.time() < end:
                cfg, mode, rounds = spec[n % len(spec)]
                n += 1
                if exes[cfg] is None:
                    if all(v is None for v in exes.values()):
                        return None
                    continue
                d = tempfile.mkdtemp(dir=tmp)
                s = seed + n
                out = open(os.path.join(d, 'out'), 'w+')
                p = subprocess.Popen([exes[cfg], mode, str(s), str(rounds)], cwd=d, stdout=out, stderr=subprocess.DEVNULL, start_new_session=True)
                live.append((p, out, cfg, mode, s, rounds, time.time(), d))
            time.sleep(0.02)
            for x in list(live):
                p, out, cfg, mode, s, rounds, t, d = x
                rc = p.poll()
                if rc is None:
                    if time.time() - t > 60 or time.time() > end + 5:
                        try:
                            os.killpg(p.pid, 9)
                        except OSError:
                            pass
                        p.wait()
                        live.remove(x)
                        out.close()
                        shutil.rmtree(d, ignore_errors=True)
                    continue
                live.remove(x)
                ran += 1
                out.seek(0)
                txt = out.read()
                out.close()
                shutil.rmtree(d, ignore_errors=True)
                if rc == 1 and 'FAIL' in txt:
                    for y in live:
                        try:
                            os.killpg(y[0].pid, 9)
                        except OSError:
                            pass
                        y[0].wait()
                    return dict(configuration=cfg, mode=mode, seed=s, rounds=rounds, output=txt[-6000:], runs=ran,
                                how='replay/driver.c built against /repo with the flags of the configuration; run: driver %s %d %d' % (mode, s, rounds))
        hunt.ran = ran
        return None
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    import json
    spec = [(a.split(':')[0], a.split(':')[1], int(a.split(':')[2])) for a in sys.argv[2:]]
    t = time.time()
    r = hunt('x', spec, budget=float(sys.argv[1]), seed=int(os.environ.get('SEED', '1')))
    print(json.dumps(r, indent=1).replace('\\n', '\n') if r else 'nothing found', getattr(hunt, 'ran', ''), round(time.time() - t, 1))
