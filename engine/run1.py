import sys, time, os
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'specs'))
import build, ir, verify, core, solve
from exec import Eng
import specs_all

def main():
    fn = sys.argv[1]; cfg = sys.argv[2] if len(sys.argv) > 2 and not sys.argv[2].startswith('-') else 'default'
    want = None
    for a in sys.argv:
        if a.startswith('-t='): want = set(a[3:].split(','))
    mod = ir.Module(build.build_ir(cfg))
    eng = specs_all.make_engine(mod, cfg)
    import json
    ip = os.path.join(HERE, '..', 'specs', 'invariants.json')
    if os.path.exists(ip) and '-full' not in sys.argv:
        eng.inv_in = {tuple(k.split('|')): set(v) for k, v in json.load(open(ip)).items()}
    c = specs_all.find(eng, fn)
    verify.SHARDS = int(os.environ.get('SHARDS', '8'))
    t = time.time()
    obls = verify.verify(eng, c, want)
    for o in obls:
        print('%-9s %6.2fs %s [%s] %s %s' % (o.st, o.time, o.name, ','.join(o.tags), o.where, o.detail if o.st != 'proved' else ''))
        if o.st != 'proved' and o.cex and '-v' in sys.argv:
            for x in o.cex.get('trace', [])[-40:]: print('      ', x)
            print('       goal', o.cex.get('goal'))
            for k, v in list(o.cex.items())[:60]:
                if k not in ('trace', 'goal'): print('       ', k, '=', v)
    print('explore %.1f' % eng.t_explore, verify.report(obls), 'time %.1f' % (time.time() - t), solve.STATS, 'paths', eng.paths)
    if '-save' in sys.argv:
        d = json.load(open(ip)) if os.path.exists(ip) else {}
        for k, v in eng.inv_out.items(): d['|'.join(k)] = sorted(v)
        json.dump(d, open(ip, 'w'), indent=0, sort_keys=True)
    if '-l' in sys.argv:
        for r in eng.loop_report: print(r)
main()
