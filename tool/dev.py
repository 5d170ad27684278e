"""dev.py [-t] MODULE... : regenerate work/gen.rs and verify modules; prints errors with function names"""
import sys, os
sys.path.insert(0, '/verif/tool')
import trans, emit, vrun, json, pickle, subprocess
from concurrent.futures import ThreadPoolExecutor
os.makedirs('/verif/work', exist_ok=True)
if not os.path.exists('/verif/work/crate.pkl') or '-t' in sys.argv:
    tf = '/tmp/v/thir.txt'
    sys.setrecursionlimit(100000)
    cr = trans.Crate(tf, '/repo/src'); pickle.dump(cr, open('/verif/work/crate.pkl', 'wb'))
else: sys.setrecursionlimit(100000); cr = pickle.load(open('/verif/work/crate.pkl', 'rb'))
specs = trans.load_specs('/verif/specs')
g = emit.Gen(cr, specs); g.build()
for k, w in g.demoted.items(): print('DEMOTED', k, w)
open('/verif/work/gen.rs', 'w').write(g.text())
mods = [a for a in sys.argv[1:] if not a.startswith('-')]
fn = None
if '-f' in sys.argv: fn = sys.argv[sys.argv.index('-f') + 1]; mods.remove(fn)
rl = 30
if '-r' in sys.argv: rl = float(sys.argv[sys.argv.index('-r') + 1]); mods.remove(sys.argv[sys.argv.index('-r') + 1])
def go(m): return vrun.run_module('/verif/work/gen.rs', m, fn=fn, rlimit=rl, threads=8 if len(mods) == 1 else 3)
with ThreadPoolExecutor(4) as ex:
    for r in ex.map(go, mods):
        print(f"== {r['mod']}: verified {r['verified']} errors {r['nerr']} wall {r['wall']:.1f}s smt {r['smt_ms']}ms compile={r['compile']}")
        for e in r['errors'][:int(os.environ.get('MAXE', '12'))]:
            ks = {g.at(l) for l, _, _ in e['lines']}
            print('--', ks, e['rendered'][:1500] if e['lines'] else e['msg'])
        if r['compile']: sys.exit()
        if not r['errors'] and r['rc']: print(r['raw'][:1500])
        slow = sorted(((v['ms'], k) for k, v in r['fns'].items()), reverse=True)[:6]
        print('   slow:', [(m, k.split('::')[-1]) for m, k in slow if m > 1500])
