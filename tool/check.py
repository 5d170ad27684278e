#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]

Extract the functions of /repo's working tree from rustc's THIR, attach the contracts in specs/, verify with Verus,
and search for a concrete failing input with the harness.  Exit 0 or 1 (VIOLATION)."""
import sys, os, re, json, time, subprocess, hashlib, fcntl, threading
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(200000); threading.stack_size(512 * 1024 * 1024)
import trans, emit, vrun, props
REPO = os.environ.get('VERIF_REPO', '/repo')
WORK = os.path.join(ROOT, 'work'); EVID = os.path.join(ROOT, 'evidence')

def log(*a): print(*a, flush=True)

# ------------------------------------------------------------------ building
def thir_text():
    """rustc's typed IR of every function of the crate, from the current working tree"""
    td = os.path.join(WORK, 'thir-target'); os.makedirs(td, exist_ok=True)
    cmd = ['cargo', '+nightly', 'rustc', '--lib', '--offline', '--locked', '--target-dir', td, '--', '-Zunpretty=thir-tree']
    env = {**os.environ, 'CARGO_TERM_COLOR': 'never'}; env.pop('RUSTFLAGS', None)
    for i in range(2):
        p = subprocess.run(cmd, cwd=REPO, capture_output=True, text=True, env=env)
        if p.returncode == 0 and 'params: [' in p.stdout: return p.stdout
        for d in (os.path.join(td, 'debug', '.fingerprint'),):
            if os.path.isdir(d):
                for f in os.listdir(d):
                    if f.startswith('onion-pir'): subprocess.run(['rm', '-rf', os.path.join(d, f)])
    raise RuntimeError('the crate does not build: ' + p.stderr[-1500:])

PROFILES = (('dev', []), ('release', ['--release']))
def build_harness():
    """the harness with debug assertions and overflow checks (dev) and without them (release): ({profile: binary}, error)"""
    env = {**os.environ, 'RUSTFLAGS': '--cfg verif_hooks', 'CARGO_TARGET_DIR': os.path.join(WORK, 'harness-target'), 'CARGO_TERM_COLOR': 'never'}
    out = {}
    for prof, fl in PROFILES:
        p = subprocess.run(['cargo', 'build', '--offline', '--locked'] + fl, cwd=os.path.join(ROOT, 'harness'), capture_output=True, text=True, env=env)
        if p.returncode != 0: return None, '\n'.join(l for l in p.stderr.split('\n') if l.startswith('error'))[:800]
        out[prof] = os.path.join(WORK, 'harness-target', 'debug' if prof == 'dev' else prof, 'harness')
    return out, ''

# ------------------------------------------------------------------ harness
def run_harness(exe, pid, seeds, ms):
    """-> (failure or None, {check: cases}); every second seed runs the release build"""
    tot = {}; fail = None
    def one(a):
        i, s = a; prof = PROFILES[i % 2][0]
        try: p = subprocess.run([exe[prof], 'run', pid, str(s), str(ms)], capture_output=True, text=True, timeout=ms / 1000 + 330)
        except subprocess.TimeoutExpired: return s, 'timeout', '', prof
        return s, p.returncode, p.stdout, prof
    with ThreadPoolExecutor(8) as ex:
        for s, rc, out, prof in ex.map(one, enumerate(seeds)):
            if rc == 0 and out.startswith('OK '):
                for k, v in json.loads(out[3:]).items(): tot[k] = tot.get(k, 0) + v
            elif rc == 1 and 'FAIL' in out and fail is None: fail = (prof, out)
            elif rc not in (0, 1) and fail is None and rc != 'timeout':
                # died without reporting (abort, stack overflow): a failure of the code under test on this seed
                fail = (prof, f'FAIL property={pid} check=? seed={s} case=?\nobserved: the process ended with status {rc}\n' + out)
    return fail, tot

# ------------------------------------------------------------------ verification
class Verify:
    def __init__(self, tier, pid):
        self.deadline = time.time() + (760 if tier == 'quick' else 5400)
        self.pid = pid; self.tier = tier; self.notes = []; self.err = None
    def load(self, text):
        tf = os.path.join(WORK, 'thir.txt'); open(tf, 'w').write(text)
        self.cr = trans.Crate(tf, os.path.join(REPO, 'src')); os.remove(tf)
        self.specs = trans.load_specs(os.path.join(ROOT, 'specs'))
        bf = os.path.join(ROOT, 'baseline.json')
        self.base = json.load(open(bf)) if os.path.exists(bf) else {}
    def gen(self, pid):
        """generate; demote functions whose loops no longer match the contracts"""
        g = emit.Gen(self.cr, self.specs, self.base); g.build()
        for k, f in list(g.fns.items()):
            b = self.base.get(k)
            if b and f.nloop != b['nloop'] and any(re.match(r'(inv|dec|begin|end|after|before) ', s) for s in self.specs[g.items[k].name].sec):
                g.demote(k, f'loop structure changed ({b["nloop"]} -> {f.nloop} loops)')
        self.g = g
        self.path = os.path.join(WORK, f'gen_{pid}.rs')
        open(self.path, 'w').write(g.text())
    def front(self, pid):
        """until the front end takes the file, demote the functions it refuses"""
        g = self.g
        for attempt in range(25):
            open(self.path, 'w').write(g.text())
            r = vrun.run_module(self.path, 'pre_base', extra=('--no-verify',))
            if not r['compile'] and not r['errors']: return True
            bad = {}
            for e in r['errors']:
                # the function in whose text the error is: the primary span
                for l, _, prim in sorted(e['lines'], key=lambda x: not x[2]):
                    k = g.at(l)
                    if k and k not in g.demoted and 'trusted' not in self.specs[g.items[k].name].sec: bad.setdefault(k, e['msg']); break
            if not bad:
                self.err = 'generated file does not compile: ' + '; '.join(e['msg'] for e in r['errors'][:3])[:600] + r['raw'][:300]
                return False
            for k, m in bad.items(): g.demote(k, 'not accepted by the verifier front end: ' + m[:200])
        self.err = 'generated file does not compile'
        return False
    def closure(self, roots):
        g = self.g; seen = []; todo = [k for k in g.items if g.items[k].name in roots]
        while todo:
            k = todo.pop()
            if k in seen: continue
            seen.append(k)
            f = g.fns.get(k)
            if f is None: continue
            todo += [g.key(c, i) for c, i in f.calls if g.key(c, i) in g.items]
        return seen
    def run(self, clo):
        g = self.g
        mods = ['u_' + u for u in sorted(g.units) if any(k in clo for k in g.units[u])]
        extra = [m for m in props.PROPS[self.pid].get('lemmas', []) if m in g.lemmods]
        lem = sorted(set(self.lemma_modules(mods + extra)) | set(extra))
        jobs = mods + lem
        rl = 60 if self.tier == 'quick' else 200
        def single(m): return vrun.run_module(self.path, m, rlimit=rl, threads=3, timeout=max(60, min(400, self.left() - 200)))
        r, per = vrun.run_modules(self.path, jobs, rlimit=rl, timeout=max(60, min(450, self.left() - 250)))
        if r['compile'] and not r['timeout']:
            if not self.front(self.pid): return False
            r, per = vrun.run_modules(self.path, jobs, rlimit=rl, timeout=max(60, min(450, self.left() - 250)))
        self.smt = r['smt_ms']
        if r['timeout'] or r['compile']: bad = jobs
        else:
            bad = [m for m in jobs if any(not d['ok'] for d in per[m].values())]
            if r['nerr'] and not bad: bad = jobs
        with ThreadPoolExecutor(4) as ex: again = dict(zip(bad, ex.map(single, bad)))
        self.res = [again.get(m) or {'mod': m, 'timeout': False, 'compile': False, 'errors': [], 'fns': per[m], 'raw': '', 'smt_ms': sum(d['ms'] or 0 for d in per[m].values())} for m in jobs]
        self.failed = {}; self.lemfail = {}; self.undecided = {}
        for r in self.res:
            if r['timeout']:
                for k in g.units.get(r['mod'][2:], []): self.undecided[k] = 'verifier timed out'
                continue
            if r['compile']:
                self.lemfail[r['mod']] = 'did not run: ' + '; '.join(e['msg'] for e in r['errors'])[:300] + r['raw'][:300]; continue
            for e in r['errors']:
                if not e['lines']: continue
                ks = [g.at(l) for l, _, p in e['lines'] if g.at(l)]
                # the function being checked is the one with the primary span in the module verified
                own = [k for k in ks if r['mod'] == 'u_' + self.specs[g.items[k].name].unit]
                prim = [g.at(l) for l, _, p in e['lines'] if p and g.at(l) in own] + own
                if r['mod'].startswith('lem_') or not prim:
                    self.lemfail.setdefault(r['mod'], e['rendered'][:600]); continue
                k = self.owner(e, r['mod'])
                self.failed.setdefault(k, []).append(e)
        # second opinion for what failed: more resources, other solver seeds
        if (self.failed or self.lemfail) and self.left() > 200:
            self.retry(rl)
        return True
    def left(self): return self.deadline - time.time()
    def owner(self, e, mod):
        """function whose body failed: for a failed precondition the call site, for a failed postcondition the function itself"""
        g = self.g
        cand = [(l, lab, p) for l, lab, p in e['lines'] if g.at(l) and mod == 'u_' + self.specs[g.items[g.at(l)].name].unit]
        for l, lab, p in cand:
            if 'failed precondition' in lab: continue
            if p: return g.at(l)
        for l, lab, p in cand:
            if 'failed precondition' not in lab: return g.at(l)
        return g.at(cand[0][0])
    def retry(self, rl):
        g = self.g
        mods = {('u_' + self.specs[g.items[k].name].unit) for k in self.failed} | set(self.lemfail)
        def again(a):
            m, seed = a
            return vrun.run_module(self.path, m, rlimit=rl * 2, threads=4, timeout=max(60, min(300, self.left() - 160)), extra=('--smt-option', f'smt.random_seed={seed}'))
        with ThreadPoolExecutor(4) as ex: rs = list(ex.map(again, [(m, s) for m in mods for s in (7, 1234)]))
        for r in rs:
            if r['timeout'] or r['compile']: continue
            still = set()
            for e in r['errors']:
                if e['lines']:
                    try: still.add(self.owner(e, r['mod']))
                    except IndexError: still.add(None)
            if r['mod'] in self.lemfail and not r['errors']: del self.lemfail[r['mod']]
            for k in list(self.failed):
                if r['mod'] == 'u_' + self.specs[g.items[k].name].unit and k not in still and None not in still: del self.failed[k]
    def lemma_modules(self, mods):
        """lemma modules whose names occur, transitively, in what is verified"""
        g = self.g; text = open(self.path).read().split('\n')
        body = {m: '\n'.join(text[a:b]) for m, (a, b) in g.modrange.items()}
        names = {m: set(re.findall(r'proof fn (\w+)', body[m])) for m in g.lemmods}
        words = {m: set(re.findall(r'\w+', body[m])) for m in body}
        need = set(); todo = list(mods)
        while todo:
            m = todo.pop()
            for l in g.lemmods:
                if l not in need and l != m and names[l] & words[m]: need.add(l); todo.append(l)
        return sorted(need)
    def probes(self, clo):
        """vacuity: `assert(false)` under each function's precondition must be refuted"""
        g = self.g; L = open(self.path).read().split('\n')
        out = ['pub mod probe {'] + ['use vstd::prelude::*;', 'use std::sync::Arc;', 'use vstd::arithmetic::power2::*;', 'use vstd::arithmetic::div_mod::*;', 'use vstd::arithmetic::mul::*;', 'use vstd::arithmetic::power::*;'] + \
              [f'use crate::{m}::*;' for m in g.modrange if not m.startswith('u_')] + ['#[verifier::external_body] fn nope<T>() -> T { unimplemented!() }']
        base = L.index('} // verus!')
        n = 0; where = {}
        for k in clo:
            it = g.items[k]
            if not self.specs[it.name].get('requires'): continue
            t = L[it.lo - 1:it.hi]
            i = next(j for j, l in enumerate(t) if l.startswith('pub fn '))
            sig = t[i].replace('pub fn ', f'fn probe_{n}_', 1)
            j = i + 1; body = []
            while j < len(t) and t[j].strip() not in ('ensures', 'decreases', '{'): body.append(t[j]); j += 1
            lo = base + len(out)
            out += [sig] + body + ['{', '    proof { assert(false); }', '    ' + ('nope()' if '->' in sig and '-> !' not in sig else 'vunreachable()' if '-> !' in sig else ''), '}']
            where[k] = (lo + 1, base + len(out)); n += 1
        out.append('}')
        path = self.path.replace('.rs', '_probe.rs')
        open(path, 'w').write('\n'.join(L[:base] + out + L[base:]))
        r = vrun.run_module(path, 'probe', rlimit=20, threads=8)
        if r['compile']: return {'run': False, 'why': (r['errors'][0]['rendered'] if r['errors'] else r['raw'])[:400]}
        hit = set()
        for e in r['errors']:
            for l, _, p in e['lines']:
                for k, (a, b) in where.items():
                    if a <= l <= b: hit.add(k)
        return {'run': True, 'preconditions': n, 'satisfiable': len(hit), 'vacuous': sorted(set(where) - hit)}

def fnhash(g, k):
    """text of the extracted function without annotations"""
    c, inst = g.items[k].name, g.items[k].inst
    try:
        f = trans.Fn(g.cr, {n: (s if n != c else trans.Spec(c)) for n, s in g.specs.items()}, g.cr.bycanon[c], {a: emit.R.parse(t) for a, t in inst})
        return hashlib.sha256('\n'.join(f.sig + f.lines if f.translate() is not None else []).encode()).hexdigest()[:16]
    except Exception: return None

def assumptions(g, clo, path, lemmods):
    """mechanical scan of what is assumed rather than proved"""
    text = open(path).read().split('\n')
    out = []
    for m, (a, b) in g.modrange.items():
        if m.startswith('u_'): continue
        if m.startswith('lem_') and m not in lemmods: continue
        for i in range(a, b):
            if re.search(r'\bassume\(|\badmit\(', text[i]): out.append(f'{m}: {text[i].strip()[:120]}')
            if 'external_body' in text[i] or 'assume_specification' in text[i]:
                j = i
                while j < b and not re.search(r'\bfn \w+|struct \w+', text[j]): j += 1
                mm = re.search(r'\b(fn|struct) (\w+)', text[j]) if j < b else None
                out.append(f'{m}::{mm.group(2) if mm else "?"}')
    used = set()
    for k in clo: used |= set(re.findall(r'\w+', '\n'.join(text[g.items[k].lo - 1:g.items[k].hi])))
    for m in lemmods: used |= set(re.findall(r'\w+', '\n'.join(text[slice(*g.modrange[m])])))
    out = [o for o in out if ' ' in o or o.split('::')[-1] in used]
    for k in clo:
        it = g.items[k]
        for i in range(it.lo - 1, it.hi):
            if re.search(r'\bassume\(|\badmit\(', text[i]): out.append(f'{k}: {text[i].strip()[:120]}')
    return out

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.makedirs(WORK, exist_ok=True); os.makedirs(EVID, exist_ok=True)
    t0 = time.time()
    lock = open(os.path.join(WORK, 'lock'), 'w'); fcntl.flock(lock, fcntl.LOCK_EX)
    hb = {}
    def hbuild(): hb['exe'], hb['why'] = build_harness()
    th = threading.Thread(target=hbuild); th.start()
    v = Verify(tier, pid); ok = False
    try:
        v.load(thir_text())
        v.gen(pid); ok = True
    except RuntimeError as e:
        th.join(); log(f'UNDECIDED property={pid}: {e}'); sys.exit(2)
    except Exception as e:
        v.err = f'extraction failed: {e!r}'; v.notes.append(v.err)
    roots = props.roots(pid, [k for k in getattr(v, 'specs', {})])
    clo = []; failed = {}; undecided = {}; demoted = {}; obligations = discharged = 0; smt = 0; perfn = {}; lemmods = []; probes = None
    if ok:
        clo = v.closure(roots)
        pth = threading.Thread(target=lambda: pr.update(v.probes([k for k in clo if k not in v.g.demoted]))); pr = {}; pth.start()
        ok = v.run(clo)
        if not ok: v.notes.append(v.err)
        pth.join()
    if ok:
        g = v.g
        lemmods = [r['mod'] for r in v.res if r['mod'].startswith('lem_')]
        demoted = {k: w for k, w in g.demoted.items() if k in clo or k in roots}
        for r in v.res:
            smt += r['smt_ms']
            for n, d in r['fns'].items():
                short = n.split('::')[-1]
                if r['mod'].startswith('lem_'):
                    obligations += 1; discharged += 1 if r['mod'] not in v.lemfail else 0
                else: perfn[short] = d
        sp = v.specs
        for k in clo:
            if k in demoted or 'trusted' in sp[g.items[k].name].sec: continue
            obligations += 1
            if k in v.failed:
                es = v.failed[k]
                if all('rlimit' in e['msg'].lower() or 'resource limit' in e['msg'].lower() or 'timed out' in e['msg'].lower() for e in es): undecided[k] = 'solver resource limit'
                elif v.base.get(k, {}).get('hash') and v.base[k]['hash'] == fnhash(g, k): undecided[k] = 'text unchanged since the contracts were proved; treated as solver instability'
                elif g.fns.get(k) and k in v.base and set(g.fns[k].inlined) - set(v.base[k].get('inlined', [])): undecided[k] = 'restructured: part of its body moved to ' + ', '.join(sorted(set(g.fns[k].inlined) - set(v.base[k].get('inlined', []))))
                elif v.lemfail: undecided[k] = 'a supporting lemma did not check'
                else: failed[k] = es
            elif k in v.undecided: undecided[k] = v.undecided[k]
            else: discharged += 1
        for m, w in v.lemfail.items(): undecided[m] = w[:300]
        probes = pr if pr.get('run') else v.probes([k for k in clo if k not in demoted])
    th.join()
    exe = hb.get('exe')
    # ---------------------------------------------------------------- failing-input search
    nseeds = 8
    ms = 8000 if tier == 'quick' else 240000
    if failed or demoted or undecided or not ok: ms = max(ms, 60000)
    hfail, cases = (None, {})
    if exe: hfail, cases = run_harness(exe, pid, [seed * 1000 + i for i in range(nseeds)], ms)
    if exe and failed and hfail is None:
        hfail, c2 = run_harness(exe, pid, [seed * 1000 + 500 + i for i in range(nseeds)], 90000)
        for a, b in c2.items(): cases[a] = cases.get(a, 0) + b
    # ---------------------------------------------------------------- report
    trusted = sorted(k for k in clo if ok and 'trusted' in v.specs[v.g.items[k].name].sec)
    bounded = sorted(set(demoted) | set(undecided) | set(trusted) | set(props.PROPS[pid].get('bounded', [])))
    proved = [k for k in clo if k not in demoted and k not in undecided and k not in failed and k not in trusted]
    full = ok and not demoted and not undecided and not failed
    missing = [r for r in props.PROPS[pid].get('need', []) if r not in [v.g.items[k].name for k in proved]] if ok else []
    cov = dict(obligations=obligations, discharged=discharged,
        checker_cmd=f'python3 tool/check.py {pid} --tier {tier} (Verus 0.2026.09.13 / Z3 on work/gen_{pid}.rs, extracted from {REPO}/src on this run)',
        trusted_base=['rustc THIR printer and tool/{thir,rustty,trans,calls,emit}.py (extraction)', 'Verus and its bundled Z3'] + (assumptions(v.g, clo, v.path, lemmods) if ok else []),
        functions_under_contract=sorted(proved), lemma_modules=lemmods, solver_ms=smt,
        trusted_functions=trusted, bounded_only=bounded,
        demoted=demoted, undecided=undecided, failed=sorted(failed), vacuity_probes=probes,
        harness_cases=cases, harness_seeds=nseeds if exe else 0, explanation='' if full else 'some obligations were not decided by the verifier on this run; the bounded search stands in for the functions listed under demoted/undecided', notes=v.notes + ([f'harness: {hb.get("why")}'] if not exe else []))
    ev = dict(property=pid, tier=tier, seed=seed, level='proof' if full else 'other', coverage=cov, wall_s=round(time.time() - t0, 1))
    json.dump(ev, open(os.path.join(EVID, f'{pid}.json'), 'w'), indent=1)
    log(f'{pid}: {len(proved)} functions under contract, {discharged}/{obligations} obligations discharged, solver {smt} ms, wall {ev["wall_s"]} s')
    for k, w in list(demoted.items()) + list(undecided.items()): log(f'  not decided by the verifier: {k}: {w[:160]}')
    for n in cov['notes']: log('  note:', n[:300])
    log(f'  harness cases: {cases}')
    if probes and probes.get('vacuous'): log('  vacuous preconditions:', probes['vacuous'])
    if probes and not probes['run']: log('  probe run failed:', probes['why'])
    if failed or hfail:
        rp = os.path.join(WORK, 'replay'); os.makedirs(rp, exist_ok=True); rf = os.path.join(rp, f'{pid}.txt')
        with open(rf, 'w') as f:
            f.write(f'property {pid}\n')
            if hfail:
                prof, hfail = hfail
                m = re.search(r'check=(\S+) seed=(\S+) case=(\S+)', hfail)
                f.write(f'\nfailing input, found by running the real code ({prof} build):\n{hfail}\n')
                if m: f.write(f'replay: cd {ROOT}/harness && CARGO_TARGET_DIR={WORK}/harness-target RUSTFLAGS="--cfg verif_hooks" cargo run --offline --locked {"--release " if prof == "release" else ""}-- replay {pid} {m.group(1)} {m.group(2)} {m.group(3)}\n')
            f.write('\nfailed obligations:\n' + ('none\n' if not failed else ''))
            for k, es in failed.items():
                f.write(f'\n== {k}\n')
                for e in es: f.write(e['rendered'] + '\n')
        for k, es in failed.items(): log(f'  FAILED obligation in {k}: {es[0]["msg"]}')
        if hfail: log('  ' + hfail.replace('\n', '\n  ')[:600])
        log(f'VIOLATION property={pid} replay={rf}' + ('' if hfail else ' no-failing-input-found'))
        sys.exit(1)
    if not exe and not full:
        log(f'UNDECIDED property={pid}: neither the verifier nor the bounded search could decide it'); sys.exit(2)
    for l in open(os.path.join(ROOT, 'known-findings.txt')) if os.path.exists(os.path.join(ROOT, 'known-findings.txt')) else []:
        if l.startswith(f'known: property={pid} '): log('KNOWN-FINDING: ' + l[len('known: '):].strip())
    sys.exit(0)

if __name__ == '__main__':
    t = threading.Thread(target=lambda: globals().__setitem__('RC', _run()))
    def _run():
        try: main()
        except SystemExit as e: return e.code
        except BaseException:
            import traceback; traceback.print_exc(); return 2
        return 0
    t.start(); t.join()
    sys.exit(RC)
