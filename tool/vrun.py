"""Run Verus on modules of the generated file and attribute results to functions."""
import os, re, json, subprocess, time
VERUS = 'verus'

def run_modules(path, mods, rlimit=30, threads=8, timeout=800):
    """one invocation for all modules: -> (raw result, {module: {function: {ok, ms}}})"""
    extra = []
    for m in mods[1:]: extra += ['--verify-module', m]
    r = run_module(path, mods[0], rlimit=rlimit, threads=threads, timeout=timeout, extra=extra)
    per = {m: {} for m in mods}
    for n, d in r['fns'].items():
        for m in reversed(n.split('::')[:-1]):
            if m in per: per[m][n] = d; break
    return r, per

def run_module(path, mod, rlimit=30, threads=2, timeout=800, fn=None, extra=()):
    cmd = [VERUS, path, '--crate-name', 'gen', '--verify-module', mod, '--triggers-mode', 'silent', '--rlimit', str(rlimit),
           '--num-threads', str(threads), '--output-json', '--time-expanded', '--multiple-errors', '3', '--error-format=json', *extra]
    if fn: cmd += ['--verify-function', fn]
    t = time.time()
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return {'mod': mod, 'timeout': True, 'errors': [], 'fns': {}, 'verified': 0, 'nerr': 0, 'wall': time.time() - t, 'raw': '', 'rc': -1, 'smt_ms': 0, 'cmd': ' '.join(cmd), 'compile': False}
    errs = []
    for l in p.stderr.split('\n'):
        if not l.startswith('{'): continue
        try: d = json.loads(l)
        except ValueError: continue
        if d.get('level') != 'error': continue
        spans = d.get('spans', [])
        for c in d.get('children', []): spans = spans + c.get('spans', [])
        errs.append({'msg': d['message'], 'lines': [(s['line_start'], s.get('label') or '', bool(s.get('is_primary'))) for s in spans if s.get('file_name','').endswith('.rs') and 'vstd' not in s['file_name'] and '/runner/' not in s['file_name']], 'rendered': d.get('rendered', ''), 'code': (d.get('code') or {}).get('code')})
    r = {'mod': mod, 'timeout': False, 'errors': errs, 'fns': {}, 'rc': p.returncode, 'wall': time.time() - t, 'raw': p.stderr if not errs else '', 'verified': 0, 'nerr': 0, 'smt_ms': 0, 'cmd': ' '.join(cmd)}
    try:
        j = json.loads(p.stdout[p.stdout.index('{'):])
        v = j.get('verification-results', {})
        r['verified'] = v.get('verified', 0); r['nerr'] = v.get('errors', 0); r['vir_error'] = v.get('encountered-vir-error', False)
        tt = j.get('times-ms', {})
        for m in tt.get('smt', {}).get('smt-run-module-times', []):
            for f in m.get('function-breakdown', []):
                r['fns'][f['function']] = {'ok': f.get('success'), 'ms': f.get('time'), 'rlimit': f.get('rlimit')}
        r['smt_ms'] = tt.get('smt', {}).get('smt-run', 0)
    except ValueError: r['vir_error'] = True
    r['compile'] = bool(r.get('vir_error')) or ('verification-results' not in p.stdout) or any(e['code'] for e in errs) or any('aborting due to' in e['msg'] for e in errs) and r['nerr'] == 0
    return r
