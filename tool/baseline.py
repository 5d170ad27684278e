"""Record the shape of every function under contract at the time its proof was accepted (baseline.json):
binding names (to follow renames), number of loops, hash of the extracted text."""
import sys, os, json, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(200000); threading.stack_size(512 * 1024 * 1024)
import check, emit
def main():
    v = check.Verify('quick', 'C01'); v.load(check.thir_text()); v.base = {}
    g = emit.Gen(v.cr, v.specs, {}); g.build()
    out = {}
    for k, f in sorted(g.fns.items()):
        out[k] = dict(bindings=f.bindings, params=[s.split(':')[0] for s in f.sig], nloop=f.nloop, inlined=sorted(f.inlined), hash=check.fnhash(g, k))
    json.dump(out, open(os.path.join(check.ROOT, 'baseline.json'), 'w'), indent=0, sort_keys=True)
    print(len(out), 'functions;', 'demoted', g.demoted)
t = threading.Thread(target=main); t.start(); t.join()
