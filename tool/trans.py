"""Translate typed THIR (the compiler's own tree of the code in /repo) into Verus text.

What is dropped or replaced (also listed in DESIGN.md):
  * lifetimes, visibility, traits: every function becomes a free function;
  * Vec / slice / Box<[T]> / 1-d ndarray views -> Vec<T>; Array2 and its views -> Arr2 (Vec of rows);
  * iterator chains (iter, zip, map, enumerate, rev, take, chunks, fold, for_each, collect ...) -> index loops;
  * closures are inlined where they are applied; in-crate functions without a contract are inlined;
  * raw pointers a_ptr.add(j) and get_unchecked(j) -> checked indexing a[j] (so "in bounds" is an obligation);
  * panics, assert!, debug_assert!, unwrap -> obligations that the panic is unreachable;
  * external crates (num-bigint, rand, crypto-bigint, ndarray storage, HashMap) -> shims in prelude/ with stated contracts.
"""
import re, os, sys, json, contextlib
import thir
from thir import X
import rustty as R

class Unsupported(Exception): pass
class LostAnchor(Exception): pass

def sani(s): return re.sub(r'_+$', '', re.sub(r'\W+', '__', s))

# ---------------------------------------------------------------- symbolic values
class V:
    def __init__(self, kind, **kw): self.kind = kind; self.__dict__.update(kw)
    def __repr__(self): return f'V({self.kind},{ {k:v for k,v in self.__dict__.items() if k!="kind"} })'

def val(code, ty, pure=False): return V('val', code=code, ty=ty, pure=pure)
def ref(place, ty, mut=False): return V('ref', place=place, ty=ty, mut=mut)
def tup(items): return V('tup', items=items)
UNIT = V('val', code='()', ty=R.T('tup'), pure=True)

SIMPLE = re.compile(r'^[\w.]+$')

def simple(c): return bool(SIMPLE.match(c))

# ---------------------------------------------------------------- source structs
def close_brace(s, i):
    d = 0
    for j in range(i, len(s)):
        if s[j] == '{': d += 1
        elif s[j] == '}':
            d -= 1
            if d == 0: return j
    return len(s) - 1

class Src:
    def __init__(self, srcdir):
        self.structs = {}; self.enums = {}; self.consts = {}
        for f in sorted(os.listdir(srcdir)):
            if not f.endswith('.rs') or f == 'client.rs': continue
            s = open(os.path.join(srcdir, f)).read()
            s = re.sub(r'//[^\n]*', '', s); s = re.sub(r'/\*.*?\*/', '', s, flags=re.S)
            for g in ('#[cfg(test)]', '#[cfg(verif_hooks)]'):
                while (cut := s.find(g)) >= 0:
                    b = s.find('{', cut); e = s.find(';', cut)
                    s = s[:cut] + (s[e + 1:] if 0 <= e < b else s[close_brace(s, b) + 1:])
            mod = f[:-3]
            for m in re.finditer(r'\bstruct\s+(\w+)\s*(<[^>{]*>)?\s*([({;])', s):
                name = m.group(1)
                if m.group(3) == ';': self.structs[name] = (mod, []); continue
                j = thir.matching(s, m.end() - 1)
                body = s[m.end():j]
                fs = []
                for i, fld in enumerate(R.split_top(body)):
                    fld = re.sub(r'#\[[^\]]*\]', '', fld).strip()
                    fld = re.sub(r'^pub(\([^)]*\))?\s+', '', fld)
                    if m.group(3) == '(': fs.append((f'f{i}', fld))
                    else:
                        n, t = fld.split(':', 1); fs.append((n.strip(), t.strip()))
                self.structs[name] = (mod, fs)
            for m in re.finditer(r'\benum\s+(\w+)\s*\{', s):
                j = thir.matching(s, m.end() - 1)
                vs = [re.sub(r'#\[[^\]]*\]', '', v).strip() for v in R.split_top(s[m.end():j])]
                if all(re.match(r'^\w+$', v) for v in vs): self.enums[m.group(1)] = (mod, vs)

    def ty(self, text):
        text = text.replace('BigUintDig', 'num_bigint::BigUint').replace('num_bigint::num_bigint', 'num_bigint')
        text = re.sub(r'(?<![:\w])BigUint\b', 'num_bigint::BigUint', text)
        text = re.sub(r'\bHashMap<(\w+), (\w+)>', r'HashMap<\1, \2>', text)
        t = re.sub(r'\bArray2<u64>', 'Arr2', text)
        t = re.sub(r'\bArray3<u64>', 'Arr3', t)
        return R.code(R.parse(t))

# ---------------------------------------------------------------- crate
class Crate:
    def __init__(self, thirfile, srcdir):
        self.lib = thir.load(thirfile)
        self.src = Src(srcdir)
        self.canon = {}      # def path -> canonical name
        self.bycanon = {}
        groups = {}
        for p in self.lib.names():
            if '{closure' in p or '{constant' in p: continue
            if p.split('::')[-1] in ('fmt', 'eq', 'clone', 'assert_fields_are_eq'): continue
            if '::tests::' in p: continue
            m = re.match(r'^onion_pir::(\w+)::(?:\{impl#(\d+)\}::)?(\w+)$', p)
            if not m: continue
            groups.setdefault((m.group(1), m.group(2)), []).append((p, m.group(3)))
        OPS = {'add', 'sub', 'mul', 'neg', 'add_assign', 'sub_assign', 'mul_assign', 'from', 'not', 'shr', 'shr_assign', 'default', 'div', 'rem', 'shl'}
        for (mod, impl), fs in groups.items():
            if impl is None:
                for p, n in fs: self.canon[p] = f'{mod}::{n}'
                continue
            selfty = None
            for p, n in fs:
                b = self.lib[p]
                if b.params and b.params[0].pat and b.params[0].pat.k == 'Binding' and b.params[0].pat.name == 'self':
                    selfty = R.strip(R.parse(b.params[0].ty)); break
            if selfty is None:
                for p, n in fs:
                    t = R.parse(self.lib[p].body.ty)
                    if t.k == 'path' and R.last(t) in self.src.structs: selfty = t; break
            if selfty is None: selfty = R.parse(self.lib[fs[0][0]].body.ty)
            try: sn = R.last(selfty) if selfty.k == 'path' and not selfty.a else R.code(selfty)
            except Exception: sn = 'X'
            for p, n in fs:
                if len(fs) == 1 and n in OPS:
                    b = self.lib[p]
                    ps = [self.tn(q.ty) for q in (b.params if n == 'from' else b.params[1:])]
                    self.canon[p] = f'{mod}::{sn}::{n}({",".join(ps)})'
                else: self.canon[p] = f'{mod}::{sn}::{n}'
        for p, c in self.canon.items(): self.bycanon[c] = p

    def tn(self, ty):
        t = R.strip(R.parse(ty))
        try: return R.code(t)
        except R.TyErr: return R.norm(ty)

    def find_op(self, name, argtys, ret=None):
        for p, c in self.canon.items():
            if p.split('::')[-1] != name: continue
            b = self.lib[p]
            pts = [R.norm(q.ty) for q in b.params]
            if pts == argtys and (ret is None or R.norm(b.body.ty) == ret): return p
        return None

# ---------------------------------------------------------------- specs
class Spec:
    def __init__(self, name): self.name = name; self.sec = {}; self.unit = None; self.line = 0
    def get(self, k): return self.sec.get(k, '')

def load_specs(specdir):
    specs = {}
    for f in sorted(os.listdir(specdir)):
        if not f.endswith('.spec'): continue
        cur = None; key = None
        for i, ln in enumerate(open(os.path.join(specdir, f))):
            ln = ln.rstrip('\n')
            if ln.startswith('#'): continue
            if ln.startswith('== '):
                cur = Spec(ln[3:].strip()); cur.unit = f[:-5]; cur.line = i + 1
                specs[cur.name] = cur; key = None; continue
            if cur is None: continue
            if ln and not ln[0].isspace():
                key = ln.strip(); cur.sec.setdefault(key, ''); continue
            if key is not None and ln.strip(): cur.sec[key] += ln + '\n'
    return specs

# ---------------------------------------------------------------- iterators
class It:
    rng = None
    def start(self, tr): raise NotImplementedError
    def elem(self, tr, i): raise NotImplementedError

class ItVec(It):
    def __init__(self, base, ety, mode, lo=None, hi=None): self.base = base; self.ety = ety; self.mode = mode; self.lo = lo; self.hi = hi
    def start(self, tr):
        if self.lo is None: return f'{self.base}.len()'
        return self.hi if self.lo == '0' else f'({self.hi} - {self.lo})'
    def elem(self, tr, i):
        idx = i if self.lo in (None, '0') else f'{self.lo} + {i}'
        pl = f'{self.base}[{idx}]'
        if self.mode == 'own':
            if R.strip(self.ety).k == 'path' and R.last(self.ety) in R.INTS | {'bool'}: return val(pl, self.ety)
            return val(f'clone_val(&{pl})', self.ety)
        return tr.mkref(pl, self.ety, self.mode == 'mut')

class ItRange(It):
    def __init__(self, lo, hi, ty): self.lo = lo; self.hi = hi; self.ty = ty; self.rng = (lo, hi, ty)
    def start(self, tr): return self.hi if self.lo in ('0', '0usize') else f'({self.hi} - {self.lo})'
    def elem(self, tr, i):
        return val(i if self.lo in ('0', '0usize') else f'({self.lo} + {i})', self.ty, pure=True)

class ItZip(It):
    def __init__(self, a, b): self.a = a; self.b = b
    def start(self, tr):
        x = self.a.start(tr); y = self.b.start(tr)
        if x is None: return y
        if y is None: return x
        return f'min_usize({x}, {y})'
    def elem(self, tr, i): return tup([self.a.elem(tr, i), self.b.elem(tr, i)])

class ItMap(It):
    def __init__(self, a, f): self.a = a; self.f = f; self.rng = a.rng
    def start(self, tr): return self.a.start(tr)
    def elem(self, tr, i): return tr.apply(self.f, [self.elem_in(tr, i)])
    def elem_in(self, tr, i):
        return val(i, self.a.rng[2], pure=True) if self.a.rng and not isinstance(self.a, ItMap) and tr.direct else self.a.elem(tr, i)

class ItEnum(It):
    def __init__(self, a): self.a = a
    def start(self, tr): return self.a.start(tr)
    def elem(self, tr, i): return tup([val(i, R.parse('usize'), pure=True), self.a.elem(tr, i)])

class ItRev(It):
    def __init__(self, a): self.a = a
    def start(self, tr):
        self.n = tr.snap(self.a.start(tr), 'usize'); return self.n
    def elem(self, tr, i): return self.a.elem(tr, tr.snap(f'{self.n} - 1 - {i}', 'usize'))

class ItTake(It):
    def __init__(self, a, n): self.a = a; self.n = n
    def start(self, tr):
        x = self.a.start(tr)
        return self.n if x is None else f'min_usize({x}, {self.n})'
    def elem(self, tr, i): return self.a.elem(tr, i)

class ItSkip(It):
    def __init__(self, a, n): self.a = a; self.n = n
    def start(self, tr):
        x = self.a.start(tr); return f'sat_sub({x}, {self.n})'
    def elem(self, tr, i): return self.a.elem(tr, f'({self.n} + {i})')

class ItChunks(It):
    def __init__(self, sl, k): self.sl = sl; self.k = k       # sl: slice V
    def start(self, tr):
        tr.emit(f'if {self.k} == 0 {{ vpanic(); }}')
        return f'chunks_len({self.sl.hi} - {self.sl.lo}, {self.k})' if self.sl.lo != '0' else f'chunks_len({self.sl.hi}, {self.k})'
    def elem(self, tr, i):
        lo = tr.snap(f'{self.sl.lo} + {i} * {self.k}' if self.sl.lo != '0' else f'{i} * {self.k}', 'usize')
        hi = tr.snap(f'chunk_end({lo}, {self.k}, {self.sl.hi})', 'usize')
        return V('slice', base=self.sl.base, ety=self.sl.ety, lo=lo, hi=hi, mut=False)

def chunk_of(it):
    if isinstance(it, ItChunks): return it.k
    for x in getattr(it, '__dict__', {}).values():
        if isinstance(x, It):
            k = chunk_of(x)
            if k is not None: return k
    return None

class ItRows(It):
    def __init__(self, base, mut, lo=None, hi=None): self.base = base; self.mut = mut; self.lo = lo; self.hi = hi
    def start(self, tr):
        if self.lo is None: return f'{self.base}.rows.len()'
        return self.hi if self.lo == '0' else f'({self.hi} - {self.lo})'
    def elem(self, tr, i):
        idx = i if self.lo in (None, '0') else f'{self.lo} + {i}'
        return ref(f'{self.base}.rows[{idx}]', R.parse('std::vec::Vec<u64, Global>'), self.mut)

class ItCols(It):
    def __init__(self, base, mut, lo, hi): self.base = base; self.mut = mut; self.lo = lo; self.hi = hi
    def start(self, tr): return f'arr2_ncols(&{self.base})'
    def elem(self, tr, i): return V('col', base=self.base, j=i, lo=self.lo, hi=self.hi, mut=self.mut)

class ItCol(It):
    def __init__(self, c): self.c = c
    def start(self, tr):
        c = self.c
        return c.hi if c.lo == '0' else f'({c.hi} - {c.lo})'
    def elem(self, tr, i):
        idx = i if self.c.lo == '0' else f'{self.c.lo} + {i}'
        return ref(f'{self.c.base}.rows[{idx}][{self.c.j}]', R.parse('u64'), self.c.mut)

class ItSample(It):
    def __init__(self, rng, dist): self.r = rng; self.d = dist
    def start(self, tr): return None
    def elem(self, tr, i): return val(f'rng_sample({self.r}, &{self.d})', R.parse('u64'))

class ItFlat(It):   # elements of an Arr2 row range, row-major: nested loops, or (zipped) a single row
    def __init__(self, base, mut, lo, hi): self.base = base; self.mut = mut; self.lo = lo; self.hi = hi
    def start(self, tr):
        tr.emit(f'if !({self.hi} == {self.lo} + 1) {{ vpanic(); }}')   # side condition of the extraction
        return f'{self.base}.rows[{self.lo}].len()'
    def elem(self, tr, i): return ref(f'{self.base}.rows[{self.lo}][{i}]', R.parse('u64'), self.mut)

# ---------------------------------------------------------------- translator of one function
class Fn:
    def __init__(self, crate, specs, path, tyargs=(), inlinable=True):
        self.cr = crate; self.specs = specs; self.path = path
        self.canon = crate.canon[path]; self.spec = specs.get(self.canon)
        self.tyargs = dict(tyargs)
        self.env = {}; self.used = {}; self.lines = []; self.ind = 1
        self.nloop = 0; self.dbg = False; self.ntmp = 0; self.calls = set(); self.inlined = set()
        self.bindings = []      # user binding names in order
        self.loopinfo = []      # (ordinal, depth)
        self.depth = 0; self.direct = False
        self.loopvars = {}; self.letseen = {}; self.preseen = {}
        self.inlining = []
        self.placemuts = []
        self.features = set()
        self.tail_fn = True
        self.contstack = []

    # ---- emission helpers
    def emit(self, s):
        for l in s.split('\n'):
            if l.strip(): self.lines.append('    ' * self.ind + l)
    def tmp(self, p='t'):
        self.ntmp += 1; return f'{p}_{self.ntmp}'
    def snap(self, code, ty=None):
        if re.match(r'^\d+$|^[a-z_]\w*$', code) and code not in self.mutvars: return code
        if re.match(r'^\d+usize$', code): return code
        t = self.tmp()
        self.emit(f'let {t}{": " + ty if ty else ""} = {code};'); return t
    mutvars = set()

    def fresh(self, name):
        if name == 'self': name = 'this'
        if name in ('final', 'old', 'int', 'nat', 'spec', 'proof', 'exec', 'ret', 'forall', 'exists', 'assert', 'tracked', 'ghost', 'is', 'has', 'matches', 'choose', 'by', 'via', 'when'): name = name + '_v'
        if name not in self.used:
            self.used[name] = 0; return name
        while True:
            self.used[name] += 1; n = f'{name}_{self.used[name]}'
            if n not in self.used: self.used[n] = 0; return n

    @contextlib.contextmanager
    def sub(self):
        saved = self.lines; self.lines = []; self.ind += 1
        box = []
        yield box
        box.extend(self.lines); self.lines = saved; self.ind -= 1

    def ty(self, s):
        t = R.parse(s) if isinstance(s, str) else s
        return self.subst(t)
    def subst(self, t):
        if t.k == 'path' and not t.a and t.m in self.tyargs: return self.tyargs[t.m]
        if not t.a: return t
        return R.T(t.k, [self.subst(x) for x in t.a], t.m)
    def tc(self, t): return R.code(t)

    # ---- values
    def mkref(self, place, ty, mut):
        # reference to a place; references to slices stored in vectors etc. stay plain
        if ty.k == 'ref' : return ref(f'(*{place})', ty.a[0], ty.m)
        return ref(place, ty, mut)

    def code(self, v):
        """rvalue text"""
        if v.kind == 'val': return v.code
        if v.kind == 'ref':
            m = re.match(r'^\(\*(\w+)\)$', v.place)
            if m and v.mut: return m.group(1)
            if m: return m.group(1) if m.group(1) in self.immref else f'&*{m.group(1)}'
            return ('&mut ' if v.mut else '&') + v.place
        if v.kind == 'tup': return '(' + ', '.join(self.code(x) for x in v.items) + ')'
        if v.kind == 'slice':
            if self.full(v): return ('&mut ' if v.mut else '&') + self.unstar(v.base)
            if v.mut: raise Unsupported('mutable sub-slice as a value')
            t = self.tmp(); self.emit(f'let {t} = vec_sub(&{self.unstar(v.base)}, {v.lo}, {v.hi});'); return f'&{t}'
        if v.kind == 'col':
            if v.mut: raise Unsupported('mutable column as a value')
            t = self.tmp(); self.emit(f'let {t} = arr2_col(&{v.base}, {v.j}, {v.lo}, {v.hi});'); return f'&{t}'
        if v.kind == 'rows':
            if v.lo == '0' and v.hi == f'{v.base}.rows.len()': return ('&mut ' if v.mut else '&') + v.base
        if v.kind == 'opt':
            t = self.tmp()
            with self.sub() as b:
                c = self.code(self.optval(v)); self.emit(f'Some({c})')
            self.emit(f'let {t} = if {v.cond} {{'); self.lines += b; self.emit('} else { None };')
            return t
        if v.kind == 'range': raise Unsupported('range value')
        if v.kind == 'arr': return '[' + ', '.join(self.code(x) for x in v.items) + ']'
        raise Unsupported(f'value of kind {v.kind}')
    def optval(self, o):
        return o.lazy() if getattr(o, 'lazy', None) else o.v
    immref = set()
    def unstar(self, p):
        return p
    def full(self, v): return v.lo == '0' and v.hi == f'{v.base}.len()'

    def deref(self, v, ty=None):
        """the place a reference points to"""
        if v.kind == 'ref': return val(v.place, v.ty)
        if v.kind in ('slice', 'col', 'rows', 'it', 'tup', 'opt', 'clo', 'arr'): return v
        if v.kind == 'val':
            t = v.ty
            if t.k == 'ref':
                if R.is_view(t.a[0]): return val(v.code, t.a[0])
                c = v.code if simple(v.code) else self.snap(v.code)
                return val(f'(*{c})', t.a[0])
            if t.k == 'path' and R.last(t) == 'Box': return val(v.code, t.a[0])
            return v
        raise Unsupported('deref ' + v.kind)

    def fld(self, code, name):
        m = re.match(r'^\(\*(\w+)\)$', code)
        return f'{m.group(1)}.{name}' if m else f'{code}.{name}'
    def idx(self, code, i):
        m = re.match(r'^\(\*(\w+)\)$', code)
        return f'{m.group(1)}[{i}]' if m else f'{code}[{i}]'

    def spill(self, v):
        """make a value stable and side-effect free"""
        if v.kind == 'val' and not (simple(v.code) and v.code not in self.mutvars) and not re.match(r'^[\d]\w*$', v.code):
            t = self.tmp(); self.emit(f'let {t} = {v.code};'); return val(t, v.ty, pure=True)
        return v

    def args(self, es):
        """evaluate in order; earlier ones are spilled if later ones emit statements"""
        out = []
        for e in es:
            n = len(self.lines)
            v = self.ev(e)
            if len(self.lines) != n:
                new = self.lines[n:]; del self.lines[n:]
                for k in range(len(out)):
                    if out[k].kind == 'val' and not out[k].pure and not re.match(r'^\w+$', out[k].code) and out[k].ty.k != 'ref':
                        out[k] = self.spill(out[k])
                self.lines += new
            out.append(v)
        return out

    # ---- binding
    def bind(self, p, v, named=True):
        k = p.k
        if k == 'Wild': 
            if v.kind == 'val' and not v.pure and v.code != '()' and not simple(v.code): self.emit(f'let _ = {v.code};')
            return
        if k == 'Deref': return self.bind(p['sub'], self.deref(v))
        if k == 'Leaf':
            if v.kind == 'tup': items = v.items
            elif v.kind == 'val' and v.ty.k == 'tup':
                s = v if simple(v.code) else self.spill(v)
                items = [val(f'{s.code}.{i}', t) for i, t in enumerate(s.ty.a)]
            else: raise Unsupported('leaf pattern on ' + v.kind)
            # p.subs are in field order for tuples
            if len(p.subs) != len(items): raise Unsupported('partial tuple pattern')
            for q, x in zip(p.subs, items): self.bind(q, x)
            return
        if k == 'Binding':
            if p['sub']: raise Unsupported('@ pattern')
            self.bindings.append(p.name)
            if p.ref:
                if v.kind in ('ref', 'slice', 'col', 'rows'): self.env[p.id] = v; return
                if v.kind != 'val': raise Unsupported('ref binding')
                self.env[p.id] = ref(v.code, v.ty, bool(p.refmut)); return
            if v.kind == 'val' and v.ty.k == 'never': self.emit(v.code + ';'); self.env[p.id] = v; return
            if v.kind == 'val' and v.ty.k != 'ptr' and not getattr(v, 'alias', False):
                n = self.fresh(p.name)
                t = v.ty
                try: tcode = ': ' + self.tc(t)
                except R.TyErr: tcode = ''
                self.emit(f'let {"mut " if p.mut else ""}{n}{tcode} = {v.code};')
                if p.mut: self.mutvars.add(n)
                if t.k == 'ref' and not t.m: self.immref.add(n)
                self.env[p.id] = val(n, t) if t.k != 'ref' else (val(n, t) if R.is_view(t.a[0]) else ref(f'(*{n})', t.a[0], t.m))
                self.hint_let(p.name, n)
                return
            if v.kind == 'tup' and p.mut or v.kind == 'tup' and all(x.kind == 'val' for x in v.items):
                return self.bind(X(p, k='Binding'), val(self.code(v), self.ty(p.ty)))
            self.env[p.id] = self.stab(v); return
        if k == 'Variant': raise Unsupported('refutable pattern in let')
        raise Unsupported('pattern ' + k)

    def stab(self, v):
        """make the index expressions inside an alias independent of later assignments"""
        if v.kind == 'ref':
            def fix(m):
                inner = m.group(1)
                if re.match(r'^\d+\w*$', inner): return m.group(0)
                if re.match(r'^\w+$', inner) and inner not in self.mutvars: return m.group(0)
                return '[' + self.snap(inner, 'usize') + ']'
            if '[' in v.place:
                p = v.place; out = ''; i = 0
                while i < len(p):
                    if p[i] == '[':
                        j = thir.matching(p, i); out += fix(re.match(r'\[(.*)\]', p[i:j + 1])); i = j + 1
                    else: out += p[i]; i += 1
                return ref(out, v.ty, v.mut)
        if v.kind == 'tup': return tup([self.stab(x) for x in v.items])
        return v

    def hint_let(self, src, n):
        if self.spec is None or any("{closure" not in p for p in self.inlining): return
        src = {v: k for k, v in self.rename.items()}.get(src, src)
        k = self.letseen.get(src, 0); self.letseen[src] = k + 1
        for key in (f'let {src}' if k == 0 else None, f'let {src} {k}'):
            if key and self.spec.get(key): self.hints.add(key); self.emit(self.subspec(self.spec.get(key)))
    def hint_pre(self, n):
        if self.spec is None or any("{closure" not in p for p in self.inlining): return
        n = {v: k for k, v in self.rename.items()}.get(n, n)
        k = self.preseen.get(n, 0); self.preseen[n] = k + 1
        for key in (f'pre {n}' if k == 0 else None, f'pre {n} {k}'):
            if key and self.spec.get(key): self.hints.add(key); self.emit(self.subspec(self.spec.get(key)))
    hints = set()

    def subspec(self, text, loop=None):
        def r(m):
            k = m.group(1); n = m.group(2)
            li = self.loopvars.get(int(n) if n else (loop if loop is not None else -1))
            if li is None: raise LostAnchor(f'${k}{n} in {self.canon}')
            v = li.get(k)
            if v is None: raise LostAnchor(f'${k}{n} in {self.canon}')
            return v
        text = re.sub(r'\$(i|n|out|acc|c)(\d*)(?!\w)', r, text)
        for a, b in self.tyargs.items(): text = text.replace('$' + a, R.code(b))
        ren = self.rename
        if ren:
            text = re.sub(r'(?<![\w.])([A-Za-z_]\w*)(?!\w)', lambda m: ren.get(m.group(1), m.group(1)), text)
        return text
    rename = {}

    # ---- function
    def translate(self):
        b = self.cr.lib[self.path]
        self.mutvars = set(); self.immref = set(); self.hints = set()
        sig = []; pre = []
        for i, p in enumerate(b.params):
            t = self.ty(p.ty)
            if p.pat.k == 'Wild': sig.append(f'_p{i}: {self.tc(t)}'); continue
            if p.pat.k != 'Binding': raise Unsupported('parameter pattern')
            n = self.fresh(p.pat.name)
            self.bindings.append(p.pat.name)
            sig.append(f'{n}: {self.tc(t)}')
            if t.k == 'ref' and not R.is_view(t.a[0]):
                if not t.m: self.immref.add(n)
                self.env[p.pat.id] = ref(f'(*{n})', t.a[0], t.m)
            elif R.is_view(t):
                if not R.view_mut(t): self.immref.add(n)
                self.env[p.pat.id] = ref(f'(*{n})', R.parse('std::vec::Vec<u64, Global>'), R.view_mut(t)) if R.is_vec(t) else ref(f'(*{n})', R.parse('Arr2'), R.view_mut(t))
            else:
                self.env[p.pat.id] = val(n, t)
                if p.pat.mut: pre.append(f'let mut {n} = {n};'); self.mutvars.add(n)
        rt = self.ty(b.body.ty)
        self.rett = rt
        self.sig = sig
        for l in pre: self.emit(l)
        if self.spec and self.spec.get('entry'): self.emit(self.subspec(self.spec.get('entry')))
        v = self.ev(b.body)
        ex = self.spec.get('exit') if self.spec else ''
        if rt.k == 'never': self.emit(self.code(v) + ';')
        elif rt.k == 'tup' and not rt.a:
            if v.kind == 'val' and v.code != '()': self.emit(v.code + ';')
            if ex: self.emit(self.subspec(ex))
        else:
            c = self.code(v)
            if ex:
                self.emit(f'let ret: {self.tc(rt)} = {c};'); self.emit(self.subspec(ex)); self.emit('ret')
            else: self.emit(c)
        if self.spec:
            for k in self.spec.sec:
                m = re.match(r'(inv|dec|begin|end|after|before|lens) (\d+)$', k)
                if m and int(m.group(2)) >= self.nloop: raise LostAnchor(f'{k} of {self.canon}: only {self.nloop} loops')
                if k.startswith(('let ', 'pre ')) and k not in self.hints: raise LostAnchor(f'{k} of {self.canon}')
        return self.lines

    # ---- expressions
    def ev(self, e):
        f = getattr(self, 'e_' + e.k, None)
        if f is None: raise Unsupported('expression ' + e.k + ' ' + str(e.get('name')))
        return f(e)
    def pl(self, e):
        """place expression -> V (val with place code, or a view)"""
        if e.k == 'Deref': return self.deref(self.ev(e.e))
        if e.k in ('VarRef', 'Field', 'Index'): return self.ev(e)
        v = self.ev(e)
        if v.kind == 'val': return self.spill(v)
        return v

    def e_VarRef(self, e):
        if e.id not in self.env: raise Unsupported('unbound ' + e.id)
        return self.env[e.id]
    def e_NeverToAny(self, e): return self.ev(e.e)
    def e_Deref(self, e): return self.deref(self.ev(e.e))
    def e_Borrow(self, e):
        v = self.pl(e.e)
        if v.kind == 'val': 
            if v.ty.k == 'ref' and False: return v
            return ref(v.code, v.ty, e.mut)
        if v.kind == 'slice' and e.mut: return V('slice', **{**v.__dict__, 'mut': True, 'kind': None}) if False else v
        return v
    def e_Pointer(self, e): return self.ev(e.e)
    def e_Field(self, e):
        v = self.pl(e.e)
        t = R.strip(self.ty(e.e.ty))
        if v.kind == 'tup': return v.items[e.idx]
        if v.kind == 'ref': v = self.deref(v)
        if v.kind == 'range': return val([v.lo, v.hi][e.idx], self.ty(e.ty))
        if v.kind != 'val': raise Unsupported('field of ' + v.kind)
        if t.k == 'tup': return val(self.fld(v.code, str(e.idx)), self.ty(e.ty))
        if R.last(t) in self.cr.src.structs:
            return val(self.fld(v.code, self.cr.src.structs[R.last(t)][1][e.idx][0]), self.ty(e.ty))
        raise Unsupported('field of ' + repr(t))
    def e_Index(self, e):
        b = self.pl(e.e); i = self.ev(e.i)
        return self.index(b, self.code(i), self.ty(e.ty))
    def index(self, b, i, ty):
        if b.kind == 'ref': b = self.deref(b)
        if b.kind == 'slice':
            i = self.snap(i, 'usize')
            self.emit(f'if !({i} < {b.hi}{"" if b.lo == "0" else " - " + b.lo}) {{ vpanic(); }}')
            return val(f'{b.base}[{i if b.lo == "0" else b.lo + " + " + i}]', b.ety)
        if b.kind == 'col':
            i = self.snap(i, 'usize')
            self.emit(f'if !({i} < {b.hi} - {b.lo}) {{ vpanic(); }}')
            return val(f'{b.base}.rows[{b.lo} + {i}][{b.j}]', ty)
        if b.kind != 'val': raise Unsupported('index of ' + b.kind)
        return val(self.idx(b.code, i), ty)
    def e_Literal(self, e):
        t = self.ty(e.ty)
        m = re.match(r'Int\(Pu128\((\d+)\)', e.lit)
        if m:
            n = m.group(1)
            return val(('-' if e.neg else '') + n + (R.last(t) if R.last(t) in R.INTS else ''), t, pure=True)
        m = re.match(r'Bool\((\w+)\)', e.lit)
        if m: return val(m.group(1), t, pure=True)
        return V('str')
    def e_NamedConst(self, e):
        if e.path.endswith('::MAX'): return val({'u64': '0xffff_ffff_ffff_ffffu64', 'u128': '0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffffu128', 'usize': '0xffff_ffff_ffff_ffffusize', 'u32': '0xffff_ffffu32'}[R.last(self.ty(e.ty))], self.ty(e.ty), pure=True)
        if e.path.endswith('::ZERO') and R.code(self.ty(e.ty)) == 'U192': return val('u192_zero()', self.ty(e.ty))
        if e.path.endswith('::BITS'): return val('64u32', self.ty(e.ty), pure=True)
        raise Unsupported('const ' + e.path)
    def e_Cast(self, e):
        v = self.ev(e.e); c = self.code(v); a = R.last(self.ty(e.e.ty)); b = R.last(self.ty(e.ty))
        return val(self.cast(c, a, b), self.ty(e.ty), pure=getattr(v, 'pure', False))
    def cast(self, c, a, b):
        if a == b: return c
        if a == 'bool': return f'bool_as_{b}({c})'
        if a not in R.BITS or b not in R.BITS: raise Unsupported(f'cast {a} {b}')
        m = re.match(r'^(-?\d+)' + a + '$', c)
        if m and not c.startswith('-'): return m.group(1) + b
        wide = (a[0] == b[0] and R.BITS[b] >= R.BITS[a]) or (a[0] == 'u' and R.BITS[b] > R.BITS[a])
        if wide: return f'({c} as {b})'
        return f'cast_{a}_{b}({c})'
    def e_Unary(self, e):
        v = self.ev(e.e); c = self.code(v); t = self.ty(e.ty)
        if e.op == 'Not':
            if R.last(t) == 'bool': return val(f'!({c})' if not simple(c) else f'!{c}', t, pure=v.pure)
            return val(f'not_{R.last(t)}({c})', t)
        if e.op == 'Neg': return val(f'(-{c})', t)
        raise Unsupported('unary ' + e.op)
    BOP = {'Add': '+', 'Sub': '-', 'Mul': '*', 'Div': '/', 'Rem': '%', 'Eq': '==', 'Ne': '!=', 'Lt': '<', 'Le': '<=', 'Gt': '>', 'Ge': '>='}
    def binop(self, op, l, r, lt, rt, ty):
        pure = False
        if op in self.BOP:
            if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge') and R.last(lt) not in R.INTS | {'bool'}: raise Unsupported('compare ' + repr(lt))
            return val(f'({l} {self.BOP[op]} {r})', ty)
        n = R.last(lt)
        if op in ('Shl', 'Shr'):
            return val(f'{op.lower()}_{n}({l}, {self.cast(r, R.last(rt), "usize") if R.last(rt) != "usize" else r})', ty)
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            if n == 'bool': return val(f'({l} {"&&" if op == "BitAnd" else "||" if op == "BitOr" else "!="} {r})', ty)
            return val(f'{op[3:].lower()}_{n}({l}, {r})', ty)
        raise Unsupported('binop ' + op)
    def e_Binary(self, e):
        a, b = self.args([e.l, e.r])
        return self.binop(e.op, self.code(a), self.code(b), self.ty(e.l.ty), self.ty(e.r.ty), self.ty(e.ty))
    def e_LogicalOp(self, e):
        a = self.ev(e.l)
        with self.sub() as box: b = self.ev(e.r); bc = self.code(b)
        op = '&&' if 'And' in e.op else '||'
        if not box: return val(f'({self.code(a)} {op} {bc})', self.ty(e.ty))
        ac = self.code(a); t = self.tmp()
        if op == '&&': self.emit(f'let {t}: bool = if {ac} {{'); self.lines += box; self.emit(f'    {bc}'); self.emit('} else { false };')
        else: self.emit(f'let {t}: bool = if {ac} {{ true }} else {{'); self.lines += box; self.emit(f'    {bc}'); self.emit('};')
        return val(t, self.ty(e.ty), pure=True)
    def assign(self, p, c):
        if p.kind == 'ref': raise Unsupported('assignment to a reference variable')
        if p.kind != 'val': raise Unsupported('assign to ' + p.kind)
        pl = p.code
        m = re.match(r'^\(\*(\w+)\)$', pl)
        if m: pl = '*' + m.group(1)
        if re.match(r'^\w+$', pl): self.hint_pre(pl)
        self.emit(f'{pl} = {c};')
    def e_Assign(self, e):
        r = self.ev(e.r)
        if e.l.k == 'VarRef' and e.l.id in self.env and r.kind in ('ref',) : raise Unsupported('assignment of reference')
        c = self.code(r)
        p = self.pl(e.l)
        self.assign(p, c); return UNIT
    def e_AssignOp(self, e):
        r = self.ev(e.r); c = self.code(r)
        p = self.pl(e.l)
        if p.kind != 'val': raise Unsupported('assignop')
        v = self.binop(e.op.replace('Assign', ''), p.code if not p.code.startswith('(*') else '*' + p.code[2:-1], c, self.ty(e.l.ty), self.ty(e.r.ty), self.ty(e.l.ty))
        self.assign(p, v.code); return UNIT
    def e_Tuple(self, e):
        if not e.es: return UNIT
        vs = self.args(e.es)
        return tup(vs)
    def e_Array(self, e):
        vs = self.args(e.es)
        return V('arr', items=vs, ty=self.ty(e.ty))
    def e_Closure(self, e): return V('clo', id=e.id)
    def e_ZstLiteral(self, e): return V('fnptr', fn=e.fn, ty=e.ty)
    def e_Block(self, e):
        for s in e.stmts:
            if s.k == 'Expr': self.stmt(self.ev(s.e))
            else:
                if s.els: raise Unsupported('let else')
                if s.init is None:
                    if s.pat.k != 'Binding': raise Unsupported('let without init')
                    n = self.fresh(s.pat.name); t = self.ty(s.pat.ty)
                    self.emit(f'let {n}: {self.tc(t)};'); self.env[s.pat.id] = val(n, t); continue
                v = self.ev(s.init)
                self.bind(s.pat, v)
        if e.e is None: return UNIT
        return self.ev(e.e)
    def stmt(self, v):
        if v.kind == 'val' and v.code not in ('()',) and not (v.pure and simple(v.code)): self.emit(v.code + ';')
        elif v.kind in ('it',): raise Unsupported('unused iterator')
    def branch(self, e, want):
        """translate e in a nested block; returns (lines, resultcode or None, V)"""
        with self.sub() as box:
            v = self.ev(e)
            c = None
            if v.kind == 'val' and v.ty.k == 'never': self.emit(v.code + ';')
            elif want:
                c = self.code(v)
                if c == '()' and self.lines and self.lines[-1].strip().startswith('return '): c = None
            else: self.stmt(v)
            if c is not None and want: self.emit(c)
        return box, v
    def isunit(self, t): return t.k == 'tup' and not t.a or t.k == 'never'
    def e_If(self, e):
        if e.c.k == 'Let':
            none = e.f if e.f is not None else X(k='Tuple', es=[], ty='()')
            return self.e_Match(X(k='Match', ty=e.ty, e=e.c.e, arms=[X(pat=e.c.pat, guard=None, body=e.t), X(pat=X(k='Wild'), guard=None, body=none)]))
        c = self.code(self.ev(e.c)); t = self.ty(e.ty)
        if self.isunit(t):
            # `if true` is cfg!(debug_assertions): what it guards is absent from a release build, so a panic in it never counts as a refusal
            dbg = self.dbg; self.dbg = dbg or c == 'true'
            b1, _ = self.branch(e.t, False)
            self.dbg = dbg
            self.emit(f'if {c} {{'); self.lines += b1
            if e.f is not None:
                b2, _ = self.branch(e.f, False)
                if b2: self.emit('} else {'); self.lines += b2
            self.emit('}')
            return val('()', t, pure=True) if t.k != 'never' else val('vunreachable()', t)
        t1 = self.tmp()
        c = self.snap(c)
        # constant folding for literal conditions
        b1, _ = self.branch(e.t, True); b2, _ = self.branch(e.f, True)
        self.emit(f'let {t1}: {self.tc(t)} = if {c} {{'); self.lines += b1; self.emit('} else {'); self.lines += b2; self.emit('};')
        return val(t1, t, pure=True) if t.k != 'ref' else ref(f'(*{t1})', t.a[0], t.m)
    def e_Match(self, e):
        r = self.forloop(e)
        if r is not None: return r
        s = self.pl(e.e) if e.e.k in ('VarRef', 'Field', 'Index', 'Deref') else self.ev(e.e)
        arms = e.arms
        if len(arms) == 1 and arms[0].guard is None:
            if s.kind == 'val' and e.e.k not in ('VarRef',) and arms[0].pat.k == 'Leaf': pass
            self.bind(arms[0].pat, s); return self.ev(arms[0].body)
        if s.kind == 'ref': s = self.deref(s)
        t = self.ty(e.ty); unit = self.isunit(t)
        if s.kind == 'opt':
            s = val(self.code(s), R.parse('Option<()>'))
        if s.kind != 'val': raise Unsupported('match on ' + s.kind)
        out = []
        for a in arms:
            if a.guard is not None: raise Unsupported('guard')
            with self.sub() as box:
                ptxt = self.mpat(a.pat, s)
                v = self.ev(a.body)
                if v.kind == 'val' and v.ty.k == 'never': self.emit(v.code + ';')
                elif unit: self.stmt(v)
                else: self.emit(self.code(v))
            out.append((ptxt, box))
        sc = s.code
        if unit:
            self.emit(f'match {sc} {{')
        else:
            t1 = self.tmp(); self.emit(f'let {t1}: {self.tc(t)} = match {sc} {{')
        for ptxt, box in out:
            self.emit(f'    {ptxt} => {{'); self.lines += ['    ' + l for l in box]; self.emit('    }')
        self.emit('}' if unit else '};')
        if unit: return val('()', t, pure=True) if t.k != 'never' else val('vunreachable()', t)
        return val(t1, t, pure=True) if t.k != 'ref' else ref(f'(*{t1})', t.a[0], t.m)
    def mpat(self, p, s):
        if p.k == 'Wild': return '_'
        if p.k == 'Constant':
            m = re.search(r'(\d+)_?[ui]|Leaf\(0x([0-9a-f]+)\)|\b(true|false)\b', p.value or '')
            if not m: raise Unsupported('const pattern ' + str(p.value))
            if m.group(3): return m.group(3)
            return m.group(1) if m.group(1) else str(int(m.group(2), 16))
        if p.k == 'Deref': return self.mpat(p['sub'], s)
        if p.k == 'Variant':
            t = R.strip(s.ty) if s.ty.k == 'ref' else s.ty
            n = R.last(t)
            if n in self.cr.src.enums: return f'{n}::{self.cr.src.enums[n][1][p.variant]}'
            if n == 'Option' or 'option::Option' in (p.adt or '') or p.adt == '':
                if p.variant == 0: return 'None'
                q = p.subs[0]
                if q.k == 'Wild': return 'Some(_)'
                if q.k == 'Binding':
                    x = self.fresh(q.name); self.bindings.append(q.name)
                    qt = self.ty(q.ty); self.env[q.id] = val(x, qt) if qt.k != 'ref' else ref(f'(*{x})', qt.a[0], qt.m)
                    return f'Some({x})'
            raise Unsupported('variant pattern ' + str(p.adt))
        if p.k == 'Binding':
            x = self.fresh(p.name); self.env[p.id] = val(x, s.ty); return x
        raise Unsupported('match pattern ' + p.k)
    def e_Return(self, e):
        if self.inlining: raise Unsupported('return in inlined code')
        if e.e is None: return val('return', R.T('never'))
        v = self.ev(e.e)
        c = self.code(v)
        ex = self.spec.get('exit') if self.spec else ''
        if ex:
            self.emit(f'let ret: {self.tc(self.rett)} = {c};'); self.emit(self.subspec(ex)); return val('return ret', R.T('never'))
        return val('return ' + c, R.T('never'))
    def e_Break(self, e):
        if e.e is not None and not (e.e.k == 'Tuple' and not e.e.es): raise Unsupported('break with value')
        return val('break', R.T('never'))
    def e_Continue(self, e):
        if self.contstack and self.contstack[-1]: self.emit(self.contstack[-1])
        return val('continue', R.T('never'))
    def e_Adt(self, e):
        n = e.adt.split('::')[-1]
        if e.base: raise Unsupported('struct base')
        if n in ('Range', 'RangeTo', 'RangeFrom', 'RangeFull', 'RangeToInclusive', 'RangeInclusive'):
            vs = self.args([x for _, x in sorted(e.fields, key=lambda q: q[0])])
            cs = [self.code(v) for v in vs]
            if n == 'Range': return V('range', lo=cs[0], hi=cs[1], ty=vs[0].ty)
            if n == 'RangeTo': return V('range', lo=None, hi=cs[0], ty=vs[0].ty)
            if n == 'RangeFrom': return V('range', lo=cs[0], hi=None, ty=vs[0].ty)
            if n == 'RangeFull': return V('range', lo=None, hi=None, ty=R.parse('usize'))
            raise Unsupported(n)
        if n == 'Axis': return V('axis', n=self.ev(e.fields[0][1]).code)
        if n == 'Option':
            if e.variant == 0: return val('None', self.ty(e.ty), pure=True)
            v = self.ev(e.fields[0][1]); return val(f'Some({self.code(v)})', self.ty(e.ty))
        if n == 'AssertKind': return V('str')
        if n in self.cr.src.enums: return val(f'{n}::{self.cr.src.enums[n][1][e.variant]}', self.ty(e.ty), pure=True)
        if n in self.cr.src.structs:
            fl = e.fields
            vs = self.args([x for _, x in fl])
            names = self.cr.src.structs[n][1]
            if len(fl) != len(names): raise Unsupported('struct fields')
            return val(f'{n} {{ ' + ', '.join(f'{names[i][0]}: {self.code(v)}' for (i, _), v in zip(fl, vs)) + ' }', self.ty(e.ty))
        if n in ('SliceInfo', 'SliceInfoElem', 'PhantomData'): return V('opaque')
        if n == 'SliceInfoElem': return V('opaque')
        raise Unsupported('adt ' + e.adt)
    def e_Repeat(self, e): raise Unsupported('array repeat')
    def e_Unknown(self, e): raise Unsupported('expr ' + str(e.name))
    def e_Let(self, e): raise Unsupported('let chain')

    # ---- loops
    def loophdr(self, cond, info, auto=(), dec=None):
        n = self.nloop; self.nloop += 1
        self.loopinfo.append((n, self.depth))
        self.loopvars[n] = info
        sp = self.spec
        inv = list(auto)
        txt = ''
        if sp and sp.get(f'inv {n}'): txt = self.subspec(sp.get(f'inv {n}'), n)
        out = ['#[verifier::loop_isolation(true)]'] if sp and f'isolate {n}' in sp.sec else []
        out.append(f'while {cond}')
        if sp and sp.get(f'xinv {n}'): out.append('    invariant_except_break'); out += ['    ' + l for l in self.subspec(sp.get(f'xinv {n}'), n).rstrip('\n').split('\n')]
        out.append('    invariant')
        for a in inv: out.append(f'        {a},')
        if txt: out += ['    ' + l for l in txt.rstrip('\n').split('\n')]
        if sp and sp.get(f'lens {n}'): out.append('    ensures'); out += self.subspec(sp.get(f'lens {n}'), n).rstrip('\n').split('\n')
        d = self.subspec(sp.get(f'dec {n}'), n).strip() if sp and sp.get(f'dec {n}') else dec
        if d: out.append(f'    decreases {d},')
        return n, out
    def looptxt(self, n, which):
        if self.spec and self.spec.get(f'{which} {n}'): self.emit(self.subspec(self.spec.get(f'{which} {n}'), n))

    def run(self, it, body, out=None, acc=None, cond=None):
        """for each element of it: body(V)"""
        if isinstance(it, ItFlat):
            def outer(row):
                self.run(ItVec(row.place, R.parse('u64'), 'mut' if it.mut else 'ref'), body)
            return self.run(ItRows(it.base, it.mut, it.lo, it.hi), outer)
        rng = it.rng
        if rng:
            tyc = R.last(rng[2])
            lo, hi = rng[0], rng[1]
            hi = self.snap(hi, tyc)
            i = self.tmp('i')
            lo = self.snap(lo, tyc) if not re.match(r'^\d', lo) else lo
            self.emit(f'let mut {i}: {tyc} = {lo};')
            auto = [f'{lo} <= {i}', f'({i} <= {hi} || {i} == {lo})']
            n_ = hi
        else:
            ln = it.start(self)
            if ln is None: raise Unsupported('infinite iterator')
            n_ = self.tmp('n')
            self.emit(f'let {n_}: usize = {ln};')
            i = self.tmp('i')
            self.emit(f'let mut {i}: usize = 0;')
            auto = [f'0 <= {i} <= {n_}']
        info = {'i': i, 'n': n_, 'out': out, 'acc': acc, 'c': chunk_of(it)}
        ord_ = self.nloop
        self.loopvars[ord_] = info
        if self.spec and self.spec.get(f'before {ord_}'): self.emit(self.subspec(self.spec.get(f'before {ord_}'), ord_))
        n, hdr = self.loophdr(f'{i} < {n_}' + (f' && {cond}' if cond else ''), info, auto, f'{n_} - {i}')
        self.depth += 1
        self.contstack.append(f'{i} = {i} + 1;')
        with self.sub() as box:
            self.looptxt(n, 'begin')
            sd = self.direct; self.direct = bool(rng)
            if rng and isinstance(it, ItRange): el = val(i, rng[2], pure=True)
            else: el = it.elem(self, i)
            self.direct = sd
            body(el)
            self.looptxt(n, 'end')
            self.emit(f'{i} = {i} + 1;')
        self.contstack.pop()
        self.depth -= 1
        if out is None and n in self.loopvars and self.loopvars[n]['out'] is None: pass
        for l in hdr: self.emit(l)
        self.emit('{'); self.lines += box; self.emit('}')
        self.looptxt(n, 'after')

    def guess_out(self, loop):
        """name of the Vec pushed to inside the loop body (for $out)"""
        found = []
        def walk(x):
            if isinstance(x, dict):
                if x.get('k') == 'Call' and x.get('fn') and x['fn'][0].endswith('::push') and x['args'][0].k == 'Borrow' and x['args'][0].e.k == 'VarRef':
                    v = self.env.get(x['args'][0].e.id)
                    if v is not None and v.kind == 'val' and v.code not in found: found.append(v.code)
                for k, y in x.items():
                    if k != 'ty': walk(y)
                if x.get('k') == 'Closure' and x['id'] in self.cr.lib: walk(self.cr.lib[x['id']].body)
            elif isinstance(x, (list, tuple)):
                for y in x: walk(y)
        walk(loop)
        return found[0] if found else None

    def forloop(self, e):
        if not (e.e.k == 'Call' and e.e.fn and e.e.fn[0].endswith('IntoIterator::into_iter') and len(e.arms) == 1 and e.arms[0].body.k == 'Loop'):
            return None
        body = e.arms[0].body.body
        m = body
        while m.k == 'Block':
            m = m.stmts[0].e if m.stmts else m.e
        if m.k != 'Match': return None
        it = self.iter(self.ev(e.e.args[0]), self.ty(e.e.args[0].ty))
        some = [a for a in m.arms if a.pat.k == 'Variant' and a.pat.variant == 1][0]
        def bd(v):
            self.bind(some.pat.subs[0], v)
            self.stmt(self.ev(some.body))
        self.run(it, bd, out=self.guess_out(some.body))
        return UNIT

    def e_Loop(self, e):
        b = e.body
        while b.k == 'Block' and not b.stmts and b.e is not None and b.e.k in ('Block', 'If'): b = b.e
        if b.k == 'If' and b.f is not None and self.isbreak(b.f):
            c, body = b.c, b.t
            if c.k == 'Let': raise Unsupported('while let')
        else: c, body = None, e.body
        if c is not None:
            with self.sub() as pre:
                cv = self.ev(c); cc = self.code(cv)
            if pre: cond = 'true'; 
            else: cond = cc
        else: cond, pre = 'true', []
        g = None
        m = re.match(r'^\((\w+) <=? .*\)$', cond)
        info = {'i': m.group(1) if m else None, 'n': None, 'out': self.guess_out(body), 'acc': None}
        ord_ = self.nloop; self.loopvars[ord_] = info
        if self.spec and self.spec.get(f'before {ord_}'): self.emit(self.subspec(self.spec.get(f'before {ord_}'), ord_))
        n, hdr = self.loophdr(cond, info)
        hdr = [h for i, h in enumerate(hdr) if not (h.strip() == 'invariant' and (i + 1 == len(hdr) or hdr[i + 1].strip() in ('ensures', 'invariant_except_break') or hdr[i + 1].strip().startswith('decreases')))]
        self.depth += 1; self.contstack.append('')
        with self.sub() as box:
            if pre:
                # condition needs statements: test inside the loop
                cv = self.ev(c); self.emit(f'if !({self.code(cv)}) {{ break; }}')
            self.looptxt(n, 'begin')
            self.stmt(self.ev(body))
            self.looptxt(n, 'end')
        self.depth -= 1; self.contstack.pop()
        for l in hdr: self.emit(l)
        self.emit('{'); self.lines += box; self.emit('}')
        self.looptxt(n, 'after')
        return UNIT
    def isbreak(self, b):
        while b.k in ('Block', 'NeverToAny'):
            if b.k == 'NeverToAny': b = b.e; continue
            if len(b.stmts) == 1 and b.e is None: b = b.stmts[0].e
            elif not b.stmts and b.e is not None: b = b.e
            else: return False
        return b.k == 'Break'

    # ---- closures
    def apply(self, f, args):
        if f.kind == 'fnptr':
            raise Unsupported('function pointer')
        if f.kind != 'clo': raise Unsupported('apply ' + f.kind)
        b = self.cr.lib[f.id]
        ps = b.params[1:]
        if len(ps) != len(args): raise Unsupported('closure arity')
        self.inlining.append(f.id)
        sv = self.spec
        for p, a in zip(ps, args):
            self.inlining.pop(); self.bind(p.pat, a); self.inlining.append(f.id)
        v = self.ev(b.body) 
        self.inlining.pop()
        return v

    # ---- iterators from values
    def iter(self, v, ty):
        if v.kind == 'it': return v.it
        if v.kind == 'range': return ItRange(v.lo, v.hi, v.ty)
        if v.kind == 'slice': return ItVec(v.base, v.ety, 'mut' if v.mut else 'ref', v.lo, v.hi)
        if v.kind == 'col': return ItCol(v)
        if v.kind == 'rows': return ItRows(v.base, v.mut, v.lo, v.hi)
        if v.kind == 'ref':
            t = v.ty
            if R.is_vec(t): return ItVec(v.place, R.elem(t), 'mut' if v.mut else 'ref')
            if t.k == 'array': return ItVec(v.place, t.a[0], 'ref')
            if t.k == 'ref': return self.iter(ref(f'(*{v.place})', t.a[0], t.m), t.a[0])
        if v.kind == 'arr' and v.ty.k == 'array' and R.strip(v.ty.a[0]).k == 'path':
            t = self.tmp(); self.emit(f'let {t}: [{R.code(v.ty.a[0])}; {len(v.items)}] = {self.code(v)};')
            return ItVec(t, v.ty.a[0], 'own', '0', f'{len(v.items)}usize')
        if v.kind == 'val':
            t = v.ty
            if t.k == 'ref': return self.iter(ref(f'(*{v.code})', t.a[0], t.m), t.a[0])
            if R.is_vec(t):
                s = v if simple(v.code) else self.spill(v)
                return ItVec(s.code, R.elem(t), 'own')
        raise Unsupported(f'iterate over {v.kind} {getattr(v, "ty", "")}')

    # ---- calls
    def e_Call(self, e):
        if e.fn is None: raise Unsupported('indirect call')
        path, targs = e.fn
        import calls
        return calls.call(self, e, path, [R.norm(t) for t in targs])

    def crate_call(self, path, args, ty, tyargs=None):
        """call of an in-crate function with evaluated args"""
        c = self.cr.canon.get(path)
        if c is None: raise Unsupported('call ' + path)
        sp = self.specs.get(c)
        inst = ''
        if sp is None:
            return self.inline(path, args, tyargs)
        if tyargs:
            inst = '__' + '_'.join(R.code(t) for t in tyargs.values())
        self.calls.add((c, tuple(sorted((k, R.code(v)) for k, v in (tyargs or {}).items()))))
        b = self.cr.lib[path]
        post = []
        cs = []
        for p, a in zip(b.params, args):
            pt = R.parse(p.ty)
            if a.kind == 'slice' and a.mut and not self.full(a):
                t = self.tmp(); self.emit(f'let mut {t} = vec_sub(&{a.base}, {a.lo}, {a.hi});')
                post.append(f'vec_splice(&mut {a.base}, {a.lo}, {a.hi}, &{t});'); cs.append(f'&mut {t}'); continue
            if a.kind == 'col' and a.mut:
                jj, lo, hi = self.snap(a.j, 'usize'), self.snap(a.lo, 'usize'), self.snap(a.hi, 'usize')
                t = self.tmp(); self.emit(f'let mut {t} = arr2_col(&{a.base}, {jj}, {lo}, {hi});')
                post.append(f'arr2_set_col(&mut {a.base}, {jj}, {lo}, {hi}, &{t});'); cs.append(f'&mut {t}'); continue
            if a.kind == 'ref' and a.mut and '[' in a.place and R.last(a.ty) in R.INTS:
                t = self.tmp(); self.emit(f'let mut {t} = {a.place};')
                post.append(f'{a.place} = {t};'); cs.append(f'&mut {t}')
                self.mutplaces = getattr(self, 'mutplaces', []) + [a.place]; continue
            if a.kind == 'arr': a = self.arr_to(a, pt)
            cs.append(self.code(a))
        mp = [a.place for a in args if a.kind == 'ref' and a.mut and '[' in a.place]
        for i in range(len(mp)):
            for j in range(i):
                bi, bj = mp[i].rsplit('[', 1), mp[j].rsplit('[', 1)
                if bi[0] == bj[0]: self.emit(f'if !({bi[1][:-1]} != {bj[1][:-1]}) {{ vpanic(); }}')
        call = f'{sani(c)}{inst}({", ".join(cs)})'
        t = self.ty(ty) if isinstance(ty, str) else ty
        if post:
            if self.isunit(t): self.emit(call + ';'); r = UNIT
            else:
                x = self.tmp(); self.emit(f'let {x} = {call};'); r = val(x, t, pure=True)
            for l in post: self.emit(l)
            return r
        if t.k == 'ref':
            x = self.tmp(); self.emit(f'let {x} = {call};'); self.immref.add(x)
            return ref(f'(*{x})', t.a[0], t.m)
        return val(call, t)

    def arr_to(self, a, pt):
        """an array literal passed by reference to a slice parameter"""
        return self.ref_temp(self.vec_lit(a.items, None))
    def ref_temp(self, v):
        s = self.spill(v); return ref(s.code, s.ty, False)
    def vec_lit(self, items, ty):
        t = self.tmp('v')
        cs = [self.code(x) for x in items]
        et = f': {self.tc(ty)}' if ty is not None else ''
        self.emit(f'let mut {t}{et} = Vec::new();')
        for c in cs: self.emit(f'{t}.push({c});')
        return val(t, ty if ty is not None else R.T('path', [items[0].ty if items[0].kind == 'val' else R.T('tup')], 'Vec'), pure=True)

    def inline(self, path, args, tyargs=None):
        if path in self.inlining or len(self.inlining) > 6: raise Unsupported('recursive inline ' + path)
        b = self.cr.lib[path]
        self.inlined.add(self.cr.canon[path])
        self.inlining.append(path)
        saved = self.tyargs
        if tyargs: self.tyargs = {**saved, **tyargs}
        try:
            for p, a in zip(b.params, args):
                if a.kind == 'arr': a = self.arr_to(a, None)
                self.bind(p.pat, a)
            v = self.ev(tail_return(b.body))
            if v.kind == 'val': v = self.spill(v) if not self.isunit(v.ty) else v
        finally:
            self.inlining.pop(); self.tyargs = saved
        return v

def tail_return(b):
    """turn `return e` in tail position into e"""
    if b.k == 'Return': return b.e if b.e is not None else X(k='Tuple', es=[], ty='()')
    if b.k == 'NeverToAny': 
        r = tail_return(b.e)
        return r if r is not b.e else b
    if b.k == 'Block':
        if b.e is not None:
            r = tail_return(b.e)
            return X(b, e=r) if r is not b.e else b
        if b.stmts and b.stmts[-1].k == 'Expr':
            l = b.stmts[-1].e; r = tail_return(l)
            if r is not l: return X(b, stmts=b.stmts[:-1], e=r, ty=r.ty)
    if b.k == 'If' and b.f is not None:
        t = tail_return(b.t); f = tail_return(b.f)
        if t is not b.t or f is not b.f: return X(b, t=t, f=f, ty=t.ty if t.ty != '!' else f.ty)
    return b
