"""What each library call in the THIR becomes in the extracted text."""
import re
import rustty as R
import trans as TR
from trans import V, val, ref, tup, UNIT, Unsupported, simple

U = R.parse('usize')
PRIM = R.INTS | {'bool'}

def prim(t): t = R.strip(t); return t.k == 'path' and R.last(t) in PRIM
def big(t): return R.is_big(R.strip(t))
def incrate(ts): return any(re.search(r'\b(bfv|evaluations|ksk|modulus|ntt|omr|pvw|rgsw|rns|rq|utils)::', t) for t in ts)

def rd(s, v):
    """read a primitive through any number of references"""
    while v.kind == 'ref' or (v.kind == 'val' and v.ty.k == 'ref'): v = s.deref(v)
    return s.code(v)

def bigarg(s, v, t):
    """text of a &BigU for an operand of a BigUint operator"""
    t0 = R.strip(t)
    if R.is_big(t0):
        while v.kind == 'ref': v = s.deref(v)
        c = s.code(v)
        m = re.match(r'^\(\*(\w+)\)$', c)
        if m: return m.group(1)
        return '&' + c
    n = R.last(t0)
    c = rd(s, v)
    return f'&big_from_{n}({c})'

def place_of(s, v):
    """V -> place text (of what a reference refers to, or a value)"""
    if v.kind == 'ref': return v.place
    if v.kind == 'val': return v.code if v.ty.k != 'ref' else s.deref(v).code
    raise Unsupported('place of ' + v.kind)

def amp(p, mut=False):
    m = re.match(r'^\(\*(\w+)\)$', p)
    if m: return m.group(1)
    return ('&mut ' if mut else '&') + p

def subslice(s, v, r, mut):
    if v.kind == 'ref' and v.ty.k == 'ref': v = s.mkref(v.place, v.ty, mut)
    if v.kind == 'ref':
        base = v.place; ety = R.elem(v.ty) if R.is_vec(v.ty) else v.ty.a[0]; lo0, hi0 = '0', f'{base}.len()'
    elif v.kind == 'slice': base, ety, lo0, hi0 = v.base, v.ety, v.lo, v.hi
    elif v.kind == 'val' and R.is_vec(v.ty): base = v.code; ety = R.elem(v.ty); lo0, hi0 = '0', f'{base}.len()'
    else: raise Unsupported('subslice of ' + v.kind)
    lo = r.lo; hi = r.hi
    if lo is None and hi is None: return V('slice', base=base, ety=ety, lo=lo0, hi=hi0, mut=mut)
    if lo0 != '0':
        lo = f'{lo0} + {lo}' if lo is not None else lo0
        hi = f'{lo0} + {hi}' if hi is not None else hi0
    lo = s.snap(lo, 'usize') if lo is not None else '0'
    hi = s.snap(hi, 'usize') if hi is not None else hi0
    if lo in ('0usize',): lo = '0'
    s.emit(f'if !({lo} <= {hi} && {hi} <= {hi0}) {{ vpanic(); }}')
    return V('slice', base=base, ety=ety, lo=lo, hi=hi, mut=mut)

def as_slice(s, v):
    if v.kind == 'slice': return v
    if v.kind == 'ref' and v.ty.k == 'ref': v = s.mkref(v.place, v.ty, False)
    if v.kind == 'ref' and (R.is_vec(v.ty) or v.ty.k == 'array'):
        return V('slice', base=v.place, ety=R.elem(v.ty), lo='0', hi=f'{v.place}.len()', mut=v.mut)
    if v.kind == 'val' and R.is_vec(v.ty): return V('slice', base=v.code, ety=R.elem(v.ty), lo='0', hi=f'{v.code}.len()', mut=False)
    raise Unsupported('slice of ' + v.kind)

def collect(s, it, ty):
    ty = s.ty(ty) if isinstance(ty, str) else ty
    if not R.is_vec(ty): raise Unsupported('collect into ' + repr(ty))
    o = s.tmp('out')
    s.emit(f'let mut {o}: {s.tc(ty)} = Vec::new();')
    s.run(it, lambda v: s.emit(f'{o}.push({own(s, v)});'), out=o)
    return val(o, ty, pure=True)

def own(s, v): return s.code(v)

def clone(s, v, t):
    t0 = R.strip(t)
    while v.kind == 'ref' and v.ty.k == 'ref': v = s.mkref(v.place, v.ty, False)
    if v.kind == 'slice': 
        return val(f'vec_sub({amp(v.base)}, {v.lo}, {v.hi})', R.T('path', [v.ety], 'Vec'))
    if v.kind in ('it', 'clo', 'rng', 'dist', 'tup'): return v
    p = place_of(s, v)
    if prim(t0): return val(p if not p.startswith('(*') else '*' + p[2:-1], t0)
    return val(f'clone_val({amp(p)})', t0)

def compare(s, op, a, b, ta, tb):
    ta, tb = R.strip(s.ty(ta)), R.strip(s.ty(tb))
    if prim(ta): return val(f'({rd(s, a)} {op} {rd(s, b)})', R.parse('bool'))
    if R.is_big(ta):
        f = {'==': 'big_eq', '>': 'big_gt', '>=': 'big_ge', '<': 'big_lt', '<=': 'big_le', '!=': 'big_ne'}[op]
        return val(f'{f}({bigarg(s, a, ta)}, {bigarg(s, b, tb)})', R.parse('bool'))
    pa = place_of(s, TR_strip(s, a)); pb = place_of(s, TR_strip(s, b))
    if op == '==': return val(f'eq_val({amp(pa)}, {amp(pb)})', R.parse('bool'))
    if op == '!=': return val(f'!eq_val({amp(pa)}, {amp(pb)})', R.parse('bool'))
    raise Unsupported('compare')

def TR_strip(s, v):
    while v.kind == 'ref' and v.ty.k == 'ref': v = ref(f'(*{v.place})', v.ty.a[0], v.ty.m)
    if v.kind == 'val' and v.ty.k != 'ref': v = s.spill(v)
    return v

def call(s, e, path, targs):
    A = lambda: s.args(e.args)
    n = path.split('::')[-1]
    T = s.ty(e.ty)
    # ---------------- in-crate
    if path.startswith('onion_pir::'):
        a = A()
        ta = None
        if targs and path in s.cr.canon:
            ta = {}
            for g, t in zip(generics(s.cr.lib[path]), targs):
                tt = s.ty(t)
                if not R.is_rng(tt) and not (tt.k == 'ref'): ta[g] = tt
            ta = {k: v for k, v in ta.items() if k == 'T'} or None
        return s.crate_call(path, a, T, ta)
    # ---------------- closures called by name
    if re.match(r'core::ops::function::Fn(Mut|Once)?::call', path):
        f = s.ev(e.args[0])
        while f.kind == 'ref' and getattr(f, 'to', None) is not None: f = f.to
        if f.kind != 'clo' or e.args[1].k != 'Tuple': raise Unsupported('call of ' + f.kind)
        return s.apply(f, [s.ev(x) for x in e.args[1].es])
    # ---------------- panics
    if path.startswith('core::panicking::') or path.startswith('std::rt::begin_panic'):
        # a function whose contract says it refuses: reaching the panic is allowed, nothing is promised then
        return val('vrefuse()' if s.spec is not None and 'refuses' in s.spec.sec and not s.dbg else 'vpanic()', R.T('never'))
    if path.startswith('core::fmt') or path.startswith('std::io') or path.startswith('alloc::fmt'): return V('str')
    # ---------------- operators
    m = re.match(r'core::ops::(?:arith|bit)::(\w+)::(\w+)$', path)
    if m and m.group(2) in ('add', 'sub', 'mul', 'div', 'rem', 'neg', 'not', 'shl', 'shr', 'bitand', 'bitor', 'bitxor', 'add_assign', 'sub_assign', 'mul_assign', 'shr_assign', 'shl_assign', 'div_assign', 'rem_assign'):
        op = m.group(2)
        if incrate(targs):
            full = [R.norm(x.ty) for x in e.args]
            p = s.cr.find_op(op, full)
            if p is None: raise Unsupported(f'operator {op} {full}')
            return s.crate_call(p, A(), T)
        a = A()
        ts = [s.ty(x.ty) for x in e.args]
        if big(ts[0]) or (len(ts) > 1 and big(ts[1])):
            if op in ('shl', 'shr'): return val(f'big_{op}({bigarg(s, a[0], ts[0])}, {s.cast(rd(s, a[1]), R.last(R.strip(ts[1])), "usize")})', T)
            if op.endswith('_assign'):
                pl = place_of(s, a[0])
                r = bigarg(s, a[1], ts[1])
                s.assign(val(pl, ts[0]), f'big_{op[:-7]}({amp(pl)}, {r})'); return UNIT
            return val(f'big_{op}({bigarg(s, a[0], ts[0])}, {bigarg(s, a[1], ts[1])})', T)
        if all(prim(t) for t in ts):
            if op == 'neg': return val(f'(-{rd(s, a[0])})', T)
            if op == 'not': return val(f'!({rd(s, a[0])})' if R.last(R.strip(ts[0])) == 'bool' else f'not_{R.last(R.strip(ts[0]))}({rd(s, a[0])})', T)
            N = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul', 'div': 'Div', 'rem': 'Rem', 'shl': 'Shl', 'shr': 'Shr', 'bitand': 'BitAnd', 'bitor': 'BitOr', 'bitxor': 'BitXor'}
            if op.endswith('_assign'):
                pl = place_of(s, a[0]); 
                v = s.binop(N[op[:-7]], rd(s, a[0]), rd(s, a[1]), R.strip(ts[0]), R.strip(ts[1]), R.strip(ts[0]))
                s.assign(val(pl, ts[0]), v.code); return UNIT
            return s.binop(N[op], rd(s, a[0]), rd(s, a[1]), R.strip(ts[0]), R.strip(ts[1]), T)
        if 'U192' in (safe(ts[0]),) and op == 'shr_assign':
            pl = place_of(s, a[0]); s.assign(val(pl, ts[0]), f'u192_shr(&{pl}, {s.code(a[1])})'); return UNIT
        raise Unsupported(f'operator {op} on {targs}')
    if path.startswith('core::cmp::Partial') and n in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
        a = A(); return compare(s, {'eq': '==', 'ne': '!=', 'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>='}[n], a[0], a[1], e.args[0].ty, e.args[1].ty)
    if path in ('core::cmp::min', 'core::cmp::max') or (path.startswith('core::cmp::Ord::') and n in ('min', 'max')):
        a = A(); t = R.last(T)
        return val(f'{n}_{t}({s.code(a[0])}, {s.code(a[1])})', T)
    # ---------------- deref / index / clone
    if n in ('deref', 'deref_mut') and 'ops::deref' in path:
        a = A()[0]; t = R.strip(s.ty(e.args[0].ty))
        if R.last(t) == 'Arc':
            p = place_of(s, a); return ref(f'(*{p})', t.a[0], False)
        if a.kind == 'val' and a.ty.k == 'ref': a = ref(f'(*{a.code})', a.ty.a[0], a.ty.m)
        return a
    if n in ('index', 'index_mut') and 'ops::index' in path:
        a = A(); mut = n == 'index_mut'
        if a[1].kind == 'range': return subslice(s, a[0], a[1], mut)
        if a[1].kind == 'axis': raise Unsupported('index by axis')
        b = a[0]
        i = rd(s, a[1])
        if '(' in i: i = s.snap(i, 'usize')
        x = s.index(b, i, R.strip(T) if T.k == 'ref' else T)
        t = T.a[0]
        return s.mkref(x.code, t, mut) if t.k != 'ref' else ref(f'{x.code}', t, mut)
    if path == 'core::clone::Clone::clone':
        a = A()[0]; return clone(s, a, s.ty(e.args[0].ty))
    if path == 'alloc::rcs::arc::{impl#16}::new' or (n == 'new' and 'arc::' in path.lower()):
        return val(f'Arc::new({s.code(A()[0])})', T)
    # ---------------- Vec
    if path.startswith('alloc::vec::') or path.startswith('alloc::slice::') or path.startswith('core::slice::') or path.startswith('alloc::boxed::') or path.startswith('alloc::intrinsics'):
        r = vec_call(s, e, path, n, T)
        if r is not None: return r
    # ---------------- Option
    if path.startswith('core::option::') or path.startswith('core::result::'):
        r = opt_call(s, e, path, n, T)
        if r is not None: return r
    # ---------------- ints
    m = re.match(r'core::num::\{impl#\d+\}::(\w+)$', path)
    if m:
        a = A(); t = R.last(R.strip(s.ty(e.args[0].ty)))
        return val(f'{t}_{n}(' + ', '.join(s.code(x) for x in a) + ')', T)
    if path.startswith('core::ptr::') and n == 'add':
        a = A()
        if a[0].kind != 'ptr': raise Unsupported('pointer arithmetic')
        i = s.snap(s.code(a[1]), 'usize')
        return ref(s.idx(a[0].base, i), a[0].ety, True)
    if path == 'core::mem::size_of':
        return val(str(R.BITS[R.last(s.ty(targs[0]))] // 8) + 'usize', T, pure=True)
    # ---------------- num_traits on primitive ints and BigUint
    if path.startswith('num_traits::'):
        r = num_call(s, e, path, n, targs, T)
        if r is not None: return r
    if path.startswith('num_bigint') :
        a = A(); ts = [s.ty(x.ty) for x in e.args]
        if n == 'bits': return val(f'big_bits({bigarg(s, a[0], ts[0])})', T)
        if n == 'mod_inverse': return val(f'big_mod_inverse({bigarg(s, a[0], ts[0])}, {bigarg(s, a[1], ts[1])})', R.parse('Option<num_bigint::BigUint>'))
        if n in ('to_bytes_le', 'to_biguint', 'from_bytes_le'):
            # BigInt -> BigUint and byte round trips between the two BigUint crates: the value is unchanged
            v = a[0]
            while v.kind == 'ref': v = s.deref(v)
            c = s.code(v)
            if n == 'to_biguint': return val(f'Some({c})', R.parse('Option<num_bigint::BigUint>'))
            return val(c, R.parse('num_bigint::BigUint'))
        if n == 'probably_prime': return val(f'big_probably_prime({bigarg(s, a[0], ts[0])})', T)
        raise Unsupported(path)
    # ---------------- conversions
    if path == 'core::convert::From::from' or path == 'core::convert::Into::into':
        src = e.args[0].ty; dst = targs[0] if n == 'from' else targs[1]
        if incrate([dst, R.norm(src)]):
            p = s.cr.find_op('from', [R.norm(src)], R.norm(dst))
            if p is None: raise Unsupported(f'From {src} -> {dst}')
            a = A()
            return s.crate_call(p, arr_args(s, a), T)
        a = A()[0]; st = s.ty(src); dt = s.ty(dst)
        if R.is_big(dt): return val(f'big_from_{R.last(R.strip(st))}({rd(s, a)})', dt)
        if prim(dt) and prim(st): return val(s.cast(rd(s, a), R.last(R.strip(st)), R.last(dt)), dt)
        if R.is_vec(dt):
            if a.kind == 'ref' and R.is_vec(R.strip(a.ty)): return a
        if safe(R.strip(st)) == 'U192': return val(f'u192_words({amp(place_of(s, a) if a.kind == "ref" else s.code(a))})', dt)
        if 'GenericArray' in src: return val('seed_default()', R.parse('VSeed'))
        if R.last(dt) == 'Uniform' and a.kind == 'range': return V('dist', lo=a.lo, hi=a.hi)
        raise Unsupported(f'From {src} -> {dst}')
    # ---------------- iterators
    if path.startswith('core::iter::') or path.startswith('itertools::'):
        r = iter_call(s, e, path, n, T)
        if r is not None: return r
    # ---------------- ranges
    if path.startswith('core::ops::range::'):
        if n == 'new':
            a = A(); return V('rangei', lo=s.code(a[0]), hi=s.code(a[1]))
        if n == 'contains':
            a = A()
            r = a[0]; x = rd(s, a[1])
            if r.kind == 'rangei': return val(f'({r.lo} <= {x} && {x} <= {r.hi})', T)
            if r.kind == 'range': return val(f'({r.lo} <= {x} && {x} < {r.hi})', T)
    # ---------------- random
    if path.startswith('rand') or path.startswith('digest') or path.startswith('rand_core') or path.startswith('rand_distr'):
        r = rand_call(s, e, path, n, T)
        if r is not None: return r
    if path == 'core::default::Default::default':
        if R.parse(e.ty).k == 'array': return val('seed_arr()', R.parse(e.ty))
        full = s.cr.bycanon
        raise Unsupported('default')
    # ---------------- ndarray
    if path.startswith('ndarray::'):
        r = nd_call(s, e, path, n, T)
        if r is not None: return r
    if path.startswith('crypto_bigint::'):
        a = A()
        if n == 'from_words':
            it = a[0].items
            return val(f'u192_from_words({", ".join(s.code(x) for x in it)})', T)
        if n == 'wrapping_add':
            return val(f'u192_wrapping_add({amp(place_of(s, a[0]))}, {amp(place_of(s, TR_strip(s, a[1])))})', T)
    if path.startswith('std::collections::hash::map::'):
        a = A()
        if n == 'new': return val('VMap::new()', T)
        if n == 'insert': s.emit(f'vmap_insert({amp(place_of(s, a[0]), True)}, {s.code(a[1])}, {s.code(a[2])});'); return UNIT
        if n == 'get':
            p = place_of(s, a[0]); k = rd(s, a[1]); k = s.snap(k)
            return V('opt', cond=f'vmap_has({amp(p)}, {k})', v=ref(f'(*vmap_get({amp(p)}, {k}))', T.a[0].a[0], False))
    raise Unsupported('call ' + path)

def arr_args(s, a):
    out = []
    for x in a:
        if x.kind == 'arr':
            out.append(val('[' + ', '.join(s.code(y) for y in x.items) + ']', x.ty))
        else: out.append(x)
    return out

def safe(t):
    try: return R.code(R.strip(t))
    except Exception: return ''

def generics(b):
    out = []
    def walk(t):
        if t.k == 'path' and t.m in ('T', 'R') and t.m not in out: out.append(t.m)
        for x in t.a: walk(x)
    for p in b.params: walk(R.parse(p.ty))
    return out or ['T']

def vec_call(s, e, path, n, T):
    if n == 'box_assume_init_into_vec_unsafe':
        w = e.args[0]
        a = s.ev(w.args[1])
        return s.vec_lit(a.items, T)
    a = s.args(e.args)
    if n in ('new', 'with_capacity'): return val('Vec::new()', T)
    if n == 'from_elem':
        return val(f'vec_from_elem({s.code(a[0])}, {s.code(a[1])})', T)
    if n in ('as_slice', 'as_mut_slice', 'into_boxed_slice', 'into_vec'):
        return a[0]
    if n == 'len':
        x = a[0]
        if x.kind == 'slice': return val(x.hi if x.lo == '0' else f'({x.hi} - {x.lo})', T)
        if x.kind == 'col': return val(f'({x.hi} - {x.lo})', T)
        return val(s.fld(place_of(s, x), 'len()'), T)
    if n == 'is_empty':
        x = a[0]
        return val(f'({s.fld(place_of(s, x), "len()")} == 0)', T)
    if n == 'push':
        c = s.code(a[1]); p = place_of(s, a[0])
        s.emit(f'{s.fld(p, "push")}({c});'); return UNIT
    if n == 'pop':
        p = place_of(s, a[0]); return val(f'{s.fld(p, "pop")}()', T)
    if n == 'to_vec':
        x = as_slice(s, a[0])
        if s.full(x): return val(f'clone_val({amp(x.base)})', T)
        return val(f'vec_sub({amp(x.base)}, {x.lo}, {x.hi})', T)
    if n in ('iter', 'iter_mut'):
        x = a[0]
        return V('it', it=s.iter(x if x.kind != 'val' else ref(x.code, x.ty, n == 'iter_mut'), None))
    if n == 'chunks':
        return V('it', it=TR.ItChunks(as_slice(s, a[0]), s.snap(s.code(a[1]), 'usize')))
    if n == 'copy_from_slice':
        d = as_slice(s, a[0]); src = as_slice(s, a[1])
        sc = amp(src.base) if s.full(src) else s.code(V('slice', base=src.base, ety=src.ety, lo=src.lo, hi=src.hi, mut=False))
        lo, hi = s.snap(d.lo, 'usize'), s.snap(d.hi, 'usize')
        s.emit(f'vec_copy_from(&mut {d.base}, {lo}, {hi}, {sc});' if not re.match(r'^\(\*\w+\)$', d.base) else f'vec_copy_from({d.base[2:-1]}, {lo}, {hi}, {sc});'); return UNIT
    if n in ('get_unchecked', 'get_unchecked_mut'):
        i = s.code(a[1]); x = s.index(a[0], i, T.a[0])
        return s.mkref(x.code, T.a[0], n.endswith('mut'))
    if n == 'last':
        x = as_slice(s, a[0])
        if x.lo != '0': raise Unsupported('last of subslice')
        return V('opt', cond=f'{x.hi} > 0', v=s.mkref(f'{x.base}[{x.hi} - 1]', x.ety, False))
    if n == 'first':
        x = as_slice(s, a[0])
        return V('opt', cond=f'{x.hi} > {x.lo}', v=s.mkref(f'{x.base}[{x.lo}]', x.ety, False))
    if n == 'as_mut_ptr' or n == 'as_ptr':
        x = as_slice(s, a[0])
        if not s.full(x): raise Unsupported('pointer into subslice')
        return V('ptr', base=x.base, ety=x.ety)
    if n == 'contains':
        x = as_slice(s, a[0])
        if not s.full(x): raise Unsupported('contains')
        return val(f'vec_contains({amp(x.base)}, {rd(s, a[1])})', T)
    return None

def opt_call(s, e, path, n, T):
    a = s.args(e.args)
    x = a[0]
    if n in ('unwrap', 'expect'):
        if x.kind == 'opt':
            if x.cond != 'true': s.emit(f'if !({x.cond}) {{ vpanic(); }}')
            return s.optval(x)
        if x.kind in ('slice', 'ref') and not (x.kind == 'ref' and R.last(x.ty) == 'Option'): return x
        if T.k == 'ref':
            raise Unsupported('unwrap of a plain Option<&T>')
        return val(f"{'opt_unwrap_refuse' if s.spec is not None and 'refuses' in s.spec.sec else 'opt_unwrap'}({s.code(x)})", T)
    if n == 'as_ref':
        p = place_of(s, x)
        inner = R.strip(s.ty(e.args[0].ty)).a[0]
        return V('opt', cond=f'{s.fld(p, "is_some()")}', v=ref(f'(*opt_ref({amp(p)}))', inner, False))
    if n == 'is_some':
        if x.kind == 'opt': return val(f'({x.cond})', T)
        return val(f'{s.fld(place_of(s, x), "is_some()")}', T)
    if n == 'is_none':
        return val(f'{s.fld(place_of(s, x), "is_none()")}', T)
    if n == 'map' and x.kind == 'opt':
        return V('opt', cond=x.cond, v=None, lazy=lambda: s.apply(a[1], [s.optval(x)]))
    return None

def num_call(s, e, path, n, targs, T):
    a = s.args(e.args)
    t0 = s.ty(targs[0]) if targs else None
    if t0 is not None and R.is_big(t0):
        if n in ('zero', 'one'): return val(f'big_{n}()', T)
        if n in ('from_u64', 'from_usize', 'from_u128'): return V('opt', cond='true', v=val(f'big_{n}({s.code(a[0])})', t0))
        if n in ('to_u64', 'to_u128', 'to_usize'): return val(f'big_{n}({bigarg(s, a[0], s.ty(e.args[0].ty))})', T)
    if n == 'to_u64' and t0 is not None and 'BigInt' in (t0.m or ''):
        v = a[0]
        while v.kind == 'ref': v = s.deref(v)
        v = s.spill(v)
        return val(f'big_to_u64(&{v.code})', T)
    if t0 is not None and prim(t0):
        p = R.last(t0)
        if n == 'zero': return val(f'0{p}', T, pure=True)
        if n == 'one': return val(f'1{p}', T, pure=True)
        if n == 'is_zero': return val(f'({rd(s, a[0])} == 0)', T)
        if n == 'is_one': return val(f'({rd(s, a[0])} == 1)', T)
        if n == 'leading_zeros': return val(f'{p}_leading_zeros({rd(s, a[0])})', T)
        if n == 'to_u64': return V('opt', cond='true', v=val(s.cast(rd(s, a[0]), p, 'u64'), R.parse('u64')))
    return None

def iter_call(s, e, path, n, T):
    a = s.args(e.args)
    t0 = s.ty(e.args[0].ty) if e.args else None
    if n in ('into_iter', 'by_ref', 'iter', 'cloned', 'copied'):
        if a[0].kind == 'groups': return a[0]
        it = s.iter(a[0], t0)
        if n in ('cloned', 'copied'): return V('it', it=TR.ItMap(it, V('pycl', f=lambda v: val(rd(s, v), R.strip(v.ty)))))
        return V('it', it=it)
    if n == 'zip': return V('it', it=TR.ItZip(s.iter(a[0], t0), s.iter(a[1], s.ty(e.args[1].ty))))
    if n == 'map': return V('it', it=TR.ItMap(s.iter(a[0], t0), a[1]))
    if n == 'enumerate': return V('it', it=TR.ItEnum(s.iter(a[0], t0)))
    if n == 'rev': return V('it', it=TR.ItRev(s.iter(a[0], t0)))
    if n == 'take': return V('it', it=TR.ItTake(s.iter(a[0], t0), s.snap(s.code(a[1]), 'usize')))
    if n == 'skip': return V('it', it=TR.ItSkip(s.iter(a[0], t0), s.snap(s.code(a[1]), 'usize')))
    if n == 'take_while': return V('it', it=V('tw', a=s.iter(a[0], t0), f=a[1]))
    if n == 'count' and a[0].kind == 'it' and isinstance(a[0].it, V):
        tw = a[0].it; ln = s.snap(tw.a.start(s), 'usize')
        c = s.tmp('cnt'); g = s.tmp('go')
        s.emit(f'let mut {c}: usize = 0; let mut {g}: bool = true;')
        info = {'i': c, 'n': ln, 'out': None, 'acc': g}
        k, hdr = s.loophdr(f'{g} && {c} < {ln}', info, [f'0 <= {c} <= {ln}'], f'(if {g} {{ 1int }} else {{ 0int }}) + {ln} - {c}')
        with s.sub() as box:
            v = s.apply(tw.f, [s_refval(s, tw.a.elem(s, c))])
            s.emit(f'if {s.code(v)} {{ {c} = {c} + 1; }} else {{ {g} = false; }}')
        for l in hdr: s.emit(l)
        s.emit('{'); s.lines += box; s.emit('}')
        s.looptxt(k, 'after')
        return val(c, T, pure=True)
    if n in ('collect', 'collect_vec'): return collect(s, s.iter(a[0], t0), e.ty)
    if n == 'for_each':
        b = s.cr.lib[a[1].id]
        s.run(s.iter(a[0], t0), lambda v: s.stmt(s.apply(a[1], [v])), out=s.guess_out(b.body)); return UNIT
    if n == 'fold':
        acc = s.tmp('acc'); at = s.ty(e.ty)
        s.emit(f'let mut {acc}: {s.tc(at)} = {s.code(a[1])};'); s.mutvars.add(acc)
        def body(v):
            av = val(acc, at); av.alias = True
            r = s.apply(a[2], [av, v]); s.emit(f'{acc} = {s.code(r)};')
        s.run(s.iter(a[0], t0), body, acc=acc)
        return val(acc, at)
    if n == 'sum':
        acc = s.tmp('acc'); at = s.ty(e.ty)
        s.emit(f'let mut {acc}: {s.tc(at)} = 0;')
        s.run(s.iter(a[0], t0), lambda v: s.emit(f'{acc} = {acc} + {rd(s, v)};'), acc=acc)
        return val(acc, at)
    if n in ('min', 'max'):
        acc = s.tmp('acc'); at = T.a[0]
        s.emit(f'let mut {acc}: Option<{s.tc(at)}> = None;')
        s.run(s.iter(a[0], t0), lambda v: s.emit(f'{acc} = opt_{n}_{R.last(at)}({acc}, {rd(s, v)});'), acc=acc)
        return val(acc, T)
    if path.startswith('itertools::Itertools::chunks'):
        it = s.iter(a[0], t0)
        if not isinstance(it, TR.ItVec): raise Unsupported('itertools chunks')
        sl = V('slice', base=it.base, ety=it.ety, lo='0', hi=f'{it.base}.len()', mut=False)
        return V('it', it=TR.ItChunks(sl, s.snap(s.code(a[1]), 'usize')))
    if n == 'extend':
        p = place_of(s, a[0]); it = s.iter(a[1], s.ty(e.args[1].ty))
        s.run(it, lambda v: s.emit(f'{s.fld(p, "push")}({rd(s, v) if prim(R.strip(v.ty)) else s.code(v)});'), out=p)
        return UNIT
    if path.startswith('itertools::') and n in ('enumerate',): return V('it', it=TR.ItEnum(s.iter(a[0], t0)))
    if n == 'sample_iter': return None
    return None

def s_refval(s, v):
    return v

def rand_call(s, e, path, n, T):
    if n == 'thread_rng': return val('rng_new()', R.parse('rand::ThreadRng'))
    a = s.args(e.args)
    if n == 'next_u64': return val(f'rng_next_u64({amp(place_of(s, a[0]), True)})', T)
    if n in ('seed_from_u64', 'from_seed'): return val('rng_new()', R.parse('rand::ThreadRng'))
    if n == 'gen_range':
        r = a[1]
        if r.kind != 'range': raise Unsupported('gen_range')
        return val(f'rng_range({amp(place_of(s, a[0]), True)}, {r.lo}, {r.hi})', T)
    if n == 'sample':
        return val(f'rng_range({amp(place_of(s, a[0]), True)}, {a[1].lo}, {a[1].hi})', T)
    if n == 'sample_iter':
        r = a[0]
        if r.kind == 'val':
            t = s.tmp('rng'); s.emit(f'let mut {t} = {r.code};'); rp = f'&mut {t}'
        else: rp = amp(r.place, True)
        d = a[1]
        it = TR.ItSample(rp, d)
        lo, hi = s.snap(d.lo), s.snap(d.hi)
        it.elem = lambda tr, i: val(f'rng_range({rp}, {lo}, {hi})', R.parse('u64'))
        return V('it', it=it)
    if n in ('fill', 'update'): return UNIT
    if n == 'new' and 'digest' in path: return val('hasher_new()', R.parse('VHasher'))
    if n == 'finalize': return val('seed_default()', R.parse('VSeed'))
    return None

def sliceinfo(s, e):
    """s![..] argument -> list of ranges / indices, read off the THIR of the macro expansion"""
    found = []
    def walk(x):
        if isinstance(x, dict):
            if x.get('k') == 'Call' and x.get('fn') and x['fn'][0] == 'core::convert::From::from' and 'SliceInfoElem' in x['ty']:
                found.append(x['args'][0]); return
            if x.get('k') == 'Call' and x.get('fn') and x['fn'][0].endswith('next_in_dim'): return
            for k, y in x.items():
                if k != 'ty': walk(y)
        elif isinstance(x, (list, tuple)):
            for y in x: walk(y)
    binds = {}
    def walkb(x):
        if isinstance(x, dict):
            if x.get('k') == 'Match' and len(x['arms']) == 1 and x['arms'][0].pat.k == 'Binding': binds[x['arms'][0].pat.id] = x['e']
            for k, y in x.items():
                if k != 'ty': walkb(y)
        elif isinstance(x, (list, tuple)):
            for y in x: walkb(y)
    walkb(e)
    walk(e)
    out = []
    for x in found:
        y = x
        while True:
            if y.k in ('Deref', 'Borrow', 'Pointer'): y = y.e
            elif y.k == 'Call' and y.fn[0] == 'core::clone::Clone::clone': y = y.args[0]
            elif y.k == 'VarRef' and y.id in binds: y = binds[y.id]
            else: break
        out.append(s.ev(y))
    return out

def nd_call(s, e, path, n, T):
    t0 = s.ty(e.args[0].ty) if e.args else None
    if n == 'zeros':
        a = s.args(e.args)
        if len(a[0].items) != 2: return val('arr3_dummy()', R.parse('Arr3'))
        return val(f'arr2_zeros({s.code(a[0].items[0])}, {s.code(a[0].items[1])})', T)
    if n in ('slice', 'slice_mut'):
        b = s.ev(e.args[0]); si = sliceinfo2(s, e.args[1])
        mut = n == 'slice_mut'
        base, lo0, hi0 = rowsof(s, b)
        if len(si) != 2: raise Unsupported('slice of 3-d array')
        r0, r1 = si
        if r0.kind != 'range': raise Unsupported('row slice')
        lo = s.snap(r0.lo, 'usize') if r0.lo is not None else '0'
        hi = s.snap(r0.hi, 'usize') if r0.hi is not None else f'{base}.rows.len()'
        if (r0.lo is not None or r0.hi is not None):
            s.emit(f'if !({lo} <= {hi} && {hi} <= {base}.rows.len()) {{ vpanic(); }}')
        if r1.kind == 'range':
            if r1.lo is not None or r1.hi is not None: raise Unsupported('column range')
            return V('rows', base=base, lo=lo, hi=hi, mut=mut)
        j = s.snap(s.code(r1), 'usize')
        s.emit(f'if !({j} < arr2_ncols(&{base})) {{ vpanic(); }}')
        return V('col', base=base, j=j, lo=lo, hi=hi, mut=mut)
    a = s.args(e.args)
    x = a[0]
    if n in ('view', 'view_mut'):
        base, lo, hi = rowsof(s, x); return V('rows', base=base, lo=lo, hi=hi, mut=n == 'view_mut')
    if n in ('outer_iter', 'outer_iter_mut'):
        if x.kind in ('rows',): return V('it', it=TR.ItRows(x.base, x.mut, x.lo, x.hi))
        if x.kind == 'ref' and R.is_arr2(x.ty) or x.kind == 'ref' and safe(x.ty) == 'Arr2': return V('it', it=TR.ItRows(x.place, n == 'outer_iter_mut'))
        raise Unsupported('outer_iter on ' + x.kind)
    if n in ('axis_iter', 'axis_iter_mut'):
        base, lo, hi = rowsof(s, x)
        if a[1].n.startswith('0'): return V('it', it=TR.ItRows(base, n.endswith('mut'), lo, hi))
        return V('it', it=TR.ItCols(base, n.endswith('mut'), lo, hi))
    if n == 'index_axis':
        base, lo, hi = rowsof(s, x)
        if not a[1].n.startswith('0') or lo != '0': raise Unsupported('index_axis')
        i = s.snap(s.code(a[2]), 'usize')
        return ref(f'{base}.rows[{i}]', R.parse('std::vec::Vec<u64, Global>'), False)
    if n in ('as_slice', 'as_slice_mut'):
        if x.kind == 'ref': return V('opt', cond='true', v=ref(x.place, x.ty, n.endswith('mut')))
        raise Unsupported('as_slice on ' + x.kind)
    if n in ('iter', 'iter_mut'):
        if x.kind in ('rows',): return V('it', it=TR.ItFlat(x.base, n == 'iter_mut', x.lo, x.hi))
        if x.kind == 'col': return V('it', it=TR.ItCol(x))
        if x.kind == 'ref' and R.is_vec(x.ty): return V('it', it=TR.ItVec(x.place, R.parse('u64'), 'mut' if n == 'iter_mut' else 'ref'))
        raise Unsupported('iter on ' + x.kind)
    if n == 'len':
        if x.kind == 'col': return val(f'({x.hi} - {x.lo})', T)
        return val(s.fld(place_of(s, x), 'len()'), T)
    if n == 'is_empty': return val(f'({s.fld(place_of(s, x), "len()")} == 0)', T)
    if n in ('get', 'get_mut'):
        i = s.snap(rd(s, a[1]), 'usize')
        p = place_of(s, x)
        return V('opt', cond=f'{i} < {s.fld(p, "len()")}', v=ref(s.idx(p, i), R.parse('u64'), n == 'get_mut'))
    if n == 'assign':
        d = x; src = a[1]
        if d.kind == 'rows' and src.kind == 'rows':
            s.emit(f'arr2_copy_rows(&mut {d.base}, {d.lo}, {d.hi}, &{src.base}, {src.lo}, {src.hi});'); return UNIT
        raise Unsupported('assign')
    if n == 'split_at':
        base, lo, hi = rowsof(s, x)
        k = s.snap(s.code(a[2]), 'usize')
        s.emit(f'if !({k} <= {hi}{"" if lo == "0" else " - " + lo}) {{ vpanic(); }}')
        if lo != '0': raise Unsupported('split_at of a sub-view')
        mut = x.mut
        return tup([V('rows', base=base, lo=lo, hi=k, mut=mut), V('rows', base=base, lo=k, hi=hi, mut=mut)])
    if n == 'remove_index':
        base, lo, hi = rowsof(s, x)
        s.emit(f'arr2_remove_row({amp(base, True)}, {s.code(a[2])});'); return UNIT
    return None

def sliceinfo2(s, e):
    r = sliceinfo(s, e)
    if not r: raise Unsupported('s! macro')
    return r

def rowsof(s, x):
    if x.kind == 'rows': return x.base, x.lo, x.hi
    if x.kind == 'ref': return x.place, '0', f'{x.place}.rows.len()'
    if x.kind == 'val': return x.code, '0', f'{x.code}.rows.len()'
    raise Unsupported('2-d view of ' + x.kind)
