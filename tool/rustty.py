"""Types as printed by rustc -> a small tree, and -> the Verus type used in the extracted text.

Vec<T>, [T], Box<[T]> and one-dimensional ndarray views all become Vec<T>;
Array2<T> and its views become Arr2 (a Vec of rows); Arc is kept; the two
BigUint types become BigU; random generators become VRng.
"""
import re, functools

def norm(s):
    s = re.sub(r"'\{[^}]*\}\s?", '', s)
    s = re.sub(r"'\w+ (?!\w*')", '', s)
    s = re.sub(r"\bT/#0|\bR/#0", lambda m: m.group(0)[0], s)
    s = s.replace('std::alloc::Global', 'Global').replace('alloc::alloc::Global', 'Global')
    s = re.sub(r'(\d+)_usize', r'\1', s)
    return s.strip()

class T:
    __slots__ = ('k', 'a', 'm')
    # k: 'ref' (a=[T], m=mut) 'tup' 'slice' 'array'(a=[T], m=len) 'path'(m=name) 'ptr' 'never'
    def __init__(self, k, a=(), m=None): self.k = k; self.a = list(a); self.m = m
    def __repr__(self): return f'T({self.k},{self.a},{self.m})'

def split_top(s, sep=','):
    out = []; d = 0; cur = ''; prev = ''
    for ch in s:
        if ch in '<([{': d += 1
        elif ch in ')]}' or (ch == '>' and prev != '-'): d -= 1
        prev = ch
        if ch == sep and d == 0: out.append(cur.strip()); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out

@functools.lru_cache(None)
def parse(s):
    s = norm(s)
    if s == '!': return T('never')
    if s.startswith('&mut '): return T('ref', [parse(s[5:])], True)
    if s.startswith('&'): return T('ref', [parse(s[1:])], False)
    if s.startswith('*mut ') or s.startswith('*const '): return T('ptr', [parse(s.split(' ', 1)[1])])
    if s.startswith('(') and s.endswith(')'): return T('tup', [parse(x) for x in split_top(s[1:-1])])
    if s.startswith('['):
        inner = s[1:-1]
        p = split_top(inner, ';')
        if len(p) == 2: return T('array', [parse(p[0])], p[1])
        return T('slice', [parse(inner)])
    m = re.match(r'^([\w:{}#]+)(?:<(.*)>)?$', s)
    if not m: return T('path', [], s)
    args = [parse(x) for x in split_top(m.group(2))] if m.group(2) else []
    return T('path', args, m.group(1))

INTS = {'u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize'}
BITS = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'u128': 128, 'usize': 64, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'i128': 128, 'isize': 64}

def last(t): return t.m.split('::')[-1] if t.k == 'path' else None

def is_vec(t):
    if t.k == 'slice': return True
    if t.k != 'path': return False
    l = last(t)
    if l == 'Vec': return True
    if l == 'Box' and t.a and t.a[0].k == 'slice': return True
    if l == 'ArrayBase' and t.a[1].a[0].m == '1': return True
    return False

def is_arr2(t): return t.k == 'path' and last(t) == 'ArrayBase' and t.a[1].a and t.a[1].a[0].m == '2'
def is_view(t):
    return t.k == 'path' and last(t) == 'ArrayBase' and last(t.a[0]) == 'ViewRepr'
def view_mut(t): return is_view(t) and t.a[0].a[0].m is True
def elem(t):
    if t.k == 'slice' or t.k == 'array': return t.a[0]
    l = last(t)
    if l == 'Vec': return t.a[0]
    if l == 'Box': return t.a[0].a[0]
    if l == 'ArrayBase':
        r = t.a[0].a[0]
        return r.a[0] if r.k == 'ref' else r
def is_big(t): return t.k == 'path' and t.m in ('num_bigint::BigUint', 'num_bigint_dig::BigUint')
def is_rng(t): return t.k == 'path' and last(t) in ('ThreadRng', 'ChaCha8Rng', 'R')
def strip(t):
    while t.k == 'ref': t = t.a[0]
    return t

class TyErr(Exception): pass

def code(t):
    """Verus type text"""
    if t.k == 'never': return '!'
    if t.k == 'ref':
        if is_view(t.a[0]): return code(t.a[0])
        return ('&mut ' if t.m else '&') + code(t.a[0])
    if t.k == 'tup': return '(' + ', '.join(code(x) for x in t.a) + (',' if len(t.a) == 1 else '') + ')'
    if t.k == 'slice': return f'Vec<{code(t.a[0])}>'
    if t.k == 'array': return f'[{code(t.a[0])}; {t.m}]'
    if t.k != 'path': raise TyErr(repr(t))
    l = last(t)
    if l in INTS or l in ('bool', 'str', 'f64'): return l
    if is_vec(t):
        inner = f'Vec<{code(elem(t))}>'
        if is_view(t): return ('&mut ' if view_mut(t) else '&') + inner
        return inner
    if is_arr2(t):
        if is_view(t): return ('&mut ' if view_mut(t) else '&') + 'Arr2'
        return 'Arr2'
    if l == 'ArrayBase': return 'Arr3'
    if l == 'Box': return code(t.a[0])
    if is_big(t): return 'BigU'
    if is_rng(t): return 'VRng'
    if l == 'Option': return f'Option<{code(t.a[0])}>'
    if l == 'Arc': return f'Arc<{code(t.a[0])}>'
    if l == 'HashMap': return f'VMap<{code(t.a[0])}, {code(t.a[1])}>'
    if l == 'UInt' and t.a and t.a[0].m == '3': return 'U192'
    if l == 'T': return 'T'
    if not t.a: return l
    raise TyErr(repr(t))
