"""Parse the output of `rustc -Zunpretty=thir-tree` into a small expression tree.

The input is what the compiler itself type-checked: macros expanded, names and
overloads resolved, types attached.  Nothing is dropped here except scopes,
hygiene information and source spans (one span per expression is kept).
"""
import re, sys

CLOSERS = {'}', ']', ')', ',', '],', '},', ')', '),'}

class N:
    __slots__ = ('t', 'c')
    def __init__(self, t): self.t = t; self.c = []

def tree(lines):
    root = N('ROOT'); stack = [(-1, root)]
    for ln in lines:
        s = ln.strip()
        if not s or s in CLOSERS: continue
        ind = len(ln) - len(ln.lstrip(' '))
        n = N(s)
        while stack[-1][0] >= ind: stack.pop()
        stack[-1][1].c.append(n)
        stack.append((ind, n))
    return root

class Unsupported(Exception): pass

def val(node, key):
    p = key + ':'
    for c in node.c:
        if c.t.startswith(p): return c.t[len(p):].strip()
    return None

def sub(node, key):
    p = key + ':'
    for c in node.c:
        if c.t.startswith(p): return c
    return None

def short_def(s):
    m = re.search(r'DefId\(\d+:\d+ ~ ([^)]*)\)', s)
    p = m.group(1)
    return re.sub(r'\[[0-9a-f]+\]', '', p)

def local_id(s):
    m = re.search(r'HirId\((DefId\([^)]*\))\.(\d+)\)', s)
    return short_def(m.group(1)) + '.' + m.group(2)

class X(dict):
    __getattr__ = dict.get

def expr(n):
    """n is an `Expr {` node"""
    while True:
        ty = val(n, 'ty'); sp = val(n, 'span')
        k = sub(n, 'kind')
        kk = k.c[0]
        name = re.match(r'[A-Za-z]+', kk.t).group(0)
        if name in ('Scope',):
            n = sub(kk, 'value').c[0]; continue
        if name in ('Use', 'NeverToAny', 'ValueExpr', 'PlaceTypeAscription', 'ValueTypeAscription') and name != 'NeverToAny':
            s = sub(kk, 'source'); n = s.c[0]; continue
        break
    e = X(k=name, ty=ty, span=sp)
    ex = lambda key: expr(sub(kk, key).c[0])
    if name == 'VarRef': e['id'] = local_id(val(kk, 'id'))
    elif name == 'UpvarRef': e['k'] = 'VarRef'; e['id'] = local_id(val(kk, 'var_hir_id'))
    elif name == 'NeverToAny': e['e'] = ex('source')
    elif name == 'Call':
        e['fn'] = parse_fndef(val(kk, 'ty')); e['fnty'] = val(kk, 'ty')
        e['args'] = [expr(c) for c in sub(kk, 'args').c if c.t.startswith('Expr')]
    elif name == 'Borrow': e['mut'] = 'Mut' in val(kk, 'borrow_kind'); e['e'] = ex('arg')
    elif name == 'RawBorrow': e['e'] = ex('arg')
    elif name == 'Deref': e['e'] = expr(kk.c[0])
    elif name == 'Field': e['idx'] = int(val(kk, 'name')); e['variant'] = int(val(kk, 'variant_index')); e['e'] = ex('lhs')
    elif name == 'Index': e['e'] = ex('lhs'); e['i'] = ex('index')
    elif name in ('Binary', 'LogicalOp', 'AssignOp'): e['op'] = val(kk, 'op'); e['l'] = ex('lhs'); e['r'] = ex('rhs')
    elif name == 'Assign': e['l'] = ex('lhs'); e['r'] = ex('rhs')
    elif name == 'Unary': e['op'] = val(kk, 'op'); e['e'] = ex('arg')
    elif name in ('Cast',): e['e'] = ex('source')
    elif name in ('Pointer', 'PointerCoercion'): e['k'] = 'Pointer'; e['cast'] = val(kk, 'cast'); e['e'] = ex('source')
    elif name == 'Literal':
        m = re.search(r'node: (.*?), span:', kk.t); e['lit'] = m.group(1); e['neg'] = 'neg: true' in kk.t
    elif name == 'ZstLiteral': e['fn'] = parse_fndef(ty) if ty.startswith('FnDef') else None
    elif name == 'NamedConst': e['path'] = short_def(val(kk, 'def_id'))
    elif name == 'Block': e.update(block(kk))
    elif name == 'If':
        c = sub(kk, 'cond').c[0]; e['c'] = expr(c); e['t'] = ex('then')
        el = sub(kk, 'else'); e['f'] = expr(el.c[0]) if el and el.c else None
    elif name == 'Match':
        e['e'] = ex('scrutinee')
        arms = []
        for a in sub(kk, 'arms').c:
            if not a.t.startswith('Arm'): continue
            g = sub(a, 'guard')
            guard = None
            if g is not None and g.c: guard = expr(find_expr(g))
            arms.append(X(pat=pat(sub(a, 'pattern').c[0]), guard=guard, body=expr(sub(a, 'body').c[0])))
        e['arms'] = arms
    elif name == 'Loop': e['body'] = ex('body')
    elif name == 'Break':
        e['label'] = val(kk, 'label'); v = sub(kk, 'value'); e['e'] = expr(v.c[0]) if v is not None and v.c else None
    elif name == 'Continue': e['label'] = val(kk, 'label')
    elif name == 'Return':
        v = sub(kk, 'value'); e['e'] = expr(v.c[0]) if v is not None and v.c else None
    elif name in ('Array', 'Tuple'): e['es'] = [expr(c) for c in sub(kk, 'fields').c if c.t.startswith('Expr')]
    elif name == 'Repeat': e['e'] = ex('value'); e['n'] = val(kk, 'count')
    elif name == 'Adt':
        ad = sub(kk, 'adt_def').c[0]
        e['adt'] = short_def(val(ad, 'did')); e['variants'] = val(ad, 'variants')
        ak = sub(kk, 'adt_def')
        e['variant'] = int(val(ak, 'variant_index') or val(kk, 'variant_index'))
        fs = []
        for c in ak.c + kk.c:
            m = re.match(r'field (\d+):', c.t)
            if m: fs.append((int(m.group(1)), expr(c.c[0])))
        e['fields'] = fs
        b = sub(ak, 'base') or sub(kk, 'base'); e['base'] = b is not None and b.t.strip() != 'base: None' and bool(b.c)
    elif name == 'Closure':
        ce = sub(kk, 'closure_expr').c[0]
        e['id'] = short_def(val(ce, 'closure_id'))
    elif name == 'Let':
        e['e'] = ex('expr')
        m = re.search(r'Variant \{.*?variant_index: (\d+), subpatterns: \[FieldPat \{ field: 0, pattern: Pat \{ ty: ([^,]*), .*?Binding \{ name: "(\w+)", mode: (BindingMode\([^)]*\)).*?var: (LocalVarId\(HirId\(DefId\([^)]*\)\.\d+\)\))', val(kk, 'pat') or '')
        if m: e['pat'] = X(k='Variant', ty=e['e'].ty, adt='', variant=int(m.group(1)), subs=[X(k='Binding', ty=m.group(2), name=m.group(3), id=local_id(m.group(5)), ref=False, refmut=False, mut=False, sub=None)])
        else: e['k'] = 'Unknown'; e['name'] = 'Let'
    else:
        e['k'] = 'Unknown'; e['name'] = name
    return e

def find(n, pre):
    for c in n.c:
        if c.t.startswith(pre): return c
        r = find(c, pre)
        if r is not None: return r
    return None

def find_expr(n): return find(n, 'Expr')

def block(kk):
    stmts = []
    for s in sub(kk, 'stmts').c:
        if not s.t.startswith('Stmt'): continue
        k = sub(s, 'kind')
        if k.t.startswith('kind: Expr'):
            stmts.append(X(k='Expr', e=expr(sub(k, 'expr').c[0])))
        else:
            init = sub(k, 'initializer')
            ie = expr(init.c[0]) if init is not None and init.c else None
            els = sub(k, 'else_block')
            stmts.append(X(k='Let', pat=pat(sub(k, 'pattern').c[0]), init=ie, els=(els is not None and bool(els.c))))
    ee = sub(kk, 'expr')
    return dict(stmts=stmts, e=expr(ee.c[0]) if ee is not None and ee.c else None,
                unsafe='Unsafe' in (val(kk, 'safety_mode') or ''))

def pat(n):
    ty = val(n, 'ty'); k = sub(n, 'kind')
    kk = k.c[0]
    name = re.match(r'[A-Za-z]+', kk.t).group(0)
    p = X(k=name, ty=ty)
    if name == 'Binding':
        p['name'] = val(kk, 'name').strip('"'); p['id'] = local_id(val(kk, 'var'))
        mode = val(kk, 'mode'); p['ref'] = 'Yes' in mode; p['mut'] = mode.rstrip(')').endswith('Mut')
        p['refmut'] = 'Yes(' in mode and 'Mut' in mode.split(',')[0:2][0] or ('Yes' in mode and ', Mut)' in mode.split('Yes')[1][:12])
        sp = sub(kk, 'subpattern')
        p['sub'] = pat(find(sp, 'Pat')) if sp is not None and sp.c else None
    elif name == 'Variant':
        ad = sub(kk, 'adt_def').c[0]
        p['adt'] = short_def(val(ad, 'did')); p['variants'] = val(ad, 'variants')
        p['variant'] = int(val(kk, 'variant_index'))
        p['subs'] = [pat(c) for c in sub(kk, 'subpatterns').c if c.t.startswith('Pat')]
    elif name == 'Leaf':
        p['subs'] = [pat(c) for c in sub(kk, 'subpatterns').c if c.t.startswith('Pat')]
    elif name == 'Deref':
        p['sub'] = pat(find(kk, 'Pat'))
    elif name == 'Constant': p['value'] = val(kk, 'value')
    elif name == 'Wild' or name == 'Missing': p['k'] = 'Wild'
    return p

def split_top(s):
    out = []; d = 0; cur = ''
    prev = ''
    for ch in s:
        if ch in '<([{': d += 1
        elif ch in ')]}' or (ch == '>' and prev != '-'): d -= 1
        prev = ch
        if ch == ',' and d == 0: out.append(cur.strip()); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out

def matching(s, i):
    d = 0
    prev = ''
    for j in range(i, len(s)):
        ch = s[j]
        if ch in '<([{': d += 1
        elif ch in ')]}' or (ch == '>' and prev != '-'):
            d -= 1
            if d == 0: return j
        prev = ch
    raise ValueError(s)

def parse_fndef(t):
    if not t or not t.startswith('FnDef('): return None
    body = t[len('FnDef('):matching(t, 5)]
    m = re.match(r'(DefId\([^)]*\)), ?', body)
    path = short_def(m.group(1)); rest = body[m.end():]
    args = []
    i = rest.find('[')
    if i >= 0:
        j = matching(rest, i)
        args = split_top(rest[i + 1:j])
    return (path, args)

def load(path):
    """-> {def path: X(params=[(pat|None, ty)], body=expr)} lazily parsed"""
    fns = {}
    cur = None
    with open(path) as f:
        for ln in f:
            if ln.startswith('DefId('):
                cur = []
                fns[short_def(ln)] = cur
            elif cur is not None: cur.append(ln)
    return Lib(fns)

class Lib:
    def __init__(self, raw): self.raw = raw; self.cache = {}
    def __contains__(self, k): return k in self.raw
    def names(self): return self.raw.keys()
    def __getitem__(self, k):
        if k not in self.cache:
            t = tree([l.rstrip('\n') for l in self.raw[k]])
            params = []
            for c in t.c:
                if c.t.startswith('params'):
                    for p in c.c:
                        if not p.t.startswith('Param'): continue
                        pp = sub(p, 'param')
                        params.append(X(ty=val(p, 'ty'), pat=pat(pp.c[0]) if pp.c else None))
            b = [c for c in t.c if c.t.startswith('body')][0]
            self.cache[k] = X(params=params, body=expr(b.c[0]), path=k)
        return self.cache[k]

if __name__ == '__main__':
    lib = load(sys.argv[1])
    import collections
    cnt = collections.Counter()
    def walk(x):
        if isinstance(x, dict):
            if x.get('k') == 'Unknown': cnt[x['name']] += 1
            if x.get('k') == 'Call' and x['fn']: cnt['call ' + x['fn'][0]] += 1
            for v in x.values(): walk(v)
        elif isinstance(x, (list, tuple)):
            for v in x: walk(v)
    for n in lib.names():
        if n.split('::')[-1] in ('fmt', 'eq', 'clone'): continue
        walk(lib[n])
    for k, v in sorted(cnt.items()): print(v, k)
