"""Assemble the Verus file: prelude, types of the crate, lemma modules, extracted functions with contracts."""
import os, re, sys, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import trans, rustty as R
from trans import sani

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

class Item:
    """one function of the generated file"""
    def __init__(self, name, inst): self.name = name; self.inst = inst; self.state = 'ok'; self.why = ''; self.lo = self.hi = 0

class Gen:
    def __init__(self, crate, specs, baseline=None):
        self.cr = crate; self.specs = specs; self.baseline = baseline or {}
        self.items = {}       # key (canon, inst) -> Item
        self.fns = {}
        self.demoted = {}     # key -> reason

    def key(self, c, inst): return c + ('' if not inst else '<' + ','.join(f'{v}' for _, v in inst) + '>')

    def build(self):
        todo = []
        for c in self.specs:
            if c not in self.cr.bycanon: self.demoted[c] = 'function not found in the source'; continue
            if '$T' in str(self.specs[c].sec): continue
            todo.append((c, ()))
        seen = set()
        while todo:
            c, inst = todo.pop(0)
            if (c, inst) in seen: continue
            seen.add((c, inst))
            k = self.key(c, inst)
            self.items[k] = Item(c, inst)
            f = self.fn(c, inst)
            if f is not None:
                self.fns[k] = f
                todo += sorted(f.calls)

    def fn(self, c, inst):
        k = self.key(c, inst)
        try:
            f = trans.Fn(self.cr, self.specs, self.cr.bycanon[c], {g: R.parse(t) for g, t in inst})
            b = self.baseline.get(k)
            if b:
                # a first pass to see the binding names; renamed locals are mapped by position
                g = trans.Fn(self.cr, {n: (s if n != c else trans.Spec(c)) for n, s in self.specs.items()}, self.cr.bycanon[c], {g: R.parse(t) for g, t in inst})
                g.translate()
                f.rename = rename_map(b['bindings'], g.bindings)
            f.translate()
            return f
        except (trans.Unsupported, trans.LostAnchor, R.TyErr, thir_err) as e:
            self.demote(k, f'{type(e).__name__}: {e}')
        except RecursionError:
            self.demote(k, 'recursion')
        except Exception as e:
            self.demote(k, f'extraction: {e!r}')
        return None

    def demote(self, k, why):
        self.demoted[k] = why

    # ------------------------------------------------------------ text
    def signature(self, c, inst):
        b = self.cr.lib[self.cr.bycanon[c]]
        f = trans.Fn(self.cr, {}, self.cr.bycanon[c], {g: R.parse(t) for g, t in inst})
        sig = []
        for i, p in enumerate(b.params):
            t = f.ty(p.ty)
            n = f.fresh(p.pat.name) if p.pat.k == 'Binding' else f'_p{i}'
            sig.append((n, R.code(t)))
        return sig, f.ty(b.body.ty), f

    def fntext(self, k):
        it = self.items[k]; c, inst = it.name, it.inst
        sp = self.specs[c]
        f = self.fns.get(k)
        sig, rt, f0 = self.signature(c, inst)
        src = f if f is not None else f0
        if f is None:
            b = self.baseline.get(k)
            src.canon = c
            # parameter renames only
            if b:
                ps = b['params']; src.rename = {a: n for a, (n, _) in zip(ps, sig) if a != n}
        name = sani(c) + ('__' + '_'.join(v for _, v in inst) if inst else '')
        out = []
        if sp.get('attr'): out += [l.strip() for l in src.subspec(sp.get('attr')).strip().split('\n')]
        body = f is not None and k not in self.demoted and 'trusted' not in sp.sec
        if not body: out.append('#[verifier::external_body]')
        elif 'isolate' not in sp.sec: out.append('#[verifier::loop_isolation(false)]')
        args = ', '.join(f'{n}: {t}' for n, t in sig)
        r = '' if rt.k == 'tup' and not rt.a else f' -> (ret: {R.code(rt)})' if rt.k != 'never' else ' -> !'
        out.append(f'pub fn {name}({args}){r}')
        for sec in ('requires', 'ensures', 'decreases'):
            if sp.get(sec):
                out.append(f'    {sec}'); out += ['    ' + l for l in src.subspec(sp.get(sec)).rstrip().split('\n')]
                if not out[-1].rstrip().endswith(','): out[-1] += ','
        out.append('{')
        if body: out += f.lines
        else: out.append('    unimplemented!()')
        out.append('}')
        return out

    def types(self):
        out = []
        s = self.cr.src
        for n, (m, vs) in s.enums.items():
            out.append('pub enum ' + n + ' { ' + ', '.join(vs) + ' }')
        for n, (m, fs) in s.structs.items():
            try: out.append(('#[derive(Clone, Copy)] ' if fs and all(s.ty(t) in ('u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i64', 'i128', 'isize', 'bool') for _, t in fs) else '') + f'pub struct {n} {{ ' + ', '.join(f'pub {a}: {s.ty(t)}' for a, t in fs) + ' }')
            except R.TyErr as e: out.append(f'// struct {n}: {e}')
        return out

    def text(self):
        L = ['#![allow(unused_imports, unused_variables, unused_mut, dead_code, non_snake_case, unused_parens, unreachable_code, unused_assignments, path_statements, unused_must_use, unused_braces, non_shorthand_field_patterns, unused_doc_comments, unused_comparisons)]',
             'use vstd::prelude::*;', 'verus! {', 'global size_of usize == 8;']
        mods = []
        pre = sorted(os.listdir(os.path.join(ROOT, 'prelude')))
        uses = ['use vstd::prelude::*;', 'use std::sync::Arc;', 'use vstd::arithmetic::power2::*;', 'use vstd::arithmetic::div_mod::*;', 'use vstd::arithmetic::mul::*;', 'use vstd::arithmetic::power::*;']
        self.modrange = {}
        def module(name, lines, deps):
            L.append(f'pub mod {name} {{'); lo = len(L)
            L.extend(uses); L.extend(f'use crate::{d}::*;' for d in deps)
            base = len(L)
            L.extend(lines); L.append('}')
            self.modrange[name] = (lo, len(L))
            return base
        names = []
        for p in pre:
            if p.endswith('.rs'):
                module('pre_' + p[:-3].split('_', 1)[-1], open(os.path.join(ROOT, 'prelude', p)).read().split('\n'), list(names)); names.append('pre_' + p[:-3].split('_', 1)[-1])
        module('types', self.types(), list(names)); names.append('types')
        for p in sorted(os.listdir(os.path.join(ROOT, 'proofs'))):
            if p.endswith('.rs'):
                m = 'lem_' + p[:-3].split('_', 1)[-1]
                module(m, open(os.path.join(ROOT, 'proofs', p)).read().split('\n'), list(names)); names.append(m)
        self.lemmods = [n for n in names if n.startswith('lem_')]
        units = {}
        for k in sorted(self.items):
            units.setdefault(self.specs[self.items[k].name].unit, []).append(k)
        un = ['u_' + u for u in sorted(units)]
        self.units = units
        for u in sorted(units):
            lines = []; rng = []
            for k in units[u]:
                t = self.fntext(k)
                rng.append((k, len(lines), len(lines) + len(t)))
                lines += t + ['']
            base = module('u_' + u, lines, names + [x for x in un if x != 'u_' + u])
            for k, a, b in rng: self.items[k].lo = base + a + 1; self.items[k].hi = base + b
        L.append('} // verus!'); L.append('fn main() {}')
        return '\n'.join(L) + '\n'

    def at(self, line):
        for k, it in self.items.items():
            if it.lo <= line <= it.hi: return k
        return None

class thir_err(Exception): pass

def rename_map(old, new):
    """locals renamed since the contracts were written: by position, when the binding structure is the same"""
    if old == new: return {}
    if len(old) != len(new):
        import difflib
        m = {}
        sm = difflib.SequenceMatcher(None, old, new, autojunk=False)
        for tag, i1, i2, j1, j2 in sm.get_opcodes():
            if tag == 'replace' and i2 - i1 == j2 - j1:
                for a, b in zip(old[i1:i2], new[j1:j2]): m.setdefault(a, b)
    else:
        m = {}
        for a, b in zip(old, new):
            if a != b: m.setdefault(a, b)
    m.pop('self', None)
    return {a: b for a, b in m.items() if a not in new}
