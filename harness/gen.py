#!/usr/bin/env python3
"""Generates vgen.rs from the tree's own nodes.rs and tokens.rs: node/token tables and the tree walker."""
import re, sys
src, out = sys.argv[1], sys.argv[2]
def strip(s):
    s = re.sub(r'//[^\n]*', '', s); return re.sub(r'/\*.*?\*/', '', s, flags=re.S)
def variants(txt, name):
    i = txt.index('enum ' + name); i = txt.index('{', i) + 1
    d = 1; j = i
    while d: d += {'{': 1, '}': -1}.get(txt[j], 0); j += 1
    body = txt[i:j - 1]; res = []; cur = ''; d = 0
    for c in body:
        if c in '(<[{': d += 1
        if c in ')>]}': d -= 1
        if c == ',' and d == 0: res.append(cur.strip()); cur = ''
        else: cur += c
    if cur.strip(): res.append(cur.strip())
    o = []
    for v in res:
        v = re.sub(r'#\[[^\]]*\]', '', v).strip()
        m = re.match(r'(\w+)\s*(?:\((.*)\))?$', v, re.S)
        o.append((m.group(1), split(m.group(2) or '')))
    return o
def split(s):
    r = []; cur = ''; d = 0
    for c in s:
        if c in '(<[': d += 1
        if c in ')>]': d -= 1
        if c == ',' and d == 0: r.append(re.sub(r'\s', '', cur)); cur = ''
        else: cur += c
    if cur.strip(): r.append(re.sub(r'\s', '', cur))
    return r
nodes = variants(strip(open(src + '/parser/nodes.rs').read()), 'ASTNode')
toks = variants(strip(open(src + '/parser/tokens.rs').read()), 'Token')
TRIV = 'Option<Box<Vec<Box<Trivia>>>>'
L = ['// generated by gen.py from nodes.rs and tokens.rs', '#![allow(dead_code, non_upper_case_globals, unused_variables)]',
     'use crate::parser::nodes::ASTNode; use crate::parser::tokens::Token; use crate::vp::{Walk, tok_code};']
def gen(ty, e, ind):
    """code that walks expression e (a reference) of type ty"""
    if ty == 'ASTNode': return 'walk(%s, w);' % e
    if ty == 'Token': return 'tok_code(%s, w);' % e
    if ty in ('u32', 'u64', 'usize', 'i32', 'bool', 'char', 'u8'): return 'w.o.push(*%s as u32);' % e
    if ty.startswith('Box<'): return gen(ty[4:-1], '(&**%s)' % e, ind)
    if ty.startswith('Option<'): return 'match %s { None => w.o.push(1), Some(x%d) => { %s } }' % (e, ind, gen(ty[7:-1], 'x%d' % ind, ind + 1))
    if ty.startswith('Vec<'): return 'w.o.push(3); w.o.push(%s.len() as u32); for x%d in %s.iter() { %s }' % (e, ind, e, gen(ty[4:-1], 'x%d' % ind, ind + 1))
    if ty.startswith('('): return ' '.join(gen(t, '(&%s.%d)' % (e, k), ind) for k, t in enumerate(split(ty[1:-1])))
    sys.exit('gen.py: unknown field type ' + ty)
for k, (n, f) in enumerate(nodes): L.append('pub const N_%s: u32 = %d;' % (n, 1000 + k))
for k, (n, f) in enumerate(toks): L.append('pub const K_%s: u8 = %d;' % (n, k))
L.append('pub const NKINDS: usize = %d;' % len(toks))
simple = [n for n, f in toks if f == ['u32', 'u32', TRIV]]
L.append('pub const SIMPLE: [u8; %d] = [%s];' % (len(simple), ', '.join('K_' + n for n in simple)))
L.append('pub static KNAMES: [&str; %d] = [%s];' % (len(toks), ', '.join('"%s"' % n for n, _ in toks)))
L.append('pub static NNAMES: [&str; %d] = [%s];' % (len(nodes), ', '.join('"%s"' % n for n, _ in nodes)))
L.append('pub fn mk_simple(k: u8, s: u32, e: u32) -> Token { match k { %s, _ => Token::EOF(s, None) } }' % ', '.join('K_%s => Token::%s(s, e, None)' % (n, n) for n in simple))
arms = []
for n, f in toks:
    if n in simple: arms.append('Token::%s(a, b, _) => (K_%s, *a, *b)' % (n, n))
    elif n in ('Indent', 'Dedent'): arms.append('Token::%s(..) => (K_%s, 0, 0)' % (n, n))
    elif n == 'EOF': arms.append('Token::EOF(a, ..) => (K_EOF, *a, *a)')
    else: arms.append('Token::%s(a, b, ..) => (K_%s, *a, *b)' % (n, n))
L.append('pub fn tok_info(t: &Token) -> (u8, u32, u32) { match t { %s } }' % ', '.join(arms))
arms = []
for n, f in toks:
    i = [k for k, t in enumerate(f) if t == TRIV]
    if not i: arms.append('Token::%s(..) => None' % n); continue
    arms.append('Token::%s(%s) => x.as_ref().map(|b| &**b)' % (n, ', '.join('x' if k == i[0] else '_' for k in range(len(f)))))
L.append('pub fn tok_trivia(t: &Token) -> Option<&Vec<Box<crate::parser::trivias::Trivia>>> { match t { %s } }' % ', '.join(arms))
L.append('pub fn walk(n: &ASTNode, w: &mut Walk) { if w.spans { match n {')
for n, f in nodes:
    if f[:2] != ['u32', 'u32']: sys.exit('gen.py: node without span ' + n)
L.append(' | '.join('ASTNode::%s(s, e, ..)' % n for n, _ in nodes) + ' => { w.s = *s; w.e = *e; } } }')
L.append('match n {')
for n, f in nodes:
    vs = ['f%d' % k for k in range(2, len(f))]
    body = ' '.join(gen(t, 'f%d' % (k + 2), 0) for k, t in enumerate(f[2:]))
    L.append('  ASTNode::%s(%s) => { w.open(N_%s); %s w.close(); }' % (n, ', '.join(['_', '_'] + vs), n, body))
L.append('} }')
open(out, 'w').write('\n'.join(L) + '\n')
