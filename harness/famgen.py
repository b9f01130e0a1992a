#!/usr/bin/env python3
"""families.txt -> vfam.rs (token-stream families and the entry table)."""
import re, sys
SP = {'nm': 'AtomName', 'num': 'AtomNumber', 'str': 'AtomString', 'NL': 'Newline', 'IN': 'Indent', 'DE': 'Dedent', 'TC': 'TypeComment', 'EOF': 'EOF', 'False': 'PyFalse', 'None': 'PyNone', 'True': 'PyTrue', 'nonlocal': 'PyNonLocal',
 '+': 'PyPlus', '-': 'PyMinus', '*': 'PyMul', '**': 'PyPower', '/': 'PyDiv', '//': 'PyFloorDiv', '%': 'PyModulo', '@': 'PyMatrice', '<<': 'PyShiftLeft', '>>': 'PyShiftRight', '&': 'PyBitAnd', '|': 'PyBitOr', '^': 'PyBitXor', '~': 'PyBitInvert', ':=': 'PyColonAssign',
 '<': 'PyLess', '>': 'PyGreater', '<=': 'PyLessEqual', '>=': 'PyGreaterEqual', '==': 'PyEqual', '!=': 'PyNotEqual', '(': 'PyLeftParen', '[': 'PyLeftBracket', '{': 'PyLeftCurly', ')': 'PyRightParen', ']': 'PyRightBracket', '}': 'PyRightCurly',
 ',': 'PyComa', ':': 'PyColon', '.': 'PyDot', ';': 'PySemiColon', '=': 'PyAssign', '->': 'PyArrow', '+=': 'PyPlusAssign', '-=': 'PyMinusAssign', '*=': 'PyMulAssign', '/=': 'PyDivAssign', '//=': 'PyFloorDivAssign', '%=': 'PyModuloAssign', '@=': 'PyMatriceAssign',
 '&=': 'PyBitAndAssign', '|=': 'PyBitOrAssign', '^=': 'PyBitXorAssign', '<<=': 'PyShiftLeftAssign', '>>=': 'PyShiftRightAssign', '**=': 'PyPowerAssign', '...': 'PyElipsis', 'match': 'MATCH', 'ERR': 'ERR', 'pstr': 'PSTR', 'CR': 'CRNL'}
for k in 'and as assert async await break class continue def del elif else except finally for from global if import in is lambda not or pass raise return try while with yield'.split(): SP[k] = 'Py' + k.capitalize()
ENT = {'eval': 'EVAL', 'file': 'FILE', 'single': 'SINGLE', 'ftype': 'FTYPE'}
def load(path):
    """-> classes {name: [spelling]}, families [{name, prop, tier, entry, flags, slots, spec}]
    slots: a list of alphabets (lists of spellings, one symbolic token each) and ('P', alternatives) (one of several slot lists);
    words: a token, a class, a|b|c, each with an optional {n}; $NAME a phrase defined before; $[ .. $| .. $] one of several phrases"""
    cls = {}; phr = {}; fams = []
    def expand(w):
        if w in SP: return [w]
        m = re.match(r'([A-Z][A-Z0-9_]*)$', w)
        if m and w in cls: return cls[w]
        if '|' in w and len(w) > 1: return sorted(set(sum([expand(x) for x in w.split('|') if x], [])), key=list(SP).index)
        sys.exit('families: unknown word ' + w)
    def alts(ws, i, top):
        out = [[]]
        while i < len(ws):
            w = ws[i]; i += 1
            if w.startswith('$]') and not top: return out, i
            if w == '$|': out.append([]); continue
            m = re.match(r'(.+)\{(\d+)\}$', w); n = 1
            if m: w, n = m.group(1), int(m.group(2))
            if w == '$[':
                a, i = alts(ws, i, False); m = re.match(r'\$\]\{(\d+)\}$', ws[i - 1]); out[-1] += [('P', a)] * (int(m.group(1)) if m else 1); continue
            if w[0] == '$' and len(w) > 1: out[-1] += [('P', phr[w[1:]])] * n; continue
            if w == '()': continue
            out[-1] += [expand(w)] * n
        return out, i
    for ln in open(path):
        ln = ln.split('  #')[0].strip()
        if not ln or ln.startswith('##'): continue
        if ln.startswith('class '):
            n, r = ln[6:].split('=', 1); cls[n.strip()] = list(dict.fromkeys(sum([expand(x) for x in r.split()], []))); continue
        if ln.startswith('phrase '):
            n, r = ln[7:].split('=', 1); phr[n.strip()] = alts(r.split(), 0, True)[0]; continue
        head, spec = ln.split(' : ', 1)
        name, prop, tier, entry, flags = head.split()
        a, _ = alts(spec.split(), 0, True)
        slots = a[0] if len(a) == 1 else [('P', a)]
        # "P05,P02*,P12": the same streams under the checks of other properties; a star puts them into the quick tier
        for k, pr in enumerate(prop.split(',')):
            q = pr.endswith('*'); pr = pr.rstrip('*')
            if k == 0: n, t, fl = name, tier, flags
            else: n, t, fl = pr.lower() + '_' + name, tier if q else 't', '+'.join([{'P01': 'noref', 'P02': 'fidel', 'P12': 'spans', 'P13': 'lexerr+mut'}[pr]] + [x for x in flags.split('+') if pr != 'P13' and x in ('mut', 'mut2')])
            big = 'big' in flags.split('+'); fl = '+'.join(x for x in fl.split('+') if x != 'big')
            fams.append(dict(name='f_' + n, prop=pr, tier=t, entry=entry, flags=fl, slots=slots, spec=spec, opts=['--max-steps', '90000000', '--max-depth', '6000'] if big else []))
    return cls, fams
LEND, LASCII = 0x200000, 0x200001
WIDE = [0xe9, 0x4e2d, 0x663, 0xbd, 0x20ac, 0xa0, 0x301, 0x2028, 0x10400, 0x1f600]
def chars(s, dup=False):
    """one alphabet: 'a..b' ranges, escapes \\n \\r \\t \\s \\0 \\e (end of text) \\A (any ASCII) \\W (non-ASCII representatives)"""
    out = []; i = 0
    while i < len(s):
        c = s[i]
        if c == '\\':
            i += 1; c = s[i]
            out += {'n': [10], 'r': [13], 't': [9], 's': [32], '0': [0], 'e': [LEND], 'A': [LASCII], 'W': WIDE}.get(c, [ord(c)])
        elif s[i + 1:i + 3] == '..' and i + 3 < len(s): out += list(range(ord(c), ord(s[i + 3]) + 1)); i += 3
        else: out.append(ord(c))
        i += 1
    return out if dup else list(dict.fromkeys(out))
def load_lex(path):
    r"""-> [{name, prop, tier, flags, slots, spec}]; slots: [alphabet]{n}, <text|text|..>{n} one of the texts, $class{n} or literal characters; blanks are ignored (\s is a space)"""
    fams = []; cls = {}
    for ln in open(path):
        ln = ln.rstrip('\n')
        if not ln.strip() or ln.startswith('##'): continue
        if ln.startswith('class '): n, r = ln[6:].split('=', 1); cls[n.strip()] = r.strip(); continue
        head, spec = ln.split(' : ', 1); name, prop, tier, flags = head.split(); slots = []
        for m in re.finditer(r'<((?:\\.|[^>\\])+)>(?:\{(\d+)\})?|\[((?:\\.|[^\]\\])+)\](?:\{(\d+)\})?|\$(\w+)(?:\{(\d+)\})?|(\\.|[^\s])', spec):
            if m.group(1):
                alts = [chars(x, True) for x in re.findall(r'((?:\\.|[^|\\])*)(?:\||$)', m.group(1))[:m.group(1).replace('\\|', '').count('|') + 1]]
                slots += [[0x300000] + sum([x + [0x300001] for x in alts], [])] * int(m.group(2) or 1)
            elif m.group(3): slots += [chars(m.group(3))] * int(m.group(4) or 1)
            elif m.group(5): slots += [chars(cls[m.group(5)])] * int(m.group(6) or 1)
            else: slots += [[c] for c in chars(m.group(7))]
        for k, pr in enumerate(prop.split(',')):
            q = pr.endswith('*'); pr = pr.rstrip('*')
            if k == 0: n, t, fl = name, tier, flags
            else: n, t, fl = pr.lower() + '_' + name, tier if q else 't', '+'.join(flags.split('+')[:1] + [{'P01': 'noref', 'P02': 'fidel', 'P12': 'spans', 'P13': 'lexerr'}.get(pr, 'struct')])
            big = 'big' in fl.split('+'); fl = '+'.join(x for x in fl.split('+') if x != 'big')
            fams.append(dict(name='l_' + n, prop=pr, tier=t, flags=fl, slots=slots, spec=spec, lexer=True, opts=['--max-steps', '90000000'] if big else [], e2e=bool({'eval', 'file', 'single', 'ftype'} & set(fl.split('+')))))
    return fams
def main(fam, vl, out, keep=""):
    keep = set(keep.split(",")) if keep else None
    cls, fams = load(fam); consts = {}; L = ['// generated by famgen.py', '#![allow(non_upper_case_globals)]', 'use crate::vp::*; use crate::vgen::*;']; body = []
    if keep is not None: fams = [f for f in fams if f["name"] in keep]
    phr = {}
    def sl(x):
        if isinstance(x, tuple):
            key = repr(x[1])
            if key not in phr:
                subs = ['&[%s]' % ', '.join(sl(y) for y in a) for a in x[1]]
                phr[key] = 'Q%d' % len(phr); L.append('static %s: [&[Sl]; %d] = [%s];' % (phr[key], len(subs), ', '.join(subs)))
            return 'Sl::P(&%s)' % phr[key]
        key = tuple(x)
        if key not in consts: consts[key] = 'A%d' % len(consts)
        return 'Sl::A(&%s)' % consts[key]
    for f in fams:
        ss = ', '.join(sl(x) for x in f['slots'])
        L.append('static F_%s: [Sl; %d] = [%s];' % (f['name'], len(f['slots']), ss))
        body.append('#[no_mangle] pub extern "C" fn %s() { family(%s, %s, &F_%s, &%s); }' % (f['name'], ENT[f['entry']], '|'.join(x.upper() for x in f['flags'].split('+')), f['name'], sl(cls['ANYK'] if f['prop'] != 'P13' else ['ERR'])[len('Sl::A(&'):-1]))
    lex = [f for f in load_lex(fam.replace('families', 'lexfams')) if keep is None or f["name"] in keep]; lc = {}
    for f in lex:
        for x in f['slots']: lc.setdefault(tuple(x), 'C%d' % len(lc))
        grp = []
        for x in f['slots']:
            if grp and grp[-1][0] == lc[tuple(x)]: grp[-1][1] += 1
            else: grp.append([lc[tuple(x)], 1])
        body.append('#[no_mangle] pub extern "C" fn %s() { let mut v: Vec<&\'static [u32]> = Vec::with_capacity(%d); for (a, n) in [%s] { for _ in 0..n { v.push(a); } } crate::vl::lexfam(%s, v); }' % (f['name'], len(f['slots']), ', '.join('(&%s[..], %dusize)' % tuple(g) for g in grp), '|'.join('crate::vl::' + x.upper() for x in f['flags'].split('+'))))
    for k, n in lc.items(): L.append('static %s: [u32; %d] = [%s];' % (n, len(k), ', '.join(map(str, k))))
    for k, n in consts.items(): L.append('static %s: [u8; %d] = [%s];' % (n, len(k), ', '.join('K_' + SP[x] for x in k)))
    names = [f['name'] for f in fams] + [f['name'] for f in lex]
    vln = re.findall(r'pub extern "C" fn (h_\w+)\(\)', open(vl).read())
    L += body
    L.append('pub static TABLE: &[(&str, extern "C" fn())] = &[%s];' % ', '.join(['("%s", %s)' % (n, n) for n in names] + ['("%s", crate::vl::%s)' % (n, n) for n in vln]))
    open(out, 'w').write('\n'.join(L) + '\n')
if __name__ == '__main__': main(*sys.argv[1:5])
