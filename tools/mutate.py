#!/usr/bin/env python3
"""mutate.py <work dir> <count> <seed> [file substring]: random small edits of the non-test code of /repo; those that compile and pass the 247 tests
are given to the checks (run from the copy of /verif in the work dir); writes <work dir>/log.txt, one line per mutant."""
import sys, os, re, random, subprocess, time
W, N, SEED = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]); ONLY = sys.argv[4] if len(sys.argv) > 4 else ''
R = W + '/repo/src/parser/'; FILES = ['blocks.rs', 'expressions.rs', 'functions.rs', 'statements.rs', 'tokenizer.rs', 'source_buffer.rs']
ORDER = {'tokenizer.rs': 'L02 L10 L09 L08 L07 L04 L05 L06 L03 L01 P13', 'source_buffer.rs': 'L02 L10 L09 L04 L05 L06 L01', 'expressions.rs': 'P04 P05 P06 P03 P02 P12 P07 P09 P10 P01 P13', 'statements.rs': 'P07 P08 P09 P10 P11 P02 P12 P01 P13', 'blocks.rs': 'P11 P09 P10 P02 P12 P01 P13', 'functions.rs': 'P10 P02 P12 P01 P13'}
def code(f):
    s = open('/repo/src/parser/' + f, newline='').read(); i = s.find('#[cfg(test)]'); return s, (len(s) if i < 0 else i)
def sites(f):
    s, end = code(f); out = []
    kinds = sorted(set(re.findall(r'Token::(\w+)\(', s[:end]))); calls = sorted(set(re.findall(r'self\.(parse_\w+)\(\)', s[:end])))
    def add(m, new, op): out.append((f, m.start(), m.end(), new, op))
    for m in re.finditer(r'Token::(\w+)\(\s*\.\.\s*\)', s[:end]): add(m, ('kind', m.group(1), kinds), 'kind')
    for m in re.finditer(r'\n[ \t]*\w+\.push\([^;\n]*\);', s[:end]):
        add(m, '\n', 'drop-push'); v = re.search(r'(\w+)\.push', m.group(0)).group(1)
        for n in (2, 3): add(m, re.sub(r'\w+\.push', lambda _: 'if %s.len() < %d { %s.push' % (v, n, v), m.group(0)).rstrip(';') + ' };', 'push<%d' % n)
        add(m, re.sub(r'\w+\.push\(', v + '.insert(0, ', m.group(0)), 'push-front')
    for m in re.finditer(r'\n[ \t]*\w+\.reverse\(\);', s[:end]): add(m, '\n', 'drop-reverse')
    for m in re.finditer(r'\n[ \t]*let _ = self\.advance\(\);', s[:end]): add(m, '\n', 'drop-advance'); add(m, m.group(0) + m.group(0), 'twice-advance')
    for m in re.finditer(r'self\.(parse_\w+)\(\)', s[:end]): add(m, ('call', m.group(1), calls), 'call')
    for m in re.finditer(r'\bstart_pos\b(?=, self\.lexer\.get_position\(\))', s[:end]): add(m, 'self.lexer.get_position()', 'start->end')
    for m in re.finditer(r'(?<=start_pos, )self\.lexer\.get_position\(\)', s[:end]): add(m, 'start_pos', 'end->start')
    for m in re.finditer(r'Some\(\s*(\w+)\s*\)(?=[,)\s])', s[:end]): add(m, 'None', 'none')
    for m in re.finditer(r' (==|!=|<=|>=|<|>|&&|\|\|) ', s[:end]): add(m, ' ' + {'==': '!=', '!=': '==', '<': '<=', '>': '>=', '<=': '<', '>=': '>', '&&': '||', '||': '&&'}[m.group(1)] + ' ', 'op')
    for m in re.finditer(r'\b(true|false)\b', s[:end]): add(m, 'false' if m.group(1) == 'true' else 'true', 'bool')
    for m in re.finditer(r"(?<![\w'])(\d+)(?![\w'.])", s[:end]): add(m, str(int(m.group(1)) + 1), 'int+1'); add(m, str(max(0, int(m.group(1)) - 1)), 'int-1')
    for m in re.finditer(r"'(\\?.)'(?!\w)", s[:end]): add(m, ('char', m.group(1)), 'char')
    for m in re.finditer(r" \| (?='|Token::)[^|\n=]*", s[:end]): add(m, ' ', 'drop-alt')
    for m in re.finditer(r'ASTNode::(\w+)\(start_pos, self\.lexer\.get_position\(\), ([^()]*)\)', s[:end]):
        a = [x.strip() for x in m.group(2).split(',')]
        if len(a) > 2: i = random.randrange(len(a) - 1); a[i], a[i + 1] = a[i + 1], a[i]; add(m, 'ASTNode::%s(start_pos, self.lexer.get_position(), %s)' % (m.group(1), ', '.join(a)), 'swap-args')
    return out
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, errors='replace', **k)
random.seed(SEED); every = []
for f in FILES:
    if ONLY in f: every += sites(f)
by = {}
for x in every: by.setdefault((x[0], x[4]), []).append(x)
log = open(W + '/log.txt', 'a'); done = 0; tried = 0
while done < N:
    tried += 1
    grp = by[random.choice(sorted(by))]; f, a, b, new, op = random.choice(grp); s, end = code(f)
    if isinstance(new, tuple):
        if new[0] == 'char': new = "'" + random.choice(['\\n', '\\r', '\\t', ' ', '\\\\', '_', '0', '9', 'a', 'z', 'e', '.', "\\'", '"', '#', '\\0', '1', 'x', 'j', '-', '=']) + "'"
        else: new = (s[a:b]).replace(new[1], random.choice(new[2]))
    if new == s[a:b]: continue
    sh('git -C %s/repo checkout -q -- .' % W)
    open(R + f, 'w', newline='').write(s[:a] + new + s[b:])
    line = s[:a].count('\n') + 1
    what = '%s:%d %s: %s -> %s' % (f, line, op, ' '.join(s[a:b].split())[:90], ' '.join(new.split())[:110])
    r = sh('cd %s/repo && CARGO_TARGET_DIR=%s/target timeout 100 cargo +stable test --offline 2>&1 | tail -15' % (W, W))
    if '247 passed; 0 failed' not in r.stdout: continue
    done += 1; t = time.time(); res = 'SURVIVED'
    for p in ORDER[f].split():
        r = sh('cd %s/verif && VERIF_REPO=%s/repo VERIF_FAST=1 VERIF_BUDGET=300 timeout 800 python3 check.py %s quick' % (W, W, p))
        if r.returncode == 1: res = 'caught ' + p; break
        if r.returncode != 0: res = 'RC%d %s %s' % (r.returncode, p, r.stdout.strip().split('\n')[-1][:200]); break
    log.write('%s | %s | %.0fs (tried %d)\n' % (res, what, time.time() - t, tried)); log.flush()
sh('git -C %s/repo checkout -q -- .' % W)
