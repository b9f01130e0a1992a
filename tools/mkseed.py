#!/usr/bin/env python3
"""mkseed.py [ids..]: builds the seeded bugs of bugs.py in scratch copies of /repo, confirms each (compiles, 247 tests pass, demo 0/nonzero)
and writes /verif/seeded/<id>/.  mkseed.py --check [ids..]: applies each to /repo, runs its property's check, undoes it."""
import sys, os, json, subprocess, shutil, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from bugs import BUGS
V = '/verif'; S = '/tmp/pcr-seed'
PRE = r'''#![allow(dead_code, unused_imports, unused_must_use, unused_variables)]
extern crate core;
mod parser;
use parser::nodes::ASTNode;
use crate::parser::expressions::Expressions;
use crate::parser::statements::Statements;
use crate::parser::blocks::Blocks;
use crate::parser::tokenizer::{PythonCoreTokenizer, Tokenizer};
use parser::tokens::Token;
use crate::parser::parser::{Parser, PythonCoreParser};
/* every token up to the end of the text or the first error, one per element */
fn toks(t: &str) -> Vec<String> {
    let mut l = PythonCoreTokenizer::new(t.to_string()); let mut v = vec![];
    for _ in 0 .. 200 { match l.get_symbol() { Ok(s) => { v.push(format!("{:?}", s)); if let Token::EOF(..) = *s { break } }, Err(_) => { v.push("ERR".to_string()); break } } }
    v
}
fn parser(t: &str) -> PythonCoreParser { PythonCoreParser::new(Box::new(PythonCoreTokenizer::new(t.to_string()))) }
fn show(r: Result<Box<ASTNode>, String>) -> String { match r { Ok(n) => format!("{:?}", n), Err(_) => "ERR".to_string() } }
fn file(t: &str) -> String { show(parser(t).parse_blocks_file_input()) }
fn eval(t: &str) -> String { show(parser(t).parse_blocks_eval_input()) }
fn has(s: &str, part: &str) { assert!(s.contains(part), "{} is missing in {}", part, s) }
fn hasnt(s: &str, part: &str) { assert!(!s.contains(part), "{} is not expected in {}", part, s) }
'''
DEMO = r'''#!/bin/bash
# run in /repo: compiles its sources (with Debug derived on the tree and token types, in a scratch copy) together with demo.rs and runs the result
D=$(cd "$(dirname "$0")" && pwd)
rm -rf /tmp/pcr-demo-@ID@; mkdir -p /tmp/pcr-demo-@ID@ || exit 3
trap 'rm -rf /tmp/pcr-demo-@ID@' EXIT
cp -r src/parser src/parser.rs /tmp/pcr-demo-@ID@/ || exit 3
sed -i 's/^#\[derive(Clone)\]/#[derive(Clone, Debug)]/' /tmp/pcr-demo-@ID@/parser/nodes.rs /tmp/pcr-demo-@ID@/parser/tokens.rs /tmp/pcr-demo-@ID@/parser/trivias.rs
cp "$D/demo.rs" /tmp/pcr-demo-@ID@/main.rs
rustc --edition 2021 -Awarnings -Coverflow-checks=on -o /tmp/pcr-demo-@ID@/demo /tmp/pcr-demo-@ID@/main.rs || exit 3
ulimit -v 2000000; ulimit -c 0
timeout 60 /tmp/pcr-demo-@ID@/demo
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, errors='replace', **k)
def build(b):
    d = '%s/seeded/%s' % (V, b['id']); w = S + '/' + b['id']
    sh('rm -rf %s; mkdir -p %s; cp -a /repo %s' % (w, S, w))
    for f, old, new in b['edits']:
        p = '%s/src/%s' % (w, f); s = open(p, newline='').read()
        if '\r\n' in s: old = old.replace('\n', '\r\n'); new = new.replace('\n', '\r\n')
        if s.count(old) != 1: return 'edit text found %d times in %s' % (s.count(old), f)
        base = open('/tmp/base/src/' + f, newline='').read()
        if old not in base: print('   note: edited text differs from the original repository', b['id'])
        open(p, 'w', newline='').write(s.replace(old, new))
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w', newline='').write(subprocess.run(['git', 'diff'], cwd=w, capture_output=True).stdout.decode())
    json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
    open(d + '/demo.rs', 'w').write(PRE + 'fn main() {\n' + b['demo'].strip('\n') + '\n}\n')
    open(d + '/demo.sh', 'w').write(DEMO.replace('@ID@', b['id'])); os.chmod(d + '/demo.sh', 0o755)
    r = sh('cd %s && CARGO_TARGET_DIR=%s/target timeout 300 cargo +stable test --offline 2>&1 | tail -15' % (w, S))
    ok = '247 passed; 0 failed' in r.stdout
    a = sh('cd /repo && bash %s/demo.sh' % d); c = sh('cd %s && bash %s/demo.sh' % (w, d))
    sh('rm -rf ' + w)
    res = []
    if not ok: res.append('tests: ' + r.stdout[-600:])
    if a.returncode: res.append('demo fails on the clean tree: ' + (a.stdout + a.stderr)[-900:])
    if c.returncode == 0: res.append('demo passes with the patch')
    if c.returncode == 3: res.append('demo does not build with the patch ' + c.stderr[-500:])
    return '; '.join(res) or 'ok   patched demo: %d %s' % (c.returncode, c.stderr.strip().split('\n')[0][-60:] + ' | ' + c.stderr.strip().split('\n')[1][:150] if '\n' in c.stderr.strip() else c.stderr[-100:])
def check(b):
    d = '%s/seeded/%s' % (V, b['id']); props = [b['property']] + b.get('also', [])
    r = sh('git -C /repo apply %s/patch.diff' % d)
    if r.returncode: return 'patch does not apply: ' + r.stderr
    out = []
    try:
        for p in props:
            t = time.time(); r = sh('cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py %s quick' % p)
            out.append('%s: %s rc %d %.0fs %s' % (p, 'CAUGHT' if r.returncode == 1 and 'VIOLATION property=' + p in r.stdout else 'MISSED', r.returncode, time.time() - t, (r.stdout.strip().split('\n') or [''])[-1][:120] if r.returncode != 1 else ' '.join(x.strip()[:110] for x in r.stderr.split('\n') if 'violation:' in x)[:240]))
    finally: sh('git -C /repo checkout -- .')
    return ' ## '.join(out)
a = sys.argv[1:]; chk = a and a[0] == '--check'; a = a[1:] if chk else a
for b in BUGS:
    if a and b['id'] not in a and b['property'] not in a: continue
    print(b['id'], check(b) if chk else build(b), flush=True)
