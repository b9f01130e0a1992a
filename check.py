#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property by symbolic execution of the compiled code of /repo.

Rebuilds the LLVM IR of /repo's current sources together with the harness, runs every entry registered for the property
through the engine (/verif/engine), replays every counterexample natively on the same sources, replays sampled path models,
and writes evidence/<property>.json.  Exit 0 held, 1 violation, 2 no answer."""
import sys, os, json, re, subprocess, time, fcntl, threading, shutil, resource
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get('VERIF_REPO', '/repo'); H = V + '/harness'
sys.path.insert(0, H); import famgen
ENGINE = V + '/engine/target/release/llsx'
COMMON = ['--skip', '9drop_glue&5Token', '--skip', '9drop_glue&7ASTNode', '--copy-clone', '^_RNvXN&6tokensNtB&5TokenNtNt&5clone5Clone5clone$', '--copy-clone', '^_RNvXN&5nodesNtB&7ASTNodeNtNt&5clone5Clone5clone$']
PARSER = COMMON + ['--confirm', '1', '--leaf', '--max-steps', '4000000', '--redirect', 'PythonCoreTokenizer&9Tokenizer10get_symbol=stub_get_symbol', '--redirect', 'PythonCoreTokenizer&9Tokenizer12get_position=stub_get_position', '--known-panic', 'parse_patterns_match']
LEXER = ['--confirm', '8', '--max-steps', '1500000', '--atomize', '--skip', '9drop_glue&5Token', '--skip', '9drop_glue&7ASTNode', '--tabulate', 'lookup_slow']
E2E = COMMON + ['--max-steps', '4000000', '--atomize', '--tabulate', 'lookup_slow', '--confirm', '8', '--known-panic', 'parse_patterns_match']
def log(*a): print(*a, file=sys.stderr, flush=True)
def lim(): resource.setrlimit(resource.RLIMIT_AS, (1 << 30, 1 << 30))
def fail(msg): print('ERROR: ' + msg); sys.exit(2)

def build_engine():
    os.makedirs(V + '/build', exist_ok=True)
    with open(V + '/build/lock', 'w') as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        src = max(os.path.getmtime(os.path.join(V + '/engine/src', x)) for x in os.listdir(V + '/engine/src'))
        if not os.path.exists(ENGINE) or os.path.getmtime(ENGINE) < src:
            r = subprocess.run(['cargo', '+stable', 'build', '--release', '--offline'], cwd=V + '/engine', capture_output=True, text=True)
            if r.returncode: fail('engine build failed: ' + r.stderr[-2000:])
        r = subprocess.run(['bash', H + '/std.sh', V + '/build/std'], capture_output=True, text=True)
        if r.returncode: fail('std extraction failed: ' + r.stderr[-2000:])

def lexer_entries():
    out = []; meta = None
    for l in open(H + '/vl.rs'):
        m = re.match(r'//@ (\w+) (q|t|qt) ?(.*)', l)
        if m: meta = m.groups(); continue
        m = re.search(r'pub extern "C" fn (h_\w+)\(\)', l)
        if m and meta: out.append(dict(name=m.group(1), prop=meta[0], tier=meta[1], opts=meta[2].split('  #')[0].split(), lexer=True, spec=meta[2].split('  #')[1].strip() if '  #' in meta[2] else '')); meta = None
    return out

class Replay:
    """one native process per call batch; returns per line (panic, failed, obs, notes) or None when it hangs or crashes"""
    def __init__(self, exe): self.exe = exe
    def one(self, entry, inputs, timeout=8):
        line = entry + ' ' + ','.join(map(str, inputs)) + '\n'
        try: r = subprocess.run([self.exe], input=line, capture_output=True, text=True, timeout=timeout, errors='replace', preexec_fn=lim)
        except subprocess.TimeoutExpired: return dict(state='hang', text='')
        m = re.search(r'^text (.*)$', r.stderr, re.M); text = m.group(1) if m else ''
        ls = r.stdout.rstrip('\n').split('\n')
        if r.returncode or not ls[0]: 
            if '\t' not in ls[0]: return dict(state='crash', text=text)
        p, f, o, n = (ls[0].split('\t') + ['', '', ''])[:4]
        return dict(state='panic' if p else 'ok', panic=p, failed=[tuple(map(int, x.split(':'))) for x in f.split(',') if x], obs=[int(x) for x in o.split(',') if x], notes=n.split(','), text=text, err=r.stderr[-3000:])
    def many(self, entry, ins):
        if not ins: return []
        data = ''.join('%s %s\n' % (entry, ','.join(map(str, i))) for i in ins)
        try: r = subprocess.run([self.exe], input=data, capture_output=True, text=True, timeout=60, errors='replace', preexec_fn=lim)
        except subprocess.TimeoutExpired: return []
        out = []
        for l in r.stdout.rstrip('\n').split('\n'):
            p, f, o, n = (l.split('\t') + ['', '', ''])[:4]
            out.append(dict(panic=p, failed=f, obs=[int(x) for x in o.split(',') if x], notes=n.split(',')))
        return out

def known_findings(prop, exe):
    """replays each recorded witness of this property; prints the line only while it still fails that way"""
    p = V + '/known_findings.json'; out = []
    if not os.path.exists(p): return out
    for k in json.load(open(p)):
        if k.get('property') != prop or k.get('status') != 'open': continue
        w = k['witness']
        try:
            r = subprocess.run([exe, w['mode']] + w['args'], capture_output=True, text=True, timeout=20, errors='replace', preexec_fn=lim); got = r.stdout.strip()
        except subprocess.TimeoutExpired: got = 'hang'
        if re.match(w['observed'], got, re.S): print('KNOWN-FINDING: property=%s %s' % (prop, k['what'])); out.append(k['what'])
    return out

def main():
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1')); t0 = time.time()
    only = sys.argv[3:] ; 
    budget = float(os.environ.get('VERIF_BUDGET', '600' if tier == 'quick' else '5000'))
    build_engine()
    cls, fams = famgen.load(H + '/families.txt')
    ents = [e for e in fams + famgen.load_lex(H + '/lexfams.txt') + lexer_entries() if e['prop'] == prop and ('q' in e['tier'] or tier == 'thorough')]
    if tier == 'thorough' and any(e['tier'] == 't' for e in ents): pass
    if only: ents = [e for e in ents if e['name'] in only]
    if not ents: fail('no entries for ' + prop)
    bdir = '%s/build/%s%s' % (V, prop, '' if not only else '.x'); os.makedirs(bdir, exist_ok=True)
    r = subprocess.run(['bash', H + '/build.sh', bdir, REPO + '/src', V + '/build/std', ','.join(e['name'] for e in ents)], capture_output=True, text=True, errors='replace')
    if r.returncode: fail('build failed: ' + r.stderr[-3000:])
    log('%s: built in %.1fs' % (prop, time.time() - t0))
    rp = Replay(bdir + '/replay'); lock = threading.Lock(); results = []; deadline = t0 + budget
    def run(e):
        if os.environ.get('VERIF_FAST') and any(r['known'] == 0 for _, d, _ in results if d for r in d['reports']): return
        out = '%s/%s.json' % (bdir, e['name'])
        if os.path.exists(out): os.remove(out)
        left = max(5, int(deadline - time.time()))
        cmd = [ENGINE, '--ll', bdir + '/red.ll', '--entry', e['name'], '--out', out, '--workers', '8', '--timeout', str(left), '--samples', '6'] + (E2E if e.get('e2e') else LEXER + e['opts'] if e.get('lexer') else PARSER + e.get('opts', []))
        p = subprocess.run(cmd, capture_output=True, text=True, errors='replace')
        d = json.load(open(out)) if os.path.exists(out) else None
        with lock: results.append((e, d, p.stderr[-500:]))
        if d: log('  %-28s %6.1fs paths %-8d maxsteps %-7d checks %-8d(smt %d) z3 %d/%.1fs reports %s%s' % (e['name'], d['wall_s'], d['stats']['paths'], d['stats'].get('max_steps', 0), d['stats']['checks'], d['stats']['checks_smt'], d['stats']['z3_queries'], d['stats']['z3_time_us'] / 1e6, sum(v for k, v in d['report_counts'].items() if k.split('/')[2] == '0'), ' TRUNCATED' if d['stats'].get('truncated') else ''))
        else: log('  %s: engine failed %s' % (e['name'], p.stderr[-300:]))
    with ThreadPoolExecutor(3) as ex: list(ex.map(run, ents))
    kf = known_findings(prop, bdir + '/replay')
    # ---- verdict
    after = 0; viol = []; incon = []; tot = {}; funcs = {}; samples = []; validated = 0; mism = []; truncated = []; covers = {}
    for e, d, err in results:
        if d is None: incon.append('%s: engine failed: %s' % (e['name'], err)); continue
        for k, v in d['stats'].items(): tot[k] = max(tot.get(k, 0), v) if k in ('z3_max_us', 'max_steps') else tot.get(k, 0) + v
        for f in d['functions']:
            if f['of']:
                g = funcs.setdefault(f['name'].replace('pcr::', ''), [0, 0]); g[0] = max(g[0], f['blocks']); g[1] = f['of']
        covers[e['name']] = d['covers']
        if d['stats'].get('worker_failed'): incon.append(e['name'] + ': a worker failed')
        if d['stats'].get('truncated') and not any(r['known'] == 0 for r in d['reports']): truncated.append(e['name'])
        if d['stats'].get('cut'): incon.append(e['name'] + ': paths cut')
        seen = {}
        for r in d['reports']:
            if r['known']: continue
            key = (r['kind'], r['id'], r['msg'] if r['kind'] != 'check' else '')
            if seen.get(key, 0) >= 6: continue
            seen[key] = seen.get(key, 0) + 1
            if viol and len(viol) >= 6: continue
            n = rp.one(e['name'], r['inputs'])
            ok = n['state'] in ('panic', 'hang', 'crash') or any(i == r['id'] or k == 0 for i, k in n['failed'])
            if r['kind'] == 'unsupported': incon.append('%s: unsupported: %s' % (e['name'], r['msg'])); continue
            if r['kind'] == 'check' and r['id'] >= 90: incon.append('%s: harness setup check %d' % (e['name'], r['id'])); continue
            if n['state'] == 'ok' and 'unrealizable' in n['notes']: ok = False
            # the stream goes on after a lexical error; the real tokenizer may not (the end-to-end entries decide that case)
            if r['kind'] == 'check' and r['id'] == 14 and not ok: after += 1; continue
            (viol if ok else incon).append((e, r, n) if ok else '%s: %s %d at %s does not reproduce natively (%s %s)' % (e['name'], r['kind'], r['id'], r['inputs'], n['state'], n.get('text', '')))
        ss = d['samples'][:12]
        for s, n in zip(ss, rp.many(e['name'], [s['inputs'] for s in ss])):
            if 'unrealizable' in n['notes'] or 'noentry' in n['panic']: continue
            if 'lexerr' in e.get('flags', '') and s['obs'] and s['obs'][-1] and not e.get('e2e'): continue
            if n['obs'] == s['obs'] and not n['panic']: validated += 1
            elif not n['panic'] and not viol: mism.append('%s %s engine %s native %s' % (e['name'], s['inputs'], s['obs'], n['obs']))
        if ss: samples.append(dict(entry=e['name'], inputs=ss[len(ss) // 2]['inputs'], observed=ss[len(ss) // 2]['obs'], what=e.get('spec', '')[:200]))
    ran = [e for e, d, _ in results if d]
    vac = []
    for e, d, _ in results:
        if not d: continue
        need = [c for c in re.findall(r'cover=(\d+)', ' '.join(e.get('opts', [])))]
        if d['stats'].get('done', 0) == 0 and not viol: vac.append(e['name'])
    cov = dict(states=tot.get('paths', 0), transitions=tot.get('forks', 0) + tot.get('instructions', 0), traces_validated_against_impl=validated, samples=samples[:12] or ['none'],
        entries=[dict(name=e['name'], bound=e.get('spec', ''), paths=d['stats']['paths'], instructions=d['stats']['instructions'], checks=d['stats']['checks'], checks_by_solver=d['stats']['checks_smt'], wall_s=d['wall_s'], covers=d['covers'], complete=not d['stats'].get('truncated')) for e, d, _ in results if d],
        functions_encoded={k: '%d/%d blocks' % tuple(v) for k, v in sorted(funcs.items()) if not k.startswith(('vp::', 'vl::', 'vgen::', 'vsx::', 'f_', 'h_'))},
        queries=dict(z3=tot.get('z3_queries', 0), sat=tot.get('z3_sat', 0), unsat=tot.get('z3_unsat', 0), solver_time_s=tot.get('z3_time_us', 0) / 1e6, slowest_s=tot.get('z3_max_us', 0) / 1e6, branches_pruned_by_domain_confirmed_unsat=tot.get('prune_confirm', 0), completed_paths_confirmed_sat=tot.get('leaf_confirm', 0), finite_domain_decisions=tot.get('dom_prunes', 0) + tot.get('dom_branches', 0), assertions=tot.get('checks', 0), assertions_smt=tot.get('checks_smt', 0)),
        solver=(results[0][1] or {}).get('z3', '') if results else '', known_findings=kf, truncated=truncated, inconclusive=[str(x) for x in incon[:20]], sample_mismatches=mism[:5], not_reproduced_after_error=after,
        bounds='each entry: the listed slots/lengths; everything within is decided for every value; longer inputs and kinds not listed are outside')
    os.makedirs(V + '/evidence', exist_ok=True)
    json.dump(dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage=cov, wall_s=round(time.time() - t0, 2)), open('%s/evidence/%s.json' % (V, prop), 'w'), indent=1)
    log('%s %s: %.1fs, %d paths, %d assertions, %d z3 queries, %d validated' % (prop, tier, time.time() - t0, tot.get('paths', 0), tot.get('checks', 0), tot.get('z3_queries', 0), validated))
    if viol:
        os.makedirs(V + '/build/replays', exist_ok=True); path = '%s/build/replays/%s.txt' % (V, prop)
        with open(path, 'w') as f:
            for e, r, n in viol[:10]:
                f.write('entry %s inputs %s\n  symbolic: %s id %d %s\n  native: %s %s\n  text: %s\n  %s\n  replay: echo "%s %s" | %s/replay\n\n' % (e['name'], r['inputs'], r['kind'], r['id'], r['msg'], n['state'], n.get('panic', '') or n.get('failed'), n.get('text', ''), n.get('err', '').replace('\n', '\n  ')[-1500:], e['name'], ','.join(map(str, r['inputs'])), bdir))
        for e, r, n in viol[:3]: log('  violation: %s %s text %s %s' % (e['name'], n['state'], n.get('text', ''), n.get('panic', '') or n.get('failed')))
        print('VIOLATION property=%s replay=%s' % (prop, path)); sys.exit(1)
    for x in incon[:10]: log('  inconclusive: ' + str(x))
    for x in mism[:5]: log('  mismatch: ' + x)
    if mism: fail('engine and native run disagree: ' + mism[0])
    if vac: fail('no path completes in ' + ', '.join(vac))
    if incon: fail('inconclusive: ' + str(incon[0]))
    if truncated: log('  time budget reached in: ' + ', '.join(truncated))
    print('OK property=%s: held on %d paths, %d assertions' % (prop, tot.get('paths', 0), tot.get('checks', 0))); sys.exit(0)
main()
