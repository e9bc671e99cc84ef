#!/usr/bin/env python3
"""run.py PROPERTY [--tier quick|thorough]: decides one property for the
current tree of /repo.  Exit 0: held; exit 1: a VIOLATION line; 2: no answer.

1. builds the extractor (extract/) and the replay harness (replay/);
2. for each proof module of the property: extracts the functions under
   contract from /repo, runs Verus on all obligations, checks for vacuity;
3. runs the replay harness (bounded, on the real crate) -- as a labelled
   stand-in where no proof covers the property, and to find a concrete failing
   input for an obligation that is not discharged."""
import sys, os, json, re, subprocess, time, threading, resource, signal, shutil
from checks import PROPS, MODULES, ASSUME

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VP_REPO', '/repo')
TARGET = os.environ.get('VP_TARGET', os.path.join(VERIF, 'target'))
T0 = time.time()

def log(*a): print('[%6.1f]' % (time.time() - T0), *a, flush=True)

def cargo(crate):
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(TARGET, crate), CARGO_NET_OFFLINE='true')
    for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS'): env.pop(k, None)
    d = os.path.join(VERIF, crate)
    if crate == 'replay' and REPO != '/repo':       # development only: harness against a scratch copy
        d2 = os.path.join(TARGET, 'replay-src'); shutil.rmtree(d2, ignore_errors=True); shutil.copytree(d, d2, ignore=shutil.ignore_patterns('target'))
        t = open(d2 + '/Cargo.toml').read().replace('/repo', REPO); open(d2 + '/Cargo.toml', 'w').write(t); d = d2
    r = subprocess.run(['cargo', 'build', '--offline', '--release', '--quiet'], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode == 0, r.stdout

# ------------------------------------------------------------------ proofs
VERIF_ERR = ['postcondition not satisfied', 'precondition not satisfied', 'assertion failed', 'invariant not satisfied', 'possible arithmetic',
             'possible division', 'decreases not satisfied', 'possible bit shift', 'unable to prove', 'assertion not satisfied', 'requires not satisfied',
             'possible overflow', 'recommendation not met', 'could not show', 'failed this', 'cannot show', 'fails to satisfy', 'ensures not satisfied']
RLIMIT = ['rlimit', 'Resource limit', 'timed out', 'timeout']

class Failure:
    def __init__(self, kind, msg, fn, src, props, text): self.kind, self.msg, self.fn, self.src, self.props, self.text = kind, msg, fn, src, props, text

def scan_trusted(text):
    out = []
    lines = text.split('\n')
    for i, l in enumerate(lines):
        if re.search(r'external_body|assume_specification|external_fn_specification|\badmit\s*\(|\bassume\s*\(|\baxiom\b', l) and not l.strip().startswith('//'):
            j = i
            while j + 1 < len(lines) and not re.search(r'\b(fn|struct|assume)\b|assume_specification', lines[j]): j += 1
            m = re.search(r'(?:fn|struct)\s+([A-Za-z_0-9:]+)', lines[j]) or re.search(r'assume_specification\s*(?:<[^\[]*>)?\s*\[\s*([^\]]+)\]', lines[j])
            out.append((m.group(1).strip() if m else lines[j].strip())[:80])
    return sorted(set(out))

def verus(path, extra, timeout, errors=20):
    t = time.time()
    try:
        r = subprocess.run(['verus', path, '--output-json', '--time', '--triggers-mode', 'silent', '--multiple-errors', str(errors)] + extra, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
        out, err = r.stdout, r.stderr
    except subprocess.TimeoutExpired as e:
        return None, 'timeout', time.time() - t
    try: js = json.loads(out[out.index('{'):])
    except Exception: js = None
    return js, err, time.time() - t

def blocks(err):
    cur = []
    for l in err.split('\n'):
        if re.match(r'(error|warning|note)(\[|:)', l):
            if cur: yield cur
            cur = [l]
        elif cur: cur.append(l)
    if cur: yield cur

def enclosing(gen, n):
    for k in range(min(n, len(gen)) - 1, -1, -1):
        m = re.search(r'\bfn (\w+)', gen[k])
        if m: return m.group(1)
    return ''

def parse_failures(err, gen, fns):
    fails, unsupported, rl = [], [], []
    for b in blocks(err):
        if not b[0].startswith('error'): continue
        if b[0].startswith('error: aborting') or 'verification results' in b[0]: continue
        text = '\n'.join(b)
        nums = [int(x) for x in re.findall(r'^\s*(\d+)\s+\|', text, re.M)]
        head = [int(x) for x in re.findall(r'-->.*?:(\d+):\d+', text)]
        if b[0].startswith('error[') or not any(k in text for k in VERIF_ERR + RLIMIT): unsupported.append(text); continue
        fn = src = None
        for n in head + nums:
            for (name, a, z, s) in fns:
                if a <= n <= z: fn, src = name, s
            if fn: break
        if not fn: fn = enclosing(gen, head[0] if head else 0)
        if any(k in b[0] for k in RLIMIT): rl.append(fn or ''); continue
        tags = set()
        for n in nums + head:
            if 0 < n <= len(gen):
                for m in re.findall(r'//\s*\[([A-Z0-9, ]+)\]', gen[n - 1]): tags |= set(x.strip() for x in m.split(','))
        fails.append(Failure(b[0], b[0], fn or '', src or '', tags, text))
    return fails, unsupported, rl

def fn_props(spec):
    """function -> properties: its `//@@ props` line, or the last `//@ props` line before it (lemmas too)"""
    out, cur, dflt = {}, None, None
    def lines(f):
        for l in open(f):
            if l.startswith('//@ include '): yield from lines(os.path.join(os.path.dirname(f), l[12:].strip()))
            else: yield l
    pr = lambda t: set(x.strip() for x in t.split(',')) if t.strip() else None
    for l in lines(spec):
        t = l.strip()
        m = re.match(r'//@ c?fn (\S+)', t) or re.match(r'pub (?:broadcast )?proof fn (\w+)', t)
        if m:
            cur = m.group(1) if t.startswith('//@') else None
            if dflt: out[m.group(1)] = dflt
        elif t.startswith('//@ props'): dflt = pr(t[9:])
        elif t.startswith('//@ '): cur = None
        elif t.startswith('//@@ props ') and cur: out[cur] = pr(t[11:])
    return out

def verus_name(lines, n):
    """the name under which Verus knows the function emitted in these lines"""
    text = '\n'.join(lines)
    i = re.search(r'^impl\s*(?:<[^{]*?>)?\s+(\w+)', text, re.M); f = re.search(r'\bfn (\w+)', text)
    return (i.group(1) + '::' if i else '') + f.group(1) if f else n.split('@')[0]

def unsupported_in(rs, gen, fns):
    """the functions in which Verus rejects the extracted text, without solving anything"""
    try: r = subprocess.run(['verus', rs, '--no-verify', '--triggers-mode', 'silent'], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=200)
    except subprocess.TimeoutExpired: return None
    if r.returncode == 0: return None
    bad = set()
    for b in blocks(r.stderr):
        if not b[0].startswith('error') or b[0].startswith('error: aborting'): continue
        h = [int(x) for x in re.findall(r'-->.*?:(\d+):\d+', b[0] + '\n' + '\n'.join(b[1:3]))]
        n = [f[0] for f in fns for x in h[:1] if f[1] <= x <= f[2]]
        if not n: return None
        bad.update(n)
    return sorted(bad)

def run_module(name, tier):
    """-> dict(status = proved|failed|undecided, ...)"""
    m = MODULES[name]
    work = os.path.join(TARGET, 'proofs'); os.makedirs(work, exist_ok=True)
    spec = os.path.join(VERIF, 'specs', name + '.vspec')
    rs, mp = os.path.join(work, name + '.rs'), os.path.join(work, name + '.map')
    vx = os.path.join(TARGET, 'extract', 'release', 'vx')
    res = dict(module=name, status='undecided', why='', failures=[], obligations=0, discharged=0, functions=[], trusted=[], solver_ms=0, wall=0, vacuity='not run')
    skip = []
    def extract(rs, mp, **env):
        return subprocess.run([vx, spec, REPO, rs, mp], env=dict(os.environ, VX_SKIP='|'.join(skip), **env), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    def get():
        for _ in range(4):
            r = extract(rs, mp)
            maptxt = open(mp).read() if os.path.exists(mp) else ''
            lost = [l[5:] for l in maptxt.split('\n') if l.startswith('lost ')]
            un = [l[7:] for l in lost if l.startswith('unsafe ')]; lost = [l for l in lost if not l.startswith('unsafe ')]
            if un: res['unsafe'] = un
            if (r.returncode == 0 or un) and not lost: return maptxt
            if lost and lost_why[0] == '': lost_why[0] = 'lost anchors: ' + '; '.join(lost)[:500]
            ns = [l.split()[1] for l in lost if l.split()[0] in ('hint', 'loop', 'shape', 'closures', 'subst', 'arity', 'handlers', 'view', 'fn')]
            if not lost: res['why'] = 'extraction failed: ' + r.stdout[-500:]; return None
            if len(ns) < len(lost) or set(ns) <= set(skip): res['why'] = lost_why[0]; return None
            skip.extend(n for n in ns if n not in skip)
        return None
    lost_why = ['']
    fp = fn_props(spec)
    for rnd in range(5):
        maptxt = get()
        if maptxt is None: return res
        fns, vname = [], {}
        text = open(rs).read(); gen = text.split('\n')
        for l in maptxt.split('\n'):
            p = l.split()
            if len(p) == 5 and p[0] == 'fn': fns.append((p[1], int(p[2]), int(p[3]), p[4])); vname[p[1]] = verus_name(gen[int(p[2]) - 1:int(p[3])], p[1])
        if rnd == 4: break
        # functions that left the supported subset are set aside: only their contract is kept
        bad = unsupported_in(rs, gen, fns)
        if bad is None: break
        if not bad or set(bad) <= set(skip): break
        skip.extend(n for n in bad if n not in skip)
    res['functions'] = [{'function': f[0], 'source': f[3]} for f in fns if f[0] not in skip]
    res['undecided_functions'] = skip
    res['trusted'] = scan_trusted(text)
    lim = m.get('timeout', 400)
    box = {}
    def canary():
        # vacuity: with assert(false) at its entry, every function must fail
        rs2, mp2 = rs.replace('.rs', '_canary.rs'), mp.replace('.map', '_canary.map')
        extract(rs2, mp2, VX_CANARY='1')
        box['r'] = verus(rs2, m.get('args', []), lim, 1) + (rs2, mp2)
    can = threading.Thread(target=canary); can.start()
    try: prove(name, m, rs, gen, fns, fp, lim, res, vname)
    finally: can.join()
    if skip and res['status'] == 'proved':
        res['status'] = 'undecided'; res['why'] = 'set aside, outside the supported subset: ' + ', '.join(skip) + '; the other obligations are discharged'
    if res.get('unsafe') and res['status'] == 'proved':
        res['status'] = 'undecided'; res['why'] = 'unsafe code in functions not under contract: ' + ', '.join(res['unsafe']) + '; the obligations are discharged'
    if res['status'] != 'proved': return res
    want = m.get('min_obligations', 1)
    if res['discharged'] < want: res['status'] = 'undecided'; res['why'] = 'only %d obligations (expected at least %d)' % (res['discharged'], want)
    js, err, wall, rs2, mp2 = box['r']; res['wall'] = max(res['wall'], wall)
    want = [i + 1 for i, l in enumerate(open(rs2).read().split('\n')) if 'vp_canary' in l]
    got = set(int(x) for x in re.findall(r'-->.*?:(\d+):\d+', err or ''))
    vac = [w for w in want if w not in got]
    if js is None: res['vacuity'] = 'no answer'
    elif vac:
        names = [p[1] for w in vac for p in (l.split() for l in open(mp2)) if p[0] == 'fn' and int(p[2]) <= w <= int(p[3])]
        names = [n for n in names if n not in m.get('vacuous_ok', [])]
        if names: res['status'] = 'undecided'; res['why'] = 'vacuous precondition in ' + ', '.join(names)
        res['vacuity'] = '%d of %d entry points reachable' % (len(want) - len(vac), len(want))
    else: res['vacuity'] = 'assert(false) fails at the entry of all %d functions' % len(want)
    return res

def prove(name, m, rs, gen, fns, fp, lim, res, vname):
    js, err, wall = verus(rs, m.get('args', []), lim)
    res['wall'] += wall
    def add_ms(js):
        try: res['solver_ms'] += int(js.get('times-ms', {}).get('smt', {}).get('total', 0))
        except Exception: pass
    if js is None: res['why'] = 'verus: ' + err[-300:]; return
    vr = js.get('verification-results', {}); add_ms(js)
    fails, uns, rl = parse_failures(err, gen, fns)
    v, e = vr.get('verified', 0), vr.get('errors', 0)
    if uns or vr.get('encountered-vir-error'):
        res['why'] = 'outside the supported subset: ' + (uns[0][:600] if uns else 'vir error'); return
    res['obligations'], res['discharged'] = v + e, v
    if vr.get('success') and e == 0 and v > 0: res['status'] = 'proved'; return
    if not fails and not rl: res['why'] = 'verus: no result ' + err[-300:]; return
    # once more, function by function, with other seeds, before anything is reported
    names = sorted(set([f.fn for f in fails] + rl)); again = {}
    def retry(n):
        for seed in (7, 1234567):
            left = lim + 120 - (time.time() - T0)
            if left < 20: break
            js, err, wall = verus(rs, m.get('args', []) + m.get('scope', ['--verify-root']) + ['--verify-function', vname.get(n, n.split('@')[0]), '--smt-option', 'smt.random_seed=%d' % seed, '--smt-option', 'sat.random_seed=%d' % seed], min(left, 250))
            if js is None: continue
            add_ms(js); vr = js.get('verification-results', {})
            if vr.get('success') and vr.get('errors', 1) == 0 and vr.get('verified', 0) > 0: again[n] = ('ok', []); return
            f2, u2, r2 = parse_failures(err, gen, fns)
            if f2: again[n] = ('failed', f2)
            elif n not in again: again[n] = ('rlimit', [])
    if len(names) <= 12:
        ts = [threading.Thread(target=retry, args=(n,)) for n in names]
        for t in ts: t.start()
        for t in ts: t.join()
    ok = [n for n in names if again.get(n, ('',))[0] == 'ok']
    res['discharged'] += len(ok)
    fails = [f for f in fails if f.fn not in ok]
    for n in rl:
        if n not in ok and not any(f.fn == n for f in fails): fails += again.get(n, ('', []))[1]
    rl = [n for n in rl if n not in ok and not any(f.fn == n for f in fails)]
    for f in fails: f.props = f.props or fp.get(f.fn) or set(m.get('default', m['props']))
    res['failures'] = fails
    if fails: res['status'] = 'failed'; res['why'] = '%d obligations not discharged' % len(fails)
    elif rl: res['status'] = 'undecided'; res['why'] = 'solver resource limit in ' + ', '.join(rl)
    else: res['status'] = 'proved'; res['why'] = 'second attempt for ' + ', '.join(ok)

# ------------------------------------------------------------------ replay
def limit():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30)); resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

def replay_one(exe, prop, seed, secs, out, case=None, grace=150):
    a = [exe, prop, str(seed), str(secs), out] + ([str(case)] if case is not None else [])
    try: r = subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, preexec_fn=limit, timeout=secs + grace, errors='replace')
    except subprocess.TimeoutExpired: return -1, ''
    return r.returncode, r.stdout

def replay(prop, seed, secs, procs):
    exe = os.path.join(TARGET, 'replay', 'release', 'replay')
    work = os.path.join(VERIF, 'evidence', 'replay'); os.makedirs(work, exist_ok=True)
    res = [None] * procs
    def go(i):
        out = os.path.join(work, '%s.%d.txt' % (prop, i))
        for f in (out, out + '.case'):
            if os.path.exists(f): os.remove(f)
        sd = seed * 1000 + i
        rc, txt = replay_one(exe, prop, sd, secs, out)
        if rc == 1 and os.path.exists(out): res[i] = ('fail', out, txt); return
        m = re.search(r'EVALS (\d+) NONTRIVIAL (\d+)', txt)
        if rc == 0 and m: res[i] = ('ok', int(m.group(1)), int(m.group(2))); return
        # the process died: is it this case, again?
        case = None
        try: case = int(open(out + '.case').read().strip())
        except Exception: pass
        if case is not None:
            again = [replay_one(exe, prop, sd, 1, out, case)[0] for _ in range(2)]
            if all(a not in (0,) for a in again):
                if not os.path.exists(out): open(out, 'w').write('property %s\nseed %d case %d\nthe process dies (exit %s)\nrerun: replay %s %d 1 OUT %d\n' % (prop, sd, case, again, prop, sd, case))
                res[i] = ('fail', out, 'case %d kills the process' % case); return
        res[i] = ('none', 'exit %s %s' % (rc, txt[-200:]), 0)
    ts = [threading.Thread(target=go, args=(i,)) for i in range(procs)]
    for t in ts: t.start()
    for t in ts: t.join()
    return res

# ------------------------------------------------------------------ main
def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    P = PROPS[prop]
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    for k in list(os.environ):
        if k.startswith('VX_'): del os.environ[k]
    built = {}
    def b(c): built[c] = cargo(c)
    ts = [threading.Thread(target=b, args=(c,)) for c in ('extract', 'replay')]
    for t in ts: t.start()
    for t in ts: t.join()
    log('built:', {k: v[0] for k, v in built.items()})
    if not built['replay'][0]: log('replay harness does not build against this tree:\n' + built['replay'][1][-1500:])
    mods = P.get('modules', [])
    results = {}
    if mods and built['extract'][0]:
        def g(m): results[m] = run_module(m, tier)
        ts = [threading.Thread(target=g, args=(m,)) for m in mods]
        for t in ts: t.start()
        for t in ts: t.join()
    for m in mods:
        if m not in results: results[m] = dict(module=m, status='undecided', why='the extractor does not build', failures=[], obligations=0, discharged=0, functions=[], trusted=[], solver_ms=0, wall=0, vacuity='')
        r = results[m]
        log('module %s: %s, %d of %d obligations discharged, %d functions, %.1f s (%d ms solver) %s; vacuity: %s' % (m, r['status'], r['discharged'], r['obligations'], len(r['functions']), r['wall'], r['solver_ms'], r['why'], r['vacuity']))
    failing = [f for m in mods for f in results[m]['failures'] if results[m]['status'] == 'failed' and prop in f.props]
    other = [f for m in mods for f in results[m]['failures'] if results[m]['status'] == 'failed' and prop not in f.props]
    for f in failing + other: log('NOT DISCHARGED (%s) in %s %s: %s' % (','.join(sorted(f.props)), f.fn, f.src, f.msg))
    undecided = [m for m in mods if results[m]['status'] == 'undecided']
    # the bounded harness; longer when an obligation is open
    secs = P.get('secs', 12) if tier == 'quick' else P.get('thorough_secs', 240)
    if (failing or other or undecided) and tier == 'quick': secs = max(secs, 45)
    rr = replay(prop, seed, secs, 7) if built['replay'][0] else []
    evals = sum(r[1] for r in rr if r and r[0] == 'ok'); nontriv = sum(r[2] for r in rr if r and r[0] == 'ok')
    bad = [r for r in rr if r and r[0] == 'fail']
    dead = [r for r in rr if r and r[0] == 'none']
    log('replay: %d evaluations, %d failing, %d without an answer %s' % (evals, len(bad), len(dead), dead[:1]))
    known = known_findings(prop)
    viol, rc = [], 0
    if bad:
        out = sorted(bad, key=lambda r: os.path.getsize(r[1]))[0][1]
        final = os.path.join(VERIF, 'evidence', 'replay', '%s.failing.txt' % prop)
        text = open(out).read()
        k = next((k for k in known if k['match'] in text), None)
        if k: print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
        else:
            if failing: text += '\nobligations not discharged:\n' + '\n'.join(f.text for f in failing)
            open(final, 'w').write(text); print(text[:3000])
            viol.append({'replay': final}); rc = 1
            print('VIOLATION property=%s replay=%s' % (prop, final))
    if not rc and failing:
        final = os.path.join(VERIF, 'evidence', 'replay', '%s.obligation.txt' % prop)
        open(final, 'w').write('property %s: obligations that are discharged on the unchanged tree and are not on this one\n\n' % prop + '\n\n'.join('function %s (%s)\n%s' % (f.fn, f.src, f.text) for f in failing))
        viol.append({'replay': final, 'note': 'no failing input found'}); rc = 1
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, final))
    if not rc and not rr and (undecided or not mods): print('no answer: neither proof nor stand-in decides'); rc = 2
    if not rc and rr and evals == 0: print('no answer: the stand-in evaluated nothing'); rc = 2
    evidence(prop, P, tier, seed, results, evals, nontriv, secs, viol, undecided)
    log('exit', rc)
    sys.exit(rc)

def known_findings(prop):
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r'KNOWN-FINDING: property=(\w+) match="([^"]*)" (.*)', l.strip())
        if m and m.group(1) == prop: out.append({'match': m.group(2), 'what': m.group(3)})
    return out

def evidence(prop, P, tier, seed, results, evals, nontriv, secs, viol, undecided):
    obl = sum(r['obligations'] for r in results.values()); dis = sum(r['discharged'] for r in results.values())
    proof = bool(results) and P['level'] == 'proof'
    trusted = sorted(set(t for r in results.values() for t in r['trusted']))
    samples = []
    d = os.path.join(VERIF, 'evidence', 'replay')
    cov = {
        'obligations': obl, 'discharged': dis,
        'checker_cmd': 'verus target/proofs/<module>.rs (generated by extract/ from /repo on this run), back end Z3',
        'trusted_base': trusted,
        'modules': {m: {k: r[k] for k in ('status', 'why', 'obligations', 'discharged', 'functions', 'vacuity', 'solver_ms')} | {'wall_s': round(r['wall'], 1)} for m, r in results.items()},
        'bounded': {'label': 'bounded, not proved', 'evaluations': evals, 'distinct_nontrivial': nontriv, 'seconds_per_process': secs, 'rule': P['rule']},
    }
    if not proof:
        cov['evaluations'] = evals; cov['distinct_nontrivial'] = min(nontriv, evals) if nontriv else evals
        cov['rule'] = P['rule']; cov['samples'] = [P.get('sample', 'replay %s %d %d OUT' % (prop, seed * 1000, secs))]
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': P['level'], 'coverage': cov,
          'assumptions': [a for m in results for a in ASSUME.get(m, [])] + (['undecided on this run: ' + ', '.join(undecided)] if undecided else []),
          'wall_s': round(time.time() - T0, 1), 'violations': len(viol)}
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)

main()
