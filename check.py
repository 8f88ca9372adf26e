#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] -- decide one property; check.py --build -- only build.

Builds the engine, the harness (with the MIR of /repo's current tree and of everything it uses) and
the native replayer, runs the symbolic executor on the property's harness functions, replays every
counterexample and every witness natively, and writes evidence/PROPERTY.json.
Exit 0: held on everything explored; 1: VIOLATION; 2: the check itself failed."""
import concurrent.futures, json, os, re, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__))
W = V + '/.work'
sys.path.insert(0, V)
from checks import CHECKS, COMMON

T0 = time.time()
def sh(cmd, cwd, env=None, timeout=1500):
    e = dict(os.environ); e.pop('RUSTFLAGS', None); e.pop('RUSTC_WRAPPER', None); e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout)
    return p.returncode, p.stdout

def build():
    """engine, harness and replayer, in parallel"""
    os.makedirs(W, exist_ok=True)
    jobs = {
        'engine': (['cargo', 'build', '--release', '--offline', '-q'], V + '/engine', {}),
        'harness': (['bash', 'build.sh', '-q'], V + '/harness', {'MIRSYM_TARGET': W + '/target'}),
        'replay': (['cargo', '+stable', 'build', '--offline', '-q'], V + '/replay', {'CARGO_TARGET_DIR': W + '/replay'}),
    }
    with concurrent.futures.ThreadPoolExecutor() as ex:
        fs = {k: ex.submit(sh, *v) for k, v in jobs.items()}
        bad = [(k, f.result()) for k, f in fs.items() if f.result()[0] != 0]
    for k, (c, o) in bad:
        print(f'build of {k} failed ({c})\n' + '\n'.join(o.splitlines()[-40:]))
    return not bad

def replay(items):
    """items: [(fn, inputs)] -> list of native results"""
    out = []
    for i in range(0, len(items), 2000):
        part = items[i:i + 2000]
        inp = ''.join(f'{f} {",".join(map(str, v))}\n' for f, v in part)
        p = subprocess.run([W + '/replay/debug/replay'], input=inp, capture_output=True, text=True, timeout=600)
        rs = [json.loads(l) for l in p.stdout.splitlines()]
        # a result that is missing: the process died there (stack overflow, abort)
        while len(rs) < len(part):
            rs.append({'marks': [], 'fails': [], 'notes': [], 'stop': '', 'panic': f'process ended with {p.returncode}', 'all_inputs_used': True})
            rest = part[len(rs):]
            if rest:
                p = subprocess.run([W + '/replay/debug/replay'], input=''.join(f'{f} {",".join(map(str, v))}\n' for f, v in rest), capture_output=True, text=True, timeout=600)
                rs += [json.loads(l) for l in p.stdout.splitlines()]
        out += rs
    return out

def mirsym(fns, budget, samples, tag):
    out = f'{W}/{tag}.json'
    if os.path.exists(out): os.remove(out)
    root = subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], capture_output=True, text=True).stdout.strip()
    z3 = '/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib'
    cmd = [V + '/engine/target/release/mirsym', '--args', W + '/target/harness.args', '--out', out, '--workers', '8', '--budget', str(budget), '--samples', str(samples)]
    for f in fns: cmd += ['--fn', f]
    c, o = sh(cmd, V + '/harness', {'LD_LIBRARY_PATH': f'{root}/lib:{z3}'}, timeout=budget + 120)
    if not os.path.exists(out):
        print('the symbolic executor failed:', '\n'.join(o.splitlines()[-20:])); return None
    d = json.load(open(out))
    if 'error' in d:
        print('the symbolic executor failed:', d['error'][:2000]); return None
    return d

def main():
    if len(sys.argv) > 1 and sys.argv[1] == '--build':
        sys.exit(0 if build() else 2)
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    cfg = CHECKS[prop]
    fns = cfg['quick'] + (cfg.get('thorough', []) if tier == 'thorough' else [])
    if not build(): sys.exit(2)
    tb = time.time() - T0
    left = (800 if tier == 'quick' else 3 * 3600) - tb
    d = mirsym(fns, int(max(60, left - 60)), 2 if tier == 'quick' else 4, prop)
    if d is None: sys.exit(2)
    short = {f: f.split('::')[-1] for f in fns}
    hs = [h for w in d['workers'] for h in w['harness']]
    total = lambda k: sum(w[k] for w in d['workers'])
    marks = {}
    for h in hs:
        for m, n in h['marks'].items(): marks.setdefault(short[h['fn']], {}).setdefault(m, 0); marks[short[h['fn']]][m] += n
    viol = [(short[h['fn']], v) for h in hs for v in h['violations']]
    samp = [(short[h['fn']], s) for h in hs for s in h['samples']]
    rv = replay([(f, v['inputs']) for f, v in viol])
    rs = replay([(f, s[0]) for f, s in samp])
    known = [k for k in json.load(open(V + '/known_findings.json')) if k['property'] == prop and k.get('status') == 'known']
    confirmed, unconfirmed, seen_known = [], [], {}
    for (f, v), r in zip(viol, rv):
        if not (r['fails'] or r['panic']): unconfirmed.append((f, v, r)); continue
        text = ' | '.join([f] + r['fails'] + [r['panic']] + r['notes'])
        k = next((k for k in known if re.search(k['match'], text)), None)
        if k: seen_known.setdefault(k['id'], (k, text)); continue
        confirmed.append((f, v, r, text))
    validated, mismatch = 0, []
    for (f, s), r in zip(samp, rs):
        if r['marks'] == s[1] and r['all_inputs_used'] and not r['fails'] and not r['panic']: validated += 1
        else: mismatch.append((f, s, r))
    # what was not decided
    holes = []
    for h in hs:
        for u in h['unsup']: holes.append(f"{short[h['fn']]}: {u['n']} path(s) not followed: {u['msg'][:300]}")
        if h['skipped']: holes.append(f"{short[h['fn']]}: {len(h['skipped'])} case(s) not reached in time")
    if d['crashed']: holes.append(f"{d['crashed']} worker(s) crashed")
    for k in ('unknown', 'undecided'):
        if total(k): holes.append(f'{total(k)} queries {k}')
    if total('crossfail'): holes.append(f"{total('crossfail')} reductions refuted by the solver")
    closed = [sum(w['closed'][i] for w in d['workers']) for i in range(4)]
    if closed[3]: holes.append(f'{closed[3]} case(s) whose paths do not cover all inputs')
    if total('mdd_overflow'): holes.append('decision diagrams overflowed')
    missing = [f'{f}:{m}' for f in fns for m in cfg.get('witness', {}).get(short[f], ['ok']) if not marks.get(short[f], {}).get(m)]
    functions = sorted({x for w in d['workers'] for x in w['functions']})
    notes = lambda i: rs[i]['notes']
    samples = []
    for (f, s), r in list(zip(samp, rs))[:: max(1, len(samp) // 12)][:14]:
        samples.append({'harness': f, 'inputs': s[0], 'text': r['notes'], 'outcome': r['marks']})
    ev = {
        'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'model_checking',
        'coverage': {
            'states': sum(h['paths'] for h in hs), 'transitions': sum(h['steps'] for h in hs),
            'traces_validated_against_impl': validated, 'samples': samples or ['none'],
            'cases': sum(h['jobs'] for h in hs), 'paths_by_outcome': marks, 'infeasible_paths': sum(h['infeasible'] for h in hs),
            'functions_encoded': functions, 'functions_encoded_including_dependencies': max([w['functions_total'] for w in d['workers']] or [0]),
            'bounds': cfg['bounds'], 'outside': cfg['outside'],
            'queries': {'decided_on_diagrams': total('diagram'), 'z3': total('queries'), 'sat': total('sat'), 'unsat': total('unsat'), 'unknown': total('unknown'),
                        'diagram_answers_checked_with_z3': total('crosschecked'), 'of_those_wrong': total('crossfail')},
            'assertions': {'decided_by_simplification': total('folded_checks'), 'decided_by_query': total('solver_checks')},
            'solver': 'z3 ' + d['solver'], 'solver_s': round(total('solver_s'), 2), 'exploration_s': round(d['wall_s'], 2), 'build_s': round(tb, 1),
            'completeness': {'cases': sum(h['jobs'] for h in hs), 'paths_cover_all_inputs_by_z3': closed[1], 'by_diagrams': closed[0], 'refuted': closed[3]},
            'states_merged': total('merges'), 'forks': total('forks'), 'regex_searches_symbolic': total('regex_symbolic'),
            'not_decided': holes, 'known_findings_seen': sorted(seen_known), 'exhaustive': not holes,
            'explanation': 'states = completed symbolic paths (each stands for all values of its symbolic inputs), transitions = MIR statements executed symbolically; every counterexample and a sample of the completed paths are replayed natively.',
        },
        'assumptions': COMMON + cfg.get('assumes', []),
        'wall_s': round(time.time() - T0, 1), 'violations': len(confirmed),
    }
    os.makedirs(V + '/evidence', exist_ok=True)
    for x in os.listdir(V + '/evidence'):
        if x.startswith(prop + '-replay'): os.remove(f'{V}/evidence/{x}')
    for n, (f, v, r, text) in enumerate(confirmed[:5]):
        p = f'evidence/{prop}-replay{n}.json'
        json.dump({'property': prop, 'harness': f, 'inputs': v['inputs'], 'what': text, 'stack': v['stack'][:12],
                   'replay': f"cd /verif && python3 check.py --build && echo '{f} {','.join(map(str, v['inputs']))}' | .work/replay/debug/replay"}, open(f'{V}/{p}', 'w'), indent=1)
        print(f'VIOLATION property={prop} replay={p}')
        print(f'  {text[:600]}')
    json.dump(ev, open(f'{V}/evidence/{prop}.json', 'w'), indent=1)
    for k, (f, t) in seen_known.items(): print(f"KNOWN-FINDING: property={prop} {f['what']}")
    print(f"{prop} {tier}: {ev['coverage']['cases']} cases, {ev['coverage']['states']} paths, {ev['coverage']['transitions']} steps, {ev['coverage']['queries']}, "
          f"{validated}/{len(samp)} witnesses replayed, {len(confirmed)} violations, explored in {d['wall_s']:.0f} s, total {ev['wall_s']} s")
    for h in holes: print('  not decided:', h)
    if confirmed: sys.exit(1)
    if unconfirmed:
        for f, v, r in unconfirmed[:5]: print('not reproduced natively:', f, v['msg'], v['inputs'], r)
        sys.exit(2)
    if mismatch:
        for f, s, r in mismatch[:5]: print('witness differs natively:', f, s, r)
        sys.exit(2)
    if missing: print('vacuous: never reached', missing); sys.exit(2)
    if ev['coverage']['states'] == 0 or d['crashed']: print('nothing decided'); sys.exit(2)
    sys.exit(0)
main()
