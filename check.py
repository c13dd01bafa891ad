#!/opt/veriftools/pyvenv/bin/python
"""Decide one property: symbolic exploration of the real code, then concrete replay.

usage: check.py PROPERTY [quick|thorough]
exit 0: held on everything explored (whatever was left undecided is printed and recorded in the evidence);
1: VIOLATION printed (a counterexample that the real code reproduces); 2: nothing could be decided, or, with
VERIF_STRICT=1, anything at all was left undecided.
"""
import importlib
import json
import os
import random
import subprocess
import sys
import tempfile
import threading
import time
import types

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
FAIL = ('violation', 'exception', 'crash')
REPLAY_PY = '/opt/venv/bin/python'
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)
sys.path.insert(1, HERE)
sys.path.append('/opt/venv/lib/python3.12/site-packages')
sys.setrecursionlimit(6000)


def replay(prop, tier, jobs, workers=1, hashseed=0):
    """Run recorded inputs on the real code; results indexed like jobs."""
    chunks = [[] for _ in range(max(1, min(workers, (len(jobs) + 19) // 20)))]
    per = -(-len(jobs) // len(chunks))
    order = sorted(range(len(jobs)), key=lambda i: jobs[i]['case'])
    for k, i in enumerate(order):
        chunks[k // per].append(i)
    out = [None] * len(jobs)

    def go(idx):
        text = ''.join(json.dumps(dict(jobs[i], property=prop, tier=tier, n=i)) + '\n' for i in idx)
        env = dict(os.environ, VERIF_REPO=REPO, PYTHONHASHSEED=str(hashseed), PYTHONPATH=HERE)
        p = subprocess.run([REPLAY_PY, '-m', 'symx.replay'], input=text, text=True, cwd=HERE, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        for line in p.stdout.splitlines():
            r = json.loads(line)
            out[r['n']] = r
        if p.returncode and p.stderr:
            sys.stderr.write(p.stderr[-2000:])

    ts = [threading.Thread(target=go, args=(c,)) for c in chunks if c]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return [r or {'outcome': 'crash', 'detail': 'no result', 'obs': [], 'missing': []} for r in out]


def main():
    if sys.argv[1] == '--replay':
        return rerun(sys.argv[2])
    prop = sys.argv[1].upper()
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    only = os.environ.get('VERIF_CASE')
    jobs_n = int(os.environ.get('VERIF_JOBS', '0')) or os.cpu_count() or 4
    budget = int(os.environ.get('VERIF_BUDGET', '0')) or (780 if tier == 'quick' else 3300)
    t0 = time.time()

    from symx import core, instr
    from symx.api import Symbolic
    instr.install(('nessaid_cli', 'harness'), ('ply.lex', 'fnmatch', 'textwrap'))
    import harness.common
    harness.common.load_repo()
    mod = importlib.import_module('harness.' + prop.lower())
    cases = [c for c in mod.cases(tier) if not only or only in c.name]
    names = [c.name for c in cases]
    assert len(set(names)) == len(names), 'duplicate case names'

    codes = watch(core, instr)
    tmp = tempfile.mkdtemp(prefix='symx')
    outp = os.path.join(tmp, 'paths')
    open(outp, 'w').close()
    known = load_known(prop)
    core.known_labels.update('known:' + k for k in known)
    core.setup_explore(jobs_n, outp, t0 + budget)
    S = Symbolic()
    sys.stdout.flush()
    for c in cases:
        core.launch(c.setup, lambda env, c=c: c.body(S, env), c.name, S.settle)
    core.wait_all()
    t_explore = time.time() - t0

    recs, st, incomplete, labels, seen = [], {}, {}, {}, set()
    ncheck = 0
    with open(outp) as f:
        for line in f:
            r = json.loads(line)
            for k, v in r['st'].items():
                st[k] = st.get(k, 0) + v
            for w in r['incomplete']:
                incomplete[w] = incomplete.get(w, 0) + 1
            seen.update(r.get('codes', ()))
            if r['kind'] == 'path':
                ncheck += r['nchecks']
                for lab in r['labels']:
                    labels.setdefault(r['case'], set()).add(lab)
                recs.append(r)
    os.remove(outp)
    os.rmdir(tmp)
    for w in core.ctx.incomplete:
        incomplete[w] = incomplete.get(w, 0) + 1
    timeout = bool(core.shared.get(core.TIMEOUT))
    done = [r for r in recs if r['outcome'] == 'done']
    bad = [r for r in recs if r['outcome'] in ('violation', 'exception', 'hang')]
    listed = [r for r in bad if core.known_labels.intersection(r['labels'])]
    bad = [r for r in bad if not core.known_labels.intersection(r['labels'])] + listed[:100]
    engine = [r for r in recs if r['outcome'] == 'engine']

    # ---- counterexamples: only what the real code reproduces is reported
    confirmed, unconfirmed, known_hits = [], [], {}
    if bad:
        res = replay(prop, tier, [dict(case=r['case'], inputs=r.get('inputs', {})) for r in bad], jobs_n)
        for r, x in zip(bad, res):
            for hs in (1, 2, 3):
                if x['outcome'] in FAIL:
                    break
                x = replay(prop, tier, [dict(case=r['case'], inputs=r.get('inputs', {}))], 1, hs)[0]
                x['hashseed'] = hs
            if x['outcome'] in FAIL:
                kid = next((k for k in known if 'known:' + k in r['labels']), None)
                if kid:
                    known_hits.setdefault(kid, (r, x))
                else:
                    confirmed.append((r, x))
            else:
                unconfirmed.append((r, x))

    # ---- cross-validation: the symbolic result of a path against the real code on that path's model
    rng = random.Random(seed)
    limit = int(os.environ.get('VERIF_XVAL', '0')) or (400 if tier == 'quick' else 4000)
    sample = done if len(done) <= limit else rng.sample(done, limit)
    # every case is represented
    have = {r['case'] for r in sample}
    sample = sample + [r for r in first_per_case(done) if r['case'] not in have]
    mismatches, agreed = [], 0
    if sample and not confirmed:
        res = replay(prop, tier, [dict(case=r['case'], inputs=r['inputs']) for r in sample], jobs_n)
        for r, x in zip(sample, res):
            if x['outcome'] == 'done' and x['obs'] == json.loads(json.dumps(r['obs'])):
                agreed += 1
            elif x['outcome'] in ('violation', 'exception'):
                confirmed.append((r, x))
            else:
                mismatches.append((r, x))

    # ---- vacuity: each case reaches its assertions
    vacuous = []
    if not (confirmed or unconfirmed or timeout):
        for c in cases:
            if not any(r['case'] == c.name and r['nchecks'] for r in done):
                vacuous.append('%s: no path reaches an assertion' % c.name)
            for lab in c.labels:
                if lab not in labels.get(c.name, ()):
                    vacuous.append('%s: %s not reached' % (c.name, lab))

    undecided = []
    for r, x in unconfirmed:
        undecided.append('counterexample not reproduced by the real code: %s %s\n  symbolic: %s %s\n  real: %s' % (
            r['case'], json.dumps(pretty(r)['inputs']), r.get('detail'), r.get('obs'), x))
    for r in engine:
        undecided.append('path left by the engine: %s %s: %s' % (r['case'], r.get('inputs'), r['detail'][-1500:]))
    for r, x in mismatches:
        undecided.append('engine and real code differ: %s %s\n  symbolic: %s\n  real:     %s' % (
            r['case'], json.dumps(pretty(r)['inputs']), json.dumps(r.get('obs')), json.dumps(x)))
    undecided += ['vacuous: ' + v for v in vacuous]
    if timeout:
        undecided.append('exploration not finished within %d s' % budget)
    elif core.shared.get(core.STOP) and not confirmed:
        undecided.append('exploration stopped early')
    if any('died' in k or 'unknown' in k for k in incomplete):
        undecided.append('incomplete: %s' % incomplete)
    files = sorted(instr.instrumented_files)
    wall = time.time() - t0
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': len(recs), 'transitions': st.get('forks', 0),
            'traces_validated_against_impl': agreed,
            'samples': [pretty(r) for r in (rng.sample(done, min(6, len(done))))],
            'meaning': 'states = symbolic paths explored to their end; transitions = branches where the solver '
                       'found both outcomes satisfiable; traces = path models re-run on the real code with '
                       'identical observations',
            'cases': len(cases), 'bounds': [c.name + ': ' + c.bounds for c in cases][:60],
            'paths_completed': len(done), 'paths_cut_by_assumption': sum(r['outcome'] == 'end' for r in recs),
            'assertions_decided': ncheck,
            'solver_queries': st.get('queries', 0), 'solver_sat': st.get('sat', 0),
            'solver_unsat': st.get('unsat', 0), 'solver_unknown': st.get('unknown', 0),
            'solver_seconds': round(st.get('qtime', 0), 2),
            'branches_settled_by_propagation': st.get('propagated', 0),
            'values_enumerated': st.get('concretised', 0),
            'outside_bounds': sorted(incomplete)[:20],
            'functions_encoded': sorted(seen), 'instrumented_files': [f for f in files if f.startswith(REPO)],
            'exhaustive': not incomplete and not undecided,
            'undecided': [u[:300] for u in undecided[:20]],
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', ())) + harness.common.ASSUMPTIONS,
        'wall_s': round(wall, 1), 'violations': len(confirmed),
    }
    evdir = os.path.join(HERE, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: %d cases, %d paths (%d cut), %d assertions, %d queries (%.1fs solver), %d/%d traces agree, %.1fs'
          % (prop, tier, len(cases), len(recs), ev['coverage']['paths_cut_by_assumption'], ncheck,
             st.get('queries', 0), st.get('qtime', 0), agreed, len(sample), wall))
    if incomplete:
        print('outside the claim:', json.dumps(incomplete)[:600])
    for k, (r, x) in known_hits.items():
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, k, known[k]))
    if confirmed:
        r, x = confirmed[0]
        path = os.path.join(evdir, prop + '.counterexample.json')
        with open(path, 'w') as f:
            json.dump({'property': prop, 'tier': tier, 'case': r['case'], 'inputs': r.get('inputs', {}),
                       'symbolic': r.get('detail'), 'real': x.get('detail'), 'hashseed': x.get('hashseed', 0),
                       'rerun': 'cd /verif && python3-vt check.py --replay %s' % path}, f, indent=1)
        for r, x in confirmed[:4]:
            print('counterexample in case %s: %s' % (r['case'], json.dumps(pretty(r)['inputs'])))
            print('  real code: %s' % (x.get('detail') or '').strip()[-700:])
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    for line in undecided[:12]:
        print('UNDECIDED ' + line)
    if len(undecided) > 12:
        print('UNDECIDED and %d more' % (len(undecided) - 12))
    if not ncheck:
        print('NO ANSWER: no assertion was reached')
        return 2
    return 2 if undecided and os.environ.get('VERIF_STRICT') else 0


def rerun(path):
    """Run a recorded counterexample on the real code."""
    d = json.load(open(path))
    x = replay(d['property'], d['tier'], [dict(case=d['case'], inputs=d['inputs'])], 1, d.get('hashseed', 0))[0]
    print('inputs:', json.dumps(pretty(d)['inputs']))
    print(x['outcome'], x.get('detail') or '')
    return 1 if x['outcome'] in FAIL else 0


def first_per_case(recs):
    seen = {}
    for r in recs:
        seen.setdefault(r['case'], r)
    return list(seen.values())


def pretty(r):
    from symx.api import dec
    return {'case': r['case'], 'inputs': {k: dec(v) for k, v in r.get('inputs', {}).items()}}


def load_known(prop):
    out = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known: property=%s ' % prop):
                rest = line.split(' ', 2)[2]
                kid, _, text = rest.partition(' ')
                out[kid] = text
    return out


def watch(core, instr):
    """Record which functions of the code under test run once symbolic values exist."""
    mon = sys.monitoring
    mon.use_tool_id(3, 'symx')
    files = instr.instrumented_files

    def start(code, off):
        if code.co_filename in files and not code.co_filename.startswith(HERE):
            if core.ctx.active:
                if code.co_name[0] != '<':
                    core.ctx.codes.add(short(code))
                return mon.DISABLE
            return None
        return mon.DISABLE
    mon.register_callback(3, mon.events.PY_START, start)
    mon.set_events(3, mon.events.PY_START)
    return None


def short(code):
    f = code.co_filename
    if '/nessaid_cli/' in f:
        f = 'nessaid_cli/' + f.split('/nessaid_cli/')[-1]
    else:
        f = '/'.join(f.split('/')[-2:])
    return f + ':' + code.co_qualname


if __name__ == '__main__':
    sys.exit(main())
