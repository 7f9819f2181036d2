"""check driver: front end -> proof tasks -> verdict -> evidence.  Exit code is 0 or 1, never anything else."""
import os, sys, time, json, importlib, traceback, threading
t_start = time.time()
from . import front, runner  # noqa
VERIF = front.VERIF


def known_findings(pid):
    """lines 'finding: property=A01 key=<key> <what>' of known_findings.txt"""
    out = {}
    try:
        for l in open(os.path.join(VERIF, 'known_findings.txt')):
            if l.startswith('finding:'):
                w = l.split(None, 3)
                if len(w) >= 4 and w[1] == 'property=' + pid and w[2].startswith('key='):
                    out[w[2][4:]] = w[3].strip()
    except FileNotFoundError:
        pass
    return out


def okey(o):
    """identity of an obligation that survives unrelated edits: function and obligation name"""
    return ('%s/%s' % (o['fn'].split('::')[-1] if o['fn'] else '?', o['name'])).replace(' ', '_')


def main(argv):
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    verbose = int(os.environ.get('CAPYVER_V', '0'))
    budget = 700 if tier == 'quick' else 3000
    mod = importlib.import_module('capyver.props.' + pid.lower())
    known = known_findings(pid)
    notes = []
    native = {}

    def nat():
        try:
            native['res'] = mod.replay(tier, seed)
        except Exception as e:
            native['err'] = repr(e)[:1500]
    th = None
    if hasattr(mod, 'replay'):
        th = threading.Thread(target=nat)
    results = []
    prog = None
    only = os.environ.get('CAPYVER_ONLY')
    try:
        prog = front.load()
    except Exception as e:
        notes.append('front end failed: %s' % repr(e)[:500])
    if prog is not None:
        try:
            tasks = mod.tasks(prog, tier)
            if only:
                import re
                tasks = [t for t in tasks if re.search(only, t.name)]
            results = runner.run_tasks(prog, tasks, verbose=verbose, total=budget - (time.time() - t_start) - 60, jobs=int(os.environ.get('CAPYVER_J', '8')))
        except Exception as e:
            notes.append('task generation failed: %s' % repr(e)[:500])
            if verbose:
                traceback.print_exc()
    if th is not None and not os.environ.get('CAPYVER_NOREPLAY'):
        # replay after the proofs: the native build and the harness want all cores too
        th.start()
        th.join(max(30, budget - (time.time() - t_start)))
        if 'err' in native:
            notes.append('replay harness: ' + native['err'])
    # ------------------------------------------------ verdict
    obls = [o for r in results for o in r['obls']]
    bad = [o for o in obls if o['status'] != 'discharged']
    soft = ('havoc', 'external', 'unmodelled')
    refuted = [o for o in bad if o['status'] == 'refuted' and not any(t.startswith(soft) for t in o['taint'])]
    undecided = [o for o in bad if o not in refuted]
    broken_tasks = [r for r in results if r['status'] != 'ok']
    thin = []
    for r, t in zip(results, tasks if results else []):
        if r['status'] == 'ok' and len(r['obls']) < t.expect:
            thin.append(r['task'])
    harness = native.get('res') or {'fails': [], 'evaluations': 0, 'distinct': 0, 'what': 'none', 'samples': []}
    newref, kfound = [], {}
    seen = set()
    for o in refuted:
        k = okey(o)
        if k in known:
            kfound[k] = known[k]
        elif k not in seen:
            seen.add(k)
            newref.append(o)
    newfail = []
    for f in harness['fails']:
        if f['key'] in known:
            kfound[f['key']] = known[f['key']]
        else:
            newfail.append(f)
    # a listed obligation that is discharged now, or a listed input that works now, is silently fine
    viol = 0
    rc = 0
    rdir = os.path.join(VERIF, '.build', 'replays')
    os.makedirs(rdir, exist_ok=True)
    for k, w in sorted(kfound.items()):
        print('KNOWN-FINDING: property=%s %s (%s)' % (pid, w, k))
    if newfail or newref:
        rc = 1
        viol = len(newfail) + len(newref)
        path = os.path.join(rdir, '%s-%d.json' % (pid, os.getpid()))
        json.dump({'property': pid, 'failed_obligations': newref[:40], 'undecided_obligations': undecided[:20], 'failing_inputs': newfail[:40],
                   'how_to_replay': getattr(mod, 'HOW', 'run the listed harness command'), 'verifier_output': notes}, open(path, 'w'), indent=1)
        for o in newref[:12]:
            print('failed obligation: %s in %s (line %s): %s' % (o['name'], o['fn'], o['line'], (o['detail'] or '')[:200]))
        for f in newfail[:12]:
            print('failing input: %s: %s' % (f['key'], f['what'][:300]))
        if newfail:
            print('VIOLATION property=%s replay=%s' % (pid, path))
        else:
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path))
    for r in broken_tasks:
        print('UNDECIDED task %s: %s (covered by the bounded stand-in only)' % (r['task'], r['why'][:200]))
    for o in undecided[:20]:
        print('UNDECIDED obligation: %s in %s (line %s), %s; taint %s' % (o['name'], o['fn'], o['line'], o['status'], o['taint']))
    for n in notes:
        print('note: ' + n)
    # ------------------------------------------------ evidence
    agg = {'external': {}, 'inlined': set(), 'contracts': set(), 'assumptions': set(), 'solver': 0.0, 'checks': 0, 'loops': 0}
    for r in results:
        a = r.get('agg')
        if not a:
            continue
        for k, v in a['external'].items():
            agg['external'][k] = agg['external'].get(k, 0) + v
        for k in ('inlined', 'contracts', 'assumptions'):
            agg[k] |= a[k]
        for k in ('solver', 'checks', 'loops'):
            agg[k] += a[k]
    disch = [o for o in obls if o['status'] == 'discharged']
    backends = {}
    for o in disch:
        backends[o['backend']] = backends.get(o['backend'], 0) + 1
    kinds = {}
    for o in obls:
        k = o['name']
        kinds.setdefault(k, [0, 0])
        kinds[k][0] += 1
        kinds[k][1] += o['status'] == 'discharged'
    assumptions = list(getattr(mod, 'ASSUME', [])) + sorted(agg['assumptions']) + \
        ['unmodelled external function, result and reachable arguments unconstrained: %s' % k for k in sorted(agg['external'])]
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'proof'),
        'coverage': {
            'obligations': len(obls), 'discharged': len(disch),
            'checker_cmd': './check %s %s' % (pid, tier),
            'trusted_base': ['clang 18 front end (libTooling AST) with the build\'s macros and flags', 'capyver VC generator (frontend/astdump.cpp, capyver/engine.py, execu.py)',
                             'capyver contracts for the C++ standard library (capyver/models.py)', 'z3 5.3, cvc5 1.1.2'] + list(getattr(mod, 'TRUSTED', [])),
            'functions_under_contract': [r['task'] for r in results if r['status'] == 'ok' and r['obls']],
            'functions_inlined': sorted(agg['inlined']),
            'callee_contracts_used': sorted(agg['contracts']),
            'tasks_undecided': [{'task': r['task'], 'why': r['why']} for r in broken_tasks],
            'vacuous_tasks': thin,
            'obligations_refuted': len([o for o in bad if o['status'] == 'refuted']), 'obligations_unknown': len([o for o in bad if o['status'] == 'unknown']),
            'obligations_by_name': {k: '%d/%d' % (v[1], v[0]) for k, v in sorted(kinds.items())},
            'discharged_by': backends, 'solver_seconds': round(agg['solver'], 1), 'solver_queries': agg['checks'],
            'loops_with_inferred_invariants': agg['loops'],
            'known_findings_seen': sorted(kfound),
            'bounded_stand_in': {'level': 'bounded, not counted as proved', 'what': harness.get('what'), 'evaluations': harness.get('evaluations'),
                                 'distinct': harness.get('distinct'), 'samples': harness.get('samples', [])[:5]},
        },
        'assumptions': assumptions, 'wall_s': round(time.time() - t_start, 2), 'violations': viol,
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d obligations, %d discharged, %d tasks (%d undecided), harness %s evaluations, %.1fs' % (
        pid, len(obls), len(disch), len(results), len(broken_tasks), harness.get('evaluations'), time.time() - t_start))
    sys.stdout.flush()
    os._exit(rc)


if __name__ == '__main__':
    try:
        main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        print('note: the check itself failed; nothing is decided')
        sys.stdout.flush()
        os._exit(0)
