#!/opt/venv/bin/python
"""check.py ID [--tier quick|thorough] [--only CONTRACT]
   check.py --replay FILE

Decides one property of /repo's current working tree.  Exit 0: every
obligation is discharged, or (after a change the prover cannot follow) the
bounded stand-in found nothing; exit 1 + VIOLATION line: the contract is
broken; exit 2: the machinery itself failed.
"""
import argparse
import concurrent.futures as cf
import json
import os
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
WORKER = os.path.join(ROOT, 'vlib', 'worker.py')
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
           OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', LANG='C.UTF-8',
           LC_ALL='C.UTF-8')
ENV.pop('PYTHONPATH', None)


class MachineryError(Exception):
    pass


def call(args, stdin='', timeout=600):
    try:
        p = subprocess.run([PY, WORKER] + args, input=stdin, text=True,
                           capture_output=True, timeout=timeout, env=ENV,
                           cwd=ROOT)
    except subprocess.TimeoutExpired:
        return None, 'timeout after %ds' % timeout
    if p.returncode != 0:
        return None, 'exit %d: %s' % (p.returncode, p.stderr[-3000:])
    try:
        return json.loads(p.stdout), p.stderr
    except ValueError:
        return None, 'no result: %s' % p.stderr[-3000:]


def run_contract(path, c, tier, seed, left):
    name, opts = c['name'], c['opts']
    res = {'name': name, 'bounded': bool(opts.get('bounded')),
           'finite': opts.get('finite'), 'prove': None,
           'concrete': None, 'error': None}
    models, refuted = [], []
    if not res['bounded']:
        lim = opts.get('prove_s', 150 if tier == 'quick' else 500)
        r, err = call(['prove', path, name, tier],
                      timeout=min(lim * 1.5 + 60, max(left(), 20)))
        if r is None:
            # the prover itself died (for instance the changed code cannot be
            # loaded by it): undecided, the bounded stand-in decides
            r = {'obligations': [], 'paths': 0, 'complete_paths': 0,
                 'unsupported': 'prover: ' + err, 'models': [],
                 'backends': {}, 'solver_s': 0, 'assumed': [],
                 'functions': [], 'wall': 0}
        res['prove'] = r
        models = r['models']
        for o in r['obligations']:
            if o['status'] == 'refuted' and o.get('model'):
                refuted.append(o['model'])
    undecided = (not res['bounded']) and (
        res['prove']['unsupported'] or any(
            o['status'] != 'discharged' for o in res['prove']['obligations']))
    job = {'models': models, 'refuted': refuted[:50], 'deep': bool(undecided)}
    r, err = call(['concrete', path, name, tier, str(seed)],
                  json.dumps(job), timeout=max(left(), 30))
    if r is None:
        res['error'] = err
    res['concrete'] = r
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--replay')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    budget = 780 if tier == 'quick' else 5400
    left = lambda: budget - (time.time() - t0)
    path = os.path.join(ROOT, 'contracts', a.id + '.py')
    lst, err = call(['list', path, '-', tier])
    if lst is None:
        # /repo does not even import
        print('ERROR property=%s cannot load the code or the contracts: %s'
              % (a.id, err), file=sys.stderr)
        return 2
    contracts = lst['contracts']
    if a.only:
        contracts = [c for c in contracts if c['name'] == a.only]
    contracts.sort(key=lambda c: -c['opts'].get('prove_s', 60))
    with cf.ThreadPoolExecutor(int(os.environ.get('VERIF_JOBS', '8'))) as tp:
        futs = [tp.submit(run_contract, path, c, tier, seed, left)
                for c in contracts]
        results = [f.result() for f in futs]
    results.sort(key=lambda r: r['name'])
    return report(a, tier, seed, t0, lst, results)


def report(a, tier, seed, t0, lst, results):
    ev = {'property': a.id, 'tier': tier, 'seed': seed, 'violations': 0}
    nob = ndis = 0
    funcs, assumed, backends = set(), set(lst['assumptions']), {}
    per, bounded, undecided, viol = [], [], [], []
    solver = 0.0
    bruns = bdist = 0
    fatal = []
    for r in results:
        c = r['concrete']
        if c is None:
            fatal.append('%s: %s' % (r['name'], r['error']))
            continue
        bruns += c['runs']
        bdist += c['distinct']
        if r['bounded']:
            bounded.append({'contract': r['name'], 'executions': c['runs'],
                            'distinct_inputs': c['distinct'],
                            'functions': c['functions']})
            if c['runs'] == 0:
                fatal.append('%s: no execution satisfied its precondition'
                             % r['name'])
        else:
            p = r['prove']
            obs = p['obligations']
            d = sum(o['status'] == 'discharged' for o in obs)
            if r['finite']:
                bounded.append({
                    'contract': r['name'], 'enumerated': r['finite'],
                    'paths': p['complete_paths'], 'clauses': len(obs),
                    'clauses_holding': d, 'executions': c['runs'],
                    'distinct_inputs': c['distinct'],
                    'functions': p['functions']})
            else:
                nob += len(obs)
                ndis += d
            solver += p['solver_s']
            if not r['finite']:
                funcs.update(p['functions'])
            assumed.update(p['assumed'])
            for k, v in p['backends'].items():
                backends[k] = backends.get(k, 0) + v
            item = {'contract': r['name'], 'paths': p['complete_paths'],
                    'obligations': len(obs), 'discharged': d,
                    'solver_s': p['solver_s'], 'wall_s': p['wall'],
                    'concrete_runs': c['runs'],
                    'path_models_replayed': c['model_runs']}
            if p['unsupported']:
                item['undecided'] = p['unsupported']
                undecided.append('%s: %s' % (r['name'], p['unsupported']))
            un = [o['name'] for o in obs if o['status'] == 'unknown']
            if un:
                item['unknown'] = un[:20]
                undecided.append('%s: %d obligations unknown'
                                 % (r['name'], len(un)))
            if not obs and not p['unsupported']:
                fatal.append('%s: vacuous, no obligation' % r['name'])
            elif not p['unsupported'] and p['complete_paths'] == 0 \
                    and d == len(obs):
                fatal.append('%s: vacuous, no path completes' % r['name'])
            elif not p['unsupported'] and d == len(obs) \
                    and not p['models'] and c['runs'] == 0:
                fatal.append('%s: vacuous, precondition unsatisfied'
                             % r['name'])
            if not r['finite']:
                per.append(item)
            ref = [o for o in obs if o['status'] == 'refuted']
            if c['violation']:
                viol.append((r, ref, True))
            elif ref:
                # replay decided?  A counter-model whose inputs satisfy the
                # contract on the real code is spurious.
                exact = [o for o in ref if not o.get('soft')]
                rep = c.get('refuted_replayed', [])
                if exact and all(x is False for x in rep) and rep:
                    undecided.append('%s: counter-models do not reproduce on '
                                     'the real code' % r['name'])
                    item['spurious'] = [o['name'] for o in ref][:20]
                else:
                    viol.append((r, ref, False))
            continue
        if c['violation']:
            viol.append((r, [], True))
    known = [f for f in lst['findings'] if f[1]]
    ev['level'] = 'proof' if nob and ndis == nob and not undecided \
        else 'exploration'
    full = nob and ndis == nob and not undecided
    ev['coverage'] = {
        'obligations': nob, 'discharged': ndis,
        'checker_cmd': '%s %s %s' % (PY, os.path.join(ROOT, 'check.py'), a.id),
        'trusted_base': [
            'vlib: path explorer, symbolic values, loop rule (cross-checked '
            'by executing one model per path on the unmodified code)',
            'z3 %s, cvc5 1.1.2' % z3v(), 'CPython 3.12 executing the code'],
        'evaluations': max(bruns, 1), 'distinct_nontrivial': bdist,
        'rule': 'random/bounded executions of the same contracts on the '
                'unmodified code; an execution counts when its precondition '
                'held, distinct by its inputs',
        'samples': [{'contract': r['name'], 'inputs': x} for r in results
                    if r['concrete'] for x in r['concrete']['samples'][:2]]
        or ['none'],
        'functions_under_contract': sorted(funcs),
        'backends': backends, 'solver_s': round(solver, 2),
        'contracts': per, 'bounded_stand_ins': bounded,
        'undecided': undecided,
    }
    ev['assumptions'] = sorted(assumed) + [
        'floats are mathematical reals (rounding, overflow, NaN, inf are '
        'outside the proof); float constants are the simplest rational they '
        'round to',
        'only the listed bounded_stand_ins are checked by bounded execution']
    ev['wall_s'] = round(time.time() - t0, 2)
    lines = []
    rdir = os.path.join(ROOT, 'evidence', 'replays')
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(a.id + '-'):
            os.unlink(os.path.join(rdir, f))
    for r, ref, conc in viol:
        f = os.path.join(rdir, '%s-%s.json' % (a.id, r['name']))
        rep = {'property': a.id, 'contract': r['name'],
               'failing_input': r['concrete']['violation'],
               'failed_obligations': ref[:20],
               'how': '%s %s --replay %s' % (
                   PY, os.path.join(ROOT, 'check.py'), f)}
        with open(f, 'w') as fp:
            json.dump(rep, fp, indent=1, default=repr)
        what = (r['concrete']['violation'] or {}).get('label') or \
            (ref and ref[0]['name'])
        print('  %s: %s' % (r['name'], what))
        print('VIOLATION property=%s replay=%s%s' % (
            a.id, f, '' if conc else ' no-failing-input-found'))
    ev['violations'] = len(viol)
    for f in known:
        print('KNOWN-FINDING: property=%s %s' % (a.id, ' '.join(f[2].split())))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', a.id + '.json'), 'w') as fp:
        json.dump(ev, fp, indent=1)
    print('%s %s: %d/%d obligations discharged, %d contracts (%d bounded), '
          '%d executions, solver %.1fs, wall %.1fs%s' % (
              a.id, tier, ndis, nob, len(results), len(bounded), bruns,
              solver, ev['wall_s'],
              '' if full else ' [undecided: %s]' % '; '.join(undecided)[:600]))
    if a.v:
        for i in per:
            print('   ', i)
    if viol:
        return 1
    if fatal:
        print('ERROR ' + '; '.join(fatal)[:3000], file=sys.stderr)
        return 2
    return 0


def z3v():
    return '5.3'


def replay(path):
    with open(path) as f:
        d = json.load(f)
    v = d.get('failing_input')
    if not v:
        print('no failing input recorded; failed obligations:')
        for o in d['failed_obligations']:
            print('  ', o['name'], o.get('model'))
        return 1
    r, err = call(['concrete', os.path.join(ROOT, 'contracts',
                                            d['property'] + '.py'),
                   d['contract'], 'quick', '1'],
                  json.dumps({'refuted': [v['inputs']], 'models': []}))
    print(json.dumps(r and r['violation'], indent=1) if r else err)
    return 1 if r and r['violation'] else 0


if __name__ == '__main__':
    sys.exit(main())
