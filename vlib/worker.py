"""One verification task in its own process.

python worker.py prove    FILE CONTRACT TIER
python worker.py concrete FILE CONTRACT TIER SEED   (models on stdin)
"""
import json
import os
import random
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.dont_write_bytecode = True
sys.setrecursionlimit(3000)
sys.set_int_max_str_digits(0)

_SEEN = {}


def track(repo):
    """Records which functions of /repo were executed."""
    mon = sys.monitoring
    tool = mon.PROFILER_ID
    mon.use_tool_id(tool, 'verif')
    pre = repo.rstrip('/') + '/svgpy/'

    def start(code, off):
        f = code.co_filename
        if f.startswith(pre) and not code.co_name.startswith('<'):
            _SEEN[f[len(repo.rstrip('/')) + 1:] + ':' + code.co_qualname] = 1
        return mon.DISABLE
    mon.register_callback(tool, mon.events.PY_START, start)
    mon.set_events(tool, mon.events.PY_START)


def load(path, name):
    import importlib.util
    from vlib import spec
    d = os.path.dirname(os.path.abspath(path))
    if d not in sys.path:
        sys.path.insert(0, d)
    sp = importlib.util.spec_from_file_location('contract_file', path)
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    return m, spec.REG[name]


def prove(path, name, tier):
    from vlib import loader
    loader.instrumented()
    import logging
    logging.disable(logging.CRITICAL)
    import svgpy            # noqa: the real package, instrumented
    from vlib.engine import Explorer, SymSource
    m, c = load(path, name)
    track(loader.REPO)
    t0 = time.time()
    limit = c.opts.get('prove_s', 150 if tier == 'quick' else 500)
    ex = Explorer(c.fn, name, tier,
                  max_paths=c.opts.get('max_paths', 5000),
                  time_limit=limit,
                  prove_ms=c.opts.get('prove_ms', 10000 if tier == 'quick'
                                      else 40000),
                  feas_ms=c.opts.get('feas_ms', 1000), opts=c.opts)
    ex.run(SymSource)
    for o in ex.obligations:
        o.pop('inputs', None)
    return {
        'obligations': ex.obligations, 'paths': ex.paths,
        'complete_paths': ex.complete_paths, 'unsupported': ex.unsupported,
        'models': ex.models, 'backends': ex.backends,
        'solver_s': round(ex.solver_s, 3), 'assumed': sorted(ex.assumed),
        'functions': sorted(_SEEN), 'wall': round(time.time() - t0, 3),
    }


def concrete(path, name, tier, seed, job):
    from vlib import loader
    loader.plain()
    import logging
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter('ignore')
    import svgpy            # noqa: the unmodified package
    assert svgpy.__file__.startswith(loader.REPO.rstrip('/') + '/'), \
        svgpy.__file__
    from vlib.concrete import run_once
    m, c = load(path, name)
    track(loader.REPO)
    t0 = time.time()
    out = {'runs': 0, 'skipped': 0, 'checks': 0, 'model_runs': 0,
           'violation': None, 'labels': [], 'distinct': 0, 'samples': []}
    labels = set()
    seen = set()

    def one(values, rng):
        kind, S, label, detail = run_once(c.fn, values, rng)
        if kind == 'skip':
            out['skipped'] += 1
            return None
        out['runs'] += 1
        out['checks'] += S.checks
        labels.update(S.labels)
        seen.add(repr(sorted(S.inputs.items()))[:2000])
        if len(out['samples']) < 3 and S.inputs and kind == 'ok':
            out['samples'].append(jsonable(S.inputs))
        if kind == 'violation':
            out['violation'] = {'label': label, 'detail': (detail or '')[-3000:],
                                'inputs': jsonable(S.inputs)}
            return True
        return False

    done = False
    out['refuted_replayed'] = []
    for mv in job.get('refuted', []):
        r = one(mv, random.Random(seed))
        out['refuted_replayed'].append(r)
        if r:
            done = True
            break
    if not done:
        for mv in job.get('models', []):
            out['model_runs'] += 1
            if one(mv, random.Random(seed)):
                done = True
                break
    if not done:
        runs = c.opts.get('runs', 400)
        secs = c.opts.get('secs', 12)
        if tier == 'thorough':
            runs, secs = runs * 20, secs * 6
        if job.get('deep'):
            runs, secs = runs * 10, secs * 4
        k = 0
        while k < runs and time.time() - t0 < secs:
            k += 1
            if one(None, random.Random('%s/%s/%d' % (seed, name, k))):
                break
    out['labels'] = sorted(labels)
    out['distinct'] = len(seen)
    out['functions'] = sorted(_SEEN)
    out['wall'] = round(time.time() - t0, 3)
    return out


def jsonable(d):
    r = {}
    for k, v in d.items():
        if isinstance(v, (bool, int, float, str, type(None))):
            r[k] = v
        else:
            r[k] = repr(v)
    return r


def main():
    mode, path, name, tier = sys.argv[1:5]
    real_stdout = os.dup(1)
    os.dup2(2, 1)
    if mode == 'prove':
        r = prove(path, name, tier)
    elif mode == 'concrete':
        r = concrete(path, name, tier, sys.argv[5], json.load(sys.stdin))
    elif mode == 'list':
        from vlib import loader
        loader.plain()
        m, _ = None, None
        import importlib.util
        from vlib import spec
        d = os.path.dirname(os.path.abspath(path))
        sys.path.insert(0, d)
        sp = importlib.util.spec_from_file_location('contract_file', path)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        r = {'contracts': [{'name': c.name,
                            'opts': {k: v for k, v in c.opts.items()
                                     if not callable(v)}}
                           for c in spec.REG.values()],
             'assumptions': getattr(m, 'ASSUMPTIONS', []),
             'findings': [f.__name__ for f in getattr(m, 'FINDINGS', [])]}
        out = []
        for f in getattr(m, 'FINDINGS', []):
            try:
                out.append([f.__name__, bool(f()), (f.__doc__ or '').strip()])
            except Exception as e:
                out.append([f.__name__, True, (f.__doc__ or '').strip()])
        r['findings'] = out
    with os.fdopen(real_stdout, 'w') as f:
        json.dump(r, f, default=repr)


if __name__ == '__main__':
    main()
