"""Entry point: python -m mc.run <property> [quick|thorough]"""
import importlib
import json
import os
import sys
import tempfile
import time


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    scratch = tempfile.TemporaryDirectory(prefix='vp.')
    os.environ['VP_SCRATCH'] = scratch.name
    os.environ.setdefault('MPLCONFIGDIR', scratch.name + '/mpl')
    os.environ['NUMBA_CACHE_DIR'] = scratch.name + '/numba'
    from mc import core
    t0 = time.time()
    mod = importlib.import_module('mc.checks.' + prop.lower())
    repo = core.REPO
    import pipedream_solver.nutils as _pn
    if not os.path.realpath(_pn.__file__).startswith(repo + os.sep):
        print('error: pipedream_solver not imported from', repo)
        return 2
    rep = mod.run(tier, seed)
    wall = time.time() - t0
    known = {}
    kf = os.path.join(core.HERE, 'known_findings.json')
    if os.path.exists(kf):
        known = json.load(open(kf))
    # a known finding suppresses exactly the violations carrying its signature
    listed = [f for f in known.get('findings', []) if f['property'] == prop]
    sigs = {f['signature']: f for f in listed}
    fresh, seen = [], set()
    for v in rep.violations:
        s = v.get('signature')
        if s is not None and s in sigs:
            seen.add(s)
        else:
            fresh.append(v)
    for s in sorted(seen):
        print('KNOWN-FINDING: property=%s %s' % (prop, sigs[s]['what']))
    cov = dict(mod.coverage(rep)) if hasattr(mod, 'coverage') else {}
    level = mod.LEVEL
    cov.setdefault('exhaustive', True)
    cov.setdefault('samples', core.jsonable(rep.samples))
    if level == 'model_checking':
        cov.update(states=len(rep.states), transitions=rep.transitions,
                   traces_validated_against_impl=rep.traces)
    else:
        cov.update(evaluations=rep.evaluations, distinct_nontrivial=rep.nontrivial)
        cov.setdefault('rule', getattr(mod, 'RULE', ''))
    cov.update(core.jsonable({'n_' + k: v for k, v in rep.counts.items()}))
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=getattr(mod, 'ASSUMPTIONS', []), wall_s=round(wall, 2), violations=len(fresh))
    os.makedirs(os.path.join(core.HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(core.HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: states=%d transitions=%d traces=%d evaluations=%d nontrivial=%d %s wall=%.1fs'
          % (prop, tier, len(rep.states), rep.transitions, rep.traces, rep.evaluations, rep.nontrivial,
             rep.counts, wall))
    if rep.notes:
        for n in rep.notes[:3]:
            print(n)
        if not fresh:
            return 2
    # vacuity guard: each check states the least amount of non-trivial work it must have done
    for k, least in getattr(mod, 'FLOOR', {}).get(tier, {}).items():
        if rep.counts.get(k, 0) < least and not fresh:
            print('error: vacuous run, %s=%d < %d' % (k, rep.counts.get(k, 0), least))
            return 2
    if fresh:
        d = os.path.join(core.HERE, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, prop + '.json')
        with open(path, 'w') as f:
            json.dump(core.jsonable(fresh), f, indent=1)
        for v in fresh[:5]:
            print('  ', v['what'], '|', str(v['case'])[:600])
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    return 0


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
