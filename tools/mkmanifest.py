"""Regenerates MANIFEST.json from the checks present in mc/checks and the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HIST = 'exhaustive bounded exploration of action sequences on the real solver (snapshot DFS), '
T = {
 'P01': (HIST + 'superjunction balance residual as oracle', 'all sequences to the depth bound over the network catalogue; residual computed from tables and public state'),
 'P02': (HIST + 'continuity residual as oracle', 'all sequences to the depth bound over the network catalogue'),
 'P03': (HIST + 'momentum residual as oracle', 'all sequences to the depth bound over the network catalogue'),
 'P04': (HIST + 'end relation residual as oracle', 'all sequences to the depth bound over the network catalogue'),
 'P05': (HIST + 'prescribed heads compared after every step, over all boundary subsets', 'every subset of boundaries of each network times all sequences to the depth bound'),
 'P06': (HIST + 'finiteness and range invariant in every reached state', 'all sequences to the depth bound over networks, shapes and structures'),
 'P07': ('exhaustive enumeration of level-pool states and step sequences on the real solver, fixed-point oracle', 'all networks, levels, end methods and step-size sequences within the bounds'),
 'P08': ('exhaustive exploration of action/save/load sequences on the real solver, differential oracle against a model that never took the detour', 'all detours to the depth bound'),
 'P09': (HIST + 'lock-step differential exploration over all solver options and numberings', 'every permutation/solver option times all sequences to the depth bound'),
 'P10': (HIST + 'lock-step differential exploration over all table orders, labels and directions', 'all row orders of small networks times all sequences to the depth bound'),
}
NA = {}
try:
    from mkmanifest_table import T as T2, NA as NA2
    T.update(T2); NA.update(NA2)
except ImportError:
    pass
props = [json.loads(l) for l in open(HERE + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in T and os.path.exists(HERE + '/mc/checks/%s.py' % i.lower()):
        src = open(HERE + '/mc/checks/%s.py' % i.lower()).read()
        level = 'model_checking' if "LEVEL = 'model_checking'" in src else 'exploration'
        checks.append(dict(property=i, quick_cmd='./run.sh %s quick' % i, thorough_cmd='./run.sh %s thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique=T[i][0], level=level, level_note=T[i][1]))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no check built yet')))
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
         notes='Checks import the code from /repo and interpret it (NUMBA_DISABLE_JIT=1) except P32, which compiles it; nothing is built beforehand. No hooks in /repo.')
json.dump(m, open(HERE + '/MANIFEST.json', 'w'), indent=1)
open(HERE + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks', len(na), 'not claimed')
