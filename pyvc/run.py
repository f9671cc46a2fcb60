"""python -m pyvc.run PROP OUT.json SHARD NSHARDS BUDGET : generate and discharge the obligations of one property"""
import importlib
import json
import os
import sys
import time
import traceback

sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.setrecursionlimit(5000)


def main():
    prop, out, shard, n, budget = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), float(sys.argv[5])
    t = time.time()
    d = {'obligations': [], 'functions': [], 'runs': [], 'error': None, 'stats': {}, 'modelled': []}
    S = None
    try:
        from pyvc import harness, models
        S = harness.Prover(prop, timeout=8000 if budget < 400 else 30000, budget=budget)
        S.shard = (shard, n)
        m = importlib.import_module('props.' + prop)
        d['assumes'] = getattr(m, 'ASSUMES', [])
        m.prove(S)
        d['contracts'] = [{'function': k, 'calls': n, 'proved_in': harness.contracts.TABLE[k][1], 'contract': harness.contracts.TABLE[k][2]}
                          for k, n in sorted(harness.contracts.USED.items())]
        d['modelled'] = sorted(map(str, getattr(models, 'MODELLED', [])))
    except BaseException:
        d['error'] = traceback.format_exc()[-4000:]
    if S is not None:
        d['runs'] = S.run_names
        d['functions'] = sorted(S.functions)
        d['stats'] = {k: v for k, v in harness.ENG.stats.items() if isinstance(v, (int, float))}
        for o in S.obs.values():
            d['obligations'].append({'name': o.name, 'status': o.status, 'vcs': o.vcs, 'backends': sorted(o.backends), 'time': round(o.time, 3),
                                     'detail': str(o.detail)[:1500], 'model': o.model if isinstance(o.model, dict) else (str(o.model)[:2000] if o.model else None)})
    d['wall_s'] = time.time() - t
    with open(out + '.tmp', 'w') as f:
        json.dump(d, f, indent=1, default=str)
    os.replace(out + '.tmp', out)


main()
