#!/usr/bin/env python3
"""check.py PROP [--tier quick|thorough]

1. proof:    the obligations of props/PROP.py are generated from /repo's current source (pyvc) and discharged, in parallel shards
2. concrete: conc/PROP.py evaluates the same contracts on concrete inputs of the unmodified code (replay / bounded stand-in)
Exit 1 with a VIOLATION line iff a contract fails on a concrete input, or the verifier refutes an obligation.  Undischarged
obligations (unsupported construct, unknown, time) are reported in the evidence file and are no alarm.
"""
import argparse
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
REPO = os.environ.get('VERIF_REPO', '/repo')


def env():
    e = {k: v for k, v in os.environ.items() if k != 'PYTHONPATH'}
    e.update(HOME=os.environ.get('HOME', '/root'), PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', PYTHONPATH=HERE, VERIF_REPO=REPO,
             OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONHASHSEED='0')
    if os.path.isdir('/opt/vp/mplconfig'):
        e['MPLCONFIGDIR'] = '/opt/vp/mplconfig'
    return e


def spawn(args, log):
    return subprocess.Popen([PY, '-m'] + args, cwd=HERE, env=env(), stdout=log, stderr=subprocess.STDOUT, start_new_session=True)


def wait(ps, deadline):
    for p in ps:
        try:
            p.wait(max(0.1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
            p.wait()


def load(f):
    try:
        with open(f) as h:
            return json.load(h)
    except (OSError, ValueError):
        return None


def known(prop):
    out = []
    try:
        with open(os.path.join(HERE, 'known_findings.txt')) as f:
            for line in f:
                m = re.match(rf'finding: property={prop} obligation=(\S+) input=(.*)$', line)
                if m:
                    out.append((m.group(1), m.group(2).strip()))
    except OSError:
        pass
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', choices=['quick', 'thorough'], default=os.environ.get('VERIF_TIER') or 'quick')
    a = ap.parse_args()
    prop, tier = a.prop, a.tier
    seed = int(os.environ.get('VERIF_SEED') or 1)
    t0 = time.time()
    thorough = tier == 'thorough'
    budget = 500 if thorough else 240
    hard = t0 + (620 if thorough else 330)
    tmp = tempfile.mkdtemp(prefix=f'vc-{prop}-')
    log = open(os.path.join(tmp, 'log'), 'w')
    has_proof = os.path.exists(os.path.join(HERE, 'props', prop + '.py'))
    nsh = 6 if has_proof else 0
    ps = [spawn(['pyvc.run', prop, f'{tmp}/p{i}.json', str(i), str(nsh), str(budget)], log) for i in range(nsh)]
    cs = [spawn(['conc.run', prop, tier, str(seed), f'{tmp}/c0.json'], log)]
    wait(ps + cs, hard)
    shards = [load(f'{tmp}/p{i}.json') for i in range(nsh)]
    conc = [load(f'{tmp}/c0.json')]

    obs, functions, errors, modelled, runs = {}, set(), [], set(), []
    rank = {'proved': 0, 'unknown': 1, 'unsupported': 2, 'refuted': 3}
    for i, s in enumerate(shards):
        if s is None:
            errors.append(f'shard {i}: no result (time or memory)')
            continue
        if s['error']:
            errors.append(f'shard {i}: ' + s['error'])
        functions |= set(s['functions'])
        modelled |= set(s['modelled'])
        runs += s['runs']
        for o in s['obligations']:
            p = obs.get(o['name'])
            if p is None:
                obs[o['name']] = o
            else:
                p['vcs'] += o['vcs']
                p['time'] += o['time']
                p['backends'] = sorted(set(p['backends']) | set(o['backends']))
                if rank[o['status']] > rank[p['status']]:
                    p.update(status=o['status'], detail=o['detail'], model=o['model'])
    for o in obs.values():
        if o['status'] == 'refuted' and o['name'].startswith('contract:'):
            # a function no longer meets the contract this proof relies on: the property that owns the contract reports it;
            # here the proof is void, which by itself does not mean that this property is violated
            o['status'] = 'unknown'
            o['detail'] = 'contract not met: ' + str(o['detail'])
    refuted = [o for o in obs.values() if o['status'] == 'refuted']
    contracts = {c['function']: c for s in shards if s for c in s.get('contracts', [])}
    if any(o['name'].startswith('contract:') and o['status'] != 'proved' for o in obs.values()):
        for o in obs.values():
            if o['status'] == 'proved' and not o['name'].startswith('contract:'):
                o['status'], o['detail'] = 'unknown', 'relative to a contract that is not discharged'

    fails = list(conc[0]['fails']) if conc[0] else []
    man = load(os.path.join(HERE, 'MANIFEST.json')) or {'checks': []}
    level = next((c['level'] for c in man['checks'] if c['property'] == prop), 'exploration')
    # an obligation that used to be discharged and no longer is: the bounded stand-in decides, and looks harder
    lost = level == 'proof' and any(o['status'] != 'proved' for o in obs.values())
    if (refuted or lost) and not fails:
        # replay: look for a failing input of the unmodified code, deeper and guided by the counter-models
        with open(f'{tmp}/hints.json', 'w') as f:
            json.dump([o['model'] for o in obs.values() if o['status'] != 'proved' and o['model']], f)
        end = min(t0 + 800, time.time() + 200)
        rs = [spawn(['conc.run', prop, 'quick' if i < 5 else 'thorough', str(seed + 101 + i), f'{tmp}/r{i}.json', f'{tmp}/hints.json'], log) for i in range(7)]
        wait(rs, end)
        for i in range(7):
            c = load(f'{tmp}/r{i}.json')
            if c:
                conc.append(c)
                fails += c['fails']
    conc = [c for c in conc if c]
    kn = known(prop)
    reported, violations = set(), []
    for f in fails:
        k = next((k for k in kn if k[0] == f['obligation'] and k[1] in f['input']), None)
        if k is not None:
            if k not in reported:
                print(f'KNOWN-FINDING: property={prop} {k[0]} {k[1]}')
                reported.add(k)
        else:
            violations.append(f)

    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    replay = os.path.join(HERE, 'evidence', f'{prop}.replay.json')
    n, done = len(obs), sum(o['status'] == 'proved' for o in obs.values())
    backends = {}
    for o in obs.values():
        if o['status'] == 'proved':
            for b in o['backends']:
                backends[b] = backends.get(b, 0) + 1
    evals = sum(c['evaluations'] for c in conc)
    distinct = conc[0]['distinct'] if conc else 0
    undis = [o for o in obs.values() if o['status'] in ('unknown', 'unsupported')]
    for c in conc:
        if c.get('error'):
            errors.append('concrete: ' + c['error'])
    cov = {
        'obligations': n, 'discharged': done,
        'checker_cmd': f'python3 check.py {prop} --tier {tier}',
        'trusted_base': TRUSTED + sorted(modelled),
        'functions_under_contract': sorted(functions),
        'contracts_used_at_call_sites': [{k: c[k] for k in ('function', 'proved_in', 'contract')} for c in contracts.values()],
        'obligation_list': [{k: o[k] for k in ('name', 'status', 'vcs', 'backends', 'time')} for o in obs.values()],
        'undischarged': [{'name': o['name'], 'status': o['status'], 'detail': o['detail'][:400]} for o in undis],
        'discharged_by_backend': backends,
        'solver_time_s': round(sum(o['time'] for o in obs.values()), 2),
        'verification_conditions': sum(o['vcs'] for o in obs.values()),
        'bounded_part': 'the contracts evaluated on concrete inputs of the unmodified code (bounded, not counted as proved)',
        'evaluations': evals, 'distinct_nontrivial': distinct,
        'rule': 'conc/%s.py: seeded random and small-domain-exhaustive inputs (levels, spins, atoms, histories); a case counts once per distinct '
                '(obligation, input) pair whose contract was evaluated on the real code' % prop,
        'samples': (conc[0]['samples'] if conc else []) or ['none'],
        'explanation': f'{done} of {n} obligations discharged for all inputs; contracts also evaluated on {distinct} distinct concrete cases',
        'tool_errors': [e[-600:] for e in errors],
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': ASSUME + sorted({a for s in shards if s for a in s.get('assumes', [])}),
          'wall_s': round(time.time() - t0, 2), 'violations': len(violations) + (1 if refuted and not violations else 0)}
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)

    print(f'{prop} [{tier}]: obligations {done}/{n} discharged, {len(refuted)} refuted, {len(undis)} undischarged; '
          f'{evals} concrete contract evaluations, {len(fails)} failures; {time.time() - t0:.1f}s')
    for o in undis:
        print(f'  undischarged ({o["status"]}): {o["name"]}: {o["detail"][:160]}')
    for e in errors:
        print('  tool: ' + e.strip().splitlines()[-1][:200])
    log.close()
    if not conc:
        sys.stdout.write(open(os.path.join(tmp, 'log')).read()[-1500:])
    shutil.rmtree(tmp, ignore_errors=True)
    if violations or refuted:
        with open(replay, 'w') as f:
            json.dump({'property': prop, 'failing_inputs': violations,
                       'failed_obligations': [{k: o[k] for k in ('name', 'detail', 'model', 'backends')} for o in refuted],
                       'replay_cmd': f'VERIF_SEED={seed} python3 check.py {prop} --tier {tier}'}, f, indent=1)
        names = sorted({f['obligation'] for f in violations} | {o['name'] for o in refuted})
        print('  failed obligations: ' + ', '.join(names)[:600])
        for f in violations[:3]:
            print(f'  {f["obligation"]}: input {f["input"][:300]} got {f["got"][:200]} expected {f["expected"][:200]}')
        for o in refuted[:3]:
            print(f'  refuted {o["name"]}: {o["detail"][:300]} model {str(o["model"])[:300]}')
        if violations:
            print(f'VIOLATION property={prop} replay={replay}')
        else:
            print(f'VIOLATION property={prop} replay={replay} no-failing-input-found')
        return 1
    if not conc and not (n and done == n):
        print('undecided: neither the verifier nor the concrete checker produced a result')
        return 2
    return 0


TRUSTED = ['CPython, the AST transformation and proxies of /verif/pyvc', 'z3 4.x / cvc5 / the rational-function normaliser of /verif/pyvc/ring.py']
ASSUME = ['float arithmetic is read as real arithmetic in the proofs',
          'the dependencies (numpy, scipy, networkx, sympy, pint, pandas, re, pickle) obey the contracts in pyvc/models.py',
          'inputs satisfy the type invariants stated in the harness (preconditions)']

if __name__ == '__main__':
    sys.exit(main())
