import csv
import shutil
import tempfile
from .lib import *


def run(C):
    at = lib()
    import atomtoolkit.IO as IO
    Q_ = at.Q_
    r = C.rng
    top = tempfile.mkdtemp(prefix='verif-c17-')
    cwd = os.getcwd()
    os.chdir(top)
    try:
        for n_ in range(C.n(150, 2500)):
            I = half(r, 0, 6)
            n = r.randint(0, 6)
            lvs = rand_levels(r, n, I, alias=True)
            with C.case('roundtrip', (str(I), lvs)):
                a, b = mk_atom(at, lvs, I), mk_atom(at, [LV(l.name, l.conf, l.term, l.J, l.E * 1.01, 5e6, 7e5, 3e4, l.g, l.alias) for l in lvs], I)
                vals = {}
                un = {'MHz': 1e6, 'GHz': 1e9, 'kHz': 1e3, 'Hz': 1.0}
                for l in lvs:
                    q = []
                    for c in 'ABC':
                        v, u = r.choice([0.0, r.uniform(-3, 3), r.uniform(-3, 3), 1e-7, 12345.678901234]), r.choice(list(un))
                        setattr(a.levels[l.name], 'hf' + c, Q_(v, u))
                        q.append(v * un[u])
                    vals[l.name] = q
                extra = None
                if r.random() < .4:
                    extra = LV('9z', '9z', '2S', Fr(1, 2), 7.7e14, 1e6, 2e5, 3e4)
                    b.add_level(mk_level(at, extra))
                    extra.name = list(b.levels.keys())[-1]
                fn = r.choice(['hf.csv', 'a.b.csv', 'table', None])
                path = fn if fn is not None else f'{a.name}_Hyperfine.csv'
                dA = r.choice([None, Q_(r.uniform(-2, 2), 'GHz'), Q_(3.0, 'MHz')])
                blank = r.random() < .2
                inp = (lvs, vals, fn, str(dA), blank)
                if os.path.exists(path):
                    os.remove(path)
                kw = {} if dA is None else {'def_A': dA}
                if blank:
                    kw['blank'] = True
                before = [(l.hfA_Hz, l.hfB_Hz, l.hfC_Hz, l.level_Hz) for l in a.levels.values()]
                IO.generate_hf_csv(a, fn, **kw) if r.random() < .5 else IO.generate_hf_csv(a, filename=fn, **kw)
                C.eq('atom-unchanged', [(l.hfA_Hz, l.hfB_Hz, l.hfC_Hz, l.level_Hz) for l in a.levels.values()], before, inp)
                with open(path, newline='', encoding='utf-8') as f:
                    rows = list(csv.reader(f))
                C.eq('one-row-per-level', sorted(x[0] for x in rows), sorted(l.name for l in lvs), inp)
                if r.random() < .3:
                    rows.insert(r.randint(0, len(rows)), ['unknown level', '1.0 gigahertz', '2.0 gigahertz', '3.0 gigahertz'])
                    with open(path, 'w', newline='', encoding='utf-8') as f:
                        csv.writer(f).writerows(rows)
                other = {k: (l.level_Hz, l.lande, l.alias) for k, l in zip(b.levels.keys(), b.levels.values())}
                IO.apply_hf_csv(b, path)
                for l in lvs:
                    x = b.levels[l.name]
                    e = list(vals[l.name])
                    if e[0] == 0:
                        e[0] = 0.0 if dA is None else dA.to('Hz').magnitude
                    if blank:
                        e = [0.0] * 3
                    for nm, g, w in zip('ABC', (x.hfA_Hz, x.hfB_Hz, x.hfC_Hz), e):
                        C.close('same-' + nm, g, w, (inp, l.name), rel=1e-12, abs_=1e-9)
                C.eq('nothing-else', {k: (l.level_Hz, l.lande, l.alias) for k, l in zip(b.levels.keys(), b.levels.values())}, other, inp)
                if extra is not None:
                    x = b.levels[extra.name]
                    C.eq('unnamed-levels-kept', (x.hfA_Hz, x.hfB_Hz, x.hfC_Hz), (1e6, 2e5, 3e4), inp)
    finally:
        os.chdir(cwd)
        shutil.rmtree(top, ignore_errors=True)
