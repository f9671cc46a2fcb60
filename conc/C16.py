import shutil
import tempfile
from .lib import *


def run(C):
    at = lib()
    A, Q_ = at.atom, at.Q_
    r = C.rng
    top = tempfile.mkdtemp(prefix='verif-c16-')
    cwd = os.getcwd()
    try:
        _run(C, at, A, Q_, r, top)
    finally:
        os.chdir(cwd)
        shutil.rmtree(top, ignore_errors=True)


def snap(a):
    lv = []
    for k, l in a.levels.keys() and zip(list(a.levels.keys()), list(a.levels.values())):
        lv.append((k, l.name, l.level_Hz, l.hfA_Hz, l.hfB_Hz, l.hfC_Hz, l.lande, l.alias, l.parent is a or l.parent is None, l.atom is a,
                   [(t.conf, t.term, t.J, t.percentage) for t in l.term.terms],
                   [(h.name, h.shift_Hz, h.gF, [(z.name, z.shift_Hz, z.quadratic_zeeman) for z in h.values()]) for h in l.values()]))
    tr = []
    for k in list(a.transitions.keys()):
        t = a.transitions[k]
        tr.append((tuple(k), t.name, t.E_1.name, t.E_2.name, t.freq_Hz, None if t.set_freq is None else (float(t.set_freq.magnitude), str(t.set_freq.units)),
                   None if t.A is None else (float(t.A.magnitude), str(t.A.units)), t.alias, tuple(bool(x) for x in t.allowed_types),
                   t.E_1 is a.levels[t.E_1.name], t.E_2 is a.levels[t.E_2.name]))
    return (a.name, a.I, a.B_gauss, lv, tr, {k: v.name for k, v in a.levels.aliases.items()},
            {k: v.name for k, v in a.transitions.aliases.items()})


def _run(C, at, A, Q_, r, top):
    import pickle
    cnt = 0
    for _ in range(C.n(60, 900)):
        I = half(r, 0, 4)
        n = r.randint(1, 4)
        lvs = rand_levels(r, n, I, alias=True, maxJ2=4)
        with C.case('roundtrip', (str(I), lvs)):
            a = mk_atom(at, lvs, I, r.choice([0.0, 1.5]))
            a.name = r.choice(['Tm II', 'Ba_137', '171.Yb', 'x.y'])
            L = list(a.levels.values())
            for i in range(n):
                for j in range(i):
                    if r.random() < .5:
                        t = A.Transition(L[i], L[j], freq=None if r.random() < .6 or j > 0 else Q_(r.uniform(1, 9) * 100, 'THz'),
                                         A=None if r.random() < .4 else Q_(r.uniform(1, 50), 'MHz'), alias=r.choice([None, f'T{i}{j}']))
                        a.add_transition(t)
                        if r.random() < .4:
                            len(t)
            for l in L:
                if r.random() < .5:
                    for h in l.values():
                        for z in h.values():
                            z.quadratic_zeeman = r.uniform(-1, 1)
            cnt += 1
            d = os.path.join(top, r.choice([f'd{cnt}', f'd.{cnt}', f'run.atom.{cnt}']))
            os.makedirs(d)
            os.chdir(d)
            base = r.choice(['Yb171', 'Yb.171', 'v1.0.2', 'my.atom', 'a.b.atom', 'data.atom.bak', '.hidden', None, 'x.atomic', 'atom', 'q.Atom'])
            how = r.choice(['cwd', 'abs', 'rel']) if base is not None else 'cwd'
            if base is None:
                fn, exp = None, a.name + '.atom'
            else:
                fn = {'cwd': base, 'abs': os.path.join(d, base), 'rel': os.path.join('.', base)}[how]
                exp = base if base.endswith('.atom') else base + '.atom'
            inp = (fn, a.name, lvs)
            if r.random() < .4:
                # an earlier save (or a longer file) of the same name is replaced
                if r.random() < .5:
                    a.save(fn)
                    a.B = Q_(r.uniform(-3, 3), 'G')
                    if lvs:
                        a.levels[lvs[0].name].hfA = Q_(r.uniform(-3, 3), 'MHz')
                else:
                    with open(os.path.join(d, exp), 'wb') as f:
                        f.write(b'x' * r.choice([10, 200000]))
            s0 = snap(a)
            a.save(fn)
            C.eq('one-file', sorted(os.listdir(d)), [exp], inp)
            C.eq('unchanged', snap(a), s0, inp)
            b = A.Atom.load(os.path.join(d, exp))
            C.check('is-atom', isinstance(b, A.Atom) and b is not a, inp)
            s1 = snap(b)
            for x, y, what in zip(s0, s1, ['name', 'spin', 'field', 'levels', 'transitions', 'level-aliases', 'transition-aliases']):
                C.eq('same-' + what, y, x, inp)
            C.eq('unchanged', snap(a), s0, inp)
            if b.levels.aliases:
                k = r.choice(list(b.levels.aliases))
                C.check('alias-target', b.levels[k] is b.levels[b.levels[k].name], (inp, k))
            if lvs:
                nm = lvs[0].name
                F = frac(I + lvs[0].J)
                C.eq('sublevels', b.levels[f'{nm} F={F}'].level_Hz, a.levels[f'{nm} F={F}'].level_Hz, inp)
            os.chdir(top)
    for o in ({'a': 1}, [1, 2], 'text', None, 3.5):
        p = os.path.join(top, 'other.atom')
        with open(p, 'wb') as f:
            pickle.dump(o, f)
        C.raises('not-an-atom', IOError, lambda: A.Atom.load(p), o)
