"""C15 objective functions: weighted squared distances times penalties"""
import math
import numpy as np
from vlib import gen, mps
from vlib.core import Family

ID = 'C15'
RULE = ('random lamination parameters, targets, weightings, penalties and '
        'coefficients, for one panel, each panel of a blending strip and whole '
        'structures, completely or partly designed (None). Non-trivial: some '
        'penalty or weighting differs from zero')
REQUIRED = ['panel', 'panel_zero', 'each', 'multi', 'partly', 'common_penalty',
            'per_panel_penalty', 'no_penalty_given', 'layla', 'layla_norm1',
            'layla_table', 'layla_penalties', 'coefficients', 'refused']


def close(a, b):
    return abs(float(a) - float(b)) <= 1e-9*abs(b) + 1e-18


def vec(rng, n=12):
    return [round(float(v), 4) for v in rng.uniform(-1, 1, n)]


def weights(rng, n=12):
    w = [round(float(v), 4) for v in rng.uniform(0, 1, n)]
    return [0. if rng.random() < .3 else v for v in w]


def dist(x, t, w):
    return math.fsum(c*(a - b)**2 for a, b, c in zip(x, t, w))


def make_panel(rng, tier):
    return {'x': vec(rng), 't': vec(rng), 'w': weights(rng),
            'same': bool(rng.random() < .2), 'k': int(rng.integers(1, 13))}


def run_panel(case, mon):
    from src.BELLA.objectives import calc_obj_one_panel
    k = case['k']
    x, w = case['x'][:k], case['w'][:k]
    t = case['t'][:k] if not case['same'] else [
        b if c == 0 else a for a, b, c in zip(case['x'], case['t'], w)]
    got = calc_obj_one_panel(np.array(x), np.array(t), np.array(w))
    mon.ev('panel')
    if any(w):
        mon.sig(case)
    want = dist(x, t, w)
    mon.check(close(got, want) and got >= 0, 'panel-objective',
              lambda: '%s got %s expected %s' % (case, got, want))
    if case['same']:
        mon.ev('panel_zero')
        mon.check(got == 0, 'panel-objective-at-target', lambda: str(case))


def make_each(rng, tier):
    spec = mps.mp_spec(rng, True, lo=8, hi=40)
    n = len(set(spec['plies']))
    return {'spec': spec, 'x': [vec(rng) for _ in range(n)],
            't': [vec(rng) for _ in spec['plies']],
            'w': [weights(rng) for _ in range(n)]}


def run_each(case, mon):
    from src.BELLA.objectives import calc_obj_each_panel
    from src.BELLA.obj_function import ObjFunction
    cons = gen.bella(dict(set_of_angles=[0, 45, 90, -45], sym=True))
    mp = mps.build(case['spec'], cons, targets=case['t'])
    mp.from_mp_to_blending_strip(cons, 1000)
    got = calc_obj_each_panel(
        multipanel=mp, lampam=np.array(case['x']),
        obj_func_param=ObjFunction(cons), lampam_weightings=np.array(case['w']))
    plies = mps.strip_plies(case['spec'])
    mon.ev('each')
    mon.sig(case['x'], case['w'])
    info = lambda: '%s got %s' % (case, got)
    if not mon.check(len(got) == len(plies), 'one-objective-per-panel', info):
        return
    for i, n in enumerate(plies):
        # the strip panel stands for the first panel with its thickness
        t = case['t'][case['spec']['plies'].index(n)]
        mon.check(close(got[i], dist(case['x'][i], t, case['w'][i])),
                  'objective-of-each-panel', info)


PEN = ('diso', 'contig', '10', 'bal_ipo', 'oopo', 'weight')


def make_multi(rng, tier):
    n = int(rng.integers(1, 8))
    scale = 10.**int(gen.choice(rng, [0, 0, 0, -6, -14, 3]))
    case = {'obj': [0. if rng.random() < .05 else round(float(v), 4)*scale
                    for v in rng.uniform(0, 2, n)],
            'w': [round(float(v), 4) for v in rng.uniform(0, 2, n)],
            'coeff': {}, 'pen': {}, 'partly': bool(rng.random() < .6)}
    for k in PEN:
        r = rng.random()
        case['coeff'][k] = round(float(rng.uniform(0, 5)), 3)
        draw = [0. if rng.random() < .4 else round(float(v), 4)
                for v in rng.uniform(0, 3, n)]
        if r < .2:
            case['pen'][k] = 'default'
        elif r < .4 and case['partly']:
            case['pen'][k] = None
        elif r < .55:
            case['pen'][k] = ['common', draw[0]]
        elif r < .7 and case['partly']:
            case['pen'][k] = ['list'] + draw
        else:
            case['pen'][k] = ['array'] + draw
    if case['partly']:
        for i in range(n):
            if rng.random() < .3:
                case['obj'][i] = None
    return case


def run_multi(case, mon):
    from src.BELLA.objectives import calc_obj_multi_panel
    n = len(case['obj'])
    kw, eff = {}, {}
    for k, v in case['pen'].items():
        kw['coeff_' + k] = case['coeff'][k]
        if v == 'default':
            mon.ev('no_penalty_given')
            eff[k] = [0]*n
        elif v is None:
            kw['penalty_' + k] = None
            eff[k] = [0]*n
        elif v[0] == 'common':
            mon.ev('common_penalty')
            kw['penalty_' + k] = np.array([v[1]])
            eff[k] = [v[1]]*n
        else:
            mon.ev('per_panel_penalty')
            kw['penalty_' + k] = list(v[1:]) if v[0] == 'list' \
                else np.array(v[1:])
            eff[k] = v[1:]
    want = 0.
    for i, o in enumerate(case['obj']):
        if o is not None:
            f = case['w'][i]*o
            for k in PEN:
                f *= 1 + case['coeff'][k]*eff[k][i]
            want += f
    obj = list(case['obj']) if case['partly'] else np.array(case['obj'])
    got = calc_obj_multi_panel(
        objective=obj, actual_panel_weightings=np.array(case['w']),
        with_Nones=case['partly'], **kw)
    mon.ev('partly' if case['partly'] else 'multi')
    mon.sig(case)
    mon.check(close(np.ravel(got)[0], want) and np.size(got) == 1,
              'objective-of-structure',
              lambda: '%s got %s expected %s' % (case, got, want))


def make_layla(rng, tier):
    m = int(rng.integers(1, 5))
    return {'x': [vec(rng) for _ in range(m)], 't': vec(rng),
            'w': weights(rng), 'norm': int(rng.integers(1, 3)),
            'p': [round(float(v), 3) for v in rng.uniform(0, 2, 6)]}


def run_layla(case, mon):
    from src.LAYLA_V02.objectives import objectives, calc_obj_multi_ss
    from src.LAYLA_V02.parameters import Parameters
    from src.LAYLA_V02.targets import Targets
    cons = gen.layla(dict(sym=True))
    par = Parameters(cons, type_obj_func=case['norm'])
    tgt = Targets(20, lampam=np.array(case['t']))
    fun = lambda x: objectives(
        lampam=np.array(x), targets=tgt, lampam_weightings=np.array(case['w']),
        constraints=cons, parameters=par)

    def want(x):
        if case['norm'] == 1:
            return math.fsum(c*abs(a - b)
                             for a, b, c in zip(x, case['t'], case['w']))
        return dist(x, case['t'], case['w'])
    mon.ev('layla')
    mon.sig(case)
    if case['norm'] == 1:
        mon.ev('layla_norm1')
    one = fun(case['x'][0])
    mon.check(close(one, want(case['x'][0])), 'objective-of-laminate',
              lambda: '%s got %s' % (case, one))
    tab = fun(case['x'])
    mon.ev('layla_table')
    mon.check(len(tab) == len(case['x']) and
              all(close(a, want(x)) for a, x in zip(tab, case['x'])),
              'objectives-of-laminates', lambda: '%s got %s' % (case, tab))
    p = case['p']
    got = calc_obj_multi_ss(one, p[0], p[1], p[2], p[3], p[4], p[5])
    mon.ev('layla_penalties')
    mon.check(close(got, one*(1 + p[0]*p[3])*(1 + p[1]*p[4])
                    * (1 + p[2]*p[5])), 'objective-with-penalties',
              lambda: '%s got %s' % (case, got))


RULES = {'coeff_diso': 'diso', 'coeff_contig': 'contig',
         'coeff_10': 'rule_10_percent', 'coeff_bal_ipo': 'bal',
         'coeff_oopo': 'oopo', 'coeff_spacing': 'pdl_spacing'}


def make_coeff(rng, tier):
    neg = bool(rng.random() < .4)
    c = {k: round(float(rng.uniform(0, 9)), 3) for k in RULES}
    if neg:
        c[gen.choice(rng, sorted(RULES))] = -1.
    return {'on': {v: bool(rng.random() < .5) for v in RULES.values()},
            'sym': bool(rng.random() < .5), 'min_drop': int(rng.integers(1, 5)),
            'c': c, 'modes': int(gen.choice(rng, [1, 3, 10, 40, 0, -2]))}


def run_coeff(case, mon):
    from src.BELLA.obj_function import ObjFunction
    on = case['on']
    cons = gen.bella(dict(set_of_angles=[0, 45, 90, -45], percent_0=10,
                          n_contig=4, sym=case.get('sym', False),
                          min_drop=case.get('min_drop', 2), **on))
    bad = case['modes'] < 1 or any(
        v < 0 and on[RULES[k]] for k, v in case['c'].items())
    mon.sig(case)
    try:
        got = ObjFunction(cons, n_modes=case['modes'], **case['c'])
        refused = False
    except Exception as exc:                   # noqa: BLE001
        if type(exc).__name__ != 'ObjFunctionDefinitionError':
            raise
        refused = True
    mon.check(refused == bad, 'coefficients-refused',
              lambda: '%s refused %s' % (case, refused))
    if refused:
        mon.ev('refused')
        return
    mon.ev('coefficients')
    mon.check(got.n_modes == case['modes'], 'number-of-modes',
              lambda: '%s: %s' % (case, got.n_modes))
    for k, rule in RULES.items():
        want = case['c'][k] if on[rule] else 0
        mon.check(getattr(got, k) == want, 'coefficient-of-inactive-rule',
                  lambda: '%s: %s = %s' % (case, k, getattr(got, k)))


FAMILIES = [Family('panel', make_panel, run_panel, 4000, 100000),
            Family('each', make_each, run_each, 500, 15000),
            Family('multi', make_multi, run_multi, 6000, 200000),
            Family('layla', make_layla, run_layla, 1500, 40000),
            Family('coeff', make_coeff, run_coeff, 1500, 40000)]
