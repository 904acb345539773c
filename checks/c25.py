"""C25 definitions of rules, settings, panels and targets"""
import math
import numpy as np
from vlib import gen
from vlib.core import Family

ID = 'C25'
RULE = ('random definitions of design rules, sets of fibre orientations, '
        'optimiser settings, panels and targets, valid or with one ill-formed '
        'value. Non-trivial: all')
REQUIRED = ['rules', 'defaults', 'rules_refused', 'percentages', 'percent_abdalla',
            'covering_by_damtol', 'angles', 'angles_refused', 'no_angle_plies',
            'settings', 'settings_refused', 'panel', 'panel_refused',
            'targets_filtered', 'weightings', 'weightings_oopo',
            'layla_weightings', 'layla_settings_refused', 'layla_targets',
            'laminate_options', 'laminate_options_refused']

ERRORS = ('ConstraintDefinitionError', 'ParametersDefinitionError',
          'PanelDefinitionError', 'Exception')


def attempt(func, mon, bad, mech, info):
    """runs a definition; True when it was accepted as it should"""
    try:
        out = func()
    except Exception as exc:                   # noqa: BLE001
        if type(exc).__name__ not in ERRORS:
            if bad is not None:
                # an ill-formed value may also fail on its type
                mon.check(isinstance(exc, (TypeError, ValueError,
                                           AttributeError)),
                          mech + '-refusal', lambda: info() + repr(exc))
                return None
            raise
        mon.check(bad is not None, mech + '-wrongly-refused',
                  lambda: info() + str(exc))
        return None
    mon.check(bad is None, mech + '-wrongly-accepted', info)
    return out if bad is None else None


BOOLS = ('sym', 'bal', 'oopo', 'dam_tol', 'rule_10_percent', 'diso', 'contig',
         'rule_10_Abdalla', 'covering', 'pdl_spacing')
PCT = ('percent_0', 'percent_45', 'percent_90', 'percent_135',
       'percent_45_135', 'percent_Abdalla')


def make_rules(rng, tier):
    lay = bool(rng.random() < .35)
    c = {k: bool(rng.random() < .5) for k in BOOLS}
    c['dam_tol_rule'] = int(rng.integers(1, 4))
    c['n_covering'] = int(rng.integers(0, 3))
    c['min_drop'] = int(rng.integers(1, 6))
    c['n_contig'] = int(rng.integers(2, 7))
    c['delta_angle'] = int(gen.choice(rng, [30, 45, 60, 90]))
    for k in PCT:
        c[k] = float(gen.choice(rng, [0, 5, 8.3, 10, 12.5, 20]))
    if rng.random() < .2:
        c['percent_Abdalla'] = float(gen.choice(rng, [22, 24.5, 24.9]))
    c['calc_combine_45_135'] = bool(rng.random() < .7)
    c['combine_45_135'] = bool(rng.random() < .5)
    bad = None
    if lay:
        for k in ('rule_10_Abdalla', 'covering', 'pdl_spacing', 'n_covering',
                  'min_drop', 'percent_Abdalla', 'calc_combine_45_135'):
            c.pop(k)
        c['ipo'] = bool(rng.random() < .5)
    if rng.random() < .5:
        k = gen.choice(rng, sorted(x for x in c if x not in (
            'combine_45_135', 'calc_combine_45_135', 'delta_angle')))
        if k in BOOLS or k == 'ipo':
            c[k] = gen.choice(rng, [1, 0, 'yes', None])
        elif k in PCT:
            c[k] = gen.choice(rng, [-1, -.01, 'ten',
                                    101 if k != 'percent_Abdalla' else 25])
        elif k == 'dam_tol_rule':
            c['dam_tol'] = True
            c[k] = int(gen.choice(rng, [0, 4, -1]))
        elif k == 'n_covering':
            c[k] = int(gen.choice(rng, [-1, 3]))
        elif k == 'min_drop':
            c[k] = gen.choice(rng, [0, -2, 1.5])
        elif k == 'n_contig':
            c['contig'] = True
            c[k] = 1
        bad = k
    return {'c': c, 'bad': bad, 'lay': lay}


def run_rules(case, mon):
    c, bad = case['c'], case['bad']
    if case['lay']:
        from src.LAYLA_V02.constraints import Constraints
    else:
        from src.BELLA.constraints import Constraints
    info = lambda: str(case)
    mon.sig(case)
    got = attempt(lambda: Constraints(**c), mon, bad, 'rules', info)
    if got is None:
        mon.ev('rules_refused')
        return
    mon.ev('rules')
    for k in ('sym', 'oopo', 'dam_tol', 'rule_10_percent', 'diso', 'contig'):
        mon.check(getattr(got, k) == c[k], 'rule-kept', info)
    mon.check(got.dam_tol_rule == (c['dam_tol_rule'] if c['dam_tol'] else 0),
              'damage-tolerance-variant', info)
    mon.check(got.delta_angle == (c['delta_angle'] if c['diso'] else 180),
              'disorientation-limit', info)
    if c['contig']:
        mon.check(got.n_contig == c['n_contig'] and
                  got.n_contig_c == c['n_contig'], 'contiguity-limit', info)
    else:
        mon.check(got.n_contig_c > 1e6, 'contiguity-limit', info)
    if case['lay']:
        mon.check(got.ipo == (c['ipo'] or c['bal']), 'balance-implies', info)
    else:
        mon.check(got.ipo == c['bal'] and got.bal == c['bal'],
                  'balance-implies', info)
        # covering plies implied by damage tolerance
        want = c['n_covering']
        if c['covering']:
            want = max(want, 1)
        if c['dam_tol']:
            mon.ev('covering_by_damtol')
            want = max(want, 1) if c['dam_tol_rule'] == 1 else 2
        mon.check(got.covering == (c['covering'] or c['dam_tol']),
                  'covering-of-damage-tolerance', info)
        if got.covering:
            mon.check(got.n_covering == want, 'covering-of-damage-tolerance',
                      lambda: info() + ' covering %s' % got.n_covering)
        mon.check(got.min_drop == c['min_drop'] and
                  got.pdl_spacing == c['pdl_spacing'], 'rule-kept', info)
    # percentages of the 10% rule
    p = {k: c.get(k, 0)/100 for k in PCT}
    if case['lay']:
        p['percent_45_135'] = max(p['percent_45_135'],
                                  p['percent_45'] + p['percent_135'])
    else:
        comb = c['combine_45_135']
        if c['calc_combine_45_135']:
            comb = max(p['percent_45'], p['percent_135']) \
                <= p['percent_45_135']/2
        for k in (('percent_45', 'percent_135') if comb
                  else ('percent_45_135',)):
            p[k] = 0
        for k in PCT:
            if (k == 'percent_Abdalla') != c['rule_10_Abdalla']:
                p[k] = 0
    if not c['rule_10_percent']:
        p = dict.fromkeys(p, 0)
    elif p['percent_Abdalla']:
        mon.ev('percent_abdalla')
    else:
        mon.ev('percentages')
    if case['lay']:
        p.pop('percent_Abdalla')
    for k, v in p.items():
        mon.check(abs(getattr(got, k) - v) < 1e-12, 'percentages',
                  lambda: info() + ' %s = %s, expected %s' % (
                      k, getattr(got, k), v))


def make_angles(rng, tier):
    pos = sorted({int(v) for v in rng.integers(1, 90,
                                               int(rng.integers(0, 5)))})
    a = [s*v for v in pos for s in (1, -1)]
    for v in (0, 90):
        if rng.random() < .7:
            a.append(v)
    if rng.random() < .4:
        a = sorted(set(a + [0, 90, 45, -45]))
    bad = None
    ten = bool(rng.random() < .3)
    r = rng.random()
    if r < .15 and a:
        a.append(int(gen.choice(rng, [91, -90, 180, -120])))
        bad = 'range'
    elif r < .3 and any(0 < v < 90 for v in a):
        v = int(gen.choice(rng, [v for v in a if 0 < abs(v) < 90]))
        a.remove(v)
        bad = 'missing'
    elif r < .4 and a:
        a.append(int(gen.choice(rng, a)))
        bad = 'repeated'
    if ten and not {0, 45, 90, -45} <= set(a):
        bad = bad or 'ten'
    if not a:
        a, bad = [0], ('ten' if ten else None)
    a = [int(v) for v in rng.permutation(a)]
    return {'a': a, 'bad': bad, 'ten': ten, 'lay': bool(rng.random() < .4)}


def run_angles(case, mon):
    if case['lay']:
        from src.LAYLA_V02.constraints import Constraints
    else:
        from src.BELLA.constraints import Constraints
    info = lambda: str(case)
    mon.sig(case)
    got = attempt(lambda: Constraints(set_of_angles=np.array(case['a']),
                                      rule_10_percent=case['ten']),
                  mon, case['bad'], 'orientations', info)
    if got is None:
        mon.ev('angles_refused')
        return
    mon.ev('angles')
    a = sorted(case['a'])
    mon.check([int(v) for v in got.set_of_angles] == a and
              got.n_set_of_angles == len(a), 'orientations-kept', info)
    for i, v in enumerate(a):
        t = math.radians(v)
        row = (math.cos(2*t), math.cos(4*t), math.sin(2*t), math.sin(4*t))
        mon.check(np.allclose(got.cos_sin[i], row, atol=1e-12),
                  'orientation-functions', info)
        mon.check(got.ind_angles_dict[v] == i and got.angles_dict[i] == v,
                  'orientation-indices', info)
    for name, v in (('index0', 0), ('index45', 45), ('index90', 90),
                    ('index135', -45)):
        if v in a:
            mon.check(int(getattr(got, name)) == a.index(v),
                      'orientation-indices', info)
    pairs = sorted(v for v in a if 0 < v < 90)
    if not pairs:
        mon.ev('no_angle_plies')
    rows = [[int(x) for x in r] for r in got.angles_bal]
    mon.check(sorted(rows) == [[v, a.index(v), a.index(-v)] for v in pairs],
              'balanced-pairs', lambda: info() + ' got %s' % rows)
    pos = sorted({abs(v) for v in a})
    mon.check([int(v) for v in got.pos_angles] == pos and all(
        got.indices_pos_angles_dict[v] == i for i, v in enumerate(pos)),
        'orientation-indices', info)


INTS = {'group_size_min': 4, 'group_size_max': 12, 'n_ini_ply_drops': 5,
        'global_node_limit': 9, 'local_node_limit': 9,
        'global_node_limit_final': 2, 'local_node_limit_final': 2,
        'global_node_limit2': 3, 'local_node_limit2': 3,
        'global_node_limit3': 3, 'local_node_limit3': 3,
        'n_D1': 6, 'n_D2': 10, 'n_D3': 1}


def make_set(rng, tier):
    c = {k: int(rng.integers(1, 30)) for k in INTS}
    c['group_size_max'] = c['group_size_min'] + int(rng.integers(0, 9))
    c['p_A'] = float(gen.choice(rng, [0, 50, 100]))
    c['repair_membrane_switch'] = bool(rng.random() < .5)
    c['repair_flexural_switch'] = bool(rng.random() < .5)
    c['n_plies_ref_panel'] = int(rng.integers(1, 99)) + float(
        gen.choice(rng, [0, 0, .5]))
    bad = None
    if rng.random() < .6:
        k = gen.choice(rng, sorted(c))
        bad = k
        if k in ('n_D1', 'n_D2', 'n_D3'):
            c[k] = 2.5
        elif k in INTS:
            c[k] = gen.choice(rng, [0, -3, 2.5])
        elif k == 'p_A':
            c[k] = gen.choice(rng, [-1, 100.5, 'all'])
        elif k == 'n_plies_ref_panel':
            c[k] = 'thick'
        else:
            c[k] = gen.choice(rng, [1, 'yes'])
    return {'c': c, 'bad': bad}


def run_set(case, mon):
    from src.BELLA.parameters import Parameters
    cons = gen.bella(dict(set_of_angles=[0, 45, 90, -45]))
    mon.sig(case)
    info = lambda: str(case)
    got = attempt(lambda: Parameters(cons, **case['c']), mon, case['bad'],
                  'settings', info)
    if got is None:
        mon.ev('settings_refused')
        return
    mon.ev('settings')
    for k, v in case['c'].items():
        mon.check(getattr(got, k) == v, 'setting-kept',
                  lambda: info() + k)


def make_panel(rng, tier):
    r = lambda hi: float(round(rng.uniform(.1, hi), 3))
    w = [0. if rng.random() < .35 else round(float(v), 4)
         for v in rng.uniform(.01, 1, 12)]
    if rng.random() < .15:
        w = [1, 1, 1, 0, 0, 0, 0, 0, 1, 1, 1, 0]
    c = {'ID': int(rng.integers(1, 99)), 'n_plies': int(rng.integers(1, 80)),
         'area': r(20), 'length_x': 0., 'length_y': 0.,
         'weighting': r(9)}
    if rng.random() < .5:
        c['length_x'], c['length_y'] = r(9), r(9)
    elif rng.random() < .2:
        c['area'] = 0
    bad, n_w = None, 12
    if rng.random() < .4:
        bad = gen.choice(rng, ['n_plies', 'area', 'length_x', 'length_y',
                               'weighting', 'w', 'w_size', 'w_type'])
        if bad == 'n_plies':
            c[bad] = gen.choice(rng, [0, -4, 12.5, '12'])
        elif bad == 'w':
            w[int(rng.integers(12))] = -.1
        elif bad == 'w_size':
            n_w = int(gen.choice(rng, [0, 4, 11]))
        elif bad != 'w_type':
            c[bad] = gen.choice(rng, [-1., 'one'])
    return {'c': c, 'w': w[:n_w], 'bad': bad,
            't': [round(float(v), 4) for v in rng.uniform(-1, 1, 12)],
            'four': bool(rng.random() < .5), 'sym': bool(rng.random() < .5),
            'bal': bool(rng.random() < .5), 'oopo': bool(rng.random() < .5),
            'others': int(rng.integers(3)),
            'coeff': float(round(rng.uniform(0, 4), 3)),
            'density': r(400)}


def filtered(w, case, bal, oopo, coeff_ipo=None):
    """weightings after the filters, then normalised"""
    w = list(w)
    off = set()
    if case['sym']:
        off |= {4, 5, 6, 7}
    if case['four']:
        off |= {3, 7, 11}
    if bal:
        off |= {2, 3}
    if oopo:
        off |= {10, 11}
    w = [0. if i in off else v for i, v in enumerate(w)]
    left = [v for v in w if v]
    if not left:
        return None
    mean = sum(left)/len(left)
    if oopo:
        w[10] = mean*case['coeff']
        if not case['four']:
            w[11] = mean*case['coeff']
    if coeff_ipo is not None:
        w[2] = mean*coeff_ipo
        if not case['four']:
            w[3] = mean*coeff_ipo
    s = sum(w)
    return [v/s for v in w]


FOUR, EIGHT = [0, 45, 90, -45], [0, 45, 90, -45, 30, -30, 60, -60]
OTHERS = [EIGHT, [0, 90, 30, -30], [0, 45, -45]]


def run_panel(case, mon):
    from src.BELLA.panels import Panel
    from src.BELLA.obj_function import ObjFunction
    cons = gen.bella(dict(set_of_angles=FOUR if case['four'] else
                          OTHERS[case['others']],
                          sym=case['sym'], bal=case['bal'],
                          oopo=case['oopo']))
    c = case['c']
    info = lambda: str(case)
    mon.sig(case)
    w = np.array(case['w'])
    if case['bad'] == 'w_type':
        w = list(case['w'])
    aim = np.array(case['t'])
    got = attempt(lambda: Panel(
        constraints=cons, lampam_target=aim,
        lampam_weightings=w, **c), mon, case['bad'], 'panel', info)
    if got is None:
        mon.ev('panel_refused')
        return
    mon.ev('panel')
    n = c['n_plies']
    area = c['length_x']*c['length_y'] or c['area']
    mid = (n + 1)//2 if case['sym'] and n % 2 else 0
    mon.check(got.n_plies == n and got.middle_ply_index == mid and
              bool(got.has_middle_ply) == bool(mid), 'middle-ply', info)
    mon.check(abs(got.area - area) < 1e-12*area + 1e-15, 'panel-area', info)
    mon.check(abs(got.calc_weight(case['density'])
                  - case['density']*area*n) <= 1e-9*case['density']*area*n,
              'panel-weight', info)
    obj = ObjFunction(cons, coeff_oopo=case['coeff'])
    got.filter_target_lampams(cons, obj)
    mon.ev('targets_filtered')
    # the arrays of the user serve for other panels, with other rules
    mon.check(aim.tolist() == case['t'], 'targets-of-the-user-altered',
              lambda: '%s %s' % (aim, info()))
    zero = set()
    if case['sym']:
        zero |= {4, 5, 6, 7}
    if case['bal']:
        zero |= {2, 3}
    if case['oopo']:
        zero |= {10, 11}
    want = [0 if i in zero else v for i, v in enumerate(case['t'])]
    mon.check(list(got.lampam_target) == want, 'targets-of-rules',
              lambda: info() + str(got.lampam_target))
    want = filtered(case['w'], case, case['bal'], case['oopo'])
    if want is None:
        return
    got.filter_lampam_weightings(cons, obj)
    mon.ev('weightings_oopo' if case['oopo'] else 'weightings')
    mon.check(np.allclose(got.lampam_weightings, want, atol=1e-12),
              'weightings-of-rules',
              lambda: info() + ' got %s expected %s' % (
                  got.lampam_weightings, want))
    mon.check(np.allclose(got.lampam_weightingsA, want[:4]) and
              np.allclose(got.lampam_weightingsD, want[8:]),
              'weightings-of-rules', info)


def make_lay(rng, tier):
    w = [0. if rng.random() < .3 else round(float(v), 4)
         for v in rng.uniform(.01, 1, 12)]
    opt = [0. if rng.random() < .2 else 1. for _ in range(12)]
    bad = None
    if rng.random() < .4:
        bad = gen.choice(rng, ['w', 'w_size', 'opt', 'opt_size', 'zero',
                               'both', 'min', 'max', 'step'])
    return {'w': w, 'opt': opt, 'bad': bad, 'four': bool(rng.random() < .5),
            'sym': bool(rng.random() < .5), 'ipo': bool(rng.random() < .5),
            'bal': bool(rng.random() < .3), 'oopo': bool(rng.random() < .5),
            'pen': bool(rng.random() < .5),
            'coeff': float(round(rng.uniform(0, 4), 3)),
            'coeff_ipo': float(round(rng.uniform(0, 4), 3)),
            't': [round(float(v), 4) for v in rng.uniform(-1, 1, 12)]}


def run_lay(case, mon):
    from src.LAYLA_V02.parameters import Parameters
    from src.LAYLA_V02.targets import Targets
    cons = gen.layla(dict(set_of_angles=FOUR if case['four'] else EIGHT,
                          sym=case['sym'], ipo=case['ipo'], bal=case['bal'],
                          oopo=case['oopo']))
    ipo = case['ipo'] or case['bal']
    w, opt, bad = list(case['w']), list(case['opt']), case['bad']
    kw = dict(coeff_oopo=case['coeff'], coeff_bal_ipo=case['coeff_ipo'],
              penalty_ipo_switch=case['pen'], group_size_min=4,
              group_size_max=np.array([9, 9]), n_outer_step=2)
    if bad == 'w':
        w[3] = -.2
    elif bad == 'w_size':
        w = w[:9]
        opt = opt[:9]
    elif bad == 'opt':
        opt[2] = .5
    elif bad == 'opt_size':
        opt = opt + [1.]
        w = w + [1.]
    elif bad == 'zero':
        w = [0.]*12
    elif bad == 'both':
        kw['penalty_ipo_switch'] = kw['penalty_bal_switch'] = True
    elif bad == 'min':
        kw['group_size_min'] = 0
    elif bad == 'max':
        kw['group_size_max'] = np.array([9, 3])
    elif bad == 'step':
        kw['n_outer_step'] = 3
    elif sum(a*b for a, b in zip(w, opt)) == 0:
        return
    sens = [a*b for a, b in zip(w, opt)]
    want = None if bad else filtered(
        sens, case, ipo, case['oopo'],
        case['coeff_ipo'] if ipo and case['pen'] else None)
    if want is None and bad is None:
        return
    info = lambda: str(case)
    mon.sig(case)
    got = attempt(lambda: Parameters(
        cons, first_level_sensitivities=np.array(w),
        lampam_to_be_optimised=np.array(opt), **kw), mon, bad,
        'laminate-settings', info)
    if got is None:
        mon.ev('layla_settings_refused')
        return
    mon.ev('layla_weightings')
    mon.check(np.allclose(got.lampam_weightings_final, want, atol=1e-12),
              'laminate-weightings', lambda: info() + ' got %s expected %s' % (
                  got.lampam_weightings_final, want))
    mon.check(np.allclose(got.lampam_weightings_ini,
                          np.array(sens)/sum(sens)),
              'laminate-weightings', info)
    for part, sl in ((got.weighting_finalA, slice(0, 4)),
                     (got.weighting_finalD, slice(8, 12))):
        s = sum(want[sl])
        mon.check(np.allclose(part, np.array(want[sl])/s if s > 1e-7
                              else want[sl]), 'laminate-weightings', info)
    given = np.array(case['t'])
    tgt = Targets(20, lampam=given)
    tgt.filter_target_lampams(cons)
    mon.check(list(given) == case['t'], 'targets-of-the-caller-changed', info)
    zero = set()
    if case['sym']:
        zero |= {4, 5, 6, 7}
    if ipo:
        zero |= {2, 3}
    if case['oopo']:
        zero |= {10, 11}
    mon.ev('layla_targets')
    mon.check(list(tgt.lampam) == [0 if i in zero else v
                                   for i, v in enumerate(case['t'])] and
              list(tgt.lampam_initial) == case['t'], 'laminate-targets', info)


LAY_INT = ('n_D1', 'n_D2', 'n_D3', 'group_size_min', 'global_node_limit',
           'global_node_limit_p', 'local_node_limit', 'local_node_limit_final',
           'n_outer_step')
LAY_BOOL = ('repair_membrane_switch', 'repair_flexural_switch',
            'penalty_10_lampam_switch', 'penalty_10_pc_switch',
            'penalty_bal_switch', 'penalty_ipo_switch')
LAY_COEFF = ('coeff_10', 'coeff_bal_ipo', 'coeff_oopo')


def make_laminate_set(rng, tier):
    c = {k: int(rng.integers(1, 30)) for k in LAY_INT}
    c['group_size_min'] += 4
    c['n_outer_step'] = int(rng.integers(1, 4))
    c.update({k: bool(rng.random() < .5) for k in LAY_BOOL})
    if c['penalty_10_pc_switch']:
        c['penalty_10_lampam_switch'] = False
    if c['penalty_ipo_switch']:
        c['penalty_bal_switch'] = False
    c.update({k: float(round(rng.uniform(0, 3), 3)) for k in LAY_COEFF})
    c['p_A'] = float(gen.choice(rng, [0, 50, 100]))
    high = [c['group_size_min'] + int(v)
            for v in rng.integers(0, 9, c['n_outer_step'])]
    one = bool(rng.random() < .3)
    rules = {k: bool(rng.random() < .6) for k in
             ('ipo', 'bal', 'oopo', 'rule_10_percent', 'sym', 'contig')}
    rules['n_contig'] = int(rng.integers(2, 6))
    bad = None
    if rng.random() < .5:
        bad = gen.choice(rng, [k for k in sorted(c) if {
            'coeff_10': rules['rule_10_percent'], 'coeff_oopo': rules['oopo'],
            'penalty_10_pc_switch': rules['rule_10_percent'],
            'penalty_10_lampam_switch': rules['rule_10_percent'],
            'coeff_bal_ipo': rules['ipo'] or rules['bal'],
            'penalty_ipo_switch': rules['ipo'] or rules['bal'],
            'penalty_bal_switch': rules['bal']}.get(k, True)])
        if bad in ('n_D1', 'n_D2', 'n_D3'):
            c[bad] = 2.5
        elif bad == 'n_outer_step':
            c[bad] = gen.choice(rng, [0, -1])
        elif bad in LAY_INT:
            c[bad] = gen.choice(rng, [0, -3, 2.5])
        elif bad in LAY_BOOL:
            c[bad] = 'yes'
        elif bad in LAY_COEFF:
            c[bad] = gen.choice(rng, [-.1, 'high'])
        else:
            c[bad] = gen.choice(rng, [-1, 100.5, 'all'])
    return {'c': c, 'high': high[0] if one else high, 'rules': rules,
            'bad': bad, 'first': float(rng.uniform(.1, 1))}


def run_laminate_set(case, mon):
    from src.LAYLA_V02.parameters import Parameters
    rules, c = case['rules'], case['c']
    cons = gen.layla(dict(rules, set_of_angles=FOUR))
    high = case['high'] if isinstance(case['high'], int) \
        else np.array(case['high'])
    mon.sig(case)
    info = lambda: str(case)
    # no null sum of weightings
    first = np.linspace(case['first'], 1, 12)
    got = attempt(lambda: Parameters(
        cons, group_size_max=high, first_level_sensitivities=first, **c),
        mon, case['bad'], 'laminate-options', info)
    if got is None:
        mon.ev('laminate_options_refused')
        return
    mon.ev('laminate_options')
    want = dict(c)
    ipo = rules['ipo'] or rules['bal']
    if not rules['rule_10_percent']:
        want.update(coeff_10=0, penalty_10_pc_switch=False,
                    penalty_10_lampam_switch=False)
    if not rules['bal']:
        want['penalty_bal_switch'] = False
    if not ipo:
        want.update(penalty_ipo_switch=False, coeff_bal_ipo=0)
    if not rules['oopo']:
        want['coeff_oopo'] = 0
    for k, v in want.items():
        mon.check(getattr(got, k) == v, 'laminate-option-kept',
                  lambda: '%s: %s is %s' % (info(), k, getattr(got, k)))
    sizes = [high]*c['n_outer_step'] if isinstance(high, int) else case['high']
    mon.check([int(v) for v in got.group_size_max] == sizes,
              'laminate-option-kept', info)


# values of the settings that are not given
DEFAULTS = {
    'parameters': dict(
        group_size_min=4, group_size_max=12, global_node_limit=100,
        local_node_limit=100, local_node_limit_final=1,
        global_node_limit_final=5, global_node_limit2=10,
        local_node_limit2=10, global_node_limit3=10, local_node_limit3=10,
        n_ini_ply_drops=5, p_A=100, n_D1=6, n_D2=10, n_D3=1,
        repair_membrane_switch=True, repair_flexural_switch=True,
        n_plies_ref_panel=1000, save_success_rate=False,
        time_limit_group_pdl=1, time_limit_all_pdls=100, save_buckling=False),
    'objective': dict(coeff_diso=0, coeff_contig=0, coeff_10=0,
                      coeff_bal_ipo=1, coeff_oopo=1, coeff_spacing=1,
                      n_modes=1),
    'constraints': dict(
        sym=False, bal=False, oopo=False, dam_tol=False,
        rule_10_percent=False, diso=False, contig=False, pdl_spacing=False,
        covering=False, n_covering=0)}


def make_default(rng, tier):
    name = str(gen.choice(rng, list(DEFAULTS)))
    return {'of': name, 'seed': int(rng.integers(10**6)),
            'given': [k for k in DEFAULTS[name] if name == 'constraints' and
                      k in ('sym', 'bal', 'oopo') and rng.random() < .3]}


def run_default(case, mon):
    """settings that are not given take their announced values"""
    from src.BELLA.constraints import Constraints
    from src.BELLA.parameters import Parameters
    from src.BELLA.obj_function import ObjFunction
    given = {k: True for k in case['given']}
    got = {'constraints': Constraints,
           'parameters': lambda: Parameters(Constraints()),
           'objective': lambda: ObjFunction(Constraints(
               bal=True, oopo=True, pdl_spacing=True))}[case['of']](
               **given)
    mon.ev('defaults')
    mon.sig(case)
    for k, v in dict(DEFAULTS[case['of']], **given).items():
        if hasattr(got, k):
            have = getattr(got, k)
            mon.check(have == v, 'default-of-' + k, lambda: '%s is %s, not %s'
                      % (k, have, v))


FAMILIES = [Family('rules', make_rules, run_rules, 4000, 80000),
            Family('defaults', make_default, run_default, 60, 300),
            Family('angles', make_angles, run_angles, 3000, 60000),
            Family('settings', make_set, run_set, 2000, 40000),
            Family('panel', make_panel, run_panel, 4000, 80000),
            Family('laminate', make_lay, run_lay, 3000, 60000),
            Family('laminate_options', make_laminate_set, run_laminate_set,
                   2000, 40000)]
