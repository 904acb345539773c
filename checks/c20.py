"""C20 repair of a single laminate"""
import numpy as np
from vlib import gen, oracle
from vlib.core import Family
from checks import c16

ID = 'C20'
RULE = ('random stacks (feasible, one edit from feasible, random), every '
        'combination of rules, targets and weightings, with the settings of '
        'LAYLA or equivalent ones. Non-trivial: the laminate was repaired')
REQUIRED = ['repaired', 'failed', 'untouched', 'feasible_start', 'middle_ply',
            'symmetric', 'asymmetric', 'objective', 'counted', 'layla',
            'in_plane_kept', 'out_of_plane_kept', 'all_rules', 'odd_middle']
BUDGET = 12_000_000
setup = c16.setup


def make(rng, tier):
    spec = gen.con_spec(rng)
    layla = bool(rng.random() < .3)
    if not layla and rng.random() < .12:
        for k in list(spec):
            if k.startswith('percent'):
                del spec[k]
        spec.update(rule_10_percent=True, rule_10_Abdalla=True,
                    percent_Abdalla=10)
    if layla:
        # the two forms of the +-45 minimum combine differently: no mixture
        spec.update(gen.choice(rng, [
            dict(percent_0=10, percent_45=10, percent_90=10, percent_135=10,
                 percent_45_135=0),
            dict(percent_0=10, percent_45=0, percent_90=10, percent_135=0,
                 percent_45_135=int(gen.choice(rng, [10, 20])))]))
        spec['ipo'] = spec['bal']
    angles, sym = spec['set_of_angles'], spec['sym']
    n = int(rng.integers(6, 41))
    rules = oracle.Rules(spec)
    tries = int(gen.choice(rng, [1, 1, 40]))
    for _ in range(tries):
        r = rng.random()
        m = n//2 if sym else n
        if r < .4:
            half = c16.stack(rng, spec, m)
        else:
            half = gen.smooth_stack(rng, angles, m, spec['delta_angle'],
                                    spec['n_contig'])
        mid = int(gen.choice(rng, [0, 90, 0, 90, 45])) if n % 2 else None
        ss = gen.mirror(half, mid) if sym else list(half)
        if spec['dam_tol']:
            a, b = (int(gen.choice(rng, [45, -45])) for _ in range(2))
            ss[0], ss[-1] = a, (a if sym else b)
            if spec['dam_tol_rule'] > 1:
                ss[1] = -ss[0]
                ss[-2] = ss[1] if sym else -ss[-1]
        if not rules.violated(ss):
            break
    ss = [int(a) for a in ss]
    target = oracle.lampam([int(v) for v in rng.permutation(ss)]
                           if rng.random() < .4 else
                           [int(gen.choice(rng, angles)) for _ in range(
                               int(rng.integers(1, 4)))])
    weights = [0]*12
    for i in (0, 1, 2, 3, 8, 9, 10, 11):
        weights[i] = float(gen.choice(rng, [0, 1, 1, .3]))
    if not any(weights):
        weights[0] = 1.
    return {'spec': spec, 'ss': ss, 'target': [float(v) for v in target],
            'weights': weights, 'layla': layla,
            'p_A': int(gen.choice(rng, [100, 100, 80, 50])),
            'n_D1': int(gen.choice(rng, [2, 3, 4, 5, 6])),
            'n_D2': int(gen.choice(rng, [2, 5, 10])),
            'n_D3': int(gen.choice(rng, [1, 2])),
            'membrane': bool(rng.random() < .7),
            'flexural': bool(rng.random() < .7)}


class Par:
    pass


def settings(case, cons):
    if case['layla']:
        from src.LAYLA_V02.parameters import Parameters
        try:
            par = Parameters(
                cons, p_A=case['p_A'], n_D1=case['n_D1'], n_D2=case['n_D2'],
                n_D3=case['n_D3'], repair_membrane_switch=case['membrane'],
                repair_flexural_switch=case['flexural'],
                first_level_sensitivities=np.array(case['weights']))
        except Exception:
            par = None      # all weightings filtered out: see C25
        if par is not None and \
                np.isfinite(par.lampam_weightings_final).all():
            return par
    par = Par()
    w = np.array(case['weights'])
    norm = lambda v: v/v.sum() if v.sum() else v
    par.p_A, par.n_D1, par.n_D2, par.n_D3 = (
        case['p_A'], case['n_D1'], case['n_D2'], case['n_D3'])
    par.weighting_finalA, par.weighting_finalD = norm(w[:4]), norm(w[8:])
    par.lampam_weightings_final = norm(w)
    par.type_obj_func = 2
    par.repair_membrane_switch = case['membrane']
    par.repair_flexural_switch = case['flexural']
    return par


def gap(lp, target, w):
    return float(sum(c*(a - b)**2 for c, a, b in zip(w, lp, target)))


def run(case, mon):
    from src.RELAY.repair_ss import repair_ss
    from src.RELAY.repair_10_bal import repair_10_bal, calc_mini_10
    spec, old = case['spec'], case['ss']
    cons = (gen.layla if case['layla'] else gen.bella)(spec)
    par = settings(case, cons)
    n, sym = len(old), spec['sym']
    target = np.array(case['target'])
    rules = oracle.Rules(spec)
    arr = np.array(old, int)
    mon.ev('layla', case['layla'])
    mon.ev('symmetric' if sym else 'asymmetric')
    mon.ev('middle_ply', bool(sym and n % 2))
    abd = spec['rule_10_percent'] and spec.get('rule_10_Abdalla')
    if not abd:
        req = c16.need(spec, n)
        if req[0] + req[1] + req[4] > (n//2 if sym else n):
            mon.ev('infeasible_skipped')
            return
    elif n < 8:
        return
    out, ok = repair_ss(arr, cons, par, target)
    out = [int(a) for a in out]
    info = lambda: '%s %s -> %s %s' % (gen.tag(spec), {
        a: b for a, b in case.items() if a != 'spec'}, out, ok)
    mon.check(arr.tolist() == old, 'arguments-altered', info)
    # variants of the call
    again, ok2, calls = repair_ss(arr, cons, par, target, count_obj=True)
    mon.ev('counted')
    mon.check([int(a) for a in again] == out and ok2 == ok and calls >= 0,
              'counting-changes-result', info)
    got, ok3, obj = repair_ss(arr, cons, par, target, obj_no_constraints=.5)
    mon.ev('objective')
    mon.check([int(a) for a in got] == out and ok3 == ok,
              'objective-changes-result', info)
    four = repair_ss(arr, cons, par, target, .5, True)
    mon.check(len(four) == 4 and four[2] == obj, 'objective-counted', info)
    none = repair_ss(arr, cons, par, target, obj_no_constraints=0.)
    mon.check(len(none) == 3 and none[2] == obj, 'objective-null', info)
    want = gap(oracle.lampam(out), case['target'],
               par.lampam_weightings_final) if ok else 1e10
    mon.check(abs(obj - want) < 1e-8, 'objective',
              lambda: '%s instead of %s; %s' % (obj, want, info()))
    start_bad = rules.violated(old)
    # the minimum ply counts are rounded up when the middle ply counts for one
    start_mid = not (sym and n % 2) or (
        old[n//2] in (0, 90) and not spec['rule_10_percent'])
    mon.ev('odd_middle', not start_mid)
    if not ok:
        mon.ev('failed')
        mon.check(out == old, 'failed-repair-changes-plies', info)
        if not start_bad and start_mid and not case['membrane']:
            mon.check(False, 'feasible-laminate-refused', info)
        return
    mon.check(len(out) == n and set(out) <= set(spec['set_of_angles']),
              'size-and-orientations', info)
    if sym:
        mon.check(out == out[::-1], 'symmetry', info)
    bad = rules.violated(out)
    if 'damtol' in start_bad:
        bad = [b for b in bad if b != 'damtol']
    mon.ev('all_rules', all(spec[k] for k in (
        'bal', 'diso', 'contig', 'rule_10_percent', 'dam_tol')))
    mon.check(not bad, 'rules-broken', lambda: '%s %s' % (bad, info()))
    if not start_bad and start_mid:
        mon.ev('feasible_start')
    if out != old:
        mon.ev('repaired')
        mon.sig(case)
    elif not start_bad:
        mon.ev('untouched')
    lp_old, lp_new = oracle.lampam(old), oracle.lampam(out)
    if start_mid and not start_bad:
        wa, wd = par.weighting_finalA, par.weighting_finalD
        mon.ev('in_plane_kept')
        mon.check(gap(lp_new[:4], case['target'][:4], wa) <=
                  gap(lp_old[:4], case['target'][:4], wa) + 1e-9,
                  'in-plane-worse', info)
        if not case['membrane'] or not any(wa):
            mon.ev('out_of_plane_kept')
            mon.check(gap(lp_new[8:], case['target'][8:], wd) <=
                      gap(lp_old[8:], case['target'][8:], wd) + 1e-9,
                      'out-of-plane-worse', info)
            mon.check(sorted(out) == sorted(old), 'plies-conserved', info)
            if not case['flexural'] or not any(wd):
                mon.check(out == old, 'feasible-laminate-changed', info)
    if not start_bad or not case['membrane']:
        return
    # never worse in-plane than after the repair for balance and 10% rule
    ss1, q1 = repair_10_bal(arr, calc_mini_10(cons, n), cons)
    lp1 = oracle.lampam(c16.completed(ss1, q1, sym))
    wa = par.weighting_finalA
    mon.check(gap(lp_new[:4], case['target'][:4], wa) <=
              gap(lp1[:4], case['target'][:4], wa) + 1e-9, 'in-plane-worse',
              info)


FAMILIES = [Family('repair', make, run, 2500, 30000)]
