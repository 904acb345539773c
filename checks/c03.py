"""C03 balance and orthotropy: verdicts, penalties and parameters are exact"""
import types
import numpy as np
from vlib import gen, oracle as orc
from vlib.core import Family

ID = 'C03'
RULE = ('stacks of 1-60 plies over angle sets with any number of +-theta '
        'pairs, random, balanced by construction, or one ply away from '
        'balanced; random materials and lamination parameters for the '
        'orthotropy parameters. Non-trivial: at least one angled ply present')
REQUIRED = ['balanced', 'unbalanced', 'one_ply_off', 'counts_2d',
            'orthotropic_stacks', 'non_orthotropic_stacks',
            'compliance_params_sym', 'compliance_params_asym']


def make_stack(rng, tier):
    angles = gen.angle_set(rng)
    n = gen.size(rng, 1, 60)
    kind = int(rng.integers(3))
    if kind == 0:
        ss = gen.raw_stack(rng, angles, n)
    else:
        ss = []
        while len(ss) < n:
            a = int(gen.choice(rng, angles))
            ss += [a] if a in (0, 90) else [a, -a]
        rng.shuffle(ss)
        ss = [int(a) for a in ss]
        if kind == 2:
            ss = gen.mutate(rng, ss, angles)
    return {'ss': ss, 'angles': angles, 'kind': kind,
            'area': float(rng.random()*3)}


def run_stack(case, mon):
    from src.guidelines.balance import is_balanced, calc_penalty_bal
    from src.guidelines.ipo_oopo import (
        calc_penalty_ipo, calc_penalty_oopo_ss, calc_penalty_ipo_oopo_mp,
        calc_penalty_ipo_oopo_ss)
    ss, angles, area = case['ss'], case['angles'], case['area']
    arr = np.array(ss, int)
    want = orc.balanced(ss)
    for which, cons in (('bella', gen.bella(dict(set_of_angles=angles, bal=True,
                                                 oopo=True))),
                        ('layla', gen.layla(dict(set_of_angles=angles,
                                                 bal=True, oopo=True)))):
        got = is_balanced(arr, cons)
        mon.check(bool(got) == want, 'verdict', lambda: 'stack %s: balanced %s'
                  ', reported %s' % (ss, want, got))
        cnt = np.zeros(len(angles))
        for a in ss:
            cnt[cons.ind_angles_dict[a]] += 1
        unb = sum(abs(ss.count(a) - ss.count(-a))
                  for a in angles if 0 < a < 90)
        pen = calc_penalty_bal(cnt, cons, area)
        mon.check(np.isclose(pen, area*unb/len(ss)), 'balance-penalty',
                  lambda: '%s %s: %s' % (ss, area, pen))
        if area > 0:
            mon.check((pen < 1e-12) == want, 'balance-penalty-zero',
                      lambda: '%s: %s' % (ss, pen))
        two = np.array([cnt, cnt[::-1]*0, 2*cnt])
        pen2 = calc_penalty_bal(two, cons, area)
        mon.ev('counts_2d')
        mon.check(np.allclose(pen2, [area*unb/len(ss), 0, area*unb/len(ss)]),
                  'balance-penalty-many', lambda: '%s: %s' % (two, pen2))
        lp = orc.lampam(ss)
        p_ipo = (abs(lp[2]) + abs(lp[3]))/2
        p_oopo = (abs(lp[10]) + abs(lp[11]))/2
        mon.ev('orthotropic_stacks' if p_ipo < 1e-10
               else 'non_orthotropic_stacks')
        mon.check(np.isclose(calc_penalty_ipo(lp, area), area*p_ipo),
                  'in-plane-penalty', lambda: str(ss))
        lp2 = np.array([lp, np.zeros(12), -lp])
        mon.check(np.allclose(calc_penalty_ipo(lp2, area),
                              area*np.array([p_ipo, 0, p_ipo])),
                  'in-plane-penalty-many', lambda: str(ss))
        mon.check(np.isclose(calc_penalty_oopo_ss(lp, cons, area), area*p_oopo),
                  'out-of-plane-penalty', lambda: str(ss))
        mon.check(np.allclose(calc_penalty_oopo_ss(lp2, cons, area),
                              area*np.array([p_oopo, 0, p_oopo])),
                  'out-of-plane-penalty-many', lambda: str(ss))
        both = calc_penalty_ipo_oopo_mp(lp2, cons, cummul_areas=area,
                                        cummul_sec_mom_areas=2*area)
        mon.check(np.allclose(both[0], area*np.array([p_ipo, 0, p_ipo])) and
                  np.allclose(both[1], 2*area*np.array([p_oopo, 0, p_oopo])),
                  'orthotropy-penalties-multi-panel', lambda: '%s %s' % (
                      ss, both))
        # one to four panels, listed or stacked
        k = len(ss) % 4 + 1
        sign = np.array([1, 0, -1, .5])[:k]
        rows = np.array([v*lp for v in sign])
        forms = [rows] if k == 1 else [rows, list(rows)]
        for form in forms:
            mon.check(np.allclose(calc_penalty_oopo_ss(form, cons, area),
                                  area*p_oopo*abs(sign)),
                      'out-of-plane-penalty-many', lambda: '%s %s' % (ss, k))
        mon.check(np.allclose(calc_penalty_ipo(rows, area),
                              area*p_ipo*abs(sign)),
                  'in-plane-penalty-many', lambda: '%s %s' % (ss, k))
        # the two penalties of one or several laminates; the first one may be
        # switched off
        for switch in (None, True, False):
            par = None if switch is None else types.SimpleNamespace(
                penalty_ipo_switch=switch)
            for form, f in ((lp, 1), (rows, abs(sign))):
                got = calc_penalty_ipo_oopo_ss(
                    form, cons, parameters=par, cummul_areas=area,
                    cummul_sec_mom_areas=2*area)
                on = switch in (None, True) and cons.ipo
                mon.check(np.allclose(got[0], area*p_ipo*f*on) and
                          np.allclose(got[1], 2*area*p_oopo*f),
                          'orthotropy-penalties', lambda: '%s %s %s' % (
                              ss, switch, got))
        if which == 'bella':
            off = gen.bella(dict(set_of_angles=angles))
            none = calc_penalty_ipo_oopo_mp(lp2, off)
            mon.check(not np.any(none[0]) and not np.any(none[1])
                      and not np.any(calc_penalty_oopo_ss(lp, off)),
                      'inactive-requirements-penalised', lambda: str(ss))
            from src.BELLA.parameters import Parameters
            withp = calc_penalty_ipo_oopo_mp(
                lp2, cons, parameters=Parameters(cons), cummul_areas=area,
                cummul_sec_mom_areas=2*area)
            mon.check(np.allclose(withp, both), 'orthotropy-penalties-with-'
                      'parameters', lambda: '%s %s' % (withp, both))
    mon.ev('balanced' if want else 'unbalanced')
    if case['kind'] == 2:
        mon.ev('one_ply_off')
    if any(a not in (0, 90) for a in ss):
        mon.sig(tuple(sorted(ss)), len(ss))
    if want:
        mon.check(orc.in_plane_orthotropic(ss), 'oracle-self-check', '')
    mon.sample('%s -> balanced %s' % (ss, want))


def make_param(rng, tier):
    angles = gen.angle_set(rng)
    n = int(rng.integers(2, 25))
    half = gen.raw_stack(rng, angles, n)
    sym = bool(rng.random() < 0.5)
    return {'ss': half + half[::-1] if sym else half, 'sym': sym,
            'mat': [float(rng.uniform(40e9, 200e9)), float(rng.uniform(4e9, 20e9)),
                    float(rng.uniform(2e9, 9e9)), float(rng.uniform(.1, .4))]}


def run_param(case, mon):
    from src.BELLA.materials import Material
    from src.guidelines.ipo_oopo import (
        ipo_param_1_6, ipo_param_7_12, ipo_param_1_12, calc_penalty_ipo_param)
    e1, e2, g, nu = case['mat']
    mat = Material(E11=e1, E22=e2, G12=g, nu12=nu)
    # stiffnesses by direct summation of the rotated ply stiffnesses
    nu21 = nu*e2/e1
    q = np.array([[e1, nu*e2, 0], [nu*e2, e2, 0], [0, 0, g*(1 - nu*nu21)]]) \
        / (1 - nu*nu21)
    n = len(case['ss'])
    abd = [np.zeros((3, 3)) for _ in range(3)]
    for k, a in enumerate(case['ss']):
        t = np.deg2rad(a)
        c, s = np.cos(t), np.sin(t)
        tr = np.array([[c*c, s*s, 2*c*s], [s*s, c*c, -2*c*s],
                       [-c*s, c*s, c*c - s*s]])
        r = np.diag([1., 1., 2.])
        qb = np.linalg.inv(tr) @ q @ r @ tr @ np.linalg.inv(r)
        z0, z1 = k/n - .5, (k + 1)/n - .5
        for m in range(3):
            abd[m] += qb*(z1**(m + 1) - z0**(m + 1))/(m + 1)
    a_, b_, d_ = abd
    lp = orc.lampam(case['ss'])
    comp = np.linalg.inv(a_ if case['sym'] else
                         a_ - b_ @ np.linalg.inv(d_) @ b_)
    want = []
    for m in (a_, comp):
        want += [m[0, 2]/m[0, 0], m[0, 2]/m[0, 1], m[0, 2]/m[2, 2],
                 m[1, 2]/m[0, 1], m[1, 2]/m[1, 1], m[1, 2]/m[2, 2]]
    want = np.abs(np.array(want))
    if abs(comp[0, 1]) < 1e-3*abs(comp[0, 0]) \
            or abs(a_[0, 1]) < 1e-3*abs(a_[0, 0]):
        mon.ev('ill_conditioned_skipped')
        return
    got = ipo_param_1_12(lp, mat, case['sym'])
    mon.ev('compliance_params_sym' if case['sym'] else 'compliance_params_asym')
    mon.sig('param', tuple(case['ss']), case['sym'])
    tol = dict(rtol=1e-5, atol=1e-6)
    mon.check(np.allclose(got, want, **tol), 'orthotropy-parameters',
              lambda: '%s: %s instead of %s' % (case, got, want))
    mon.check(np.allclose(ipo_param_1_6(lp, mat, case['sym']), want[:6], **tol),
              'orthotropy-parameters-1-6', lambda: str(case))
    mon.check(np.allclose(ipo_param_7_12(lp, mat, case['sym']), want[6:], **tol),
              'orthotropy-parameters-7-12', lambda: str(case))
    pen = calc_penalty_ipo_param(want, 0.01)
    mon.check(np.isclose(pen, want.max()/12), 'orthotropy-parameter-penalty',
              lambda: str(pen))


FAMILIES = [Family('stack', make_stack, run_stack, 3000, 60000),
            Family('param', make_param, run_param, 3000, 40000)]
