"""C04 10% rule: verdicts, penalties and ply counts are exact"""
from fractions import Fraction
import numpy as np
from vlib import gen, oracle as orc
from vlib.core import Family

ID = 'C04'
RULE = ('ply counts drawn around the required minima of random percentage '
        'sets, laid out in random order; verdicts from the stack, from a '
        'partly known stack with a ply queue (symmetric with or without '
        'middle ply, and asymmetric) and from ply counts; random lamination '
        'parameters around the boundary of the LP form of the rule. '
        'Non-trivial: at least one direction exactly at, or one ply below, '
        'its minimum')
REQUIRED = ['accepted', 'rejected', 'exactly_at_minimum', 'one_ply_below',
            'queue_sym_even', 'queue_sym_odd', 'queue_asym', 'by_counts',
            'equality_flags', 'lp_inside', 'lp_outside', 'penalty_zero',
            'penalty_positive', 'no_percentages']


def make(rng, tier):
    angles = gen.angle_set(rng)
    pct = gen.pct_spec(rng)
    if rng.random() < 0.2:
        pct = {k: (v + 0.5 if v else v) for k, v in pct.items()}
    if rng.random() < 0.05:
        pct = {k: 0 for k in pct}
    if rng.random() < 0.3:        # only some of the minima
        keep = rng.random()
        pct = {k: v if rng.random() < keep else 0 for k, v in pct.items()}
    n = gen.size(rng, 1, 60)
    if rng.random() < 0.3:
        n = int(gen.choice(rng, [10, 20, 30, 40, 50, 60, 80, 100]))
    spec = dict(rule_10_percent=True, **pct)
    eff = orc.ten_spec(spec)
    # counts around the minima
    ss = []
    need = {a: -(-int(Fraction(eff[a]).limit_denominator(1000)*n)//100)
            if eff[a] else 0 for a in (0, 45, 90, -45)}
    need = {a: -((-Fraction(eff[a]).limit_denominator(1000)*n)//100)
            for a in (0, 45, 90, -45)}
    pm = -((-Fraction(eff['pm']).limit_denominator(1000)*n)//100)
    for a in (0, 45, 90, -45):
        ss += [a]*max(0, int(need[a]) + int(gen.choice(rng, [0, 0, 0, 1, -1])))
    have = ss.count(45) + ss.count(-45)
    for _ in range(max(0, int(pm) - have + int(gen.choice(rng, [0, 0, 1, -1])))):
        ss.append(45 if rng.random() < .5 else -45)
    filler = angles if rng.random() < 0.5 else \
        ([a for a in angles if a not in (0, 90, 45, -45)] or [0, 90])
    while len(ss) < n:
        ss.append(int(gen.choice(rng, filler)))
    ss = [int(a) for a in rng.permutation(ss)[:n]]
    return {'ss': ss, 'spec': dict(spec, set_of_angles=angles),
            'known': [bool(v) for v in rng.random(n) < rng.random()],
            'sym': bool(rng.random() < .6), 'mid': int(gen.choice(rng, angles))}


def run(case, mon):
    from src.guidelines.ten_percent_rule import (
        is_ten_percent_rule, calc_penalty_10_ss, calc_penalty_10_pc,
        calc_n_plies_per_angle)
    spec = case['spec']
    eff = orc.ten_spec(spec)
    half = case['ss']
    sym = case['sym']
    cons = gen.bella(dict(spec, sym=sym))
    mid = case['mid'] if sym and len(half) % 3 == 0 else None
    ss = gen.mirror(half, mid) if sym else half
    arr = np.array(ss, int)
    n = len(ss)
    cnt = orc.counts(ss)
    want = orc.ten_ok(cnt, n, eff)
    got = is_ten_percent_rule(cons, stack=arr)
    mon.ev('accepted' if got else 'rejected')
    at = below = False
    for a in (0, 45, 90, -45, 'pm'):
        c = cnt.get(45, 0) + cnt.get(-45, 0) if a == 'pm' else cnt.get(a, 0)
        lim = Fraction(eff[a]).limit_denominator(1000)*n/100
        at |= eff[a] > 0 and c == lim
        below |= eff[a] > 0 and lim - 1 <= c < lim
    if at:
        mon.ev('exactly_at_minimum')
    if below:
        mon.ev('one_ply_below')
    if at or below:
        mon.sig(tuple(sorted(cnt.items())), str(sorted(eff.items(), key=str)))
    txt = lambda: 'stack %s, minima %s (%%)' % (ss, eff)
    mon.check(bool(got) == want, 'verdict-stack',
              lambda: '%s: reported %s' % (txt(), got))
    for e45 in (False, True):
        for e0 in (False, True):
            mon.ev('equality_flags')
            g = is_ten_percent_rule(cons, stack=arr, equality_45_135=e45,
                                    equality_0_90=e0)
            mon.check(bool(g) == orc.ten_ok(cnt, n, eff, e45, e0),
                      'verdict-equality', lambda: '%s e45=%s e0=%s: %s' % (
                          txt(), e45, e0, g))
    # partly known stack + queue of the remaining plies
    partial = arr.copy()
    queue = []
    for i, known in enumerate(case['known']):
        if not known:
            queue.append(int(arr[i]))
            partial[i] = 666
            if sym:
                partial[n - 1 - i] = 666
    mon.ev(('queue_sym_odd' if mid is not None else 'queue_sym_even')
           if sym else 'queue_asym')
    g = is_ten_percent_rule(cons, stack=partial, ply_queue=queue)
    mon.check(bool(g) == want, 'verdict-queue', lambda: '%s known %s queue %s: '
              '%s' % (txt(), list(partial), queue, g))
    # from ply counts
    per = np.zeros(len(spec['set_of_angles']))
    for a in ss:
        per[cons.ind_angles_dict[a]] += 1
    mon.ev('by_counts')
    g = is_ten_percent_rule(cons, n_plies_per_angle=per)
    mon.check(bool(g) == want, 'verdict-counts', lambda: '%s: %s' % (txt(), g))
    # penalties
    deficit = orc.ten_deficit(cnt, n, eff)
    p1 = calc_penalty_10_ss(arr, cons)
    p2 = calc_penalty_10_pc(per, cons)
    mon.ev('penalty_positive' if deficit > 1e-9 else 'penalty_zero')
    mon.check(np.isclose(p1, deficit, atol=1e-12), 'penalty-stack',
              lambda: '%s: %s instead of %s' % (txt(), p1, deficit))
    mon.check(np.isclose(p2, deficit, atol=1e-12), 'penalty-counts',
              lambda: '%s: %s instead of %s' % (txt(), p2, deficit))
    mon.check(want == (p1 < 1e-9), 'penalty-verdict', txt)
    other = ss[::-1][:max(1, n//2)]
    d2 = orc.ten_deficit(orc.counts(other), len(other), eff)
    pm = calc_penalty_10_ss([arr, np.array(other, int)], cons, mp=True)
    mon.check(np.allclose(pm, [deficit, d2]), 'penalty-many-stacks',
              lambda: '%s and %s: %s' % (txt(), other, pm))
    if not any(eff.values()):
        mon.ev('no_percentages')
    per2 = np.zeros(len(per))
    for a in other:
        per2[cons.ind_angles_dict[a]] += 1
    p3 = calc_penalty_10_pc(np.array([per, per2, 0*per]), cons, 2.5)
    mon.check(np.allclose(p3, [2.5*deficit, 2.5*d2, 0]), 'penalty-many-counts',
              lambda: '%s: %s' % (txt(), p3))
    p4 = calc_penalty_10_pc(per, cons, 2.5)
    mon.check(np.isclose(p4, 2.5*deficit, atol=1e-12), 'penalty-area',
              lambda: '%s: %s' % (txt(), p4))
    # counting
    ini = np.zeros(len(per))
    c = calc_n_plies_per_angle(ini, cons, 0, arr)
    mon.check((np.asarray(c)[0] == per).all(), 'ply-counts', txt)
    c = calc_n_plies_per_angle(ini + 1, cons, 1, np.array([ss, ss[::-1]]))
    for row, s in zip(np.asarray(c), (ss, ss[::-1])):
        w = per + 1
        w[cons.ind_angles_dict[s[-1]]] -= 0.5
        mon.check((row == w).all(), 'ply-counts-middle', lambda: '%s %s' % (
            txt(), row))
    c = calc_n_plies_per_angle(ini, cons, 0, np.array([ss, ss]),
                               np.array([other, arr[:len(other)]]))
    per3 = np.zeros(len(per))
    for a in ss[:len(other)]:
        per3[cons.ind_angles_dict[a]] += 1
    mon.check((np.asarray(c) == [per + per2, per + per3]).all(),
              'ply-counts-two', txt)
    mon.sample('%s: %s' % (txt(), got))


def make_lp(rng, tier):
    p = float(gen.choice(rng, [10, 5, 0, 20, float(rng.uniform(0, 24))]))
    a = 1 - 4*p/100
    kind = int(rng.integers(3))
    if kind == 0:
        lp = [float(rng.uniform(-1, 1)), float(rng.uniform(-1, 1))]
    else:
        # a point close to the boundary, either side
        x = float(rng.uniform(-1.05*a, 1.05*a))
        y = 2*x*x/a - a if kind == 1 else a
        s = 10**float(rng.uniform(-3.5, -0.5))
        lp = [x + s*float(rng.normal()), y + s*float(rng.normal())]
    return {'lp': lp, 'p': p}


def run_lp(case, mon):
    from src.guidelines.ten_percent_rule import (
        is_ten_percent_rule, calc_penalty_10_ss)
    from src.guidelines.ten_percent_rule_Abdalla import calc_distance_Abdalla
    cons = gen.bella(dict(rule_10_percent=True, rule_10_Abdalla=True,
                          percent_Abdalla=case['p']))
    lp1, lp2 = case['lp']
    m = orc.abdalla_margin(lp1, lp2, case['p']/100)
    if abs(m) < 1e-9:
        return
    lps = np.array([lp1, lp2] + [0.]*10)
    got = is_ten_percent_rule(cons, stack=np.array([0, 90]), LPs=lps)
    mon.ev('lp_inside' if m > 0 else 'lp_outside')
    mon.sig('lp', round(lp1, 3), round(lp2, 3), case['p'])
    mon.check(bool(got) == (m > 0), 'lp-verdict', lambda: '%s margin %g: %s' % (
        case, m, got))
    dist = calc_distance_Abdalla(lps, cons, num=2000)
    want = orc.abdalla_distance(lp1, lp2, case['p']/100)
    mon.check((dist == 0) == (m > 0), 'lp-distance-zero',
              lambda: '%s margin %g: distance %s' % (case, m, dist))
    # the distance is taken to a sampled boundary: from above, up to the pitch
    mon.check(want - 1e-9 <= dist <= want + 5e-3, 'lp-distance',
              lambda: '%s: %s instead of %s' % (case, dist, want))
    if lp1 > 0.9:
        pen = calc_penalty_10_ss(None, cons, LPs=lps)
        mon.check(want - 1e-9 <= pen <= want + 1e-3, 'lp-penalty', lambda: str(
            (case, pen, want)))
        pens = calc_penalty_10_ss(None, cons, LPs=[lps, 0*lps], mp=True)
        mon.check(np.allclose(pens, [pen, 0]), 'lp-penalty-many',
                  lambda: str((case, pens)))


FAMILIES = [Family('stack', make, run, 5000, 100000),
            Family('lp', make_lp, run_lp, 1200, 20000)]
