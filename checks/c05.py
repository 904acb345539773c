"""C05 damage tolerance: verdict exact for the three variants of the rule"""
import itertools
import numpy as np
from vlib import gen, oracle as orc
from vlib.core import Family

ID = 'C05'
RULE = ('exhaustive: every combination of the two plies at each surface drawn '
        'from the angle set, around random cores, x 3 rules (by rule number '
        'and by number of damage-tolerance plies); random longer stacks. '
        'Non-trivial: at least three of the four surface plies at +-45')
REQUIRED = ['accepted', 'rejected', 'rule1', 'rule2', 'rule3', 'inactive',
            'by_ply_number', 'thin']


class ByNumber:
    """constraint set of the RELAY style: number of damage-tolerance plies"""
    dam_tol = True

    def __init__(self, n):
        self.n_plies_dam_tol = n


def make(rng, tier):
    angles = gen.angle_set(rng)
    n = gen.size(rng, 0, 30)
    if rng.random() < .1:
        n = -int(rng.integers(1, 3))      # 2 or 3 plies
    return {'short': max(0, -n), 'sym': bool(rng.random() < .5),
            'core': gen.raw_stack(rng, angles, n) if n > 0 else [],
            'angles': angles if len(angles) < 7 else
            [0, 45, -45, 90, int(gen.choice(rng, angles)), 60]}


def run(case, mon):
    from src.guidelines.dam_tol import is_dam_tol
    conss = {r: gen.bella(dict(
        dam_tol=True, dam_tol_rule=r, sym=case['sym'])) for r in (1, 2, 3)}
    layla = {r: gen.layla(dict(
        dam_tol=True, dam_tol_rule=r, sym=case['sym'])) for r in (1, 2, 3)}
    off = gen.bella(dict(dam_tol=False))
    angles = list(dict.fromkeys(case['angles']))
    for four in itertools.product(angles, repeat=4):
        ss = [four[0], four[1]] + case['core'] + [four[2], four[3]]
        if case['short']:
            mon.ev('thin')
            ss = ss[case['short']:]
        arr = np.array(ss, int)
        if sum(abs(a) == 45 for a in four) >= 3:
            mon.sig(four, tuple(case['core'][:1] + case['core'][-1:]))
        for r in (1, 2, 3):
            want = orc.damtol_ok(ss, r)
            for cons in (conss[r], layla[r]):
                got = is_dam_tol(arr, cons)
                mon.ev('rule%d' % r)
                mon.ev('accepted' if got else 'rejected')
                mon.check(bool(got) == want, 'rule%d' % r, lambda: 'stack %s '
                          'rule %d reported %s' % (ss, r, got))
        for k in (1, 2):
            got = is_dam_tol(arr, ByNumber(k))
            mon.ev('by_ply_number')
            mon.check(bool(got) == orc.damtol_ok(ss, k), 'plies%d' % k,
                      lambda: 'stack %s, %d plies: %s' % (ss, k, got))
        mon.ev('inactive')
        mon.check(is_dam_tol(arr, off) is True, 'inactive',
                  lambda: 'rule not requested but refused: %s' % ss)
    mon.sample('core %s, all surface pairs of %s' % (case['core'], angles))


def make_long(rng, tier):
    angles = gen.angle_set(rng)
    ss = gen.raw_stack(rng, angles, gen.size(rng, 4, 90))
    for i in (0, 1, -1, -2):
        if rng.random() < 0.8:
            ss[i] = 45 if rng.random() < .5 else -45
    return {'ss': ss}


def run_long(case, mon):
    from src.guidelines.dam_tol import is_dam_tol
    ss = case['ss']
    for r in (1, 2, 3):
        cons = gen.bella(dict(dam_tol=True, dam_tol_rule=r))
        want = orc.damtol_ok(ss, r)
        for dtype in (int, float):
            got = is_dam_tol(np.array(ss, dtype), cons)
            mon.check(bool(got) == want, 'rule%d' % r, lambda: 'stack %s rule '
                      '%d reported %s' % (ss, r, got))
    mon.sig('long', tuple(ss[:2] + ss[-2:]), len(ss))


FAMILIES = [Family('surfaces', make, run, 24, 800),
            Family('long', make_long, run_long, 4000, 60000)]
