"""C02 disorientation rule: verdicts and violation counts are exact"""
import numpy as np
from vlib import gen, oracle as orc
from vlib.core import Family

ID = 'C02'
RULE = ('ply pairs: every fibre angle of (-90, 90] against random others and '
        'limits; stacks: 2-50 plies, random or grown to respect the rule, some '
        'with one planted violation, with each damage-tolerance variant; '
        'incremental counts: laminates grown level by level, with ply drops. '
        'Non-trivial: the verdict hinges on at most two interfaces')
REQUIRED = ['pairs_ok', 'pairs_bad', 'pairs_at_limit', 'stack_ok', 'stack_bad',
            'stack_exempt_pair', 'damtol1_stacks', 'incremental_totals',
            'multi_panel']


def make_pair(rng, tier):
    return {'a': int(rng.integers(-89, 91)),
            'others': [int(v) for v in rng.integers(-89, 91, 25)],
            'deltas': [30, 45, 60, int(rng.integers(1, 90))]}


def run_pair(case, mon):
    from src.guidelines.disorientation import is_diso
    a = case['a']
    near = [((a + s*d + 89) % 180) - 89 for d in case['deltas'] for s in (1, -1)]
    near = [90 if v == -90 else v for v in near]
    for b in case['others'] + near:
        for d in case['deltas']:
            gap = orc.ang_gap(a, b)
            want = gap <= d
            got = bool(is_diso(a, b, d))
            if gap == d:
                mon.ev('pairs_at_limit')
            mon.ev('pairs_ok' if got else 'pairs_bad')
            mon.sig('pair', a, b, d)
            mon.check(got == want, 'pair', lambda: 'plies %d, %d limit %d: '
                      'gap %d, reported %s' % (a, b, d, gap, got))


def make_stack(rng, tier):
    angles = gen.angle_set(rng)
    delta = gen.delta(rng)
    rule = int(rng.integers(0, 4))
    n = gen.size(rng, 2, 50)
    if rng.random() < 0.35:
        ss = gen.raw_stack(rng, angles, n)
    else:
        ss = gen.smooth_stack(rng, angles, n, delta, 9)
        if rng.random() < 0.5:
            # one ply changed, anywhere, with a bias to the ends and the middle
            pos = int(gen.choice(rng, [0, 1, 2, n//2, n - 1, n - 2, n - 3,
                                       int(rng.integers(n))])) % n
            ss[pos] = int(gen.choice(rng, angles))
    if rule and n >= 4 and rng.random() < 0.8:
        s = [45, -45] if rng.random() < .5 else [-45, 45]
        if rule == 3 and rng.random() < .5:
            s = [s[0]]*2
        ss = s + ss[2:-2] + s[::-1]
    return {'ss': ss, 'delta': delta, 'rule': rule}


def run_stack(case, mon):
    from src.guidelines.disorientation import (
        is_diso_ss, calc_n_penalty_diso_ss, calc_number_violations_diso_mp)
    ss, delta, rule = case['ss'], case['delta'], case['rule']
    arr = np.array(ss, int)
    two = rule in (2, 3)
    bad = orc.diso_pairs(ss, delta)
    want = orc.diso_ok(ss, delta, two)
    if rule:
        got = is_diso_ss(arr, delta, dam_tol=True, dam_tol_rule=rule)
        got2 = is_diso_ss(arr, delta, dam_tol=True,
                          n_plies_dam_tol=2 if two else 1)
        mon.check(bool(got2) == want, 'stack-by-ply-number%d' % (2 if two else 1),
                  lambda: 'stack %s limit %d, %d damage-tolerance plies: '
                  'reported %s' % (ss, delta, 2 if two else 1, got2))
    else:
        got = is_diso_ss(arr, delta)
    if rule == 1:
        mon.ev('damtol1_stacks')
    if two and want and bad:
        mon.ev('stack_exempt_pair')
    if len(bad) <= 2:
        mon.sig('ss', tuple(ss), delta, rule)
    mon.ev('stack_ok' if got else 'stack_bad')
    mon.check(bool(got) == want, 'stack-damtol%d' % rule,
              lambda: 'stack %s limit %d damage tolerance rule %d: bad '
              'interfaces %s, reported %s' % (ss, delta, rule, bad, got))
    cons = gen.bella(dict(diso=True, delta_angle=delta, dam_tol=rule > 0,
                          dam_tol_rule=rule or 2))
    if len(ss) >= 4:
        n_bad = len(orc.diso_pairs(ss[1:-1] if two else ss, delta))
        n = calc_n_penalty_diso_ss(arr, cons)
        mon.check(int(n) == n_bad, 'count', lambda: 'stack %s limit %d rule %d:'
                  ' %d violations, counted %s' % (ss, delta, rule, n_bad, n))
        other = ss[::-1][:max(4, len(ss)//2)]
        tot = calc_number_violations_diso_mp(
            [arr, np.array(other, int)], cons)
        mon.ev('multi_panel')
        mon.check([int(v) for v in tot] == [n_bad, len(orc.diso_pairs(
            other[1:-1] if two else other, delta))], 'count-multi-panel',
            lambda: '%s %s rule %d: %s' % (ss, other, rule, tot))
    mon.sample('limit %d, damage tolerance rule %d, %s -> %s' % (
        delta, rule, ss, got))


def make_grow(rng, tier):
    angles = gen.angle_set(rng)
    large = rng.random() < .05
    n_levels = int(rng.integers(3, 60 if large else 14))
    n_panels = int(rng.integers(1, 13 if large else 5))
    pdl = []
    for p in range(n_panels):
        drop = set() if p == 0 else set(
            int(v) for v in rng.choice(
                n_levels, int(rng.integers(0, max(1, n_levels - 2))),
                replace=False)) - {0, 1}
        pdl.append([-1 if i in drop else i for i in range(n_levels)])
    return {'angles': [int(gen.choice(rng, angles)) for _ in range(n_levels)],
            'pdl': pdl, 'sym': bool(rng.random() < .5),
            'delta': gen.delta(rng)}


def run_grow(case, mon):
    """plies added one level at a time (bottom, and top for asymmetric
    laminates): the running counts must add up to the count of the laminate"""
    from src.guidelines.disorientation import (
        calc_n_viola_diso, calc_number_violations_diso_mp)
    sym, delta = case['sym'], case['delta']
    cons = gen.bella(dict(sym=sym, diso=True, delta_angle=delta))
    pdl = np.array(case['pdl'])
    n_p, n_l = pdl.shape
    bot = [np.array((), int) for _ in range(n_p)]
    top = [np.array((), int) for _ in range(n_p)]
    total = np.zeros(n_p, int)
    for lev, ang in enumerate(case['angles']):
        last = lev == n_l - 1
        given = np.array(total)
        mine = [np.array(s) for s in bot + top]
        mother = total
        total = calc_n_viola_diso(
            total, bot, np.array([ang]), lev, n_p, n_l, pdl, cons,
            mother_ss_top=top, last_level=last and not sym)
        mon.check(np.array_equal(mother, given) and all(
            np.array_equal(a, b) for a, b in zip(bot + top, mine)),
                  'parent-altered', lambda: '%s level %d' % (case, lev))
        for p in range(n_p):
            if pdl[p, lev] >= 0:
                if sym or lev % 2 == 0:
                    bot[p] = np.append(bot[p], ang)
                else:
                    top[p] = np.insert(top[p], 0, ang)
    full = [np.hstack((b, b[::-1])) if sym else np.hstack((b, t))
            for b, t in zip(bot, top)]
    want = [len(orc.diso_pairs(list(s), delta)) for s in full]
    mon.ev('incremental_totals')
    mon.sig('grow', str(case))
    mon.check([int(v) for v in total] == want, 'incremental-count',
              lambda: '%s: laminates %s have %s violations, running count %s'
              % (case, [list(f) for f in full], want, total))
    direct = calc_number_violations_diso_mp([np.array(f) for f in full], cons)
    mon.check([int(v) for v in direct] == want, 'count-multi-panel',
              lambda: '%s %s' % (direct, want))


FAMILIES = [Family('pair', make_pair, run_pair, 2500, 30000),
            Family('stack', make_stack, run_stack, 20000, 300000),
            Family('grow', make_grow, run_grow, 4000, 60000)]
