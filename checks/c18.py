"""C18 repair for membrane properties"""
from fractions import Fraction
import numpy as np
from vlib import gen, oracle
from vlib.core import Family
from checks import c16

ID = 'C18'
RULE = ('stacks satisfying the rules (made so by the repair for balance and '
        '10% rule), with and without queue, random targets and coefficients, '
        'any proportion of modifiable plies, symmetric or not, percentages or '
        'lamination-parameter form. Non-trivial: at least one ply changed')
REQUIRED = ['bal_changed', 'single_changed', 'abdalla_bal_changed',
            'abdalla_single_changed', 'unchanged', 'switch_off', 'no_coeff',
            'queue', 'middle_ply', 'asymmetric', 'surface_plies', 'outer_kept',
            'local_optimum', 'last_swap', 'pm_rule', 'partial']
BUDGET = 10_000_000
setup = c16.setup


def make(rng, tier):
    if rng.random() < .25:
        case = c16.make_abd(rng, tier)
    else:
        case = c16.make(rng, tier)
        if rng.random() < .4:
            case['spec']['bal'] = False
    spec, n = case['spec'], len(case['ss'])
    if spec['sym'] and n % 2 and case['ss'][n//2] not in (0, 90) and (
            spec['bal'] or rng.random() < .3):
        case['ss'][n//2] = 0
    angled = rng.random() < .06
    if angled:      # angled middle ply, minima at +-45
        n = 2*int(rng.integers(4, 20)) + 1
        spec.update(sym=True, bal=False, rule_10_percent=True,
                    percent_0=float(gen.choice(rng, [0, 5])), percent_90=0.,
                    percent_45=200*int(rng.integers(1, n//6 + 1))/n,
                    percent_135=200*int(rng.integers(0, n//6 + 1))/n,
                    percent_45_135=0.)
        spec.pop('rule_10_Abdalla', None)
        case['ss'] = gen.mirror(c16.stack(rng, spec, n//2),
                                int(gen.choice(rng, [45, -45])))
    ss = case['ss']
    if spec['dam_tol'] and n > 5:
        a, b = (int(gen.choice(rng, [45, -45])) for _ in range(2))
        ss[0], ss[-1] = a, (a if spec['sym'] else b)
        if spec['dam_tol_rule'] > 1:
            ss[1], ss[-2] = -ss[0], -ss[-1]
    angles = spec['set_of_angles']
    r = rng.random()
    if r < .5:      # a stack of the same size
        target = oracle.lampam([int(gen.choice(rng, angles))
                                for _ in range(n)])
    else:           # a few fibre directions
        target = oracle.lampam([int(gen.choice(rng, angles)) for _ in range(
            int(rng.integers(1, 4)))])
    if angled and rng.random() < .7:
        target = oracle.lampam([int(gen.choice(rng, [0, 90, -45, 45]))])
    coeffs = gen.choice(rng, [[1, 1, 0, 0], [.5, .5, 0, 0], [1, 0, 0, 0],
                              [0, 1, 0, 0], [.25]*4, [.1, .6, .3, 0],
                              [0, 0, .5, .5], [0]*4])
    size = float(gen.choice(rng, [1, 1, 1, 1, 1, 1, .004, 30]))
    if rng.random() < .1:
        spec['rule_10_percent'] = False
    hide = int(rng.integers(0, max(1, n//(4 if spec['sym'] else 3)))) \
        if rng.random() < .4 else 0
    return dict(case, target=[float(v) for v in target], coeffs=[c*size for c in coeffs],
                p_A=float(gen.choice(rng, [100, 100, 100, 80, 70, 50, 33, 0])),
                switch=bool(rng.random() < .93), hide=hide,
                mp=bool(rng.random() < .3))


class Par:
    def __init__(self, p_A, switch):
        self.p_A, self.repair_membrane_switch = p_A, switch


class MP:
    pass


def dist(lp, case):
    return sum(c*(a - b)**2 for c, a, b in zip(
        case['coeffs'], lp[:4], case['target'][:4]))


def positions(case, n):
    """modifiable positions (one per pair), innermost first"""
    import math
    spec = case['spec']
    dt = (1 if spec['dam_tol_rule'] == 1 else 2) if spec['dam_tol'] else 0
    depth = max(dt, math.floor((1 - case['p_A']/100)*(n/2)))
    order = c16.inner_first(n, spec['sym'])[::-1]
    return [i for i in order if depth <= i < n - depth], depth, dt


def step(case, old, new, mon, info):
    """one change: which plies, and from which depth"""
    spec, n = case['spec'], len(old[0])
    pos, depth, dt = positions(case, n)
    ss0, q0 = old
    ss1, q1 = new
    changed = [i for i in range(n) if ss0[i] != ss1[i]]
    mon.ev('outer_kept', bool(depth))
    mon.ev('surface_plies', bool(dt))
    mon.check(all(depth <= i < n - depth for i in changed), 'outer-plies',
              info)
    mon.check([v == 666 for v in ss0] == [v == 666 for v in ss1] and
              len(q0) == len(q1), 'queue-size', info)
    # innermost plies of their orientation first
    gone = {}
    for i in pos:
        if ss0[i] != ss1[i]:
            gone.setdefault(ss0[i], []).append(i)
    for a, where in gone.items():
        rest = [i for i in pos if ss0[i] == a == ss1[i]]
        deep = lambda i: min(i, n - 1 - i)
        mon.check(all(deep(i) <= deep(j) for i in rest for j in where) and
                  min(q1.count(a), q0.count(a)) == 0, 'innermost-first', info)
    k = 2 if spec['sym'] else 1
    return len(set(changed))//k + sum(
        max(0, q0.count(a) - q1.count(a)) for a in set(q0))


def enough(case, cnt, n):
    spec = case['spec']
    if not spec['rule_10_percent']:
        return True
    p = c16.percent(spec)
    eps = Fraction(1, 10**6)
    ok = lambda have, f: f == 0 or have >= f*n + (eps if have != f*n or True
                                                  else 0)
    return all(ok(cnt.get(a, 0), p[a]) for a in (0, 90, 45, -45)) and \
        ok(cnt.get(45, 0) + cnt.get(-45, 0), p['pm'])


def moves(case, ss, queue, pairs):
    """objectives of all the permitted changes"""
    spec, n = case['spec'], len(ss)
    sym, angles = spec['sym'], spec['set_of_angles']
    k = 2 if sym else 1
    pos, _, _ = positions(case, n)
    have = {a: queue.count(a) + sum(ss[i] == a for i in pos) for a in angles}
    full = c16.completed(ss, queue, sym)
    cnt = {a: full.count(a) for a in angles}
    lp = oracle.lampam(full)[:4]
    couple = lambda a: (a, a) if a in (0, 90) else (a, -a)
    abd = spec['rule_10_percent'] and spec.get('rule_10_Abdalla')
    src = [a for a in angles if a >= 0] if pairs == 'couples' else (
        [0, 90] if pairs == 'swap' else angles)
    for a in src:
        out = couple(a) if pairs == 'couples' else (a,)
        if any(have[v] < out.count(v) for v in out):
            continue
        for b in src:
            if b == a:
                continue
            into = couple(b) if pairs == 'couples' else (b,)
            new = dict(cnt)
            for v in out:
                new[v] -= k
            for v in into:
                new[v] += k
            d = [lp[j] + k/n*(sum(oracle_cs(v)[j] for v in into) -
                              sum(oracle_cs(v)[j] for v in out))
                 for j in range(4)]
            if abd:
                if oracle.abdalla_margin(
                        d[0], d[1], spec['percent_Abdalla']/100) < 1e-6:
                    continue
            elif not all(new[v] >= cnt[v] or v not in (0, 90, 45, -45)
                         for v in new) and not enough(case, new, n):
                continue
            yield dist(d, case), a, b


def oracle_cs(a):
    return oracle.lampam([a])[:4]


def run(case, mon):
    from src.RELAY.repair_10_bal import repair_10_bal, calc_mini_10
    from src.RELAY.repair_membrane import repair_membrane
    spec = case['spec']
    cons = gen.bella(spec)
    n, sym = len(case['ss']), spec['sym']
    k = 2 if sym else 1
    mini = calc_mini_10(cons, n)
    ss, queue = repair_10_bal(np.array(case['ss'], int), mini, cons)
    ss, queue = np.array(ss, int), [int(a) for a in queue]
    if case['hide'] and not queue:
        # innermost plies (pairs) still undetermined
        pos = c16.inner_first(n, sym)[::-1]
        pos = [i for i in pos if not (sym and i == n - 1 - i)][:case['hide']]
        for i in pos:
            queue.append(int(ss[i]))
            ss[i] = 666
            if sym:
                ss[n - 1 - i] = 666
    full = c16.completed(ss, queue, sym)
    p10 = spec['rule_10_percent']
    abd = p10 and spec.get('rule_10_Abdalla')
    if (spec['bal'] and not oracle.balanced(full)) or (
            p10 and not abd and not oracle.ten_ok(
                oracle.counts(full), n, oracle.ten_spec(spec))):
        mon.ev('infeasible_skipped')
        return
    if abd:
        lp = oracle.lampam(full)
        if oracle.abdalla_distance(lp[0], lp[1],
                                   spec['percent_Abdalla']/100) > 1e-9:
            mon.ev('infeasible_skipped')
            return
    req = c16.need(spec, n)
    if req[0] + req[1] + req[4] > (n//2 if sym else n):
        mon.ev('infeasible_skipped')
        return
    start = (ss.tolist(), list(queue))
    mon.ev('queue', bool(queue))
    mon.ev('middle_ply', bool(sym and n % 2))
    mon.ev('asymmetric', not sym)
    mon.ev('partial', case['p_A'] < 100)
    par = Par(case['p_A'], case['switch'])
    args = (ss, queue, mini, np.array(case['coeffs'], float), cons, par)
    if case['mp']:
        out = repair_membrane(*args, obj_func_param=None, multipanel=MP(),
                              lampam_target=np.array(case['target']))
    else:
        out = repair_membrane(*args, lampam_target=np.array(case['target']))
    sss, queues, lps = out
    sss = [[int(a) for a in s] for s in sss]
    queues = [[int(a) for a in q] for q in queues]
    info = lambda: '%s %s start %s -> %s %s %s' % (
        gen.tag(spec), {a: b for a, b in case.items() if a != 'spec'}, start,
        sss[:3], queues[:3], [list(v) for v in lps[:3]])
    mon.check(ss.tolist() == start[0] and queue == start[1],
              'arguments-altered', info)
    if not mon.check(len(sss) == len(queues) == len(lps) >= 1, 'lists', info):
        return
    mon.check(sss[-1] == start[0] and sorted(queues[-1]) == sorted(start[1]),
              'last-is-input', info)
    off = not case['switch'] or not any(case['coeffs'])
    if off:
        mon.ev('no_coeff' if case['switch'] else 'switch_off')
        mon.check(len(sss) == 1, 'disabled-repair-changes-plies', info)
    objs, broken_start = [], spec['bal']
    for i, (s, q, lp) in enumerate(zip(sss, queues, lps)):
        if not c16.judge(dict(case, ss=start[0]), s, q, mon, info):
            return
        full = c16.completed(s, q, sym)
        got = oracle.lampam(full)[:4]
        mon.check(np.allclose(lp, got, atol=1e-9), 'lampam-of-entry',
                  lambda: 'entry %d %s instead of %s; %s' % (
                      i, list(lp), list(got), info()))
        objs.append(dist(got, case))
        if spec['bal']:
            mon.check(oracle.balanced(full), 'balance', info)
        if abd:
            mon.check(oracle.abdalla_distance(
                got[0], got[1], spec['percent_Abdalla']/100) <= 1e-9,
                'abdalla-region', info)
        elif p10:
            mon.ev('pm_rule', c16.percent(spec)['pm'] > 0)
            mon.check(oracle.ten_ok(oracle.counts(full), n,
                                    oracle.ten_spec(spec)), 'ten-percent',
                      lambda: 'entry %d %s' % (i, info()))
    mon.check(all(a <= b + 1e-12 for a, b in zip(objs, objs[1:])),
              'best-first', lambda: '%s %s' % (objs, info()))
    size = [step(case, (sss[i + 1], queues[i + 1]), (sss[i], queues[i]), mon,
                 info) for i in range(len(sss) - 1)]
    if off:
        return
    if len(sss) == 1:
        mon.ev('unchanged')
    else:
        mon.sig(case)
        mon.ev('%s%s_changed' % ('abdalla_' if abd else '',
                                 'bal' if spec['bal'] else 'single'))
    # no permitted change improves the result
    if spec['bal']:
        mon.check(all(v == 2 for v in size[1:]) and
                  (not size or size[0] in (1, 2)), 'steps', info)
        last = bool(size) and size[0] == 1
        mon.ev('last_swap', last)
        at = int(last)
        kinds = [('couples', at)] + ([] if last else [('swap', 0)])
    else:
        mon.check(all(v == 1 for v in size), 'steps', info)
        kinds = [('singles', 0)]
    for kind, at in kinds:
        if objs[at] <= 2e-10:
            continue
        best = min(moves(case, sss[at], queues[at], kind), default=None)
        if best:
            mon.ev('local_optimum')
            mon.check(best[0] >= objs[at] - 1e-9*max(1, max(case['coeffs'])),
                      'improvement-missed',
                      lambda: '%s gives %s instead of %s; %s' % (
                          best[1:], best[0], objs[at], info()))


def make_chain(rng, tier):
    """many close orientations and a tight lamination-parameter form of the
    10% rule: the same plies change more than once"""
    while True:
        case = make(rng, tier)
        if case['spec']['rule_10_percent'] and \
                case['spec'].get('rule_10_Abdalla'):
            break
    spec = case['spec']
    near = sorted(int(a) for a in rng.choice(range(25, 66), 4, replace=False))
    near = [a for a in near if a != 45] + [45]
    angles = [0, 90] + near + [-a for a in near]
    sym = bool(rng.random() < .8)
    n = int(rng.integers(10, 61))
    spec.update(sym=sym, bal=True, dam_tol=False, set_of_angles=angles,
                percent_Abdalla=int(gen.choice(rng, [10, 12, 15, 20])))
    half = c16.stack(rng, spec, n//2 if sym else n)
    case['ss'] = [int(a) for a in (
        gen.mirror(half, int(gen.choice(rng, [0, 90])) if n % 2 else None)
        if sym else half)]
    few = [int(a) for a in rng.choice(angles, 2)]
    case.update(p_A=100., switch=True, target=[float(v) for v in oracle.lampam(
        [int(gen.choice(rng, few)) for _ in range(3)])],
        coeffs=gen.choice(rng, [[1, 1, 0, 0], [.5, .5, 0, 0], [.25]*4,
                                [1, .2, 0, 0], [.2, 1, 0, 0]]))
    return case


FAMILIES = [Family('repair', make, run, 5000, 60000),
            Family('chain', make_chain, run, 1000, 20000)]
