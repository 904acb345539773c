"""C16 repair for balance and the 10% rule"""
import math
from fractions import Fraction
import numpy as np
from vlib import gen, oracle
from vlib.core import Family

ID = 'C16'
RULE = ('random stacks (uniform, runs, few angles, nearly feasible), symmetric '
        'with and without middle ply or asymmetric, every combination of '
        'balance and 10% rule (ply percentages or lamination parameters). '
        'Non-trivial: the stack had to be repaired')
REQUIRED = ['counts_repaired', 'counts_untouched', 'no_rule', 'middle_ply',
            'asymmetric', 'abdalla_bal_repaired', 'abdalla_repaired',
            'abdalla_untouched', 'abdalla_small', 'mini_exact', 'mini_sufficient',
            'infeasible_skipped', 'queue_lampam', 'abdalla_search_changed']
BUDGET = 20_000_000


def setup():
    """the distance to the region samples its boundary; 300 points instead of
    10000 (which choice is made may differ, where the loop ends may not)"""
    import inspect
    from src.guidelines import ten_percent_rule_Abdalla as mod
    par = inspect.signature(mod.calc_distance_Abdalla).parameters
    if 'num' in par and mod.calc_distance_Abdalla.__defaults__ == (10000,):
        mod.calc_distance_Abdalla.__defaults__ = (300,)


def percent(spec):
    """minimum fractions: the +-45 total and each direction"""
    pct = oracle.ten_spec(spec)
    return {k: Fraction(v).limit_denominator(10**6)/100
            for k, v in pct.items()}


def need(spec, n):
    """plies (asymmetric) or pairs (symmetric) that the rules require at least,
    rounded up direction by direction: 0, 90, 45, -45, total of +-45"""
    p = percent(spec)
    up = lambda f: math.ceil(f*n)
    n0, n90, n45, n135, tot = (up(p[k]) for k in (0, 90, 45, -45, 'pm'))
    if spec.get('sym'):
        n0, n90, n45, n135, tot = (-(-v//2) for v in (n0, n90, n45, n135, tot))
    if spec.get('bal'):
        n45 = n135 = max(n45, n135, -(-tot//2))
        tot = 2*n45
    return n0, n90, n45, n135, max(tot, n45 + n135)


def make(rng, tier):
    spec = gen.con_spec(rng, oopo=False, diso=False, contig=False)
    if rng.random() < .8:
        spec['bal'] = True
    n = int(rng.integers(2, 61))
    if spec['rule_10_percent'] and not spec.get('rule_10_Abdalla') \
            and rng.random() < .15:
        # minima that are whole numbers of plies, up to rounding
        k = int(rng.integers(1, max(n//3, 1) + 1))
        spec['percent_' + gen.choice(rng, ['0', '90', '45_135'])] = \
            100*k/n if rng.random() < .7 else 28
        if n > 20 and rng.random() < .5:
            n = int(gen.choice(rng, [25, 50]))
    if spec['sym']:
        half = stack(rng, spec, n//2)
        ss = gen.mirror(half, int(gen.choice(
            rng, [0, 90, 45, 30 if 30 in spec['set_of_angles'] else 0]))
            if n % 2 else None)
    else:
        ss = stack(rng, spec, n)
    return {'spec': spec, 'ss': [int(a) for a in ss]}


def stack(rng, spec, n):
    """random, or close to balanced with every direction"""
    angles = spec['set_of_angles']
    if n < 2 or rng.random() < .5:
        return gen.raw_stack(rng, angles, n)
    out = []
    while len(out) < n - 1:
        a = int(gen.choice(rng, angles))
        out += [a, a if a in (0, 90) else -a]
    while len(out) < n:
        out.append(int(gen.choice(rng, [0, 90])))
    out = [out[int(i)] for i in rng.permutation(n)][:n]
    if rng.random() < .5:
        out = gen.mutate(rng, out, angles, int(rng.integers(1, 4)))
    return out


def inner_first(n, sym):
    """positions (one per pair), from the outside to the inside; for asymmetric
    laminates the two sides alternate"""
    if sym:
        return list(range(n//2))
    out = []
    for i in range(n//2):
        out += [n - 1 - i, i]
    if n % 2:
        out.append(n//2)
    return out


def completed(ss, queue, sym):
    k = 2 if sym else 1
    return [int(a) for a in ss if a != 666] + [int(a) for a in queue]*k


def judge(case, ss, queue, mon, info):
    """structure of the repaired laminate; False when hopeless"""
    spec, old = case['spec'], case['ss']
    sym = spec['sym']
    n = len(old)
    ss = [int(a) for a in ss]
    ok = mon.check(len(ss) == n, 'size', info)
    free = ss.count(666)
    ok &= mon.check(free == len(queue)*(2 if sym else 1), 'queue-size', info)
    ok &= mon.check(set(int(a) for a in queue) <= set(spec['set_of_angles']) and
                    set(ss) <= set(spec['set_of_angles']) | {666},
                    'allowed-orientations', info)
    if sym:
        ok &= mon.check(ss == ss[::-1], 'symmetry', info)
        if n % 2:
            mon.check(ss[n//2] != 666, 'middle-ply', info)
    return ok


def run(case, mon):
    from src.RELAY.repair_10_bal import (repair_10_bal, calc_mini_10,
                                         calc_lampamA_ply_queue)
    spec, old = case['spec'], list(case['ss'])
    cons = gen.bella(spec)
    n, sym = len(old), spec['sym']
    arr = np.array(old, int)
    before = arr.copy()
    mini = calc_mini_10(cons, n)
    check_mini(spec, n, mini, cons, mon)
    ss, queue = repair_10_bal(arr, mini, cons)
    info = lambda: '%s %s -> %s queue %s' % (
        gen.tag(spec), case, list(map(int, ss)), list(map(int, queue)))
    mon.check((arr == before).all(), 'arguments-altered', info)
    rules = bool(spec['bal'] or spec['rule_10_percent'])
    if not rules:
        mon.ev('no_rule')
        mon.check(list(map(int, ss)) == old and not queue, 'untouched', info)
        return
    req = need(spec, n)
    slots = n//2 if sym else n
    if req[0] + req[1] + req[4] > slots:
        mon.ev('infeasible_skipped')
        return
    if not judge(case, ss, queue, mon, info):
        return
    if not sym:
        mon.ev('asymmetric')
    elif n % 2:
        mon.ev('middle_ply')
        mid = old[n//2]
        mon.check(int(ss[n//2]) == (mid if mid in (0, 90) else 0)
                  or (mid not in (0, 90) and int(ss[n//2]) in (0, 90)),
                  'middle-ply', info)
    full = completed(ss, queue, sym)
    if spec['bal']:
        mon.check(oracle.balanced(full), 'balance', info)
    if spec['rule_10_percent']:
        mon.check(oracle.ten_ok(oracle.counts(full), n, oracle.ten_spec(spec)),
                  'ten-percent', info)
    # minimal change: the plies kept are the outermost ones
    order = inner_first(n, sym)
    known = [int(ss[i]) != 666 for i in order]
    mon.check(known == sorted(known, reverse=True), 'innermost-changed', info)
    mon.check(all(int(ss[i]) == old[i] for i in order if int(ss[i]) != 666),
              'kept-plies', info)
    fine = (not spec['bal'] or oracle.balanced(old)) and (
        not spec['rule_10_percent'] or
        oracle.ten_ok(oracle.counts(old), n, oracle.ten_spec(spec)))
    if fine and not (sym and n % 2):
        mon.ev('counts_untouched')
        mon.check(sorted(full) == sorted(old), 'feasible-laminate-changed',
                  info)
    elif not fine:
        mon.ev('counts_repaired')
        mon.sig(case)
    lampam_a(ss, queue, full, cons, mon, info)


def lampam_a(ss, queue, full, cons, mon, info):
    from src.RELAY.repair_10_bal import calc_lampamA_ply_queue
    got = calc_lampamA_ply_queue(np.array(ss), len(ss), queue, cons)
    mon.ev('queue_lampam')
    mon.check(np.allclose(got, oracle.lampam(full)[:4], atol=1e-9),
              'queue-lampam', info)


def check_mini(spec, n, mini, cons, mon):
    info = lambda: '%s n=%d %s' % (spec, n, mini)
    if spec.get('rule_10_percent') and not spec.get('rule_10_Abdalla'):
        p = percent(spec)
        k = 2 if spec['sym'] else 1
        cnt = [int(math.ceil(m)) for m in mini]
        mon.ev('mini_sufficient')
        mon.check(cnt[0]*k >= p[0]*n and cnt[1]*k >= p[90]*n and
                  cnt[2]*k >= p[45]*n and cnt[3]*k >= p[-45]*n and
                  max(cnt[4], cnt[2] + cnt[3])*k >= p['pm']*n,
                  'minimum-too-small', info)
        if not spec['sym'] and not spec['bal']:
            mon.ev('mini_exact')
            mon.check(all(c - p[a]*n < 1 + Fraction(1, 10**6)
                          for c, a in zip(cnt, (0, 90, 45, -45, 'pm'))),
                      'minimum-too-large', info)
    else:
        mon.check(not np.any(mini), 'minimum-without-rule', info)


def ends_of_search(spec, ss, queue, limit=400):
    """designs that the documented search for the lamination-parameter form
    can end with: from the design repaired for balance, one change (a pair of
    opposite plies if balanced, otherwise a ply) at a time, the one that comes
    closest to the region, always of the innermost plies of an orientation
    (queued plies first); then for balanced laminates a single change between
    0 and 90. The distance of the code is to points sampled on the limit, so
    all the changes that may come first are followed. None when too many."""
    n, sym, bal = len(ss), spec['sym'], spec['bal']
    p = spec['percent_Abdalla']/100
    k = {0: 0, 1: 1, 2: 2, 3: 2}[spec['dam_tol_rule'] if spec['dam_tol'] else 0]
    order = [i for i in inner_first(n, sym)[::-1] if k <= i < n - k]
    weight = (2 if sym else 1)/n
    trig = {a: (np.cos(np.deg2rad(2*a)), np.cos(np.deg2rad(4*a)))
            for a in list(spec['set_of_angles']) + [-90]}
    known = {}

    def distance(ss, queue):
        plies = completed(ss, queue, sym)
        key = tuple(sorted(abs(a) for a in plies))
        if key not in known:
            known[key] = oracle.abdalla_distance(
                sum(trig[a][0] for a in key)/n, sum(trig[a][1] for a in key)/n,
                p)
        return known[key]

    def change(states, old, new):
        """an innermost ply at `old` becomes `new` (two may be as far)"""
        out = []
        for ss, queue in states:
            if old in queue:
                wait = list(queue)
                wait.remove(old)
                out.append((ss, tuple(sorted(wait + [new]))))
                continue
            found = [i for i in order if ss[i] == old]
            for i in found[:2]:
                if abs(2*i - n + 1) == abs(2*found[0] - n + 1):
                    ply = list(ss)
                    ply[i] = new
                    if sym:
                        ply[n - 1 - i] = new
                    out.append((tuple(ply), queue))
        return out

    def opposite(a):
        return a if a in (0, 90) else -a
    angles = [int(a) for a in spec['set_of_angles']]
    half = [a for a in angles if a >= 0]

    def options(ss, queue):
        out = {}
        for a in half if bal else angles:
            for b in half if bal else angles:
                if a == b:
                    continue
                for c in {b, opposite(b)} if bal else [b]:
                    new = change([(ss, queue)], a, c)
                    if bal:
                        new = change(new, opposite(a), opposite(c))
                    for one in new:
                        out[one] = distance(*one)
        return out
    start = tuple(int(a) for a in ss), tuple(sorted(int(a) for a in queue))
    seen, todo, last, ends = {start}, [start], set(), set()
    while todo:
        if len(seen) > limit:
            return None
        now = todo.pop()
        d = distance(*now)
        if d < 1e-10:
            ends.add(now)
            continue
        nexts = options(*now)
        best = min(nexts.values()) if nexts else 2.
        if np.hypot(best, .02) >= d - 1e-9:
            last.add(now)
        for new, dist in nexts.items():
            if dist <= np.hypot(best, .02) and dist < np.hypot(d, .02) - 1e-9:
                if new not in seen:
                    seen.add(new)
                    todo.append(new)
    for now in last:
        d = distance(*now)
        singles = {new: distance(*new) for a, b in (
            ((0, 90), (90, 0)) if bal else ()) for new in change([now], a, b)}
        ends.update(new for new, v in singles.items()
                    if v <= np.hypot(d, .02))
        # a change that brings it closer for sure is made
        if all(np.hypot(v, .02) >= d - 1e-9 for v in singles.values()):
            ends.add(now)
    return ends


def make_abd(rng, tier):
    spec = gen.con_spec(rng, oopo=False, diso=False, contig=False)
    spec['bal'] = bool(rng.random() < .6)
    for k in list(spec):
        if k.startswith('percent'):
            del spec[k]
    spec['rule_10_percent'] = spec['rule_10_Abdalla'] = True
    spec['percent_Abdalla'] = int(gen.choice(rng, [5, 10, 10, 12, 15, 20]))
    n = int(rng.integers(4, 61) if rng.random() < .7 else rng.integers(4, 13))
    if spec['sym']:
        half = stack(rng, spec, n//2)
        ss = gen.mirror(half, int(gen.choice(rng, [0, 90, 45]))
                        if n % 2 else None)
    else:
        ss = stack(rng, spec, n)
    return {'spec': spec, 'ss': [int(a) for a in ss]}


def run_abd(case, mon):
    import src.RELAY.repair_10_bal as module
    from src.RELAY.repair_10_bal import repair_10_bal, calc_mini_10
    spec, old = case['spec'], list(case['ss'])
    cons = gen.bella(spec)
    n, sym = len(old), spec['sym']
    if spec['dam_tol']:
        # the surface plies are those the search gives: +-45
        old[0], old[-1] = 45, (45 if sym else -45)
        if spec['dam_tol_rule'] > 1:
            old[1], old[-2] = -45, (-45 if sym else 45)
    arr = np.array(old, int)
    seen = {}
    real = getattr(module, 'repair_10_bal_2', None)
    if real is not None:
        def spy(*args, **kw):
            out = real(*args, **kw)
            seen['step'] = np.copy(out[0]), list(out[1])
            return out
        module.repair_10_bal_2 = spy
    try:
        ss, queue = repair_10_bal(arr, calc_mini_10(cons, n), cons)
    finally:
        if real is not None:
            module.repair_10_bal_2 = real
    info = lambda: '%s %s -> %s queue %s' % (
        gen.tag(spec), case, list(map(int, ss)), list(map(int, queue)))
    if not judge(dict(case, ss=old), ss, queue, mon, info):
        return
    full = completed(ss, queue, sym)
    if spec['bal']:
        mon.check(oracle.balanced(full), 'balance', info)
    lp = oracle.lampam(full)
    p = spec['percent_Abdalla']/100
    if n < 8 or p > .15:
        mon.ev('abdalla_small')         # may have no solution
    else:
        mon.check(oracle.abdalla_distance(lp[0], lp[1], p) <= 1e-9,
                  'abdalla-region', info)
    lp = oracle.lampam(old)
    if oracle.abdalla_margin(lp[0], lp[1], p) > 1e-6 and (
            not spec['bal'] or oracle.balanced(old)) and not (
                sym and n % 2 and old[n//2] not in (0, 90)):
        mon.ev('abdalla_untouched')
        mon.check(sorted(full) == sorted(old), 'feasible-laminate-changed',
                  info)
    else:
        mon.ev('abdalla_bal_repaired' if spec['bal'] else 'abdalla_repaired')
        mon.sig(case)
    k = {0: 0, 1: 1, 2: 2, 3: 2}[spec['dam_tol_rule'] if spec['dam_tol'] else 0]
    mon.check(all(int(ss[i]) == old[i] and int(ss[n - 1 - i]) == old[n - 1 - i]
                  for i in range(k)) or not oracle.balanced(old),
              'surface-plies', info)
    lampam_a(ss, queue, full, cons, mon, info)
    if n > 40:
        return
    if 'step' not in seen:
        mon.ev('abdalla_step_not_seen')
        return
    first, wait = seen['step']
    ends = ends_of_search(spec, first, wait)
    if ends is None:
        mon.ev('abdalla_many_ends')
        return
    mon.ev('abdalla_ends', len(ends))
    here = tuple(int(a) for a in ss), tuple(sorted(int(a) for a in queue))
    mon.ev('abdalla_search_changed' if sorted(full) != sorted(completed(
        first, wait, sym)) else 'abdalla_search_still')
    mon.check(here in ends, 'abdalla-innermost-changes', lambda: '%s; from %s '
              'queue %s' % (info(), list(map(int, first)),
                            list(map(int, wait))))


CORPUS = [('counts', {'spec': {
    'set_of_angles': [0, 20, -20, 45, -45, 70, -70, 90], 'sym': False,
    'bal': True, 'oopo': False, 'dam_tol': True, 'dam_tol_rule': 2,
    'diso': False, 'delta_angle': 45, 'contig': False, 'n_contig': 3,
    'rule_10_percent': True, 'percent_0': 28, 'percent_45': 0,
    'percent_90': 29, 'percent_135': 0, 'percent_45_135': 38},
    'ss': [-20]*25})]
FAMILIES = [Family('counts', make, run, 6000, 80000),
            Family('abdalla', make_abd, run_abd, 1500, 20000)]
