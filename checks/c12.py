"""C12 plies are partitioned into groups, and optimised in a fixed order"""
import math
from fractions import Fraction
import numpy as np
from vlib import gen, mps
from vlib.core import Family

ID = 'C12'
RULE = ('random structures (covering 0-2 plies, symmetric with or without '
        'middle ply, asymmetric) and single laminates x group size limits, '
        'half of them just feasible or just infeasible. Non-trivial: three '
        'groups or more, or refused')
REQUIRED = ['divided', 'refused', 'three_groups', 'thin_panels', 'drops',
            'middle_ply', 'asym', 'covering', 'layla_sym', 'layla_asym',
            'layla_refused', 'levels', 'order_sym', 'order_asym', 'forbidden',
            'extra_drop_choice', 'apportionment_not_nested']


def sizes(rng, n):
    lo = int(rng.integers(1, 9))
    hi = lo + int(rng.integers(0, 7))
    if rng.random() < .5 and n > 0:             # around the limit
        k = int(rng.integers(1, 5))
        hi = max(1, n//k + int(rng.integers(-1, 2)))
        lo = max(1, hi - int(rng.integers(0, 3)))
    return lo, hi


def make(rng, tier):
    sym = bool(rng.random() < .5)
    far = bool(rng.random() < .04)
    spec = mps.mp_spec(rng, sym, lo=130 if far else 6, hi=300 if far else 90,
                       max_gap=int(gen.choice(rng, [2, 8, 20, 40])))
    cov = int(rng.integers(0, 3))
    n = max(spec['plies']) - 2*cov
    lo, hi = sizes(rng, n//2 if sym else n)
    return {'sym': sym, 'spec': spec, 'cov': cov, 'lo': lo, 'hi': hi}


def expect(n, lo, hi):
    """sizes of the groups, or None when no partition exists"""
    k = -(-n//hi)
    if k > n//lo:
        return None
    return k


def run(case, mon):
    from src.BELLA.divide_panels import divide_panels
    from src.BELLA.ply_order import calc_ply_order
    from src.BELLA.parameters import Parameters
    sym, cov, lo, hi = case['sym'], case['cov'], case['lo'], case['hi']
    cons = gen.bella(dict(set_of_angles=[0, 45, 90, -45], sym=sym,
                          covering=cov > 0, n_covering=cov))
    par = Parameters(cons, group_size_min=lo, group_size_max=hi)
    mp = mps.build(case['spec'], cons)
    mp.from_mp_to_blending_strip(cons, 1000)
    red = mp.reduced
    top = max(case['spec']['plies'])
    n = top - 2*cov
    n = n//2 if sym else n
    k = expect(n, lo, hi)
    info = lambda: str(case)
    if n == 0:
        return
    if k is None:
        mon.ev('refused')
        mon.sig('refused', case['spec']['plies'], lo, hi, cov)
        try:
            divide_panels(mp, par, cons)
        except Exception as exc:                # noqa: BLE001
            mon.check(type(exc).__name__ == 'PartitioningError',
                      'refusal-type', lambda: info() + repr(exc))
            return
        mon.check(False, 'infeasible-accepted', info)
        return
    divide_panels(mp, par, cons)
    mon.ev('divided')
    if cov:
        mon.ev('covering')
    if not sym:
        mon.ev('asym')
    elif top % 2:
        mon.ev('middle_ply')
    if k >= 3:
        mon.ev('three_groups')
        mon.sig(sorted(set(case['spec']['plies'])), sym, cov, lo, hi)
    size = [int(v) for v in red.n_plies_per_group]
    judge_sizes(mon, size, n, lo, hi, k, info)
    mon.check(int(red.n_groups) == k, 'number-of-groups', info)
    judge_first(mon, red.n_first_plies, size, sym, info)
    before = [0]*k
    for p in list(red.panels)[::-1]:
        pn = p.n_plies
        want = (top//2 - pn//2) if sym else top - pn
        drops = [float(v) for v in p.n_ply_drops]
        left = [int(v) for v in p.n_plies_per_group]
        more = lambda: info() + ' panel %d drops %s left %s of %s' % (
            pn, drops, left, size)
        mon.check(len(drops) == k and all(d == int(d) and d >= 0
                                          for d in drops),
                  'drops-whole', more)
        mon.check(sum(drops) == want, 'drops-total', more)
        mon.check(left == [int(s - d) for s, d in zip(size, drops)]
                  and min(left) >= 0, 'plies-left', more)
        if pn == top:
            continue
        mon.ev('thin_panels')
        mon.ev('drops', int(want))
        # with a middle ply the share may include half a pair
        half = Fraction(1, 2) if sym and top % 2 else 0
        share = [Fraction(want*s, n) for s in size]
        mon.check(all(d < s + half*z/n + 1 + 1e-9
                      for d, s, z in zip(drops, share, size)),
                  'drops-evenly', more)
        mon.check(all(a >= b for a, b in zip(drops, before)),
                  'drops-not-nested', lambda: more() + ' thicker panel %s'
                  % before)
        # the even apportionment of this panel alone, largest groups first,
        # unless it would need plies that the thicker panel already dropped
        each = [(want + half)*s/Fraction(n) for s in size]
        ideal = [math.floor(v) for v in each]
        extra = want - sum(ideal)
        for i in sorted(range(k), key=lambda i: -size[i])[:max(0, extra)]:
            ideal[i] += 1
        nested = all(a >= b for a, b in zip(ideal, before))
        if not nested:
            mon.ev('apportionment_not_nested')
        before = drops
        if nested:
            mon.check(all(s - 1 - 1e-9 < d for d, s in zip(drops, share)),
                      'drops-evenly', more)
        if nested and all(s.denominator > 1 for s in share) and not half:
            extra = [d - math.floor(s) for d, s in zip(drops, share)]
            if 0 < sum(extra) < k and len(set(size)) > 1:
                mon.ev('extra_drop_choice')
            mon.check(all(extra[i] >= extra[j] for i in range(k)
                          for j in range(k) if size[i] > size[j]),
                      'drops-in-larger-groups', more)
        judge_first(mon, p.n_first_plies, left, sym, more)
    order = calc_ply_order(mp, cons)
    mon.check(len(order) == len(red.panels), 'order-panels', info)
    for p, o in zip(red.panels, order):
        judge_order(mon, o, p.n_plies, sym, info)


def judge_sizes(mon, size, n, lo, hi, k, info):
    more = lambda: info() + ' sizes %s' % size
    mon.check(sum(size) == n, 'every-ply-in-one-group', more)
    mon.check(len(size) == k, 'fewest-groups', more)
    mon.check(all(lo <= s <= hi for s in size), 'group-size-limits', more)
    mon.check(size == sorted(size), 'inner-groups-larger', more)
    mon.check(sum(lo < s < hi for s in size) <= 1, 'groups-filled', more)


def judge_first(mon, first, size, sym, info):
    """the groups lie one after the other, without overlap; in asymmetric
    laminates they alternate between the two surfaces, towards the middle"""
    first = [int(v) for v in first]
    more = lambda: info() + ' first plies %s sizes %s' % (first, size)
    order = list(range(len(size)))
    if not sym:
        order = order[0::2] + order[1::2][::-1]
    at = first[0]
    ok = True
    for g in order:
        ok = ok and first[g] == at
        at += size[g]
    mon.check(ok, 'group-positions', more)


def judge_order(mon, got, n, sym, info):
    got = [int(v) for v in got]
    if sym:
        mon.ev('order_sym')
        want = list(range(n - n//2))
    else:
        mon.ev('order_asym')
        want, lo, hi = [], 0, n - 1
        while lo <= hi:
            want.append(lo)
            if hi > lo:
                want.append(hi)
            lo, hi = lo + 1, hi - 1
    mon.check(got == want, 'ply-order', lambda: info() + ' got %s' % got)


def make_one(rng, tier):
    sym = bool(rng.random() < .5)
    n = int(rng.integers(4, 121))
    steps = int(rng.integers(1, 4))
    lim = [sizes(rng, n//2 if sym else n) for _ in range(steps)]
    lo = min(x[0] for x in lim)
    return {'sym': sym, 'n': n, 'lo': lo, 'hi': [max(lo, x[1]) for x in lim]}


def run_one(case, mon):
    from src.LAYLA_V02.divide_laminate_asym import divide_laminate_asym
    from src.LAYLA_V02.divide_laminate_sym import divide_laminate_sym
    from src.LAYLA_V02.parameters import Parameters
    from src.LAYLA_V02.targets import Targets
    from src.LAYLA_V02.ply_order import calc_ply_order, calc_levels
    sym, n = case['sym'], case['n']
    cons = gen.layla(dict(sym=sym))
    par = Parameters(cons, n_outer_step=len(case['hi']),
                     group_size_min=case['lo'],
                     group_size_max=np.array(case['hi']))
    tgt = Targets(n)
    func = divide_laminate_sym if sym else divide_laminate_asym
    info = lambda: str(case)
    for step, hi in enumerate(case['hi']):
        m = n//2 if sym else n
        k = expect(m, case['lo'], hi)
        if k is None:
            mon.ev('layla_refused')
            mon.sig('refused', n, sym, case['lo'], hi)
            try:
                func(par, tgt, step)
            except Exception as exc:           # noqa: BLE001
                mon.check(type(exc).__name__ == 'PartitioningError',
                          'refusal-type', lambda: info() + repr(exc))
                continue
            mon.check(False, 'infeasible-accepted', info)
            continue
        size, first, got_k = func(par, tgt, step)
        mon.ev('layla_sym' if sym else 'layla_asym')
        if k >= 3:
            mon.sig(n, sym, case['lo'], hi)
        size = [int(v) for v in size]
        full = list(size)
        if sym and n % 2:
            size[-1] -= 1                       # the middle ply
        judge_sizes(mon, size, m, case['lo'], hi, k, info)
        mon.check(int(got_k) == k, 'number-of-groups', info)
        judge_first(mon, first, size, sym, info)
        order = calc_ply_order(cons, tgt)
        judge_order(mon, order, n, sym, info)
        levels = calc_levels(order, np.array(full), k)
        mon.ev('levels', k)
        mon.check([len(x) for x in levels] == full and
                  [int(v) for x in levels for v in x]
                  == [int(v) for v in order], 'levels-of-groups',
                  lambda: info() + ' got %s' % levels)


def make_forb(rng, tier):
    lo, hi = sizes(rng, int(rng.integers(10, 40)))
    a = int(rng.integers(6, 40))
    return {'sym': bool(rng.random() < .5), 'cov': int(rng.integers(3)),
            'lo': lo, 'hi': hi, 'a': a, 'b': a + int(rng.integers(0, 40))}


def run_forb(case, mon):
    from src.BELLA.divide_panels import divide_panels, forbidden_ply_counts
    from src.BELLA.parameters import Parameters
    from src.BELLA.panels import Panel
    from src.BELLA.multipanels import MultiPanel
    sym, cov = case['sym'], case['cov']
    cons = gen.bella(dict(set_of_angles=[0, 45, 90, -45], sym=sym,
                          covering=cov > 0, n_covering=cov))
    par = Parameters(cons, group_size_min=case['lo'],
                     group_size_max=case['hi'])
    cons.n_plies_min, cons.n_plies_max = case['a'], case['b']
    got = [int(v) for v in forbidden_ply_counts(cons, par)]
    want = []
    for n in range(case['a'], case['b'] + 1):
        m = n - 2*cov
        if expect(m//2 if sym else m, case['lo'], case['hi']) is None:
            want.append(n)
    mon.ev('forbidden', len(want))
    if want:
        mon.sig(case['a'], case['b'], case['lo'], case['hi'], sym, cov)
    mon.check(got == want, 'forbidden-ply-counts',
              lambda: '%s got %s expected %s' % (case, got, want))
    # they are the ply counts that the partition really refuses
    for n in range(case['a'], min(case['b'], case['a'] + 4) + 1):
        if n - 2*cov < 2:
            continue
        mp = MultiPanel([Panel(ID=1, constraints=cons, n_plies=n,
                               neighbour_panels=[])])
        mp.from_mp_to_blending_strip(cons, 1000)
        try:
            divide_panels(mp, par, cons)
            refused = False
        except Exception as exc:               # noqa: BLE001
            if type(exc).__name__ != 'PartitioningError':
                raise
            refused = True
        mon.check(refused == (n in got), 'forbidden-agrees-with-partition',
                  lambda: '%s plies %d' % (case, n))


FAMILIES = [Family('panels', make, run, 4000, 120000),
            Family('laminate', make_one, run_one, 3000, 100000),
            Family('forbidden', make_forb, run_forb, 400, 8000)]
