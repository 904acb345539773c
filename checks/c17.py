"""C17 repair for disorientation and contiguity"""
import itertools
import numpy as np
from vlib import gen, oracle
from vlib.core import Family

ID = 'C17'
BUDGET = 3_000_000
RULE = ('random stacks (textures with long runs and disoriented plies, partly '
        'known with a queue of innermost plies, or already feasible), '
        'symmetric with and without middle ply or asymmetric, all damage-'
        'tolerance variants, number of plies permuted last from 1 to 6. '
        'Non-trivial: the stack had to be repaired')
REQUIRED = ['repaired', 'failed', 'untouched', 'queue', 'no_queue', 'middle_ply',
            'symmetric', 'asymmetric', 'surface_plies', 'list_first',
            'list_later', 'list_none', 'outward_only', 'inward_reference',
            'outward_reference', 'failure_reference']


def make_stack(rng, spec, n):
    sym, angles = spec['sym'], spec['set_of_angles']
    size = n//2 if sym else n
    r = rng.random()
    if r < .35:
        half = gen.smooth_stack(rng, angles, size, spec['delta_angle'],
                                spec['n_contig'])
        if rng.random() < .5 and size > 1:
            half = gen.mutate(rng, half, angles, int(rng.integers(1, 3)))
    else:
        half = gen.raw_stack(rng, angles, size)
    mid = int(gen.choice(rng, [0, 90])) if n % 2 else None
    ss = gen.mirror(half, mid) if sym else list(half)
    if spec['dam_tol']:
        a, b = (int(gen.choice(rng, [45, -45])) for _ in range(2))
        two = spec['dam_tol_rule'] > 1
        ss[0], ss[-1] = a, (a if sym else b)
        if two:
            eq = spec['dam_tol_rule'] == 3 and rng.random() < .5
            ss[1] = ss[0] if eq else -ss[0]
            ss[-2] = ss[1] if sym else -ss[-1]
    return [int(v) for v in ss]


def hide(rng, ss, sym, k):
    """the k innermost plies (pairs) move to a queue"""
    ss, n = list(ss), len(ss)
    queue = []
    if sym:
        for i in range(n//2 - k, n//2):
            queue.append(ss[i])
            ss[i] = ss[n - 1 - i] = 666
    else:
        order = []
        for i in range(n//2):
            order += [n - 1 - i, i]
        if n % 2:
            order.append(n//2)
        for i in order[n - k:]:
            queue.append(ss[i])
            ss[i] = 666
    return ss, [queue[int(i)] for i in rng.permutation(len(queue))]


def make_one(rng, spec):
    n = int(rng.integers(8, 41))
    if spec['sym'] and rng.random() < .5:
        n -= n % 2
    ss = make_stack(rng, spec, n)
    queue = []
    if rng.random() < .5:
        top = n//2 if spec['sym'] else n
        if spec['dam_tol']:
            top -= 4
        if rng.random() < .1:
            low = top
        else:
            low = 1
        ss, queue = hide(rng, ss, spec['sym'], int(rng.integers(
            low, max(2, top + 1))))
    return ss, queue


def make_spec(rng):
    spec = gen.con_spec(rng, oopo=False, bal=False, rule_10_percent=False)
    if rng.random() < .7:
        spec['diso'] = True
    if rng.random() < .7:
        spec['contig'] = True
    return spec


def make(rng, tier):
    spec = make_spec(rng)
    ss, queue = make_one(rng, spec)
    return {'spec': spec, 'ss': ss, 'queue': queue,
            'n_D1': int(gen.choice(rng, [1, 2, 3, 4, 5, 5, 6])),
            'layla': bool(rng.random() < .2)}


def completed(ss, queue, sym):
    k = 2 if sym else 1
    return sorted([int(a) for a in ss if a != 666] + [int(a) for a in queue]*k)


def judge(case, ss, queue, out, done, mon, info, rules):
    spec = case['spec']
    sym = spec['sym']
    n = len(ss)
    out = [int(a) for a in out]
    mon.check(len(out) == n and 666 not in out, 'size', info)
    mon.check(sorted(out) == completed(ss, queue, sym), 'plies-conserved', info)
    if sym:
        mon.check(out == out[::-1], 'symmetry', info)
        if n % 2 and len(out) == n:
            mon.check(out[n//2] == ss[n//2], 'middle-ply', info)
    if spec['dam_tol']:
        k = 1 if spec['dam_tol_rule'] == 1 else 2
        mon.ev('surface_plies')
        mon.check(out[:k] == ss[:k] and out[-k:] == ss[-k:], 'surface-plies',
                  info)
    if done:
        mon.check(not rules.violated(out), 'repaired-laminate-breaks-rules',
                  lambda: info() + str(rules.violated(out)))
    return out


# --------------------------------------------- the two searches, by definition
def rule_ok(spec, ss, outer=0):
    """both rules; outer: interfaces exempted from disorientation per side"""
    if spec['contig'] and oracle.longest_run(ss) > spec['n_contig']:
        return False
    seen = ss[outer:len(ss) - outer]
    return not spec['diso'] or all(
        oracle.ang_gap(a, b) <= spec['delta_angle']
        for a, b in zip(seen, seen[1:]))


def from_queue(queue, near, angles):
    """closest to the adjacent ply first, anticlockwise first"""
    def key(a):
        d = (a - near) % 180
        return (min(d, 180 - d), d > 90)
    return [a for a in sorted(angles, key=key) if a in queue]


def fill(ss, queue, i):
    return ss[i] if ss[i] != 666 else queue.pop(0)


def grow(ss, queue, left, steps, near, fits, put, angles):
    """each step places the first of the remaining plies that fits"""
    for s in range(steps):
        for i in left:
            cands = [ss[i]] if ss[i] != 666 else from_queue(
                queue, near(s), angles)
            a = next((a for a in cands if fits(s, a)), None)
            if a is not None:
                break
        else:
            return s
        left.remove(i)
        if ss[i] == 666:
            queue.remove(a)
        put(s, a)
    return None


def inwards(spec, ss, queue, n_D1, angles):
    """-> laminate, success"""
    n, outer = len(ss), int(bool(spec['dam_tol'] and
                                 spec['dam_tol_rule'] > 1))
    k = outer + 1
    if spec['sym']:
        placed, left = list(ss[:k]), list(range(k, n//2))
        mid = [ss[n//2]] if n % 2 else []
        whole = lambda half: half + mid + half[::-1]
        stuck = grow(
            ss, queue, left, max(0, n//2 - n_D1 - k), lambda s: placed[-1],
            lambda s, a: rule_ok(spec, placed[-1:] + [a]) and rule_ok(
                dict(spec, diso=False), placed + [a]),
            lambda s, a: placed.append(a), angles)
        rest = [fill(ss, queue, i) for i in left]
        if stuck is None:
            for p in itertools.permutations(rest):
                if rule_ok(spec, whole(placed + list(p)), outer):
                    return whole(placed + list(p)), True
        return whole(placed + rest), False
    top, bot = list(ss[:k]), list(ss[n - k:])
    beg, end = list(range(k - 1, n//2)), list(range(n//2, n - k + 1))[::-1]
    left = [v for pair in itertools.zip_longest(end, beg) for v in pair
            if v is not None]
    steps = max(0, len(left) - n_D1 - 2)
    left = left[2:]

    def fits(s, a):
        line = [a] + bot if s % 2 == 0 else [a] + top[::-1]
        return rule_ok(spec, line[:2]) and rule_ok(
            dict(spec, diso=False), line)
    stuck = grow(ss, queue, left, steps,
                 lambda s: top[-1] if s % 2 else bot[0], fits,
                 lambda s, a: top.append(a) if s % 2 else bot.insert(0, a),
                 angles)
    if stuck is not None:
        return top + [fill(ss, queue, i) for i in left] + bot, False
    rest = [fill(ss, queue, i) for i in sorted(left)]
    for p in itertools.permutations(rest):
        if rule_ok(spec, top + list(p) + bot, outer):
            return top + list(p) + bot, True
    return top + rest + bot, False


def outwards(spec, ss, n_D1):
    """-> laminates that may be returned; [] for a failure"""
    n = len(ss)
    k = 0 if not spec['dam_tol'] else min(2, spec['dam_tol_rule'])
    outer = int(k == 2)
    top, bot = list(ss[:k]), list(ss[n - k:])
    line = []
    if spec['sym']:
        line += ss[n//2:n//2 + 1] if n % 2 else ss[n//2 - 1:n//2 + 1]
        left = list(range(k, n//2 - 1 + n % 2))[::-1]
        steps = max(0, len(left) - n_D1)
        put = lambda s, a: line.__setitem__(slice(None), [a] + line + [a])
        fits = lambda s, a: rule_ok(spec, [a, line[0]]) and rule_ok(
            dict(spec, diso=False), [a] + line + [a])
    else:
        inds = list(range(k, n - k))
        beg, end = inds[:len(inds)//2][::-1], inds[len(inds)//2:]
        line.append(ss[end[0]])
        left = [v for pair in itertools.zip_longest(end, beg) for v in pair
                if v is not None]
        steps = max(0, len(left) - n_D1 - 1)
        left = left[1:]
        put = lambda s, a: line.append(a) if s % 2 else line.insert(0, a)
        def fits(s, a):
            seen = [a] + (line[::-1] if s % 2 else line)
            return rule_ok(spec, seen[:2]) and rule_ok(
                dict(spec, diso=False), seen)
    if grow(ss, [], left, steps, None, fits, put, None) is not None:
        return []
    rest, out = [ss[i] for i in sorted(left)], []
    for order in ([rest, rest[::-1]] if spec['sym'] else [rest]):
        for p in itertools.permutations(order):
            p = list(p)
            full = top + p + line + p[::-1] + bot if spec['sym'] else \
                top + p[:len(p)//2] + line + p[len(p)//2:] + bot
            if rule_ok(spec, full, outer):
                out.append(full)
                break
    return out


def search(case, ss, queue, out, inward, outward, mon, info, cons):
    """the result is that of the search from the surfaces, or from the middle
    when it fails"""
    spec, n = case['spec'], len(ss)
    if case['layla'] and spec['dam_tol'] and spec['contig'] and (
            ss[0] == ss[1] or ss[-1] == ss[-2]):
        return      # two fixed plies already in the first window
    angles = [int(a) for a in cons.set_of_angles]
    ss, queue = list(ss), list(queue)
    if spec['dam_tol'] and 666 in ss[:2] + ss[-2:]:
        return
    if ss[0] == 666:
        ss[0] = queue.pop(0)
        if spec['sym']:
            ss[-1] = ss[0]
    if ss[-1] == 666:
        ss[-1] = queue.pop(0)
    full, good = inwards(spec, ss, list(queue), case['n_D1'], angles)
    if good:
        mon.ev('inward_reference')
        mon.check(inward and out == full, 'not-the-first-inward-solution',
                  lambda: 'expected %s; %s' % (full, info()))
        return
    mon.check(not inward, 'inward-success-unexpected', info)
    fulls = outwards(spec, full, case['n_D1'])
    mon.ev('outward_reference' if fulls else 'failure_reference')
    mon.check(outward == bool(fulls), 'repair-given-up' if fulls else
              'outward-success-unexpected',
              lambda: 'expected %s; %s' % (fulls, info()))
    if fulls and outward:
        mon.check(out in fulls, 'not-the-first-outward-solution',
                  lambda: 'expected %s; %s' % (fulls, info()))


def run(case, mon):
    from src.RELAY.repair_diso_contig import repair_diso_contig
    spec, ss, queue = case['spec'], case['ss'], list(case['queue'])
    cons = (gen.layla if case['layla'] else gen.bella)(spec)
    rules = oracle.Rules(spec)
    arr = np.array(ss, int)
    out, inward, outward = repair_diso_contig(
        arr, list(queue), cons, case['n_D1'])
    info = lambda: '%s n_D1 %d %s queue %s -> %s %s %s' % (
        gen.tag(spec), case['n_D1'], ss, queue, list(map(int, out)), inward,
        outward)
    mon.ev('queue' if queue else 'no_queue')
    mon.ev('symmetric' if spec['sym'] else 'asymmetric')
    if spec['sym'] and len(ss) % 2:
        mon.ev('middle_ply')
    mon.check(arr.tolist() == ss, 'arguments-altered', info)
    mon.check(not inward or outward, 'status', info)
    out = judge(case, ss, queue, out, outward, mon, info, rules)
    search(case, ss, queue, out, inward, outward, mon, info, cons)
    if outward and not inward:
        mon.ev('outward_only')
    if not queue and not rules.violated(ss):
        mon.ev('untouched')
        mon.check(outward, 'feasible-laminate-not-accepted', info)
        mon.check(out == ss, 'feasible-laminate-changed', info)
    else:
        mon.sig(case)
        mon.ev('repaired' if outward else 'failed')


def make_list(rng, tier):
    spec = make_spec(rng)
    n0 = None
    items = []
    for _ in range(int(rng.integers(1, 5))):
        while True:
            ss, queue = make_one(rng, spec)
            n0 = n0 or len(ss)
            if len(ss) == n0:
                break
        items.append([ss, queue])
    return {'spec': spec, 'items': items, 'n_D1': int(rng.integers(1, 6))}


def run_list(case, mon):
    from src.RELAY.repair_diso_contig import (repair_diso_contig_list,
                                              repair_diso_contig)
    spec = case['spec']
    cons = gen.bella(spec)
    rules = oracle.Rules(spec)
    items = case['items']
    out, inward, outward, ind = repair_diso_contig_list(
        [np.array(s, int) for s, _ in items], [list(q) for _, q in items],
        cons, case['n_D1'])
    info = lambda: '%s %s -> %s %s %s %s' % (
        gen.tag(spec), case, list(map(int, out)), inward, outward, ind)
    if not mon.check(0 <= ind < len(items), 'index', info):
        return
    mon.sig(case)
    ss, queue = items[ind]
    judge(case, ss, queue, out, outward, mon, info, rules)
    each = [repair_diso_contig(np.array(s, int), list(q), cons, case['n_D1'])
            for s, q in items]
    good = [i for i, e in enumerate(each) if e[2]]
    if good:
        mon.ev('list_first' if good[0] == 0 else 'list_later')
        mon.check(outward and ind == good[0] and
                  list(out) == list(each[ind][0]), 'first-success', info)
    else:
        mon.ev('list_none')
        mon.check(not outward and not inward and ind == 0 and
                  list(out) == list(each[0][0]), 'no-success', info)


FAMILIES = [Family('repair', make, run, 4000, 40000),
            Family('list', make_list, run_list, 600, 6000)]
