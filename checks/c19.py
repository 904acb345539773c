"""C19 repair for flexural properties"""
import collections
import numpy as np
from vlib import gen, oracle
from vlib.core import Family
from checks import c17

ID = 'C19'
RULE = ('laminates satisfying disorientation and contiguity (when active), '
        'random targets and coefficients, symmetric with and without middle '
        'ply or asymmetric, all damage-tolerance variants, numbers of shifts '
        'and of repetitions. Non-trivial: the laminate was changed')
REQUIRED = ['changed', 'unchanged', 'switch_off', 'no_coeff', 'middle_ply',
            'symmetric', 'asymmetric', 'surface_plies', 'rules', 'no_rules',
            'blocks_changed', 'shifts_changed', 'free_changed', 'first_change',
            'last_change', 'counted', 'blocks_reference', 'shifts_reference',
            'free_reference']
BUDGET = 2_000_000


def make(rng, tier):
    case = None
    while case is None:
        case = attempt(rng)
    return case


def attempt(rng):
    spec = c17.make_spec(rng)
    if rng.random() < .25:
        spec['diso'] = spec['contig'] = False
    elif not spec['diso'] and not spec['contig']:
        spec['contig'] = True
    n = int(rng.integers(4, 31))
    if rng.random() < .15:
        # the middle ply weighs most in small laminates
        spec['sym'] = True
        n = int(gen.choice(rng, [5, 7, 7, 9]))
    elif spec['sym'] and rng.random() < .5:
        n -= n % 2
    ss = None
    for _ in range(60):
        ss = c17.make_stack(rng, spec, n)
        if rng.random() < .4:
            # repeated blocks of equal sizes: more swaps
            ss = blocks(rng, spec, n)
        if spec['sym'] and not spec['contig'] and rng.random() < .1:
            # inner plies at the orientation of the middle ply
            k = int(rng.integers(surface(spec), n//2 + 1))
            ss[k:n - k] = [ss[n//2] if n % 2 else 0]*(n - 2*k)
        if not oracle.Rules(spec).violated(ss):
            break
    else:
        return None
    angles = spec['set_of_angles']
    r = rng.random()
    if r < .4:
        target = oracle.lampam([int(v) for v in rng.permutation(ss)])
    else:
        target = oracle.lampam([int(gen.choice(rng, angles)) for _ in range(
            int(rng.integers(1, 4)))])
    if rng.random() < .3:
        target = knife(rng, spec, ss)
    coeffs = gen.choice(rng, [[1, 1, 0, 0], [1/3, 1/3, 1/3, 0], [1, 0, 0, 0],
                              [0, 1, 0, 0], [.25]*4, [.1, .6, .3, 0],
                              [0, 0, .5, .5], [0]*4 if rng.random() < .3 else
                              [0, 0, 1, 0]])
    return {'spec': spec, 'ss': ss, 'target': [float(v) for v in target],
            'coeffs': list(coeffs), 'switch': bool(rng.random() < .95),
            'n_D2': int(gen.choice(rng, [1, 2, 3, 5, 10, 10])),
            'n_D3': int(gen.choice(rng, [1, 1, 2, 3])),
            'mp': bool(rng.random() < .3), 'layla': bool(rng.random() < .2)}


def knife(rng, spec, ss):
    """target nearly as far from the laminate as from a neighbouring one"""
    pos = order_in(len(ss), spec['sym'], surface(spec))
    if len(pos) < 2:
        return oracle.lampam(ss)
    i = int(rng.integers(len(pos) - 1))
    other = moved(ss, spec['sym'], pos[int(rng.integers(i + 1, len(pos)))],
                  pos[i])
    one, two = np.array(oracle.lampam(ss)), np.array(oracle.lampam(other))
    return (one + two)/2 + float(gen.choice(rng, [
        -.03, -.01, -.001, .001, .01, .03]))*(two - one)


def blocks(rng, spec, n):
    size = n//2 if spec['sym'] else n
    k = int(rng.integers(1, min(3, spec['n_contig'] if spec['contig'] else 3)
                         + 1))
    out = []
    base = gen.smooth_stack(rng, spec['set_of_angles'], size,
                            spec['delta_angle'] if spec['diso'] else 90, 1)
    for a in base:
        out += [a]*(k if rng.random() < .8 else 1)
    out = out[:size]
    ss = gen.mirror(out, int(gen.choice(rng, [0, 90])) if n % 2 else None) \
        if spec['sym'] else out
    if spec['dam_tol']:
        ss[0], ss[-1] = 45, (45 if spec['sym'] else -45)
        if spec['dam_tol_rule'] > 1:
            ss[1], ss[-2] = -45, (-45 if spec['sym'] else 45)
    return [int(a) for a in ss]


class Par:
    pass


class MP:
    pass


def dist(ss, case):
    lp = oracle.lampam([int(a) for a in ss])
    return sum(c*(a - b)**2 for c, a, b in zip(
        case['coeffs'], lp[8:12], case['target'][8:12]))


def surface(spec):
    if not spec['dam_tol']:
        return 0
    return 1 if spec['dam_tol_rule'] == 1 else 2


def judge(case, ss, out, mon, info):
    spec = case['spec']
    n, sym = len(ss), spec['sym']
    rules = oracle.Rules(spec)
    mon.ev('symmetric' if sym else 'asymmetric')
    if not mon.check(len(out) == n, 'size', info):
        return False
    mon.check(collections.Counter(out) == collections.Counter(ss),
              'plies-conserved', info)
    if sym:
        mon.check(out == out[::-1], 'symmetry', info)
        if n % 2:
            mon.ev('middle_ply')
            mon.check(out[n//2] == ss[n//2], 'middle-ply', info)
    k = surface(spec)
    if k:
        mon.ev('surface_plies')
        mon.check(out[:k] == ss[:k] and out[-k:] == ss[-k:], 'surface-plies',
                  info)
    mon.ev('rules' if spec['diso'] or spec['contig'] else 'no_rules')
    broken = rules.violated(out)
    mon.check(not broken, 'rules-broken', lambda: str(broken) + info())
    mon.check(dist(out, case) <= dist(ss, case) + 1e-10, 'objective-worse',
              lambda: '%s > %s %s' % (dist(out, case), dist(ss, case), info()))
    return True


def ready(case):
    spec = case['spec']
    cons = (gen.layla if case['layla'] else gen.bella)(spec)
    par = Par()
    par.n_D2, par.n_D3 = case['n_D2'], case['n_D3']
    par.repair_flexural_switch = case['switch']
    return cons, par, np.array(case['target']), np.array(case['coeffs'], float)


def info_of(case, out):
    return lambda: '%s %s -> %s' % (gen.tag(case['spec']), {
        a: b for a, b in case.items() if a != 'spec'}, out)


def run(case, mon):
    from src.RELAY.repair_flexural import repair_flexural
    cons, par, target, coeffs = ready(case)
    ss = case['ss']
    arr = np.array(ss, int)
    mp = MP() if case['mp'] else None
    out = repair_flexural(arr, cons, coeffs, par, multipanel=mp,
                          lampam_target=target)
    out = [int(a) for a in out]
    info = info_of(case, out)
    mon.check(arr.tolist() == ss, 'arguments-altered', info)
    if not judge(case, ss, out, mon, info):
        return
    again, count = repair_flexural(arr, cons, coeffs, par, multipanel=mp,
                                   lampam_target=target, count_obj=True)
    mon.ev('counted')
    mon.check([int(a) for a in again] == out, 'counting-changes-result', info)
    off = not case['switch'] or not any(case['coeffs'])
    if off:
        mon.ev('no_coeff' if case['switch'] else 'switch_off')
        mon.check(out == ss and count == 0, 'disabled-repair-changes-plies',
                  info)
        return
    mon.check(count > 0, 'count', info)
    if out == ss:
        mon.ev('unchanged')
    else:
        mon.ev('changed')
        mon.sig(case)
    last_change(case, out, mon, info)


def order_in(n, sym, k):
    """positions from the outside to the inside, without surface plies"""
    if sym:
        return list(range(n//2))[k:]
    out = []
    for i in range((n + 1)//2):
        out.append(n - 1 - i)
        if i < n//2:
            out.append(i)
    return out[2*k:]


def moved(ss, sym, frm, to):
    """ply at position frm inserted at position to"""
    n = len(ss)
    if sym:
        half = list(ss[:n//2])
        half.insert(to, half.pop(frm))
        return gen.mirror(half, ss[n//2] if n % 2 else None)
    out = list(ss)
    out.insert(to, out.pop(frm))
    return out


def last_change(case, out, mon, info):
    """exchanging the two innermost plies does not help"""
    spec, n = case['spec'], len(out)
    pos = order_in(n, spec['sym'], surface(spec))
    if len(pos) < 2:
        return
    a, b = pos[-2:]
    new = moved(out, spec['sym'], b, a)
    if oracle.Rules(spec).violated(new):
        return
    mon.ev('last_change')
    mon.check(dist(new, case) >= dist(out, case) - 1e-9,
              'improvement-missed', lambda: 'innermost plies %s: %s' % (
                  new, info()))


class Close(Exception):
    """two designs too close to one another to say which is retained"""


def pick(now, cands, case):
    """best of the designs, the current one if none is better"""
    ref = dist(now, case)
    cands = sorted((dist(c, case), c) for c in cands if c != now)
    if not cands:
        return now
    best, design = cands[0]
    if abs(best - ref) < 1e-9:
        raise Close
    if best > ref:
        return now
    if any(d < best + 1e-9 and c != design for d, c in cands[1:]):
        raise Close
    return design


def one_pass(ss, case, window, ruled):
    """each ply in turn from the outside, exchanged with the best of the next
    ones"""
    spec = case['spec']
    rules = oracle.Rules(spec)
    pos = order_in(len(ss), spec['sym'], surface(spec))
    now = list(ss)
    for i, frm in enumerate(pos[:-1]):
        cands = [moved(now, spec['sym'], b, frm)
                 for b in pos[i + 1:i + 1 + window]]
        if ruled:
            cands = [c for c in cands if not rules.violated(c)]
        now = pick(now, cands, case)
    return now


def blocks_of(ss, sym):
    """[first, size] of the blocks, outermost first, without the block at the
    middle of a laminate with a middle ply; the number of plies they cover"""
    n = len(ss)
    end = n//2 if sym else n
    if sym and n % 2:
        while end and ss[end - 1] == ss[n//2]:
            end -= 1
    runs, i = [], 0
    while i < end:
        j = i
        while j < end and ss[j] == ss[i]:
            j += 1
        runs.append((i, j - i))
        i = j
    runs.reverse()
    runs.sort(key=lambda r: -max(abs(2*(p if 2*p < n else n - p - 1) - n)
                                 for p in (r[0], r[0] + r[1] - 1)))
    return runs, end


def exchange(ss, sym, one, two):
    n = len(ss)
    out = list(ss)
    (a, m), (b, _) = one, two
    out[a:a + m], out[b:b + m] = ss[b:b + m], ss[a:a + m]
    if sym:
        out = gen.mirror(out[:n//2], ss[n//2] if n % 2 else None)
    return out


def block_pass(ss, case):
    """each block of plies in turn from the outside, exchanged with the best
    of the next ones of the same size"""
    spec = case['spec']
    n, sym, k = len(ss), spec['sym'], surface(spec)
    runs, end = blocks_of(ss, sym)
    edges = n//2 + n % 2 if sym else n
    now = list(ss)

    def fixed(run):
        return any(p < k or p >= n - k for p in range(run[0], sum(run)))

    def beside(run):
        return [now[p] for p in (run[0] - 1, sum(run)) if 0 <= p < edges]

    def allowed(run, angle):
        return beside(run) and all(
            angle != v and (not spec['diso'] or oracle.ang_gap(angle, v) <=
                            spec['delta_angle']) for v in beside(run))
    for i, one in enumerate(runs[:-1]):
        if fixed(one):
            continue
        cands = []
        tried = False
        for two in runs[i + 1:]:
            if fixed(two) or one[1] != two[1] or now[one[0]] == now[two[0]]:
                continue
            if allowed(one, now[two[0]]) and allowed(two, now[one[0]]):
                tried = True
                cands.append(exchange(now, sym, one, two))
        if tried:
            now = pick(now, cands, case)
            if 1e-11 < dist(now, case) < 1e-9:
                raise Close
            if dist(now, case) <= 1e-11:
                break
    return now


def reference(name, case, ss, mon):
    """designs the procedure as documented may return"""
    if name == 'blocks':
        return [block_pass(ss, case)]
    if name == 'shifts':
        return [one_pass(ss, case, case['n_D2'], True)]
    # number of plies tried: n_D2, or one more
    return [one_pass(ss, case, case['n_D2'] + more, False) for more in (0, 1)]


def compare(name, case, out, mon, info):
    try:
        want = reference(name, case, case['ss'], mon)
    except Close:
        mon.ev('too_close')
        return
    mon.ev(name + '_reference')
    mon.check(out in want or dist(out, case) < min(
        dist(w, case) for w in want), 'not-the-best-of-each-step',
              lambda: 'expected %s: %s' % (want, info()))


def part(name):
    def runner(case, mon):
        from src.RELAY.repair_flexural_1 import repair_flexural_1
        from src.RELAY.repair_flexural_2 import repair_flexural_2
        from src.RELAY.repair_flexural_3 import repair_flexural_3
        cons, par, target, coeffs = ready(case)
        ss = case['ss']
        arr = np.array(ss, int)
        spec, n = case['spec'], len(ss)
        sym, k = spec['sym'], surface(spec)
        if name == 'blocks':
            out = repair_flexural_1(arr, coeffs, target, cons)
        elif name == 'shifts':
            out = repair_flexural_2(arr, coeffs, target, cons, par)
        else:
            out = repair_flexural_3(arr, coeffs, target, cons, par)
        out = [int(a) for a in out]
        info = info_of(case, out)
        mon.check(arr.tolist() == ss, 'arguments-altered', info)
        if not judge(case, ss, out, mon, info):
            return
        if out != ss:
            mon.ev(name + '_changed')
            mon.sig(case)
        compare(name, case, out, mon, info)
        # at least as good as the best of the changes considered first
        rules = oracle.Rules(spec)
        if name == 'blocks':
            cand = first_swaps(case)
        else:
            pos = order_in(n, sym, k)
            if name != 'blocks':
                last_change(case, out, mon, info)
            cand = [moved(ss, sym, b, pos[0])
                    for b in pos[1:max(2, case['n_D2'])]] if pos else []
        cand = [c for c in cand if not rules.violated(c)]
        if cand:
            mon.ev('first_change')
            best = min(cand, key=lambda c: dist(c, case))
            mon.check(dist(out, case) <= dist(best, case) + 1e-9,
                      'improvement-missed', lambda: '%s better: %s' % (
                          best, info()))
    return runner


def first_swaps(case):
    """exchanges of the outermost block of modifiable plies with blocks of the
    same number of plies"""
    spec, ss = case['spec'], case['ss']
    n, sym, k = len(ss), spec['sym'], surface(spec)
    if not sym:
        return []
    half = ss[:n//2]
    runs, i = [], 0
    while i < len(half):
        j = i
        while j < len(half) and half[j] == half[i]:
            j += 1
        runs.append((i, j - i))
        i = j
    if n % 2 and runs and half[runs[-1][0]] == ss[n//2]:
        runs.pop()
    runs = [r for r in runs if r[0] >= k]
    out = []
    for at, size in runs[1:]:
        first, m = runs[0]
        if size != m or at == first + m:
            continue
        new = list(half)
        new[first:first + m], new[at:at + m] = half[at:at + m], \
            half[first:first + m]
        # no block may merge with its neighbours
        around = [(p, p + d) for p, d in ((first, -1), (first + m - 1, 1),
                                          (at, -1), (at + m - 1, 1))]
        full = gen.mirror(new, ss[n//2] if n % 2 else None)
        if any(0 <= q < (n//2 + n % 2) and full[p] == full[q]
               for p, q in around):
            continue
        # the surface interface is not exempted here
        if spec['diso'] and any(
                0 <= q < (n//2 + n % 2) and oracle.ang_gap(full[p], full[q]) >
                spec['delta_angle'] for p, q in around):
            continue
        out.append(full)
    return out


def make_rules(rng, tier):
    while True:
        case = make(rng, tier)
        if case['spec']['diso'] or case['spec']['contig']:
            return case


def make_middle(rng, tier):
    """blocks of one size next to a middle ply"""
    while True:
        case = make(rng, tier)
        spec = case['spec']
        spec.update(sym=True, dam_tol=False, diso=bool(rng.random() < .5))
        spec['contig'] = not spec['diso'] or spec['contig']
        size = int(rng.integers(1, 3)) if spec['n_contig'] > 2 else 1
        angles = spec['set_of_angles']
        half = gen.smooth_stack(rng, angles, int(rng.integers(3, 9)),
                                spec['delta_angle'] if spec['diso'] else 90, 1)
        if rng.random() < .3:      # inner plies like the middle ply
            size = 1
            half = list(half) + [half[-1]]*int(rng.integers(0, 2))
            ss = gen.mirror([int(a) for a in half], int(half[-1]))
        else:
            ss = gen.mirror(
                [int(a) for a in half for _ in range(size)],
                int(gen.choice(rng, [0, 90, 0, 90] + list(angles))))
        if oracle.Rules(spec).violated(ss):
            continue
        k = len(ss)//2
        case.update(ss=ss, switch=True, target=[float(v) for v in
                    oracle.lampam(gen.mirror([int(a) for a in rng.permutation(
                        ss[:k])], ss[k]) if rng.random() < .6 else
                        [int(gen.choice(rng, angles)) for _ in range(2)])])
        return case


def make_free(rng, tier):
    while True:
        case = make(rng, tier)
        case['spec']['diso'] = case['spec']['contig'] = False
        return case


FAMILIES = [Family('repair', make, run, 3000, 40000),
            Family('blocks', make_rules, part('blocks'), 2500, 30000),
            Family('middle', make_middle, part('blocks'), 3000, 40000),
            Family('shifts', make_rules, part('shifts'), 1500, 20000),
            Family('free', make_free, part('free'), 1500, 20000)]
