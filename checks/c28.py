"""C28 LAYLA returns the best of the laminates that its search found"""
import itertools
import math
import numpy as np
from vlib import e2e, gen, oracle
from vlib.core import Family
from checks import c08, c14, c16, c22

ID = 'C28'
RULE = ('single laminates designed end to end with LAYLA for random rules, '
        'targets, weightings, node limits, group sizes and numbers of outer '
        'steps; the laminates sent to and back from the repair are recorded; '
        'the search of each ply group is done again from its definition. '
        'Non-trivial: a laminate is designed')
REQUIRED = ['designed', 'symmetric', 'asymmetric', 'middle_ply',
            'asymmetric_odd', 'several_groups', 'several_steps',
            'later_step_best', 'several_designs', 'repaired_otherwise',
            'failed_repairs', 'search_redone', 'norm_1', 'norm_2',
            'stopped_early', 'cut_by_limits', 'tiny',
            'ten_percent_penalty', 'balance_penalty',
            'ipo_penalty', 'oopo_penalty', 'regrouped', 'printed', 'run_twice']
BUDGET = 25_000_000
WATCHDOG = 300
setup = c16.setup
near = c22.near


def make(rng, tier, tiny=False):
    i = lambda a, b: int(rng.integers(a, b + 1))
    b = lambda p: bool(rng.random() < p)
    runs = not tiny and b(.3)   # the contiguity rule active between groups
    while True:
        spec = gen.con_spec(rng)
        if runs:
            spec.update(contig=True, n_contig=i(2, 3))
            if b(.7):
                spec['diso'] = False
        if tiny and len(spec['set_of_angles']) > 6:
            continue
        spec['ipo'] = spec['bal'] or b(.2)
        spec['oopo'] = b(.25)
        sym = spec['sym']
        n = i(6, 10) if tiny else i(14 if runs else 8, 26)
        if tiny and not sym:
            n = i(5, 7)
        m = n - n//2 if sym else n
        # both forms of the +-45 minima are kept by LAYLA
        if spec['rule_10_percent']:
            if spec['percent_45'] + spec['percent_135'] > \
                    spec['percent_45_135']:
                spec['percent_45_135'] = spec['percent_45'] + \
                    spec['percent_135']
            if not feasible(spec, n):
                continue
        if spec['contig'] and spec['n_contig'] > 5:
            spec['n_contig'] = 5
        low = max(spec['n_contig'] if spec['contig'] else 1, i(2, 5))
        if m >= low:
            break
    steps = i(1, 3) if b(.75) else i(4, 6)
    top = 2*low + i(0, 4)
    if tiny:
        sizes, steps, low = [m + 1], 1, min(low, m)
    elif b(.6):
        sizes = [top]*steps
    else:
        sizes = [2*low + i(0, 6) for _ in range(steps)]
    big = 10**6
    w = [float(v) for v in rng.uniform(.2, 1, 12)]
    on = [1]*12
    if b(.3):
        on = [1]*4 + [0]*8 if b(.5) else [0]*8 + [1]*4
    elif b(.2):
        on = [int(rng.random() < .8) for _ in range(12)]
        on[0] = on[8] = 1
    target = oracle.lampam([int(gen.choice(rng, spec['set_of_angles']))
                            for _ in range(i(4, 14))])
    if runs:
        target = oracle.lampam([int(gen.choice(rng, spec['set_of_angles']))])
    target = [float(np.clip(v + rng.normal()*.05, -1, 1)) for v in target]
    kind = i(0, 3)
    local = big if tiny else i(1, 6)
    return {
        'spec': spec, 'n': n, 'target': target, 'w': w, 'on': on,
        'par': dict(
            n_outer_step=steps, group_size_min=low,
            coeff_10=float(gen.choice(rng, [0, .5, 3])),
            coeff_bal_ipo=float(gen.choice(rng, [.3, 1, 4])),
            coeff_oopo=float(gen.choice(rng, [.3, 1, 4])),
            global_node_limit=big if tiny else i(1, 12),
            global_node_limit_p=big if tiny else i(1, 8),
            local_node_limit=local,
            # the documentation of the limit of the last group is not precise
            local_node_limit_final=local,
            repair_membrane_switch=b(.6), repair_flexural_switch=b(.6),
            p_A=int(gen.choice(rng, [100, 80, 50])), n_D1=i(2, 6),
            n_D2=i(2, 6), n_D3=i(1, 2), type_obj_func=i(1, 2),
            penalty_10_pc_switch=b(.5),
            penalty_bal_switch=kind == 1 and spec['bal'],
            penalty_ipo_switch=kind == 2 and spec['ipo']),
        'sizes': sizes}


def feasible(spec, n):
    """enough plies (pairs of plies) for the minima of the 10% rule, rounded up
    direction by direction"""
    p, pm = minima(spec)
    need = {k: math.ceil(p[k]*n - 1e-9) for k in p}
    pm = math.ceil(pm*n - 1e-9)
    if spec['sym']:
        need, pm = {k: -(-v//2) for k, v in need.items()}, -(-pm//2)
    if spec['ipo']:
        need['45'] = need['135'] = max(need['45'], need['135'], -(-pm//2))
    pm = max(pm, need['45'] + need['135'])
    return need['0'] + need['90'] + pm <= (n//2 if spec['sym'] else n)


def refusal(e):
    text = str(e)
    if type(e).__name__ == 'PartitioningError':
        return 'partition'
    if 'No successfull repair' in text:
        return 'no_design'
    if 'Infeasible beam-search' in text:
        return 'infeasible'
    return None


def define(case):
    """rules, settings and targets"""
    from src.LAYLA_V02.parameters import Parameters
    from src.LAYLA_V02.targets import Targets
    cons = gen.layla(case['spec'])
    par = Parameters(cons, group_size_max=np.array(case['sizes']),
                     first_level_sensitivities=np.array(case['w']),
                     lampam_to_be_optimised=np.array(case['on']),
                     **case['par'])
    goal = Targets(n_plies=case['n'], lampam=np.array(case['target']))
    return cons, par, goal


def optimise(case, parts=None):
    """-> result or reason of the refusal, [before, after, repaired], parts"""
    from src.LAYLA_V02.optimiser import LAYLA_optimiser
    cons, par, goal = parts or define(case)
    calls = []

    def record(orig, *args, **kwargs):
        ss = args[0] if args else kwargs['ss']
        before = e2e.lay(ss)
        out = orig(*args, **kwargs)
        calls.append((before, e2e.lay(out[0]), bool(out[1])))
        return out
    with e2e.tap('repair_ss', 'src.RELAY.repair_ss', record):
        try:
            res = LAYLA_optimiser(par, cons, goal)
        except Exception as e:                      # noqa: BLE001
            res = refusal(e)
            if res is None:
                raise
    return res, calls, (cons, par, goal)


def aim(case):
    t, spec = np.array(case['target']), case['spec']
    if spec['sym']:
        t[4:8] = 0
    if spec['ipo']:
        t[2:4] = 0
    if spec['oopo']:
        t[10:12] = 0
    return t


def minima(spec):
    if not spec['rule_10_percent']:
        return None
    p = {k: spec['percent_' + k]/100 for k in ('0', '45', '90', '135')}
    return p, max(spec['percent_45_135']/100, p['45'] + p['135'])


def short(counts, spec):
    """penalty for the 10% rule: what is missing, in fractions"""
    if minima(spec) is None:
        return 0.
    p, pm = minima(spec)
    total = sum(counts.values())
    if not total:
        return 0.
    f = {k: counts.get(a, 0)/total for k, a in
         (('0', 0), ('45', 45), ('90', 90), ('135', -45))}
    return sum(max(0., p[k] - f[k]) for k in p) + max(
        0., pm - f['45'] - f['135'])


def odd(counts):
    """penalty for balance: plies without counterpart, in fractions"""
    total = sum(counts.values())
    return sum(abs(counts.get(a, 0) - counts.get(-a, 0)) for a in
               {abs(a) for a in counts} - {0, 90})/total if total else 0.


def norm(case, lp, weights):
    d = np.abs(lp - aim(case))
    return float(sum(weights*(d if case['par']['type_obj_func'] == 1
                              else d**2)))


def penalised(case, value, lp, counts, area, second, leaf, mon=None):
    spec, par = case['spec'], case['par']
    ten = bal = ipo = oopo = 0.
    if leaf and spec['rule_10_percent'] and par['penalty_10_pc_switch']:
        ten = par['coeff_10']*short(counts, spec)
    if spec['ipo'] and par['penalty_bal_switch'] and spec['bal']:
        bal = area*odd(counts)
    if spec['ipo'] and par['penalty_ipo_switch']:
        ipo = area*(abs(lp[2]) + abs(lp[3]))/2
    if spec['oopo']:
        oopo = second*(abs(lp[10]) + abs(lp[11]))/2
    if mon is not None:
        mon.ev('ten_percent_penalty', bool(ten > 0))
        mon.ev('balance_penalty', bool(bal > 0))
        mon.ev('ipo_penalty', bool(ipo > 0))
        mon.ev('oopo_penalty', bool(oopo > 0))
    both = max(bal, ipo)*(par['coeff_bal_ipo'] if spec['ipo'] else 0)
    return value*(1 + ten)*(1 + both)*(
        1 + oopo*(par['coeff_oopo'] if spec['oopo'] else 0))


def final_cost(case, ss, weights):
    """objective of a laminate returned by the repair"""
    lp = oracle.lampam(ss)
    counts = {a: ss.count(a) for a in ss}
    spec, par = case['spec'], case['par']
    if spec['rule_10_percent'] and short(counts, spec) > 1e-9:
        return 1e10
    if spec['ipo'] and par['penalty_ipo_switch'] and \
            abs(lp[2]) + abs(lp[3]) > 1e-9:
        return 1e10
    return penalised(case, norm(case, lp, weights), lp, counts, 1, 1, True)


def leaf_cost(case, ss, weights):
    lp = oracle.lampam(ss)
    return penalised(case, norm(case, lp, weights), lp,
                     {a: ss.count(a) for a in ss}, 1, 1, True)


def groups(case, parts, step):
    from src.LAYLA_V02.divide_laminate_sym import divide_laminate_sym
    from src.LAYLA_V02.divide_laminate_asym import divide_laminate_asym
    f = divide_laminate_sym if case['spec']['sym'] else divide_laminate_asym
    return [int(v) for v in f(parts[1], parts[2], step=step)[0]]


class Stuck(Exception):
    pass


def ply(case, base, pos, a, last):
    """contribution of a ply (and of its mirror image) to the lamination
    parameters"""
    n = case['n']
    s, p = c14.moments(pos, n)
    if case['spec']['sym']:
        f = 1. if (n % 2 and last) else 2.
        s, p = [f*s[0], 0., f*s[2]], [f*v for v in p]
    return np.concatenate([base[a]*v for v in s]), np.array(p)


def search(case, weights, sizes, prev, angles, mon):
    """laminates sent to the repair, by the definitions of the search"""
    spec, par, n, sym = (case['spec'], case['par'], case['n'],
                         case['spec']['sym'])
    order = c08.order_of(n, sym)
    base = {a: c22.basis(a) for a in set(angles) | {0, 90}}
    give = lambda pos, a: ply(case, base, pos, a, pos == order[-1])
    assumed, k = [], 0
    for size in sizes:
        v = np.zeros(12)
        if prev is not None:
            for pos in order[k:k + size]:
                v = v + give(pos, prev[pos])[0]
        assumed.append(v)
        k += size
    done, counts0, share = {}, {}, np.zeros(3)
    fixed, k = sum(assumed), 0
    for g, size in enumerate(sizes):
        fixed = fixed - assumed[g]
        end = g == len(sizes) - 1
        nodes = [(0., {}, fixed, dict(counts0))]
        for j in range(size):
            pos = order[k + j]
            leaf, last = j == size - 1, pos == order[-1]
            share = share + give(pos, 0)[1]
            scale = weights*np.repeat(share, 4)
            scale = scale/scale.sum()
            new = []
            for _, mine, lp, counts in nodes:
                stack = {**done, **mine}
                bot = [stack[q] for q in sorted(stack) if q < n//2 + n % 2]
                top = [stack[q] for q in sorted(stack) if q >= n//2 + n % 2]
                mid = sym and n % 2 == 1 and last
                kids = []
                for a in ([0, 90] if mid else angles):
                    if not c08.allowed(a, pos, last, bot, top, spec, n)[0]:
                        continue
                    lp2 = lp + give(pos, a)[0]
                    c2 = {**counts, a: counts.get(a, 0) + (.5 if mid else 1)}
                    cost = penalised(case, norm(case, lp2, scale), lp2, c2,
                                     share[0], share[2], leaf, mon)
                    kids.append((cost, {**mine, pos: a}, lp2, c2))
                if not leaf:
                    mon.ev('cut_by_limits',
                           len(kids) > par['local_node_limit'])
                    kids = c22.cut(kids, par['local_node_limit'])
                new += kids
            if not new:
                raise Stuck
            if not leaf:
                limit = par['global_node_limit_p'] if end and j == size - 2 \
                    else par['global_node_limit']
                mon.ev('cut_by_limits', len(new) > limit)
                new = c22.cut(new, limit)
            nodes = new
        k += size
        if not end:
            best = c22.cut(nodes, 1)[0]
            done, fixed, counts0 = {**done, **best[1]}, best[2], best[3]
    out = []
    for _, mine, _, _ in nodes:
        stack = {**done, **mine}
        half = [stack[q] for q in sorted(stack)]
        out.append(tuple(half + half[::-1][n % 2:] if sym else half))
    return out


def run(case, mon):
    res, calls, parts = optimise(case)
    judge(case, mon, res, calls, parts)


def judge(case, mon, res, calls, parts):
    spec, n, sym = case['spec'], case['n'], case['spec']['sym']
    par = parts[1]
    info = lambda: '%s %s' % (gen.tag(spec), {
        k: v for k, v in case.items() if k != 'spec'})
    weights = np.array(par.lampam_weightings_final)
    angles = [int(a) for a in parts[0].set_of_angles]
    mon.ev('symmetric' if sym else 'asymmetric')
    mon.ev('middle_ply', sym and n % 2 == 1)
    mon.ev('asymmetric_odd', not sym and n % 2 == 1)
    mon.ev('norm_%d' % case['par']['type_obj_func'])
    mon.ev('refused_' + res if isinstance(res, str) else 'returned')
    if res == 'partition':
        return
    rules = oracle.Rules(spec)
    for before, after, ok in calls:
        mon.check(len(before) == n, 'ply-count-before-repair', info)
        if sym:
            mon.check(before == before[::-1], 'symmetry-before-repair', info)
        mon.ev('failed_repairs', not ok)
        mon.ev('repaired_otherwise', ok and before != after)
    refused = isinstance(res, str)
    if refused:
        done = []
    else:
        steps = int(res.number_of_outer_steps_performed)
        if not mon.check(1 <= steps <= case['par']['n_outer_step'],
                         'number-of-steps', info):
            return
        nums = [int(v) for v in res.n_designs_last_level_tab[:steps]]
        if not mon.check(sum(nums) == len(calls), 'numbers-of-designs',
                         lambda: '%s, %d sent to the repair; %s' % (
                             nums, len(calls), info())):
            return
        done, k = [], 0
        for v in nums:
            done.append(calls[k:k + v])
            k += v
        mon.ev('several_steps', steps > 1)
        mon.ev('several_designs', max(nums) > 1)

    # ------------------------------------------------- tables of each step
    prev, costs = None, []
    for s, mine in enumerate(done):
        ss = e2e.lay(res.ss_tab[s])
        sent = {tuple(b) for b, _, _ in mine}
        redo(case, mon, weights, groups(case, parts, s), prev, angles, sent,
             len(mine), info, s)
        cost = [(leaf_cost(case, a, weights), final_cost(case, a, weights), a)
                for _, a, ok in mine if ok]
        if not mon.check(cost, 'failed-repair-returned', info):
            return
        best = min(c[0] for c in cost)
        hits = [c for c in cost if near(c[0], best)]
        if not mon.check(any(c[2] == ss for c in hits), 'best-of-step',
                         lambda: 'step %d: %s of %s; %s' % (
                             s, ss, sorted(cost)[:6], info())):
            return
        value = [c[1] for c in hits if c[2] == ss][0]
        mon.ev('penalised', value > 1e9)
        mon.check(near(float(res.obj_tab[s]), value), 'objective-of-step',
                  lambda: 'step %d: %s expected %s; %s' % (
                      s, res.obj_tab[s], value, info()))
        mon.check(np.allclose(res.lampam_tab_tab[s], oracle.lampam(ss),
                              atol=1e-9), 'lamination-parameters-of-step',
                  info)
        good = [a for _, a, ok in mine if ok]
        mon.check(int(res.n_designs_repaired_tab[s]) == len(good),
                  'number-of-repaired-designs', info)
        mon.check(int(res.n_designs_repaired_unique_tab[s]) == len(
            {str(a) for a in good}), 'number-of-unique-designs', info)
        mon.ev('regrouped', s > 0 and case['sizes'][s] != case['sizes'][s-1])
        costs.append(value)
        over = value < .9e-10 or prev == ss
        if s < len(done) - 1:
            mon.check(not over, 'search-not-stopped', info)
        elif s < case['par']['n_outer_step'] - 1:
            mon.ev('stopped_early')
            mon.check(value < 1.1e-10 or prev == ss, 'search-stopped', info)
        prev = ss
    if refused:
        # the steps before the refusal are not known: only the first one
        k = None
        redo(case, mon, weights, groups(case, parts, 0), None, angles,
             None if case['par']['n_outer_step'] > 1 else
             {tuple(b) for b, _, _ in calls}, k, info, 0, res, calls)
        return

    # --------------------------------------------------- laminate returned
    k = int(np.argmin(costs))
    got = int(res.n_outer_step_best_solution) - 1
    ss = e2e.lay(res.ss)
    note = lambda: '-> %s %s; %s' % (ss, costs, info())
    mon.check(res.completed is True, 'not-completed', note)
    if not mon.check(0 <= got < len(costs) and near(costs[got], costs[k]),
                     'best-step', note):
        return
    mon.ev('later_step_best', got > 0)
    mon.check(ss == e2e.lay(res.ss_tab[got]), 'laminate-of-another-step', note)
    mon.check(near(float(res.objective), costs[k]), 'objective', note)
    mon.check(len(ss) == n and set(ss) <= set(spec['set_of_angles']) | (
        {0, 90} if sym else set()), 'plies', note)
    bad = rules.violated(ss)
    mon.check(not bad, 'rules-broken', lambda: '%s %s' % (bad, note()))
    mon.check(short({a: ss.count(a) for a in ss}, spec) < 1e-9, 'ten-percent',
              note)
    mon.check(np.allclose(res.lampam, oracle.lampam(ss), atol=1e-9),
              'lamination-parameters', note)
    text = repr(res)
    mon.ev('printed')
    mon.check(all(str(a) in text for a in ss), 'printed-laminate', note)
    mon.ev('designed')
    mon.sig(n, ss)


def redo(case, mon, weights, sizes, prev, angles, sent, number, info, step,
         refused=None, calls=()):
    """the search of a step again, from its definition"""
    mon.ev('several_groups', len(sizes) > 1)
    spec = case['spec']
    if spec['dam_tol'] and spec['dam_tol_rule'] == 3 and spec['diso']:
        return      # the interface of the surface plies follows its own rule
    try:
        want = search(case, weights, sizes, prev, angles, mon)
    except c22.Tie:
        return mon.ev('tie')
    except Stuck:
        want = []
    mon.ev('search_redone')
    if refused == 'infeasible' and case['par']['n_outer_step'] == 1:
        mon.ev('infeasible')
        mon.check(not want, 'search-closed-early', lambda: '%s; %s' % (
            want[:5], info()))
        return
    if refused == 'no_design' and case['par']['n_outer_step'] == 1:
        mon.ev('no_design')
        mon.check(not any(ok for _, _, ok in calls), 'design-lost', info)
    if sent is None:
        return
    mon.check(sent == set(want) and (number is None or number == len(want)),
              'search', lambda: 'step %d: %s expected %s; %s' % (
                  step, sorted(sent), sorted(want), info()))


# ---------------------------------- one group, no limit: all is enumerated
def make_tiny(rng, tier):
    while True:
        case = make(rng, tier, True)
        spec, n = case['spec'], case['n']
        m = n - n//2 if spec['sym'] else n
        if len(spec['set_of_angles'])**m > 5000:
            continue
        if spec['dam_tol'] and spec['dam_tol_rule'] == 3:
            spec['diso'] = False
        return case


def run_tiny(case, mon):
    res, calls, parts = optimise(case)
    judge(case, mon, res, calls, parts)
    if res == 'partition':
        return
    if len(groups(case, parts, 0)) > 1:
        return mon.ev('tiny_in_groups')
    spec, n, sym = case['spec'], case['n'], case['spec']['sym']
    rules = oracle.Rules(spec)
    angles = [int(a) for a in parts[0].set_of_angles]
    m = n - n//2 if sym else n
    alls = set()
    for half in itertools.product(angles, repeat=m):
        if sym and n % 2 and half[-1] not in (0, 90):
            continue
        ss = half + half[::-1][n % 2:] if sym else half
        if not any(b in ('diso', 'contig', 'damtol')
                   for b in rules.violated(list(ss))):
            alls.add(ss)
    mon.ev('tiny')
    info = lambda: '%s %s' % (gen.tag(spec), {
        k: v for k, v in case.items() if k != 'spec'})
    mon.check({tuple(b) for b, _, _ in calls} == alls, 'laminates-explored',
              lambda: '%d, %d allowed; %s' % (len(calls), len(alls), info()))


def run_again(case, mon):
    """definitions serve for a second run, after another optimisation: same
    laminates explored, same laminate returned"""
    parts = define(case)
    a, calls, _ = optimise(case, parts)
    optimise(case['other'])
    b, again, _ = optimise(case, parts)
    info = lambda: '%s %s' % (gen.tag(case['spec']), {
        k: v for k, v in case.items() if k != 'spec'})
    mon.check(calls == again, 'second-run-explores-others', info)
    if isinstance(a, str) or isinstance(b, str):
        mon.check(isinstance(a, str) and a == b, 'second-run-differs', info)
        return
    mon.ev('run_twice')
    mon.sig(e2e.lay(a.ss), case['n'])
    mon.check(e2e.lay(a.ss) == e2e.lay(b.ss) and abs(
        float(a.objective) - float(b.objective)) < 1e-9,
        'second-run-differs', lambda: '%s then %s; %s' % (
            a.ss, b.ss, info()))


def make_again(rng, tier):
    return dict(make(rng, tier), other=make(rng, tier))


FAMILIES = [Family('laminate', make, run, 300, 6000),
            Family('again', make_again, run_again, 40, 700),
            Family('tiny', make_tiny, run_tiny, 25, 400)]
