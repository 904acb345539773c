"""C08 the beam search keeps exactly the orientations the rules allow"""
import numpy as np
from vlib import gen, oracle as orc
from vlib.core import Family, CaseEnd

ID = 'C08'
RULE = ('lay-ups grown ply by ply, in the order the optimisers use (outside '
        'in, alternating surfaces for asymmetric laminates), through the '
        'pruning step of each optimiser; every kept and every discarded '
        'orientation is judged. Non-trivial: at least one orientation '
        'discarded')
REQUIRED = ['step', 'kept', 'discarded', 'branch_closed', 'completed_sym',
            'completed_mid', 'completed_asym', 'last_ply', 'damtol_ply',
            'group_boundary']
ASSUMPTIONS = ['for damage-tolerance rule 3 with disorientation active only '
               'soundness of the outer pair is judged']


def make(rng, tier, code='bella'):
    angles = gen.angle_set(rng)
    spec = gen.con_spec(rng, angles, sym=bool(rng.random() < .5),
                        rule_10_percent=False, bal=False)
    if code == 'layla':
        angles = [a for a in angles]
    n = int(rng.integers(10, 36))
    groups = []
    return {'spec': spec, 'n': n, 'groups': groups, 'code': code,
            'stick': float(rng.random()), 'salt': int(rng.integers(1 << 30)),
            'cuts': sorted(int(x) for x in rng.integers(4, n, 3))}


def order_of(n, sym):
    half = n//2 + n % 2
    if sym:
        return list(range(half))
    out = []
    lo, hi = 0, n - 1
    while lo <= hi:
        out.append(lo)
        if hi > lo:
            out.append(hi)
        lo, hi = lo + 1, hi - 1
    return out


def allowed(a, pos, last, bot, top, spec, n):
    """(is the orientation allowed?, is it a surface ply of damage tolerance)"""
    sym = spec['sym']
    rule = spec['dam_tol_rule'] if spec['dam_tol'] else 0
    if rule:
        if pos == 0 or (not sym and pos == n - 1):
            return abs(a) == 45, True
        if rule in (2, 3) and (pos == 1 or (not sym and pos == n - 2)):
            outer = bot[0] if pos == 1 else top[-1]
            return (a == -outer if rule == 2 else abs(a) == 45), True
    bottom = pos < n//2 + n % 2
    mid = sym and n % 2 == 1 and last
    if mid and a not in (0, 90):
        return False, False
    if spec['diso']:
        near = []
        if bottom and bot:
            near.append(bot[-1])
        if not bottom and top:
            near.append(top[0])
        if not sym and last:
            near += [bot[-1], top[0]]
        if any(orc.ang_gap(a, b) > spec['delta_angle'] for b in near):
            return False, False
    if spec['contig']:
        k = spec['n_contig']
        if sym and last:
            whole = bot + ([a] if mid else [a, a]) + bot[::-1]
        elif last:
            whole = bot + [a] + top
        elif bottom:
            whole = bot + [a]
        else:
            whole = [a] + top
        # only runs through the new ply count
        i = len(bot) if (bottom or last) else 0
        j = i
        while j > 0 and whole[j - 1] == a:
            j -= 1
        m = i
        while m + 1 < len(whole) and whole[m + 1] == a:
            m += 1
        if m - j + 1 > k:
            return False, False
    return True, False


class Targets:
    def __init__(self, n):
        self.n_plies = n


def run(case, mon):
    spec, n = case['spec'], case['n']
    sym = spec['sym']
    rng = np.random.default_rng(case['salt'])
    arr = lambda x: np.array(x, int)
    bella = case['code'] == 'bella'
    if bella:
        from src.BELLA.pruning import pruning_diso_contig_damtol as prune
        from src.BELLA.ply_order import calc_ply_order
        cons = gen.bella(spec)
    else:
        from src.LAYLA_V02.pruning import pruning_diso_contig_damtol as prune
        cons = gen.layla(spec)
    order = order_of(n, sym)
    bot, top = [], []
    cut = case['cuts']
    start_bot, start_top = 0, 0
    angles = [int(a) for a in cons.set_of_angles]
    for step, pos in enumerate(order):
        last = step == len(order) - 1
        children = list(angles)
        rng.shuffle(children)
        if bella:
            kw = dict(child_ss=arr(children), mother_ss_bot=arr(bot),
                      level=pos, n_plies_to_optimise=len(order),
                      constraints=cons,
                      has_middle_ply=bool(sym and n % 2))
            if not sym:
                kw['mother_ss_top'] = arr(top)
        else:
            if step in cut:
                start_bot, start_top = len(bot), len(top)
                mon.ev('group_boundary')
            k = cons.n_contig if hasattr(cons, 'n_contig') else 5
            b0 = bot[:start_bot]
            t0 = top[len(top) - start_top:]
            if spec['contig'] or spec['diso']:
                b0 = b0[-k:] if len(b0) > k else b0
                t0 = t0[:k] if len(t0) > k else t0
            kw = dict(child_ss=arr(children), mother_ss_bot=arr(bot[start_bot:]),
                      ss_bot_simp=arr(b0), level=pos, constraints=cons,
                      targets=Targets(n))
            if not sym:
                kw['mother_ss_top'] = arr(top[:len(top) - start_top])
                kw['ss_top_simp'] = arr(t0)
        out = prune(**kw)
        got = [] if out is None else [int(a) for a in out]
        mon.ev('step')
        if last:
            mon.ev('last_ply')
        mid = sym and n % 2 == 1 and last
        want = []
        surface = False
        for a in ([0, 90] if mid else children):
            ok, surface = allowed(a, pos, last, bot, top, spec, n)
            if ok:
                want.append(a)
        if surface:
            mon.ev('damtol_ply')
        where = 'middle' if mid else 'surface' if surface else \
            'last' if last else 'inner'
        kind = 'sym' if sym else 'asym'
        info = lambda: '%s %s n=%d position %d, below %s, above %s: kept %s, ' \
            'allowed %s' % (case['code'], gen.tag(spec), n, pos, bot, top,
                            got, want)
        mon.check(set(got) <= set(want),
                  'kept-forbidden:%s-%s-%s' % (case['code'], kind, where), info)
        loose = surface and spec['dam_tol_rule'] == 3 and spec['diso']
        if not loose:
            mon.check(set(want) <= set(got), 'discarded-allowed:%s-%s-%s' % (
                case['code'], kind, where), info)
        else:
            mon.check(bool(got) or not want, 'no-surface-ply:%s' % case['code'],
                      info)
        mon.check(len(set(got)) == len(got), 'duplicated:%s' % case['code'], info)
        if not mid:
            mon.check(all(a in children for a in got),
                      'not-a-candidate:%s' % case['code'], info)
        mon.ev('kept', len(got))
        if len(want) < len(children):
            mon.ev('discarded', len(children) - len(want))
            mon.sig(case['code'], gen.tag(spec), n, tuple(bot[-7:]),
                    tuple(top[:7]), pos)
        ok = [a for a in want if a in got]
        if not ok:
            mon.ev('branch_closed')
            return
        side = bot if pos < n//2 + n % 2 else top
        prev = (side[-1] if side is bot else side[0]) if side else None
        a = prev if prev in ok and rng.random() < case['stick'] else \
            ok[int(rng.integers(len(ok)))]
        if pos < n//2 + n % 2:
            bot.append(a)
        else:
            top.insert(0, a)
    full = (bot + bot[::-1][n % 2:]) if sym else bot + top
    mon.ev('completed_asym' if not sym else
           'completed_mid' if n % 2 else 'completed_sym')
    bad = orc.Rules(dict(spec, rule_10_percent=False, bal=False)).violated(full)
    mon.check(not bad, 'completed-lay-up-breaks-rule:%s' % case['code'],
              lambda: '%s %s: %s' % (gen.tag(spec), full, bad))
    mon.sample('%s %s' % (gen.tag(spec), full))


def make_layla(rng, tier):
    return make(rng, tier, 'layla')


def run_order(case, mon):
    """the order in which plies are laid"""
    from src.LAYLA_V02.ply_order import calc_ply_order, calc_levels
    cons = gen.layla(case['spec'])
    got = [int(x) for x in calc_ply_order(cons, Targets(case['n']))]
    want = order_of(case['n'], case['spec']['sym'])
    mon.check(got == want, 'ply-order:layla', lambda: '%s %s: %s' % (
        case['n'], case['spec']['sym'], got))
    mon.ev('order')
    sizes, left = [], len(want)
    rng = np.random.default_rng(case['salt'])
    while left:
        sizes.append(int(rng.integers(1, left + 1)))
        left -= sizes[-1]
    groups = calc_levels(np.array(want), np.array(sizes), len(sizes))
    mon.check([len(g) for g in groups] == sizes
              and [int(x) for g in groups for x in g] == want,
              'levels-of-groups', lambda: '%s %s %s' % (want, sizes, groups))


FAMILIES = [Family('bella', make, run, 2500, 60000),
            Family('layla', make_layla, run, 2500, 60000),
            Family('order', make, run_order, 400, 4000)]
