"""C22 the optimiser returns the best blended design that it found"""
import itertools
import numpy as np
from vlib import e2e, gen, mps, oracle
from vlib.core import Family
from checks import c03, c08, c09, c14, c16, c21

ID = 'C22'
RULE = ('random connected structures of 1 to 5 panels optimised end to end '
        'with every combination of rules, targets, weightings, node limits '
        'and numbers of initial ply-drop layouts, under a virtual clock; all '
        'the designs sent to and back from the repair are recorded and '
        'judged. Non-trivial: a design is returned for at least two '
        'thicknesses')
REQUIRED = ['designed', 'symmetric', 'asymmetric', 'with_material',
            'without_material', 'several_layouts', 'several_designs',
            'failed_repairs', 'objective', 'penalised', 'same_thickness',
            'success_rate', 'beam_sym', 'beam_asym', 'tiny', 'tiny_cut',
            'middle_ply', 'layout_without_design', 'many_layouts',
            'run_twice', 'failed_before_the_best', 'failed_at_step_2', 'failed_at_step_3']
BUDGET = 40_000_000
WATCHDOG = 300
setup = c16.setup


def near(a, b):
    return abs(a - b) <= 1e-7*(1 + abs(a) + abs(b))


def make(rng, tier):
    return e2e.case(rng)


def make_faults(rng, tier):
    """many repairs give up, at any of their steps"""
    case = e2e.case(rng, lo=8, hi=16, gap=5)
    p = case['par']
    p['global_node_limit_final'] = int(rng.integers(2, 6))
    p['local_node_limit_final'] = 3
    p['save_success_rate'] = bool(rng.random() < .7)
    p['n_ini_ply_drops'] = int(rng.integers(1, 4))
    for k in ('global_node_limit2', 'local_node_limit2', 'global_node_limit3',
              'local_node_limit3'):
        p[k] = min(p[k], 3)
    case['spec']['pdl_spacing'] = bool(rng.random() < .8)
    rate = float(gen.choice(rng, [.3, .5, .8]))
    case['faults'] = {str(i): int(rng.integers(1, 4)) for i in range(40)
                      if rng.random() < rate}
    return case


def spread(case, strip):
    """values per thickness -> values per panel of the structure"""
    plies = mps.strip_plies(case['mp'])
    return [strip[plies.index(p)] for p in case['mp']['plies']]


def run(case, mon):
    with e2e.scratch() as folder:
        res, calls, layouts, book, parts = e2e.optimise(
            case, folder, save=case.get('save', False))
    judge(case, mon, res, calls, layouts, parts)


def judge(case, mon, res, calls, layouts, parts):
    spec, sym, settings = case['spec'], case['spec']['sym'], case['par']
    plies = mps.strip_plies(case['mp'])
    info = lambda: '%s %s' % (gen.tag(spec), {
        k: v for k, v in case.items() if k != 'spec'})
    if res == 'partition':
        return mon.ev('refused_partition')
    if res == 'closed_search':
        return mon.ev('closed_search')
    if res == 'no_design':
        mon.ev('no_design')
        mon.check(not any(c['ok'] for c in calls), 'design-lost', info)
        return
    cons, multi, par, obj, mat = parts
    mon.ev('with_material' if case['mat'] else 'without_material')
    mon.ev('success_rate', settings['save_success_rate'])
    mon.ev('several_layouts', len(layouts) > 1)
    mon.ev('symmetric' if sym else 'asymmetric')
    mon.ev('middle_ply', sym and plies[-1] % 2 == 1)
    mon.check(par.group_size_max == settings['group_size_max'],
              'settings-altered', info)
    if case['mat']:
        got = getattr(multi, 'weight_ref_per_panel', None)
        mon.check(got is not None and np.allclose(got, [
            .2*p.area*k for p, k in zip(multi.panels, case['mp']['plies'])]),
            'weight-of-panels', lambda: '%s; %s' % (got, info()))
    mon.ev('many_layouts', len(layouts) > 4)

    # ------------------------------------------ designs before the repair
    rules = oracle.Rules(spec)
    for c in calls:
        if c['pdl'] is None:
            continue
        mon.check(c['pdl'] in layouts, 'unknown-layout', info)
        guide = c['in'][-1]
        if not mon.check([len(s) for s in c['in']] == plies,
                         'ply-counts-before-repair', info):
            continue
        mon.check(c['in'] == [[a for a, k in zip(guide, row) if k >= 0]
                              for row in c['pdl']],
                  'blending-before-repair', lambda: '%s %s' % (info(), c))
        mon.check(set(guide) <= set(spec['set_of_angles']) | {0, 90},
                  'orientations-before-repair', info)
        if sym:
            mon.check(guide == guide[::-1], 'symmetry-before-repair', info)
        bad = [b for b in rules.violated(guide)
               if b in ('diso', 'contig', 'damtol')]
        mon.check(not bad, 'guide-breaks-rules',
                  lambda: '%s %s %s' % (bad, guide, info()))

    # --------------------------------------- designs of each layout, repaired
    groups = group(calls, layouts)
    tab = [float(v) for v in res.obj_constraints_tab]
    mon.check(len(tab) == len(layouts), 'table-size', info)
    stop = len(layouts)
    bests = []
    for i, pdl in enumerate(layouts):
        mine = groups.get(i)
        if mine is None:
            break
        mon.ev('several_designs', len(mine) > 1)
        costs = [e2e.total_cost(case, spread(case, c['ss'])) if c['ok']
                 else 1e10 for c in mine]
        mon.ev('failed_repairs', sum(not c['ok'] for c in mine))
        if not mine:
            if i >= stop:
                mon.check(np.isnan(tab[i]), 'unexplored-layout', info)
            else:
                mon.check(False, 'layout-skipped', info)
            continue
        mon.check(i < stop, 'search-not-stopped', info)
        mon.check(len(mine) <= settings['global_node_limit_final'],
                  'too-many-designs', info)
        best = min(costs)
        bests.append((best, i))
        if best >= 1e10:
            mon.ev('layout_without_design')
            mon.check(np.isnan(tab[i]) if settings['save_success_rate'] else
                      tab[i] >= 1e10 or np.isnan(tab[i]), 'failed-design-kept',
                      lambda: '%s %s' % (tab[i], info()))
            mon.check(not np.isnan(tab[i]) or all(
                np.isnan(t[i]).all() for t in (
                    res.obj_no_constraints_tab, res.n_plies_per_angle_tab,
                    res.penalty_diso_tab, res.penalty_contig_tab,
                    res.penalty_10_tab, res.penalty_spacing_tab)),
                'row-of-a-layout-without-design', info)
            continue
        mon.ev('objective')
        if not mon.check(near(tab[i], best), 'objective-of-layout',
                         lambda: 'layout %d: %s, best of %s; %s' % (
                             i, tab[i], costs, info())):
            continue
        if best < .9e-10:
            stop = i + 1
        row(case, mon, res, i, mine, costs, multi, info)
        oks = [c['ok'] for c in mine]
        mon.ev('failed_before_the_best', not all(oks[:costs.index(best)]))
        mon.ev('failed_at_step_2', any(c['step'] == 2 for c in mine))
        mon.ev('failed_at_step_3', any(c['step'] == 3 for c in mine))
    if not all(c['ok'] for c in calls):
        mon.ev('some_failed')

    # ------------------------------------------------------- best of layouts
    best = min(v for v, _ in bests)
    mon.check(near(float(res.obj_constraints), best), 'best-layout',
              lambda: '%s of %s; %s' % (res.obj_constraints, bests, info()))
    k = int(res.ind_mini)
    mon.check(near(tab[k], float(res.obj_constraints)), 'index-of-the-best',
              info)
    same = [np.array_equal(a, b) for a, b in zip(res.ss, res.ss_tab[k])]
    mon.check(all(same) and len(res.ss) == len(case['mp']['plies'])
              and np.array_equal(res.sst, res.ss_tab_tab[k])
              and np.array_equal(res.lampam, res.lampam_tab_tab[:, k])
              and np.array_equal(res.n_plies_per_angle,
                                 res.n_plies_per_angle_tab[k])
              and np.array_equal(res.obj_no_constraints,
                                 res.obj_no_constraints_tab[k]),
              'design-of-another-layout', info)
    if best >= 1e10:
        return mon.ev('only_failed_designs')
    mon.ev('designed')
    if len(plies) > 1:
        mon.sig(case['mp'], [e2e.lay(s) for s in res.ss])
    mon.ev('same_thickness', len(plies) < len(case['mp']['plies']))
    design(case, mon, res, info)


def group(calls, layouts):
    """calls of the repair per layout; {} when it cannot be told"""
    if any(c['pdl'] is None for c in calls):
        return {}
    if len({str(p) for p in layouts}) < len(layouts):
        return {}
    return {i: [c for c in calls if c['pdl'] == p]
            for i, p in enumerate(layouts)}


def row(case, mon, res, i, mine, costs, multi, info):
    """the tables of results of a layout"""
    spec, sss = case['spec'], [e2e.lay(s) for s in res.ss_tab[i]]
    best = min(costs)
    cands = [c for c, v in zip(mine, costs) if near(v, best)]
    hit = [c for c in cands if spread(case, c['ss']) == sss]
    if not mon.check(hit, 'design-of-layout', lambda: 'layout %d %s not in %s;'
                     ' %s' % (i, sss, [c['ss'] for c in cands], info())):
        return
    sst = [e2e.lay(s) for s in res.ss_tab_tab[i]]
    mon.check(any(spread(case, c['sst']) == sst for c in hit),
              'table-of-layout', lambda: '%s %s' % (sst, info()))
    costs = e2e.panel_costs(case, sss)
    mon.check(np.allclose(res.obj_no_constraints_tab[i], costs, atol=1e-8),
              'objective-of-panels', lambda: '%s expected %s; %s' % (
                  res.obj_no_constraints_tab[i], costs, info()))
    pens = [e2e.penalties(case, ss) for ss in sss]
    mon.ev('penalised', any(any(p) for p in pens))
    for name, col in (('diso', 0), ('contig', 1), ('10', 2)):
        got = getattr(res, 'penalty_%s_tab' % name)[i]
        mon.check(np.allclose(got, [p[col] for p in pens], atol=1e-9),
                  'penalty-' + name, lambda: '%s expected %s; %s' % (
                      got, pens, info()))
    lps = [oracle.lampam(s) for s in sss]
    for name, want in (
            ('n_diso_tab', [round(p[0]*len(s)) for p, s in zip(pens, sss)]
             if spec['diso'] else None),
            ('n_contig_tab', [round(p[1]*len(s)) for p, s in zip(pens, sss)]
             if spec['contig'] else None),
            ('penalty_bal_ipo_tab', [(abs(v[2]) + abs(v[3]))/2 for v in lps]),
            ('penalty_oopo_tab', [(abs(v[10]) + abs(v[11]))/2 if spec['oopo']
                                  else 0 for v in lps])):
        if want is None or not hasattr(res, name):
            continue
        got = getattr(res, name)[i]
        mon.check(np.allclose(got, want, atol=1e-9), 'table-of-the-degrees-of-'
                  'feasibility', lambda: '%s %s expected %s; %s' % (
                      name, got, want, info()))
    mon.check(np.allclose(res.lampam_tab_tab[:, i], [
        oracle.lampam(s) for s in sss], atol=1e-9), 'lamination-parameters',
        info)
    angles = [int(a) for a in np.array(multi_angles(case))]
    counts = [[s.count(a) for a in angles] for s in sss]
    mon.check(np.allclose(res.n_plies_per_angle_tab[i], counts),
              'ply-counts-per-orientation', lambda: '%s expected %s; %s' % (
                  res.n_plies_per_angle_tab[i], counts, info()))
    n, n1, n2, n3 = (int(getattr(res, 'n_designs_%s_tab' % k)[i]) for k in (
        'last_level', 'after_ss_ref_repair', 'after_thick_to_thin',
        'after_thin_to_thick'))
    steps = [c['step'] for c in mine]
    want = (len(steps), sum(s > 1 for s in steps), sum(s > 2 for s in steps),
            sum(s > 3 for s in steps))
    mon.check((n, n1, n2, n3) == want, 'numbers-of-designs',
              lambda: '%s expected %s; %s' % ((n, n1, n2, n3), want, info()))
    if case['par']['save_success_rate']:
        uniq = len({str(c['sst']) for c in mine if c['ok']})
        mon.check(int(res.n_designs_repaired_unique_tab[i]) == uniq,
                  'number-of-unique-designs', info)
    # ply drop spacing of the design
    want = 0.
    if spec['pdl_spacing']:
        plies = mps.strip_plies(case['mp'])
        pdl = hit[0]['sst']
        given = {frozenset((a, b)): w for a, b, w in
                 case['mp']['bweights'] or []}
        for a, b in case['mp']['edges']:
            p, q = (plies.index(case['mp']['plies'][j]) for j in (a, b))
            if p != q:
                want += (given[frozenset((a, b))] if given else 1) * \
                    c09.boundary_term(pdl[p], pdl[q], spec['min_drop'])[0]
    got = float(res.penalty_spacing_tab[i])
    mon.check(near(got, want), 'spacing', lambda: '%s expected %s; %s' % (
        got, want, info()))


def multi_angles(case):
    return gen.bella(case['spec']).set_of_angles


def design(case, mon, res, info):
    """the structure returned to the user"""
    spec, sym = case['spec'], case['spec']['sym']
    plies = mps.strip_plies(case['mp'])
    sss = [e2e.lay(s) for s in res.ss]
    ssts = [e2e.lay(s) for s in res.sst]
    first = [case['mp']['plies'].index(p) for p in plies]
    note = lambda: '-> %s; %s' % (sss, info())
    mon.check([sss[first[plies.index(p)]] for p in case['mp']['plies']] == sss,
              'panels-of-same-thickness-differ', note)
    strip = [sss[i] for i in first]
    if not c21.structure(strip, [ssts[i] for i in first], plies, sym, mon,
                         note):
        return
    rules = oracle.Rules(spec)
    ref = c21.strip_ref(plies, case['ref'])
    for i, ss in enumerate(strip):
        mon.check(set(ss) <= set(spec['set_of_angles']) | (
            {0, 90} if sym else set()), 'orientations', note)
        bad = rules.violated(ss) if i == ref else \
            c21.allowed(ss, spec, rules, i > ref)
        mon.check(not bad, 'rules-broken',
                  lambda: 'panel %d %s %s' % (i, bad, note()))
    cov = c21.protected(spec)
    for line in ssts:
        mon.check(-1 not in line[:cov] + (line[-cov:] if cov else []),
                  'covering', note)


# ------------------------------------------------------ one run after another
def make_again(rng, tier):
    case = make_faults(rng, tier)
    if rng.random() < .6:
        del case['faults']
    other = e2e.case(rng, lo=8, hi=12, gap=4, n_panels=2)
    for p in (case['par'], other['par']):
        for k in p:
            if 'node_limit' in k:
                p[k] = min(p[k], 3)
    other['par']['n_ini_ply_drops'] = 1
    return dict(case, other=other)


def run_again(case, mon):
    """the definitions given to the optimiser serve for a second run, after
    another optimisation: same structure, same rules, same design"""
    parts = e2e.build(case)
    with e2e.scratch() as folder:
        runs = []
        for i in range(2):
            if i:
                e2e.optimise(case['other'], folder, save=False)
                parts = parts[:2] + e2e.build(case)[2:3] + parts[3:]
            runs.append(e2e.optimise(case, folder, parts, save=False))
    (a, calls, pdls, *_), (b, calls2, pdls2, *_) = runs
    info = lambda: '%s %s' % (gen.tag(case['spec']), {
        k: v for k, v in case.items() if k != 'spec'})
    if isinstance(a, str) or isinstance(b, str):
        mon.check(isinstance(a, str) and a == b, 'second-run-differs', info)
        return mon.ev('refused_twice')
    mon.ev('run_twice')
    mon.sig(case['mp'], [e2e.lay(s) for s in a.ss])
    mon.check(pdls == pdls2, 'second-run-other-layouts', info)
    mon.check(calls == calls2, 'second-run-other-designs', info)
    mon.check([e2e.lay(s) for s in a.ss] == [e2e.lay(s) for s in b.ss] and
              np.array_equal(a.sst, b.sst) and near(
                  float(a.obj_constraints), float(b.obj_constraints)),
              'second-run-differs', lambda: '%s then %s; %s' % (
                  a.ss, b.ss, info()))


# ---------------------------------------------- beam search, step by step
def make_beam(rng, tier):
    case = e2e.case(rng, lo=8, hi=14, gap=4)
    p = case['par']
    p['local_node_limit_final'] = 100
    p['n_ini_ply_drops'] = int(rng.integers(1, 3))
    for k in ('global_node_limit2', 'local_node_limit2', 'global_node_limit3',
              'local_node_limit3'):
        p[k] = 1
    p['global_node_limit'] = int(rng.integers(1, 7))
    p['local_node_limit'] = int(rng.integers(1, 5))
    # few ties between designs
    for t, w in zip(case['targets'], case['lpw']):
        for i in (0, 1, 8, 9, 10, 11):
            w[i] = w[i] or .5
            t[i] = float(np.clip(t[i] + rng.normal()*.1, -1, 1))
    if case['spec']['dam_tol'] and case['spec']['dam_tol_rule'] == 3:
        case['spec']['diso'] = False
    first = {}
    for j, p in enumerate(case['mp']['plies']):     # one target per thickness
        i = first.setdefault(p, j)
        case['targets'][j], case['lpw'][j] = case['targets'][i], case['lpw'][i]
    return case


def aims(case, parts):
    """strip: ply counts, weightings, targets and parameter weightings"""
    plies = mps.strip_plies(case['mp'])
    w = [0.]*len(plies)
    for p, v in zip(case['mp']['plies'], case['mp']['weighting']):
        w[plies.index(p)] += v
    lpw = e2e.weightings(case)
    ind = [case['mp']['plies'].index(p) for p in plies]
    return plies, w, [np.array(case['targets'][i]) for i in ind], \
        [lpw[i] for i in ind]


class Tie(Exception):
    pass


def cut(nodes, limit):
    """the `limit` nodes of lowest cost, in their order"""
    if len(nodes) <= limit:
        return nodes
    vals = sorted(n[0] for n in nodes)
    if vals[limit] - vals[limit - 1] < 1e-9*(1 + abs(vals[limit])):
        raise Tie
    return [n for n in nodes if n[0] <= vals[limit - 1]]


def beam(case, parts, pdl, skip):
    """stacks of the guide panel kept by the search, by the definitions of the
    search. skip: number of the step without local limit"""
    spec, par, sym = case['spec'], case['par'], case['spec']['sym']
    plies, w, targets, lpw = aims(case, parts)
    n = plies[-1]
    order = c08.order_of(n, sym)
    angles = [int(a) for a in multi_angles(case)]
    kept = [[k >= 0 for k in r] for r in pdl]
    spot = [np.cumsum(r) - 1 for r in kept]
    share = [np.zeros(3) for _ in plies]
    nodes = [(0., {}, [np.zeros(12) for _ in plies])]
    base = {a: basis(a) for a in set(angles) | {0, 90}}
    for step, pos in enumerate(order):
        last = step == len(order) - 1
        terms = []
        for i, m in enumerate(plies):
            if not kept[i][pos]:
                terms.append(None)
                continue
            s, p = c14.moments(int(spot[i][pos]), m)
            if sym:
                f = 1. if (m % 2 and pos == order[-1]) else 2.
                s, p = [f*s[0], 0., f*s[2]], [f*v for v in p]
            share[i] = share[i] + np.array(p)
            terms.append(s)
        scale = []
        for i in range(len(plies)):
            v = lpw[i]*np.repeat(share[i], 4)
            scale.append(v/v.sum() if not np.isclose(v, 0).all() else v)
        new = []
        for _, stack, lps in nodes:
            bot = [stack[p] for p in sorted(stack)
                   if p < n//2 + n % 2]
            top = [stack[p] for p in sorted(stack)
                   if p >= n//2 + n % 2]
            mid = sym and n % 2 == 1 and last
            kids = []
            for a in ([0, 90] if mid else angles):
                if not c08.allowed(a, pos, last, bot, top, spec, n)[0]:
                    continue
                l2 = [lp if t is None else lp + np.concatenate(
                    [base[a]*t[0], base[a]*t[1], base[a]*t[2]])
                    for lp, t in zip(lps, terms)]
                cost = sum(wi*float(sum(sc*(lp - tg)**2)) for wi, sc, lp, tg in
                           zip(w, scale, l2, targets))
                kids.append((cost, dict(stack, **{pos: a})
                             if False else {**stack, pos: a}, l2))
            if step != skip:
                kids = cut(kids, par['local_node_limit_final'] if last
                           else par['local_node_limit'])
            new += kids
        if not new:
            return None
        nodes = cut(new, par['global_node_limit_final'] if last
                    else par['global_node_limit'])
    out = set()
    for _, stack, _ in nodes:
        half = [stack[p] for p in sorted(stack)]
        if sym:
            half = half + half[::-1][n % 2:]
        out.add(tuple(half))
    return out


def basis(a):
    r = np.deg2rad(a)
    return np.array([np.cos(2*r), np.cos(4*r), np.sin(2*r), np.sin(4*r)])


def run_beam(case, mon):
    with e2e.scratch() as folder:
        res, calls, layouts, book, parts = e2e.optimise(case, folder,
                                                        save=False)
    judge(case, mon, res, calls, layouts, parts)
    if res == 'partition' or not layouts:
        return
    groups = group(calls, layouts)
    if not groups:
        return
    if res in ('no_design', 'closed_search'):
        groups = {0: groups[0]}
        if res == 'no_design' and len(layouts) > 1:
            return
    sym, n = case['spec']['sym'], max(case['mp']['plies'])
    info = lambda: '%s %s' % (gen.tag(case['spec']), {
        k: v for k, v in case.items() if k != 'spec'})
    for i, mine in groups.items():
        if not mine and i:
            continue
        try:
            wants = [beam(case, parts, layouts[i], s) for s in (
                -1, -2 if sym else 1)]
        except Tie:
            mon.ev('tie')
            continue
        got = {tuple(c['in'][-1]) for c in mine}
        mon.ev('beam_sym' if sym else 'beam_asym')
        mon.check(any(got == (w or set()) for w in wants), 'beam-search',
                  lambda: 'layout %s: %s expected %s; %s' % (
                      layouts[i], sorted(got), wants, info()))


# -------------------------------- small guides: every design is enumerated
def make_tiny(rng, tier):
    while True:
        case = e2e.case(rng, lo=6, hi=10, gap=2, tiny=True,
                        n_panels=int(rng.integers(1, 4)))
        spec, n = case['spec'], max(case['mp']['plies'])
        m = n - n//2 if spec['sym'] else n
        if len(spec['set_of_angles'])**m > 40000 or m < 4 or n < 6:
            continue
        # the outermost interfaces as well as the middle follow their own rule
        if spec['dam_tol'] and spec['dam_tol_rule'] == 3:
            spec['diso'] = False
        case['par']['global_node_limit_final'] = int(rng.integers(1, 30))
        return case


def run_tiny(case, mon):
    with e2e.scratch() as folder:
        res, calls, layouts, book, parts = e2e.optimise(case, folder,
                                                        save=False)
    judge(case, mon, res, calls, layouts, parts)
    if res == 'partition' or not layouts:
        return
    groups = group(calls, layouts)
    if not groups:
        return
    spec, sym = case['spec'], case['spec']['sym']
    plies, w, targets, lpw = aims(case, parts)
    n, rules = plies[-1], oracle.Rules(spec)
    limit = case['par']['global_node_limit_final']
    kept = [[k >= 0 for k in r] for r in layouts[0]]
    angles = [int(a) for a in multi_angles(case)]
    m = n - n//2 if sym else n
    alls = []
    for half in itertools.product(angles, repeat=m):
        if sym:
            if n % 2 and half[-1] not in (0, 90):
                continue
            guide = half + half[::-1][n % 2:]
        else:
            guide = half
        if any(b in ('diso', 'contig', 'damtol')
               for b in rules.violated(list(guide))):
            continue
        alls.append(guide)
    info = lambda: '%s %s' % (gen.tag(spec), {
        k: v for k, v in case.items() if k != 'spec'})
    mon.ev('tiny')
    if res == 'closed_search':
        mon.check(not alls, 'search-closed-early', info)
        return
    cost = {}
    for g in alls:
        cost[g] = sum(wi*float(sum(sc*(oracle.lampam(
            [a for a, k in zip(g, row_) if k]) - tg)**2)) for wi, sc, row_, tg
            in zip(w, lpw, kept, targets))
    got = [tuple(c['in'][-1]) for c in groups[0]]
    mon.check(len(set(got)) == len(got), 'design-twice', info)
    mon.check(len(got) == min(limit, len(alls)), 'number-kept',
              lambda: '%d of %d, limit %d; %s' % (
                  len(got), len(alls), limit, info()))
    if not mon.check(set(got) <= set(cost), 'design-not-allowed', info):
        return
    mon.ev('tiny_cut', len(alls) > limit)
    vals = sorted(cost.values())[:len(got)]
    mine = sorted(cost[g] for g in got)
    mon.check(np.allclose(mine, vals, atol=1e-9), 'best-designs-lost',
              lambda: '%s expected %s; %s' % (mine, vals, info()))


FAMILIES = [Family('structure', make, run, 60, 900),
            Family('faults', make_faults, run, 40, 350),
            Family('again', make_again, run_again, 24, 150),
            Family('beam', make_beam, run_beam, 60, 900),
            Family('tiny', make_tiny, run_tiny, 40, 500)]
