"""C21 repair of a multi-panel design"""
import numpy as np
from vlib import gen, oracle, mps
from vlib.core import Family
from checks import c16, c20, c09

ID = 'C21'
RULE = ('random connected structures of 1 to 6 panels with random ply-drop '
        'layouts, guide laminates (smooth, random), every combination of '
        'rules, targets, weightings, reference panels and node limits; small '
        'structures whose designs are all enumerated. Non-trivial: repaired '
        'structure with at least two thicknesses')
REQUIRED = ['repaired', 'failed_ref', 'symmetric', 'asymmetric', 'thinner', 'thicker', 'both', 'beam_thin', 'beam_thick',
            'same_thickness', 'covering', 'spacing', 'node_limits',
            'layout_changed', 'reference', 'best_thin', 'best_thick',
            'kept_by_spacing', 'mixed']
BUDGET = 12_000_000
setup = c16.setup


# ---------------------------------------------------------------- generation
def spec_for(rng):
    spec = gen.con_spec(rng, oopo=False)
    if rng.random() < .5:
        spec['diso'] = spec['contig'] = True
        spec['delta_angle'] = int(gen.choice(rng, [45, 45, 60, 75]))
        spec['n_contig'] = int(rng.integers(3, 7))
    if rng.random() < .25:
        for k in list(spec):
            if k.startswith('percent'):
                del spec[k]
        spec.update(rule_10_percent=True, rule_10_Abdalla=True,
                    percent_Abdalla=int(gen.choice(rng, [5, 10])))
    spec['pdl_spacing'] = bool(rng.random() < .6)
    spec['min_drop'] = int(rng.integers(2, 5))
    spec['covering'] = bool(rng.random() < .6)
    spec['n_covering'] = int(rng.integers(1, 3)) if spec['covering'] else 0
    return spec


def protected(spec):
    cov = spec['n_covering'] if spec['covering'] else 0
    if spec['dam_tol']:
        cov = max(cov, 1) if spec['dam_tol_rule'] == 1 else 2
    return cov


def guide(rng, spec, n):
    rules = oracle.Rules(spec)
    sym, angles = spec['sym'], spec['set_of_angles']
    ss = None
    for _ in range(int(gen.choice(rng, [1, 20, 60]))):
        m = n//2 if sym else n
        half = c16.stack(rng, spec, m) if rng.random() < .3 else \
            gen.smooth_stack(rng, angles, m, spec['delta_angle'],
                             spec['n_contig'])
        mid = int(gen.choice(rng, [0, 90])) if n % 2 else None
        ss = gen.mirror(half, mid) if sym else list(half)
        if spec['dam_tol']:
            a, b = (int(gen.choice(rng, [45, -45])) for _ in range(2))
            ss[0], ss[-1] = a, (a if sym else b)
            if spec['dam_tol_rule'] > 1 and n > 3:
                ss[1] = -ss[0]
                ss[-2] = ss[1] if sym else -ss[-1]
        if not rules.violated(ss):
            break
    return [int(a) for a in ss]


def aims(rng, spec, n):
    angles = spec['set_of_angles']
    out, lpw = [], []
    for _ in range(n):
        out.append([float(v) for v in oracle.lampam(
            [int(gen.choice(rng, angles)) for _ in range(
                int(rng.integers(1, 6)))])])
    for _ in range(n):
        w = [0.]*12
        for i in (0, 1, 2, 3, 8, 9, 10, 11):
            w[i] = float(gen.choice(rng, [0, 1, 1, .3]))
        w[0] = w[0] or 1.
        lpw.append(w)
    return out, lpw


def make(rng, tier):
    while True:
        try:
            return attempt(rng)
        except ValueError:      # not enough plies to drop
            pass


def attempt(rng, small=False):
    spec = spec_for(rng)
    sym = spec['sym']
    if small and rng.random() < .35:
        # hardly any room for changes
        spec.update(diso=True, contig=True, n_contig=2, delta_angle=int(
            gen.choice(rng, [30, 45])))
    if small:
        k, gap = int(gen.choice(rng, [2, 2, 3])), (4 if sym else 2)
        mp = mps.mp_spec(rng, sym, n_panels=k, lo=6, hi=14 if sym else 9,
                         max_gap=gap, allow_mid=False)
    else:
        mp = mps.mp_spec(rng, sym, lo=8, hi=int(gen.choice(rng, [14, 30])),
                         max_gap=int(gen.choice(rng, [2, 4, 8])),
                         n_panels=int(rng.integers(1, 7)), allow_mid=False)
    if sym and rng.random() < .3:
        mp['plies'] = [p + 1 for p in mp['plies']]
    plies = mps.strip_plies(mp)
    if small and len(plies) == 1 and rng.random() < .9:
        raise ValueError
    rows = mps.nested_rows(rng, plies, sym, protect=protected(spec))
    ref = int(gen.choice(rng, [1000, 1000, 1, 1, int(gen.choice(rng, plies)),
                               int(rng.integers(plies[0], plies[-1] + 1))]))
    targets, lpw = aims(rng, spec, len(mp['plies']))
    if rng.random() < .5:
        lpw = lpw[0]
    lim = lambda: int(gen.choice(rng, [1, 2, 3, 5, 10]))
    big = 10**6
    return {'spec': spec, 'mp': mp, 'rows': rows, 'ref': ref,
            'ss': guide(rng, spec, plies[-1]), 'targets': targets, 'lpw': lpw,
            'limits': [big]*4 if small else [lim() for _ in range(4)],
            'p_A': int(gen.choice(rng, [100, 100, 80, 50])),
            'n_D1': int(gen.choice(rng, [2, 4, 6])),
            'n_D2': int(gen.choice(rng, [2, 5, 10])),
            'n_D3': int(gen.choice(rng, [1, 2])),
            'membrane': bool(rng.random() < .7),
            'flexural': bool(rng.random() < .7)}


def build(case):
    """the structure, its design and the settings, as the optimiser makes them
    before calling the repair"""
    from src.BELLA.parameters import Parameters
    from src.BELLA.obj_function import ObjFunction
    spec = case['spec']
    cons = gen.bella(spec)
    multi = mps.build(case['mp'], cons, case['targets'], case['lpw'])
    obj = ObjFunction(cons, coeff_diso=.1, coeff_contig=.1, coeff_10=.1)
    multi.filter_target_lampams(cons, obj)
    multi.filter_lampam_weightings(cons, obj)
    multi.from_mp_to_blending_strip(cons, case['ref'])
    gl2, ll2, gl3, ll3 = case['limits']
    par = Parameters(
        cons, global_node_limit2=gl2, local_node_limit2=ll2,
        global_node_limit3=gl3, local_node_limit3=ll3, p_A=case['p_A'],
        n_D1=case['n_D1'], n_D2=case['n_D2'], n_D3=case['n_D3'],
        repair_membrane_switch=case['membrane'],
        repair_flexural_switch=case['flexural'],
        n_plies_ref_panel=case['ref'])
    pdl = mps.to_pdl(case['rows'])
    sss = [np.array([a for a, k in zip(case['ss'], row) if k], int)
           for row in case['rows']]
    return cons, multi, obj, par, pdl, sss


# -------------------------------------------------------------------- oracle
def imbalance(ss):
    c = oracle.counts(ss)
    return sum(abs(c.get(a, 0) - c.get(-a, 0)) for a in set(map(abs, c))
               if a not in (0, 90))


def structure(sss, ssts, plies, sym, mon, info):
    """ply counts, symmetry and blending of a strip; False when hopeless"""
    lines = [[int(a) for a in s] for s in ssts]
    n = plies[-1]
    if not mon.check(all(len(li) == n for li in lines), 'layout-size', info):
        return False
    ok = True
    for i, (ss, line) in enumerate(zip(sss, lines)):
        ok &= mon.check(len(ss) == plies[i], 'ply-counts', info)
        ok &= mon.check(ss == [a for a in line if a != -1],
                        'layout-and-stacks-differ', info)
        if sym:
            ok &= mon.check(line == line[::-1], 'symmetry', info)
    for a, b in zip(lines, lines[1:]):
        ok &= mon.check(all(x == -1 or x == y for x, y in zip(a, b)),
                        'blending', info)
    return ok


def allowed(ss, spec, rules, diso):
    """rules that a panel designed from another one always obeys"""
    bad = [b for b in rules.violated(ss) if b != 'bal' and
           (diso or b != 'diso')]
    if spec['bal'] and imbalance(ss) > (2 if spec['sym'] else 1):
        bad.append('bal')
    return bad


def run(case, mon):
    from src.RELAY.repair_mp import repair_mp
    spec, sym = case['spec'], case['spec']['sym']
    cons, multi, obj, par, pdl, sss = build(case)
    strip = multi.reduced
    plies = mps.strip_plies(case['mp'])
    ind_ref = strip_ref(plies, case['ref'])
    rules = oracle.Rules(spec)
    n_ref = plies[ind_ref]
    abd = spec['rule_10_percent'] and spec.get('rule_10_Abdalla')
    if not abd:
        req = c16.need(spec, n_ref)
        if req[0] + req[1] + req[4] > (n_ref//2 if sym else n_ref):
            mon.ev('infeasible_skipped')
            return False
    elif n_ref < 8:
        return False
    before = [s.tolist() for s in sss]
    ok, out, sst, layout, step = repair_mp(
        multi, sss, cons, par, obj, reduced_pdl=np.copy(pdl), mat=0)
    info = lambda: '%s %s -> %s %s %s' % (gen.tag(spec), {
        a: b for a, b in case.items() if a not in ('spec', 'rows')}, ok, step,
        [[int(a) for a in s] for s in sst])
    mon.check(strip.ind_ref == ind_ref, 'reference-panel', info)
    mon.ev('symmetric' if sym else 'asymmetric')
    mon.ev('covering', protected(spec) > 0)
    mon.ev('spacing', spec['pdl_spacing'])
    mon.ev('node_limits', max(case['limits']) < 10**6)
    lay = lambda s: [int(a) for a in s]
    # the reference panel, repaired as a laminate on its own
    from src.RELAY.repair_ss import repair_ss
    lone = c20.Par()
    panel = strip.panels[ind_ref]
    lone.p_A, lone.n_D1, lone.n_D2, lone.n_D3 = (
        case['p_A'], case['n_D1'], case['n_D2'], case['n_D3'])
    lone.weighting_finalA = panel.lampam_weightingsA
    lone.weighting_finalD = panel.lampam_weightingsD
    lone.lampam_weightings_final = panel.lampam_weightings
    lone.repair_membrane_switch = case['membrane']
    lone.repair_flexural_switch = case['flexural']
    alone, fine = repair_ss(np.array(before[ind_ref]), cons, lone,
                            panel.lampam_target)
    alone = lay(alone)
    mon.check(fine == (step != 1), 'reference-panel-verdict', info)
    mon.check(ok == (step == 4) and step in (1, 2, 3, 4), 'codes', info)
    if not ok:
        mon.check([[a == -1 for a in s] for s in sst] ==
                  [[a == -1 for a in s] for s in layout] and
                  lay(sst[-1]) == lay(out[-1]), 'design-of-failed-repair',
                  lambda: '%s %s %s' % ([lay(s) for s in out],
                                        [lay(s) for s in layout], info()))
    if step == 1:
        mon.ev('failed_ref')
        return
    mon.ev('thinner', ind_ref > 0)
    mon.ev('thicker', ind_ref < len(plies) - 1)
    if step == 2:
        mon.ev('failed_thin')
        mon.check(ind_ref > 0, 'failure-without-cause', info)
    if step == 3:
        mon.ev('failed_thick')
        mon.check(ind_ref < len(plies) - 1, 'failure-without-cause', info)
    if not ok:
        return
    mon.ev('repaired')
    mon.ev('both', 0 < ind_ref < len(plies) - 1)
    out, sst = [lay(s) for s in out], [lay(s) for s in sst]
    mon.check([lay(s) for s in layout] == [[
        -1 if a == -1 else i for i, a in enumerate(s)] for s in sst],
        'layout-of-another-design', info)
    mon.check(len(out) == len(sst) == len(plies), 'panel-count', info)
    if not structure(out, sst, plies, sym, mon, info):
        return
    if len(plies) == 1:
        mon.ev('same_thickness')
    else:
        mon.sig(case['mp'], out)
        mon.ev('layout_changed',
               [[a == -1 for a in s] for s in sst] !=
               [[not k for k in r] for r in case['rows']])
    mon.ev('reference')
    mon.check(out[ind_ref] == alone, 'reference-panel-laminate',
              lambda: '%s alone %s' % (info(), alone))
    start_bad = rules.violated(before[ind_ref])
    for i, ss in enumerate(out):
        mon.check(set(ss) <= set(spec['set_of_angles']), 'orientations', info)
        if i == ind_ref:
            bad = rules.violated(ss)
        else:
            bad = allowed(ss, spec, rules, i > ind_ref)
        if 'damtol' in start_bad:
            bad = [b for b in bad if b != 'damtol']
        mon.check(not bad, 'rules-broken', lambda: 'panel %d %s %s' % (
            i, bad, info()))
    cov = protected(spec)
    for line in sst:
        mon.check(-1 not in line[:cov] + (line[-cov:] if cov else []),
                  'covering', info)
    return cons, multi, obj, par, out, sst, alone, ind_ref


def strip_ref(plies, ref):
    """reference panel: the thinnest one that has the plies asked for"""
    for i, p in enumerate(plies):
        if p >= ref:
            return i
    return len(plies) - 1


# ------------------------------------------------ enumeration of the designs
def weigh(case, multi):
    """aggregated panel weighting, target and parameter weightings per
    thickness"""
    plies = mps.strip_plies(case['mp'])
    w = [0.]*len(plies)
    for p, v in zip(case['mp']['plies'], case['mp']['weighting']):
        w[plies.index(p)] += v
    tot = sum(case['mp']['weighting'])
    return [(v/tot, p.lampam_target, p.lampam_weightings)
            for v, p in zip(w, multi.reduced.panels)]


def fine(ss, spec, rules, diso):
    bad = rules.violated(ss)
    return not [b for b in bad if b == 'contig' or b == 'abdalla' or
                b == 'ten' or (diso and b == 'diso')]


def doubtful(ss, spec):
    """on the limit of the 10% rule in terms of lamination parameters"""
    if spec['rule_10_percent'] and spec.get('rule_10_Abdalla'):
        lp = oracle.lampam(ss)
        return abs(oracle.abdalla_margin(
            lp[0], lp[1], spec['percent_Abdalla']/100)) < 1e-7
    return False


def thinner(case, alone, rows, ind_ref):
    """all the designs of the panels thinner than the reference panel: lists of
    stacks, thickest first"""
    spec, sym = case['spec'], case['spec']['sym']
    plies = mps.strip_plies(case['mp'])
    rules = oracle.Rules(spec)
    cov, n = protected(spec), plies[ind_ref]
    stop = n//2 if sym else n - cov
    states = {(frozenset(), ())}
    unsure = False
    thick = n
    for p in plies[ind_ref - 1::-1] if ind_ref else []:
        for step in range((thick - p)//(2 if sym else 1)):
            new = set()
            for gone, done in states:
                left = excess(alone, gone, spec)
                for i in range(cov, stop):
                    a = alone[i]
                    if i in gone or (left is not None and a != left):
                        continue
                    drop = gone | ({i, n - 1 - i} if sym else {i})
                    ss = [b for j, b in enumerate(alone) if j not in drop]
                    unsure |= doubtful(ss, spec)
                    if fine(ss, spec, rules, False):
                        new.add((frozenset(drop), done))
            states = new
        states = {(g, d + (g,)) for g, d in states}
        thick = p
    return [[[a for j, a in enumerate(alone) if j not in g] for g in d]
            for _, d in states], unsure


def excess(ss, gone, spec):
    """orientation to drop next to recover balance"""
    if not spec['bal']:
        return None
    for a in {ss[i] for i in gone}:
        k = sum((ss[i] == a) - (ss[i] == -a) for i in gone)
        if abs(a) not in (0, 90) and k > 0:
            return -a
    return None


def thicker(case, alone, ind_ref):
    """all the designs of the panels thicker than the reference panel"""
    spec, sym = case['spec'], case['spec']['sym']
    plies = mps.strip_plies(case['mp'])
    rules = oracle.Rules(spec)
    cov = protected(spec)
    states = {(tuple(alone), None, ())}
    unsure = False
    thin = plies[ind_ref]
    for p in plies[ind_ref + 1:]:
        for step in range((p - thin)//(2 if sym else 1)):
            new = set()
            for ss, left, done in states:
                n = len(ss)
                for i in range(cov, n//2 + 1 if sym else n - cov + 1):
                    for a in spec['set_of_angles']:
                        if left is not None and a != left:
                            continue
                        if sym:
                            s = ss[:i] + (a,) + ss[i:n - i] + (a,) + ss[n - i:]
                        else:
                            s = ss[:i] + (a,) + ss[i:]
                        unsure |= doubtful(s, spec)
                        if fine(s, spec, rules, True):
                            nxt = -a if spec['bal'] and left is None and \
                                abs(a) not in (0, 90) else None
                            new.add((s, nxt, done))
            states = new
        states = {(s, q, d + (s,)) for s, q, d in states}
        thin = p
    return [[list(s) for s in d] for _, _, d in states], unsure


def make_small(rng, tier):
    while True:
        try:
            case = attempt(rng, small=True)
        except ValueError:
            continue
        plies, spec = mps.strip_plies(case['mp']), case['spec']
        if rng.random() < .3 and len(plies) > 1 and not spec['sym']:
            # minima met exactly by the thinnest panel: the next plies are
            # those of one direction
            spec.pop('rule_10_Abdalla', None)
            spec.pop('percent_Abdalla', None)
            spec.update(covering=False, n_covering=0, dam_tol=False, bal=False,
                        contig=False, diso=bool(rng.random() < .3))
            one = str(gen.choice(rng, ['0', '45', '90', '135']))
            spec.update(rule_10_percent=True, percent_45_135=0., **{
                'percent_' + d: 100.*int(rng.integers(1, 3))/plies[0]
                if d == one else 0. for d in ('0', '45', '90', '135')})
            case['ref'] = 1
            case['ss'] = guide(rng, spec, plies[-1])
        return case


def run_small(case, mon):
    """with unlimited nodes the repair returns the best of all the designs"""
    plies = mps.strip_plies(case['mp'])
    got = run(case, mon)
    if got is False:
        return
    spec = case['spec']
    ind_ref = strip_ref(plies, case['ref'])
    k = 2 if spec['sym'] else 1
    if (plies[ind_ref] - plies[0])//k > 2 or \
            (plies[-1] - plies[ind_ref])//k > 2:
        return
    if got is None:
        return none_exists(case, mon, ind_ref)
    cons, multi, obj, par, out, sst, alone, ind_ref = got
    w = weigh(case, multi)
    cost = lambda i, ss: w[i][0]*c20.gap(oracle.lampam(ss), w[i][1], w[i][2])
    info = lambda: '%s %s -> %s' % (gen.tag(spec), case, out)
    for name, designs, inds in (
            ('thin', thinner(case, alone, None, ind_ref),
             list(range(ind_ref - 1, -1, -1))),
            ('thick', thicker(case, alone, ind_ref),
             list(range(ind_ref + 1, len(plies))))):
        if not inds:
            continue
        every, unsure = designs
        if unsure:
            mon.ev('limit_cases')
            continue
        mine = sum(cost(i, out[i]) for i in inds)
        if not mon.check([out[i] for i in inds] in every,
                         'design-not-allowed-' + name, info):
            continue
        mon.ev('best_' + name)
        best = min(sum(cost(i, s) for i, s in zip(inds, d)) for d in every)
        mon.check(mine <= best + 1e-9, 'not-the-best-' + name,
                  lambda: '%s instead of %s; %s' % (mine, best, info()))


def none_exists(case, mon, ind_ref):
    """a failure is reported only when there is no design"""
    from src.RELAY.repair_mp import repair_mp
    from src.RELAY.repair_ss import repair_ss
    cons, multi, obj, par, pdl, sss = build(case)
    first = np.array(sss[ind_ref])
    ok, out, sst, layout, step = repair_mp(
        multi, sss, cons, par, obj, reduced_pdl=pdl, mat=0)
    if ok or step == 1:
        return
    lone = c20.Par()
    panel = multi.reduced.panels[ind_ref]
    lone.p_A, lone.n_D1, lone.n_D2, lone.n_D3 = (
        case['p_A'], case['n_D1'], case['n_D2'], case['n_D3'])
    lone.weighting_finalA = panel.lampam_weightingsA
    lone.weighting_finalD = panel.lampam_weightingsD
    lone.lampam_weightings_final = panel.lampam_weightings
    lone.repair_membrane_switch = case['membrane']
    lone.repair_flexural_switch = case['flexural']
    alone, fine_ = repair_ss(first, cons, lone, panel.lampam_target)
    alone = [int(a) for a in alone]
    name = 'thin' if step == 2 else 'thick'
    every, unsure = (thinner(case, alone, None, ind_ref) if step == 2 else
                     thicker(case, alone, ind_ref))
    if unsure:
        return
    mon.ev('none_' + name)
    mon.check(not every, 'design-missed-' + name, lambda: '%s %s e.g. %s' % (
        gen.tag(case['spec']), case, every[:1]))


# ------------------------------------- ply drops kept for their spacing alone
def make_spacing(rng, tier):
    while True:
        try:
            case = attempt(rng)
        except ValueError:
            continue
        spec, sym = case['spec'], case['spec']['sym']
        plies = mps.strip_plies(case['mp'])
        if len(plies) < 2:
            continue
        # one thinner panel with one drop (pair of drops) fewer
        k = 2 if sym else 1
        case['mp'] = dict(
            plies=[plies[-1], plies[-1] - k], ids=[1, 2], edges=[[0, 1]],
            neigh=[[1], [0]], bweights=None, weighting=[1., 1.],
            lx=[1., 1.], ly=[1., 1.], nx=[1., 1.], ny=[1., 1.])
        case['spec'] = dict(spec, pdl_spacing=True, bal=False)
        case['targets'], case['lpw'] = aims(rng, case['spec'], 2)
        case['rows'] = mps.nested_rows(rng, sorted(case['mp']['plies']), sym,
                                       protect=protected(spec))
        case['ref'] = 1000
        case['ss'] = guide(rng, case['spec'], plies[-1])
        case['limits'] = [10**6, int(rng.integers(1, 6)), 10**6, 10**6]
        return case


def run_spacing(case, mon):
    got = run(case, mon)
    if not got:
        return
    cons, multi, obj, par, out, sst, alone, ind_ref = got
    spec, sym = case['spec'], case['spec']['sym']
    n, cov, limit = len(alone), protected(spec), case['limits'][1]
    rules = oracle.Rules(spec)
    w = weigh(case, multi)
    found = []
    for i in range(cov, n//2 if sym else n - cov):
        gone = {i, n - 1 - i} if sym else {i}
        line = [-1 if j in gone else a for j, a in enumerate(alone)]
        ss = [a for a in line if a != -1]
        if doubtful(ss, spec):
            return
        pen = c09.gaps_missing(line, spec['min_drop'])/n
        found.append((pen, fine(ss, spec, rules, False), ss))
    if len(found) > limit:
        mon.ev('kept_by_spacing')
        last = sorted(f[0] for f in found)[limit - 1]
        found = [f for f in found if f[0] <= last + 1e-12]
    every = [ss for pen, ok, ss in found if ok]
    info = lambda: '%s %s -> %s' % (gen.tag(spec), case, out)
    if not mon.check(out[0] in every, 'ply-drop-spacing-ignored', info):
        return
    cost = lambda ss: c20.gap(oracle.lampam(ss), w[0][1], w[0][2])
    mon.check(cost(out[0]) <= min(map(cost, every)) + 1e-9,
              'not-the-best-spacing', info)


# ------------------------------- middle plies in some of the panels only
def make_mixed(rng, tier):
    while True:
        try:
            case = attempt(rng)
        except ValueError:
            continue
        plies = sorted(set(case['mp']['plies']))
        if not case['spec']['sym'] or len(plies) < 2:
            continue
        cut = plies[int(rng.integers(1, len(plies)))] & ~1
        mp = case['mp']
        mp['plies'] = [(p & ~1) + (p >= cut) for p in mp['plies']]
        plies = sorted(set(mp['plies']))
        if len({p % 2 for p in plies}) < 2:
            continue
        try:
            case['rows'] = mps.nested_rows(rng, plies, True,
                                           protect=protected(case['spec']))
        except ValueError:
            continue
        case['ss'] = guide(rng, case['spec'], plies[-1])
        return case


def run_mixed(case, mon):
    from src.RELAY.repair_mp import repair_mp
    spec = case['spec']
    cons, multi, obj, par, pdl, sss = build(case)
    plies = mps.strip_plies(case['mp'])
    mon.ev('mixed')
    info = lambda: '%s %s' % (gen.tag(spec), case)
    try:
        ok, out, sst, layout, step = repair_mp(
            multi, sss, cons, par, obj, reduced_pdl=np.copy(pdl), mat=0)
    except Exception as e:
        mon.check(False, 'middle-ply-drop', lambda: repr(e) + info())
        return
    if not ok:
        return
    out, sst = ([[int(a) for a in s] for s in v] for v in (out, sst))

    class Quiet:
        def check(self, cond, *args):
            return bool(cond)
    mon.check(structure(out, sst, plies, True, Quiet(), info),
              'middle-ply-drop', lambda: '%s -> %s' % (info(), sst))


# ------------------------------------- reference search with limited nodes
class Tie(Exception):
    """the limit on the nodes falls between designs of the same value"""


def least_spaced(nodes, limit):
    """nodes are (spacing terms, value of the spacing, design): the first ones
    and all those equal to the last one kept"""
    if len(nodes) <= limit:
        return nodes
    values = sorted(n[1] for n in nodes)
    last = values[limit - 1]
    same = [n for n in nodes if abs(n[1] - last) < 1e-12]
    if len({n[0] for n in same}) > 1:
        raise Tie
    return [n for n in nodes if n[1] <= last + 1e-12]


def cheapest(nodes, limit):
    if len(nodes) <= limit:
        return nodes
    nodes = sorted(nodes, key=lambda n: n[2]['cost'])
    if nodes[limit][2]['cost'] - nodes[limit - 1][2]['cost'] < 1e-9:
        raise Tie
    return nodes[:limit]


def spaced(case, lines):
    """ply-drop spacing terms and value of a strip, panels without design
    excluded"""
    terms, total, mp = [], 0., case['mp']
    if not case['spec']['pdl_spacing']:
        return (), 0.
    plies = mps.strip_plies(mp)
    given = {frozenset((a, b)): w for a, b, w in mp['bweights'] or []}
    for a, b in mp['edges']:
        p, q = (plies.index(mp['plies'][j]) for j in (a, b))
        if p != q and p in lines and q in lines:
            term = c09.boundary_term(lines[p], lines[q],
                                     case['spec']['min_drop'])[0]
            terms.append(term)
            total += term*(given[frozenset((a, b))] if given else 1)
    return tuple(terms), total


def search(case, start, inds, steps_of, moves, local, last, w, diso):
    """beam search over ply drops; -> designs at the end"""
    spec, rules = case['spec'], oracle.Rules(case['spec'])
    nodes = [((), 0., start)]
    todo = [i for i in inds for _ in range(steps_of(i))]
    done = None
    for step, i in enumerate(todo):
        fresh = i != done
        done = i
        final = step == len(todo) - 1
        found = []
        for _, _, node in nodes:
            new = []
            for lines, left in moves(node, i, fresh):
                new.append(spaced(case, lines) + ({'lines': lines,
                                                   'left': left,
                                                   'costs': node['costs']},))
            kept = []
            for terms, value, d in least_spaced(new, local):
                ss = [a for a in d['lines'][i] if a != -1]
                if doubtful(ss, spec):
                    raise Tie
                if not fine(ss, spec, rules, diso):
                    continue
                d['costs'] = dict(d['costs'])
                d['costs'][i] = w[i][0]*c20.gap(oracle.lampam(ss), w[i][1],
                                                w[i][2])
                d['cost'] = sum(d['costs'].values())
                kept.append((terms, value, d))
            found += kept if final else cheapest(kept, local)
        if not diso:                      # drops done in another order
            found = list({tuple(sorted((j, tuple(li)) for j, li in
                                       n[2]['lines'].items())): n
                          for n in found}.values())
        if not final:
            found = cheapest(least_spaced(found, last), last)
        nodes = found
    return nodes


def drops(case, n_max):
    """removal of a ply (pair of plies) of the reference panel"""
    spec = case['spec']
    sym, cov = spec['sym'], protected(spec)

    def moves(node, i, fresh):
        old = node['lines'][i + 1 if fresh else i]
        for k in range(cov, n_max//2 if sym else n_max - cov):
            a = old[k]
            if a == -1 or (node['left'] is not None and a != node['left']):
                continue
            line = list(old)
            line[k] = -1
            if sym:
                line[n_max - 1 - k] = -1
            left = -a if spec['bal'] and node['left'] is None and \
                abs(a) not in (0, 90) else None
            yield {**node['lines'], i: line}, left
    return moves


def inserts(case):
    """new ply (pair of plies) in the panel and gaps in the thinner ones"""
    spec = case['spec']
    sym, cov = spec['sym'], protected(spec)

    def moves(node, i, fresh):
        old = node['lines'][i - 1 if fresh else i]
        n = len(old)
        for k in range(cov, n//2 + 1 if sym else n - cov + 1):
            for a in spec['set_of_angles']:
                if node['left'] is not None and a != node['left']:
                    continue

                def grow(line, v):
                    if sym:
                        return line[:k] + [v] + line[k:n - k] + [v] + \
                            line[n - k:]
                    return line[:k] + [v] + line[k:]
                lines = {j: grow(li, -1) for j, li in node['lines'].items()
                         if j != i}
                lines[i] = grow(old, int(a))
                left = -a if spec['bal'] and node['left'] is None and \
                    abs(a) not in (0, 90) else None
                yield lines, left
    return moves


def make_beam(rng, tier):
    while True:
        try:
            case = attempt(rng)
        except ValueError:
            continue
        plies, spec = mps.strip_plies(case['mp']), case['spec']
        if len(plies) < 2 or (spec['rule_10_percent'] and rng.random() < .5):
            continue
        if rng.random() < .5:       # limits met by both criteria
            spec.update(pdl_spacing=True, bal=True)
        if rng.random() < .2:
            spec.pop('rule_10_Abdalla', None)
            spec.pop('percent_Abdalla', None)
            spec.update(rule_10_percent=True, **{
                'percent_' + d: float(gen.choice(rng, [0, 5, 8, 10, 15]))
                for d in ('0', '45', '90', '135')}, percent_45_135=0.)
            if spec['bal']:
                spec['percent_135'] = spec['percent_45']
        case['ref'] = int(gen.choice(rng, [1000, 1, int(gen.choice(
            rng, plies))]))
        case['limits'] = [int(v) for v in rng.permutation([1, 2, 4, 7])]
        if rng.random() < .3:       # many designs tie on the spacing
            case['limits'] = [int(gen.choice(rng, [3, 6, 9])),
                              int(gen.choice(rng, [12, 25, 40])),
                              int(gen.choice(rng, [3, 6, 9])),
                              int(gen.choice(rng, [12, 25, 40]))]
        for w in case['lpw'] if isinstance(case['lpw'][0], list) \
                else [case['lpw']]:
            for i in (0, 1, 8, 9, 10):          # few ties between designs
                w[i] = float(rng.integers(1, 50))/16
        return case


def run_beam(case, mon):
    got = run(case, mon)
    if not got:
        return
    cons, multi, obj, par, out, sst, alone, ind_ref = got
    spec = case['spec']
    plies = mps.strip_plies(case['mp'])
    w, k = weigh(case, multi), 2 if spec['sym'] else 1
    gl2, ll2, gl3, ll3 = case['limits']
    info = lambda: '%s %s -> %s' % (gen.tag(spec), case, out)
    n_max = plies[-1]
    # reference panel in the layout at the start
    gone = iter(alone)
    line = [next(gone) if keep else -1 for keep in case['rows'][ind_ref]]
    cut = [[a for a, r in zip(s, sst[ind_ref]) if r != -1]
           for s in sst[:ind_ref + 1]]
    for name, inds, start, moves, local, glob, diso, gap in (
            ('thin', range(ind_ref - 1, -1, -1), {ind_ref: line},
             drops(case, n_max), ll2, gl2, False,
             lambda i: (plies[i + 1] - plies[i])//k),
            ('thick', range(ind_ref + 1, len(plies)),
             dict(enumerate(cut)), inserts(case), ll3, gl3, True,
             lambda i: (plies[i] - plies[i - 1])//k)):
        if not len(inds):
            continue
        try:
            ends = search(case, {'lines': start, 'left': None, 'costs': {}},
                          list(inds), gap, moves, local, glob, w, diso)
        except Tie:
            mon.ev('beam_tie_' + name)
            continue
        mon.ev('beam_' + name)
        mine = [sum(w[i][0]*c20.gap(oracle.lampam(s[i]), w[i][1], w[i][2])
                    for i in inds) for s in [out]][0]
        mon.check(ends and abs(mine - min(e[2]['cost'] for e in ends))
                  <= 1e-9, 'not-the-design-of-the-search-' + name,
                  lambda: '%s instead of %s; %s' % (
                      mine, [e[2]['cost'] for e in ends][:3], info()))


FAMILIES = [Family('structure', make, run, 500, 5000),
            Family('small', make_small, run_small, 700, 4000),
            Family('spacing', make_spacing, run_spacing, 250, 2500),
            Family('beam', make_beam, run_beam, 1800, 8000),
            Family('mixed', make_mixed, run_mixed, 60, 400)]
