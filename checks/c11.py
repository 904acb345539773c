"""C11 mapping of a structure onto its blending strip"""
import numpy as np
from vlib import gen, mps
from vlib.core import Family

ID = 'C11'
RULE = ('random connected structures of 1-7 panels (arbitrary panel IDs, one- '
        'or two-sided neighbour lists, boundary weights in any order, equal '
        'thicknesses common) mapped onto a blending strip with any reference '
        'thickness, and defective structures. Non-trivial: two panels share a '
        'thickness or the strip has three panels or more')
REQUIRED = ['mapped', 'merged_panels', 'reference_inside', 'boundaries',
            'merged_boundaries', 'weights', 'steps_thin', 'steps_thick',
            'incompatible_refused', 'disconnected_refused',
            'duplicate_refused', 'weight_missing_refused',
            'weight_negative_refused', 'neighbours',
            'structure_weight']


def make(rng, tier):
    sym = bool(rng.random() < .5)
    far = bool(rng.random() < .04)
    spec = mps.mp_spec(rng, sym, lo=120 if far else 6, hi=300 if far else 60,
                       max_gap=int(gen.choice(rng, [2, 6, 16])))
    if rng.random() < .08 and sym:
        spec['plies'][int(rng.integers(len(spec['plies'])))] += 1
    strip = sorted(set(spec['plies']))
    ref = int(rng.integers(strip[0] - 2, strip[-1] + 3))
    return {'sym': sym, 'spec': spec, 'ref': ref}


def compatible(strip, sym):
    odd = False
    for p in strip:
        if odd and p % 2 == 0:
            return False
        odd = odd or p % 2 == 1
    return True if sym else True


def run(case, mon):
    spec, sym = case['spec'], case['sym']
    cons = gen.bella(dict(set_of_angles=[0, 45, 90, -45], sym=sym))
    mp = mps.build(spec, cons)
    plies = spec['plies']
    strip = sorted(set(plies))
    k = len(plies)
    if sym and not compatible(strip, sym):
        try:
            mp.from_mp_to_blending_strip(cons, case['ref'])
            ok = False
        except Exception as exc:           # noqa: BLE001
            ok = 'not compatible' in str(exc)
            if not ok:
                raise
        mon.ev('incompatible_refused')
        mon.check(ok, 'incompatible-accepted', lambda: str(spec))
        return
    mp.from_mp_to_blending_strip(cons, case['ref'])
    red = mp.reduced
    mon.ev('mapped')
    if k > len(strip):
        mon.ev('merged_panels')
    if k > len(strip) or len(strip) > 2:
        mon.sig(plies, spec['edges'], case['ref'], sym)
    info = lambda: '%s ref %s' % (spec, case['ref'])
    mon.check([int(v) for v in red.n_plies_in_panels] == strip
              and red.n_panels == len(strip), 'strip-thicknesses', info)
    mon.check([strip[int(j)] for j in red.ind_panels_guide] == plies,
              'panel-to-strip', info)
    mon.check(len(red.ind_for_reduc) == len(strip) and
              [plies[int(i)] for i in red.ind_for_reduc] == strip,
              'strip-to-panel', info)
    mon.check([p.n_plies for p in red.panels] == strip, 'strip-panels', info)
    # reference: the thinnest strip panel not thinner than asked
    want = next((i for i, p in enumerate(strip) if p >= case['ref']),
                len(strip) - 1)
    if 0 < want < len(strip) - 1:
        mon.ev('reference_inside')
    mon.check(red.ind_ref == want and red.n_plies_ref_panel == strip[want],
              'reference-panel',
              lambda: info() + ' got %s expected %s' % (red.ind_ref, want))
    # structure boundaries: every adjacency given once, whatever the side
    edges = {tuple(e) for e in spec['edges']}
    got = sorted(tuple(int(v) for v in b) for b in mp.boundaries)
    mon.ev('boundaries')
    mon.check(got == sorted(edges), 'structure-boundaries',
              lambda: info() + ' got %s' % got)
    nb = mp.identify_neighbour_panels()
    mon.ev('neighbours')
    mon.check([sorted(int(v) for v in x) for x in nb] == [
        sorted([b for a, b in edges if a == i] + [a for a, b in edges
                                                  if b == i])
        for i in range(k)], 'neighbour-lists', lambda: info() + str(nb))
    # strip boundaries and weights
    given = {frozenset((i, j)): w for i, j, w in spec['bweights'] or []}
    weight = {}
    for i, j in edges:
        a, b = strip.index(plies[i]), strip.index(plies[j])
        if a == b:
            continue
        key = (min(a, b), max(a, b))
        if key in weight:
            mon.ev('merged_boundaries')
        weight[key] = weight.get(key, 0) + (
            given[frozenset((i, j))] if spec['bweights'] is not None else 1)
    got = sorted(tuple(int(v) for v in b) for b in red.boundaries)
    mon.check(got == sorted(weight), 'strip-boundaries',
              lambda: info() + ' got %s' % got)
    gw = {tuple(int(v) for v in key): w
          for key, w in red.boundary_weights.items()}
    mon.check(gw.keys() == weight.keys() and all(
        abs(gw[q] - weight[q]) < 1e-9 for q in weight),
        'strip-boundary-weights', lambda: info() + ' got %s' % gw)
    # panel weightings are aggregated per thickness
    want = [sum(w for p, w in zip(plies, spec['weighting']) if p == q)
            for q in strip]
    mon.ev('weights')
    mon.check(np.allclose(red.actual_panel_weightings, want), 'strip-weights',
              lambda: info() + ' got %s' % red.actual_panel_weightings)
    # weightings of the successive steps: each distributes a total of one
    r = red.ind_ref
    for i in range(len(strip)):
        if i == r:
            continue
        w = np.array(red.panel_weightings[i], float)
        part = np.array(want[:r] if i < r else want[r + 1:])
        part = part/part.sum()
        if i < r:
            exp = part[i:].copy()
            exp[0] += part[:i].sum()
        else:
            exp = part[:i - r].copy()
            exp[-1] += part[i - r:].sum()
        mon.check(w.shape == exp.shape and np.allclose(w, exp),
                  'step-weights', lambda: info() + ' panel %d %s expected %s'
                  % (i, w, exp))
    # steps of the redesign of thinner / thicker panels
    inc = 2 if sym else 1
    if not sym or len({p % 2 for p in strip}) == 1:
        steps(mon, info, 'thin', red, strip, r, range(r - 1, -1, -1), -inc,
              red.n_steps_thin, red.ind_panel_thin_tab,
              red.n_plies_before_thin_tab, red.n_plies_after_thin_tab,
              red.new_boundary_thin_tab, red.n_panels_designed_thin_tab)
        steps(mon, info, 'thick', red, strip, r, range(r + 1, len(strip)), inc,
              red.n_steps_thick, red.ind_panel_thick_tab,
              red.n_plies_before_thick_tab, red.n_plies_after_thick_tab,
              red.new_boundary_thick_tab, red.n_panels_designed_thick_tab)
    # weight of the structure
    area = [x*y for x, y in zip(spec['lx'], spec['ly'])]
    tot = sum(a*p for a, p in zip(area, plies))*1.5
    mon.ev('structure_weight')
    mon.check(abs(mp.calc_weight(1.5) - tot) < 1e-9*tot, 'structure-weight',
              info)
    mp.calc_weight_per_panel(1.5)
    mon.check(np.allclose(mp.weight_ref_per_panel,
                          [1.5*a*p for a, p in zip(area, plies)]),
              'panel-weights', info)
    n = max(plies)
    ang = [0, 45, 90, -45]
    sst = [np.array([ang[(3*i + i*i//5) % 4] for i in range(p)]
                    + [-1]*(n - p)) for p in plies]
    mon.check(abs(mp.calc_weight_from_sst(sst, 1.5) - tot) < 1e-9*tot,
              'table-weight', info)
    mon.check(abs(mp.area - sum(area)) < 1e-9 and mp.n_plies_max == n
              and mp.n_plies_min == min(plies)
              and plies[mp.ind_thick] == n, 'structure-summary', info)


def steps(mon, info, name, red, strip, r, order, inc, n, panel, before, after,
          first, designed):
    exp = []
    now = strip[r]
    for rank, i in enumerate(order):
        new = True
        while now != strip[i]:
            exp.append((i, now, now + inc, new, rank))
            now += inc
            new = False
    mon.ev('steps_' + name, len(exp))
    got = [] if not n else [
        (int(a), int(b), int(c), bool(d), int(e)) for a, b, c, d, e in
        zip(panel, before, after, first, designed)]
    mon.check(n == len(exp) and got == exp, 'steps-' + name,
              lambda: info() + ' got %s expected %s' % (got, exp))


def make_bad(rng, tier):
    spec = mps.mp_spec(rng, False, n_panels=int(rng.integers(3, 7)))
    return {'spec': spec, 'kind': int(rng.integers(4)),
            'low': float(gen.choice(rng, [-.01, -.5, -3.]))}


def run_bad(case, mon):
    spec, kind = dict(case['spec']), case['kind']
    cons = gen.bella(dict(set_of_angles=[0, 45, 90, -45]))
    k = len(spec['plies'])
    if kind == 0:          # the last panel touches no other
        spec['neigh'] = [[j for j in x if j != k - 1] for x in spec['neigh']]
        spec['neigh'][k - 1] = []
        spec['bweights'] = None
        name = 'disconnected'
    elif kind == 1:
        spec['ids'] = list(spec['ids'])
        spec['neigh'] = [[] for _ in range(k)]
        spec['bweights'] = None
        spec['ids'][-1] = spec['ids'][0]
        name = 'duplicate'
    elif kind == 3:
        name = 'weight_negative'
        spec['bweights'] = [[i, j, 1.] for i, j in spec['edges']]
        spec['bweights'][len(spec['bweights'])//2][2] = case.get('low', -1.)
    else:
        name = 'weight_missing'
        edges = spec['edges']
        spec['bweights'] = [[i, j, 1.] for i, j in edges[1:]]
        # as many weights as boundaries, one of them for another pair
        spec['bweights'].append([edges[0][0], edges[0][0], 1.])
    mon.ev(name + '_refused')
    mon.sig(name, spec['plies'], spec['neigh'])
    try:
        mps.build(spec, cons)
    except Exception:                    # noqa: BLE001
        mon.ev('refused')
        mon.check(True, '')
        return
    mon.check(False, name + '-accepted', lambda: str(spec))


FAMILIES = [Family('map', make, run, 4000, 100000),
            Family('defective', make_bad, run_bad, 600, 5000)]
