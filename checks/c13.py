"""C13 initial ply-drop layouts are legitimate, and the best that were found"""
import os
import tempfile
import numpy as np
from vlib import boot, gen, mps
from vlib.core import Family

ID = 'C13'
RULE = ('random structures (symmetric with and without middle ply, '
        'asymmetric, covering 0-2, spacing rule on/off) are given initial '
        'ply-drop layouts under a virtual clock; the layouts the generator '
        'drew are recorded and compared with those it returns. Layouts of '
        'single ply groups, and layouts read from files. Non-trivial: at '
        'least one ply dropped')
REQUIRED = ['created', 'perfect', 'imperfect', 'asym', 'middle_ply',
            'covering', 'spacing_off', 'time_limit', 'fewer_than_asked',
            'recorded_draws', 'group', 'group_perfect', 'group_imperfect',
            'group_covering', 'group_middle', 'group_several', 'read', 'sizes_ok',
            'sizes_refused', 'replaced_imperfect', 'group_neighbours', 'assembled']
ASSUMPTIONS = ['time limits are exercised with a virtual clock that advances '
               'at each reading']


def make(rng, tier):
    sym = bool(rng.random() < .5)
    cov = int(rng.integers(0, 3))
    far = bool(rng.random() < .02)
    spec = mps.mp_spec(rng, sym, lo=(256 if sym else 126) if far else 10,
                       hi=(280 if sym else 150) if far else 34,
                       n_panels=int(rng.integers(1, 6)),
                       max_gap=int(gen.choice(rng, [1, 4, 8, 14])))
    lo = int(rng.integers(2, 5))
    return {'sym': sym, 'spec': spec, 'cov': cov, 'lo': lo,
            'hi': int(lo*2 + rng.integers(0, 4)),
            'spacing': bool(rng.random() < .85),
            'min_drop': int(rng.integers(1, 5)),
            'asked': int(rng.integers(1, 6)),
            'limit': float(gen.choice(rng, [.05, .3, .6]))}


def weights_of(spec):
    plies = mps.strip_plies(spec)
    given = {frozenset((i, j)): w for i, j, w in spec['bweights'] or []}
    out = {}
    for i, j in spec['edges']:
        a, b = plies.index(spec['plies'][i]), plies.index(spec['plies'][j])
        if a != b:
            key = (min(a, b), max(a, b))
            out[key] = out.get(key, 0) + (given[frozenset((i, j))]
                                          if given else 1)
    return out


def gaps_missing(line, m):
    drops = [i for i, x in enumerate(line) if x]
    return sum(max(0, m - (b - a - 1)) for a, b in zip(drops, drops[1:]))


def penalty(pdl, weight, m):
    """pdl: rows of the strip, thinnest first; True where a ply is dropped"""
    out = 0.
    for (a, b), w in weight.items():
        keep = [i for i in range(len(pdl[a])) if not (pdl[a][i] and pdl[b][i])]
        line = [pdl[a][i] for i in keep]
        out += w*gaps_missing(line, m)/len(line)
    return out


def judge(mon, pdl, plies, sym, cov, info):
    """structure of one layout; returns the drop masks"""
    pdl = np.array(pdl)
    n = plies[-1]
    if not mon.check(pdl.shape == (len(plies), n), 'layout-shape', info):
        return None
    drop = (pdl == -1)
    mon.check([int(v) for v in (~drop).sum(1)] == plies, 'plies-per-panel',
              info)
    mon.check(all((drop[i] | ~drop[i + 1]).all()
                  for i in range(len(plies) - 1)),
              'thinner-panel-not-nested', info)
    if cov:
        mon.ev('covering')
        mon.check(not drop[:, :cov].any() and not drop[:, n - cov:].any(),
                  'covering-ply-dropped', info)
    if sym:
        mon.check((drop == drop[:, ::-1]).all(), 'layout-not-symmetric', info)
        if n % 2:
            mon.ev('middle_ply')
            mon.check([bool(v) for v in drop[:, n//2]]
                      == [p % 2 == 0 for p in plies], 'middle-ply-of-panel',
                      info)
    for i, p in enumerate(plies):
        got = [int(v) for v in pdl[i] if v != -1]
        want = list(range(1, p + 1))
        if sym:
            h = p - p//2
            want = want[:h] + want[:p//2][::-1]
        mon.check(got == want, 'ply-numbering', info)
    return drop.tolist()


def run(case, mon):
    from src.BELLA import pdl_ini
    from src.BELLA.divide_panels import divide_panels
    from src.BELLA.parameters import Parameters
    from src.BELLA.obj_function import ObjFunction
    sym, spec, cov = case['sym'], case['spec'], case['cov']
    cons = gen.bella(dict(
        set_of_angles=[0, 45, 90, -45], sym=sym, covering=cov > 0,
        n_covering=cov, pdl_spacing=case['spacing'],
        min_drop=case['min_drop']))
    par = Parameters(cons, group_size_min=case['lo'],
                     group_size_max=case['hi'],
                     n_ini_ply_drops=case['asked'],
                     time_limit_group_pdl=.012,
                     time_limit_all_pdls=case['limit'])
    mp = mps.build(spec, cons)
    mp.from_mp_to_blending_strip(cons, 1000)
    try:
        divide_panels(mp, par, cons)
    except Exception as exc:               # noqa: BLE001
        if type(exc).__name__ != 'PartitioningError':
            raise
        mon.ev('partition_refused')
        return
    obj = ObjFunction(cons)
    drawn = []
    orig = getattr(pdl_ini, 'create_initial_pdl', None)

    def record(*args, **kwargs):
        out = orig(*args, **kwargs)
        drawn.append(np.array(out))
        return out
    calls = []
    guide = getattr(pdl_ini, 'randomly_pdl_guide', None)

    def record_group(*args, **kwargs):
        out = guide(*args, **kwargs)
        calls.append((kwargs, np.array(out[0])))
        return out
    if orig is not None:
        pdl_ini.create_initial_pdl = record
    if guide is not None:
        pdl_ini.randomly_pdl_guide = record_group
    try:
        with boot.virtual_clock(.001):
            got = pdl_ini.create_initial_pdls(mp, cons, par, obj)
    finally:
        if orig is not None:
            pdl_ini.create_initial_pdl = orig
        if guide is not None:
            pdl_ini.randomly_pdl_guide = guide
    neighbours(mon, calls, case, mp.reduced.n_groups)
    assembled(mon, calls, drawn, case, mp.reduced.n_groups,
              mp.has_middle_ply)
    mon.ev('created')
    if not sym:
        mon.ev('asym')
    plies = mps.strip_plies(spec)
    weight = weights_of(spec)
    m = case['min_drop']
    info = lambda: '%s layouts %s' % (case, [np.array(p).tolist()
                                             for p in got])
    mon.check(1 <= len(got) <= case['asked'], 'number-of-layouts', info)
    if not case['spacing']:
        mon.ev('spacing_off')
    pens, seen = [], []
    for p in got:
        drop = judge(mon, p, plies, sym, cov, info)
        if drop is None:
            return
        if any(any(r) for r in drop):
            mon.sig(drop)
        pens.append(penalty(drop, weight, m) if case['spacing'] else 0.)
        seen.append(drop)
    mon.check(all(a != b for i, a in enumerate(seen) for b in seen[:i]),
              'duplicate-layouts', info)
    good = [v for v in pens if v < 1e-12]
    mon.ev('perfect', len(good))
    mon.ev('imperfect', len(pens) - len(good))
    mon.check(pens[:len(good)] == good and
              all(a <= b + 1e-9 for a, b in zip(pens, pens[1:])),
              'best-layouts-first', lambda: info() + str(pens))
    if len(got) < case['asked']:
        mon.ev('fewer_than_asked')
    if not drawn:
        return
    # against everything that was drawn
    mon.ev('recorded_draws', len(drawn))
    perfect, bad = [], []
    for d in drawn:
        mask = (d == -1).tolist()
        v = penalty(mask, weight, m) if case['spacing'] else 0.
        if v < 1e-12:
            if mask not in perfect:
                perfect.append(mask)
        elif mask not in [x[1] for x in bad]:
            bad.append((v, mask))
    if len(perfect) < case['asked'] and len(bad) > case['asked']:
        mon.ev('replaced_imperfect')
    k = min(case['asked'], len(perfect))
    mon.check(len(good) == k and seen[:k] == perfect[:k],
              'conform-layout-lost',
              lambda: info() + ' drawn conform %d' % len(perfect))
    rest = sorted(v for v, _ in bad)[:case['asked'] - k]
    if k < case['asked']:
        mon.ev('time_limit')
    mon.check(len(pens) - k == len(rest) and
              np.allclose(pens[k:], rest, atol=1e-9),
              'better-layout-lost',
              lambda: info() + ' penalties %s, best drawn %s' % (
                  pens[k:], rest))


def neighbours(mon, calls, case, n_groups):
    """each group is laid out next to the one outside it (or the covering
    plies), the spacing between the two included in its penalty"""
    cov, step = case['cov'], 1 if case['sym'] else 2
    if len(calls) % n_groups:
        return
    for i, (kwargs, _) in enumerate(calls):
        if 'pdl_before' not in kwargs or \
                not case['sym'] and 'pdl_after' not in kwargs:
            return
        g = i % n_groups
        below = not case['sym'] and g % 2
        side = kwargs['pdl_after' if below else 'pdl_before']
        if g >= step:
            outer = calls[i - step][1] == -1
        elif cov:
            outer = np.zeros((calls[i][1].shape[0], cov), bool)
        else:
            continue
        mon.ev('group_neighbours')
        near = None if side is None else np.array(side) == -1
        if near is not None:
            w = outer.shape[1]
            near = near[:, :w] if below else near[:, -w:]
        mon.check(near is not None and np.array_equal(near, outer),
                  'group-not-next-to-outer-plies',
                  lambda: '%s group %d laid next to %s, outer group %s' % (
                      case, g, side, calls[i - step][1] if g >= step
                      else 'covering'))


def assembled(mon, calls, drawn, case, n_groups, middle):
    """the layout of the structure is made of its groups, each at its place"""
    cov = case['cov']
    if not calls or len(calls) != n_groups*len(drawn):
        return
    for k, whole in enumerate(drawn):
        groups = [c[1] == -1 for c in calls[k*n_groups:(k + 1)*n_groups]]
        skin = [np.zeros((groups[0].shape[0], cov), bool)] if cov else []
        if case['sym']:
            half = np.hstack(skin + groups)
            want = np.hstack((half, half[:, ::-1][:, 1 if middle else 0:]))
        else:
            want = np.hstack(skin + groups[::2] + groups[1::2][::-1] + skin)
        mon.ev('assembled')
        mon.check(np.array_equal(whole == -1, want),
                  'layout-not-made-of-its-groups',
                  lambda: '%s groups %s layout %s' % (
                      case, [g.astype(int).tolist() for g in groups],
                      whole.tolist()))


def make_group(rng, tier):
    n_max = int(rng.integers(3, 13))
    k = int(rng.integers(1, 6))
    sym = bool(rng.random() < .5)
    last = bool(rng.random() < .5)
    top, bot = bool(rng.random() < .3), bool(rng.random() < .3)
    most = max(0, n_max - top - bot)
    drops = sorted([int(v) for v in rng.integers(0, most + 1, k)])[::-1]
    if rng.random() < .8:
        drops[-1] = 0
        drops = [min(d, most//2 + 1) for d in drops]
    mid = sym and last and bool(rng.random() < .5)
    cut = int(rng.integers(0, k)) if mid else 0
    return {'n_max': n_max, 'drops': drops, 'sym': sym, 'last': last,
            'top': top, 'bot': bot, 'mid': mid, 'cut': cut,
            'm': int(rng.integers(1, 4)), 'before': bool(rng.random() < .5),
            'after': bool(rng.random() < .3),
            'salt': int(rng.integers(1 << 30)),
            'asked': int(gen.choice(rng, [1, 1, 2, 3, 5])),
            'weights': [float(rng.integers(1, 60))/4 for _ in range(k - 1)]
            if rng.random() < .5 else None,
            'spacing': bool(rng.random() < .85)}


def run_group(case, mon):
    from src.BELLA import pdl_group
    from src.BELLA.parameters import Parameters
    from src.BELLA.obj_function import ObjFunction
    n, drops, k = case['n_max'], case['drops'], len(case['drops'])
    cons = gen.bella(dict(
        set_of_angles=[0, 45, 90, -45], sym=case['sym'],
        pdl_spacing=case['spacing'], min_drop=case['m']))
    par = Parameters(cons, time_limit_group_pdl=.03)
    odd = [int(case['mid'] and i >= case['cut']) for i in range(k)]
    plies = [2*(20 + 3*i) + (1 if case['mid'] and i >= case['cut'] else 0)
             for i in range(k)]
    spec = {'plies': plies, 'ids': list(range(1, k + 1)),
            'edges': [[i, i + 1] for i in range(k - 1)],
            'neigh': [[j for j in (i - 1, i + 1) if 0 <= j < k]
                      for i in range(k)],
            'bweights': [[i, i + 1, w] for i, w in enumerate(case['weights'])]
            if case.get('weights') else None, 'weighting': [1]*k, 'lx': [1]*k, 'ly': [1]*k,
            'nx': [1]*k, 'ny': [1]*k}
    mp = mps.build(spec, cons)
    mp.from_mp_to_blending_strip(cons, 1000)
    rng = np.random.default_rng(case['salt'])
    # plies laid before: each dropped in the thinnest panels only
    side = lambda w: np.array([[-1 if i < t else 1 for t in cuts] for cuts in
                               [[int(rng.integers(k)) if rng.random() < .5
                                 else 0 for _ in range(w)]]
                               for i in range(k)])
    before = side(4) if case['before'] else None
    after = side(3) if case['after'] else None
    pens, asked = {}, case['asked']
    orig = getattr(pdl_group, 'calc_penalty_spacing', None)

    def record(*args, **kwargs):
        out = orig(*args, **kwargs)
        pdl = kwargs.get('pdl', args[0] if args else None)
        if pdl is not None:
            pens[(np.array(pdl) == -1).tobytes()] = float(out)
        return out
    if orig is not None:
        pdl_group.calc_penalty_spacing = record
    kw = dict(has_middle_ply=True,
              middle_ply_indices=mp.reduced.middle_ply_indices) \
        if case['mid'] else {}
    try:
        with boot.virtual_clock(.001):
            out = pdl_group.randomly_pdl_guide(
                multipanel=mp, boundaries=mp.reduced.boundaries,
                n_ply_drops=np.array(drops, dtype='int16'), n_max=n,
                parameters=par, obj_func_param=ObjFunction(cons),
                constraints=cons, pdl_before=before, pdl_after=after,
                last_group=case['last'], covering_top=case['top'],
                covering_bottom=case['bot'], n_pdl_max=asked, **kw)
    finally:
        if orig is not None:
            pdl_group.calc_penalty_spacing = orig
    mon.ev('group')
    everything = '%s' % case
    mon.check(1 <= len(out) <= asked, 'group-number', lambda: '%s: %d layouts'
              % (everything, len(out)))
    if asked > 1:
        mon.ev('group_several')
    values = [judge_group(case, pdl, odd, before, after, mon) for pdl in out]
    if None in values:
        return
    mon.check(values == sorted(values), 'group-order', lambda: '%s %s' % (
        everything, values))
    mon.check(len({(np.array(p) == -1).tobytes() for p in out}) == len(out),
              'group-duplicates', lambda: '%s %s' % (everything, out))
    if pens:
        # the perfect ones first met, or the best of those drawn
        best = sorted(pens.values())[:asked]
        mon.check(len(values) == min(asked, len(pens)) and
                  max(map(abs, np.subtract(values, best))) < 1e-9,
                  'group-better-layout-lost', lambda: '%s: %s, best drawn %s'
                  % (everything, values, best))


def judge_group(case, pdl, odd, before, after, mon):
    """checks of one layout; -> its penalty"""
    n, drops, k = case['n_max'], case['drops'], len(case['drops'])
    pdl = np.array(pdl)
    info = lambda: '%s layout %s' % (case, pdl.tolist())
    drop = pdl == -1
    if any(drops):
        mon.sig(case['m'], drop.tolist())
    if not mon.check(pdl.shape == (k, n + case['mid']), 'group-shape', info):
        return None
    if case['mid']:
        mon.ev('group_middle')
        mon.check([int(not v) for v in drop[:, -1]] == odd,
                  'group-middle-ply', info)
    body = drop[:, :n]
    mon.check([int(v) for v in body.sum(1)] == drops, 'group-drops', info)
    mon.check(all((body[i] | ~body[i + 1]).all() for i in range(k - 1)),
              'group-not-nested', info)
    if case['top'] or case['bot']:
        mon.ev('group_covering')
    mon.check(not (case['top'] and body[:, 0].any()) and
              not (case['bot'] and body[:, n - 1].any()),
              'group-covering', info)
    for i in range(k):
        got = [int(v) for v in pdl[i] if v != -1]
        mon.check(got == list(range(len(got))), 'group-numbering', info)
    # the spacing penalty of the layout next to what is already laid
    line = drop
    if before is not None:
        line = np.hstack((before == -1, line))
    if case['last'] and case['sym']:
        line = np.hstack((line, body[:, ::-1]))
    elif after is not None:
        line = np.hstack((line, after == -1))
    weight = {(i, i + 1): case['weights'][i] if case.get('weights') else 1
              for i in range(k - 1)}
    val = 0.
    if case['spacing']:
        for (a, b), w in weight.items():
            la, lb = line[a].tolist(), line[b].tolist()
            keep = [i for i in range(len(la)) if not (la[i] and lb[i])]
            one = [la[i] for i in keep]
            val += w*gaps_missing(one, case['m'])/max(1, len(one))
    mon.ev('group_perfect' if val < 1e-12 else 'group_imperfect')
    return val


def make_file(rng, tier):
    sym = bool(rng.random() < .5)
    spec = mps.mp_spec(rng, sym, lo=10, hi=24, n_panels=3, max_gap=6)
    plies = mps.strip_plies(spec)
    return {'sym': sym, 'spec': spec,
            'pdls': [mps.nested_rows(rng, plies, sym)
                     for _ in range(int(rng.integers(1, 5)) if rng.random() < .8
                           else int(rng.integers(8, 18)))],
            'bad': int(rng.integers(3)), 'salt': int(rng.integers(1 << 30))}


def run_file(case, mon):
    import pandas as pd
    from src.BELLA.pdl_ini import read_pdls_excel, check_pdls_ini
    cons = gen.bella(dict(set_of_angles=[0, 45, 90, -45], sym=case['sym']))
    mp = mps.build(case['spec'], cons)
    mp.from_mp_to_blending_strip(cons, 1000)
    pdls = [mps.to_pdl(r) for r in case['pdls']]
    with tempfile.TemporaryDirectory(prefix='vpdl') as tmp:
        name = os.path.join(tmp, 'pdl.xlsx')
        with pd.ExcelWriter(name) as writer:
            for i, p in enumerate(pdls):
                pd.DataFrame(p).to_excel(writer, sheet_name='pdl%d' % (i + 1),
                                         header=False, index=False)
        got = read_pdls_excel(name)
    mon.ev('read', len(pdls))
    mon.sig(case['pdls'])
    info = lambda: '%s got %s' % (case, [np.array(g).tolist() for g in got])
    mon.check(len(got) == len(pdls) and all(
        np.array_equal(a, b) for a, b in zip(got, pdls)), 'layouts-read',
        info)
    check_pdls_ini(mp, pdls)
    mon.ev('sizes_ok')
    bad = [np.copy(p) for p in pdls]
    i = case['salt'] % len(bad)
    r = (case['salt']//7) % bad[i].shape[0]
    if case['bad'] == 0:
        kept = np.where(bad[i][r] != -1)[0]
        bad[i][r, kept[case['salt'] % kept.size]] = -1
    elif case['bad'] == 1 and (bad[i][r] == -1).any():
        bad[i][r, np.where(bad[i][r] == -1)[0][0]] = 3
    else:
        bad[i] = np.vstack((bad[i], bad[i][-1:]))
    try:
        check_pdls_ini(mp, bad)
        refused = False
    except Exception as exc:                  # noqa: BLE001
        refused = 'Initial ply drop layout with wrong number' in str(exc)
        if not refused:
            raise
    mon.ev('sizes_refused')
    mon.check(refused, 'wrong-sizes-accepted',
              lambda: '%s: %s' % (case, bad[i].tolist()))


FAMILIES = [Family('create', make, run, 700, 15000),
            Family('group', make_group, run_group, 1500, 40000),
            Family('file', make_file, run_file, 40, 400)]
