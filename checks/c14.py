"""C14 ply contributions add up to the lamination parameters of the laminate"""
import math
import numpy as np
from vlib import gen, mps, oracle as orc
from vlib.core import Family

ID = 'C14'
RULE = ('random structures with nested ply-drop layouts and random guide '
        'laminates, symmetric with or without middle ply, and asymmetric; '
        'the contribution of each ply is compared with its definition, and '
        'their sum with the lamination parameters of the laminate. '
        'Non-trivial: at least one ply dropped')
REQUIRED = ['ply_moments', 'panel_sums', 'stack_sums', 'dropped_plies',
            'cumulated', 'asym', 'middle_ply', 'middle_ply_asym',
            'layla_sym', 'layla_asym', 'layla_groups']
ASSUMPTIONS = ['src.CLA is not shipped; ply contributions are judged against '
               'the definition of lamination parameters in vlib/oracle.py']


def make(rng, tier):
    sym = bool(rng.random() < .5)
    angles = gen.angle_set(rng)
    lo, hi = (1, 6) if rng.random() < .04 else (6, 40)
    if rng.random() < .01:
        lo, hi = 120, 160
    spec = mps.mp_spec(rng, sym, lo=lo, hi=hi,
                       max_gap=int(gen.choice(rng, [2, 6, 12])))
    spec['plies'] = [max(1, p) for p in spec['plies']]
    plies = mps.strip_plies(spec)
    try:
        rows = mps.nested_rows(rng, plies, sym)
    except ValueError:
        spec['plies'] = [max(plies)]*len(spec['plies'])
        rows = [[1]*max(plies)]
    n = plies[-1]
    return {'sym': sym, 'angles': angles, 'spec': spec, 'rows': rows,
            'guide': gen.raw_stack(rng, angles, n if not sym else n - n//2)}


def moments(k, n):
    """signed and absolute moments of area of ply k of n (distances from the
    middle surface normalised by half of the thickness)"""
    z0, z1 = -1 + 2*k/n, -1 + 2*(k + 1)/n
    sign = [0.5*(z1 - z0), 0.5*(z1**2 - z0**2), 0.5*(z1**3 - z0**3)]
    if z0 < -1e-12 and z1 > 1e-12:            # through the middle surface
        plus = [0.5*(abs(z1)**p + abs(z0)**p) for p in (1, 2, 3)]
    else:
        plus = [abs(v) for v in sign]
    return sign, plus


def run(case, mon):
    from src.BELLA.moments_of_areas import (
        calc_mom_of_areas, calc_mom_of_areas2)
    from src.BELLA.lampam_matrix import (
        calc_delta_lampams, calc_delta_lampams2)
    from src.BELLA.ply_order import calc_ply_order
    sym, spec, angles = case['sym'], case['spec'], case['angles']
    cons = gen.bella(dict(set_of_angles=angles, sym=sym))
    mp = mps.build(spec, cons)
    mp.from_mp_to_blending_strip(cons, 1000)
    red = mp.reduced
    order = calc_ply_order(mp, cons)
    plus, mom = calc_mom_of_areas(mp, cons, order)
    delta = calc_delta_lampams(mp, cons, mom, order)
    info = lambda: str(case)
    if not sym:
        mon.ev('asym')
        if any(p.n_plies % 2 for p in red.panels):
            mon.ev('middle_ply_asym')
    plies = [p.n_plies for p in red.panels]
    for i, n in enumerate(plies):
        half = n - n//2
        m = half if sym else n
        ok = mom[i].shape == (m, 3) == plus[i].shape
        if not mon.check(ok, 'moments-shape', info):
            return
        for k in range(m):
            s, p = moments(k, n)
            if sym:
                # the ply and its mirror; half of the middle ply, twice
                f = 2. if not (n % 2 and k == half - 1) else 1.
                s = [f*s[0], 0., f*s[2]]
                p = [f*p[0], f*p[1], f*p[2]]
                if f == 1:
                    mon.ev('middle_ply')
            mon.ev('ply_moments')
            mon.check(np.allclose(mom[i][k], s, atol=1e-12),
                      'ply-moments-%s' % ('sym' if sym else 'asym'),
                      lambda: info() + ' panel %d ply %d %s expected %s' % (
                          n, k, mom[i][k], s))
            mon.check(np.allclose(plus[i][k], p, atol=1e-12),
                      'ply-absolute-moments-%s' % ('sym' if sym else 'asym'),
                      lambda: info() + ' panel %d ply %d %s expected %s' % (
                          n, k, plus[i][k], p))
        mon.ev('panel_sums')
        mon.check(np.allclose(plus[i].sum(0), 1, atol=1e-10),
                  'absolute-moments-total', lambda: info() + str(plus[i]))
    # blended laminates
    rows = case['rows']
    pdl = mps.to_pdl(rows)
    top = plies[-1]
    m = top - top//2 if sym else top
    mat = calc_delta_lampams2(mp, cons, delta, pdl, m)
    cum = calc_mom_of_areas2(mp, cons, plus, pdl, m)
    if any(0 in r for r in rows):
        mon.sig(rows, case['guide'], sym)
    idx = {int(a): j for j, a in enumerate(cons.set_of_angles)}
    guide = case['guide']
    for i, n in enumerate(plies):
        total = np.zeros(12)
        for k in range(m):
            if not rows[i][k]:
                mon.ev('dropped_plies')
                mon.check(not mat[i, :, k].any(), 'dropped-ply-contributes',
                          info)
                continue
            total += mat[i, idx[guide[k]], k]
        full = guide + guide[:top//2][::-1] if sym else guide
        stack = [a for a, keep in zip(full, rows[i]) if keep]
        want = orc.lampam(stack)
        mon.ev('stack_sums')
        mon.check(np.allclose(total, want, atol=1e-9),
                  'contributions-sum-%s' % ('sym' if sym else 'asym'),
                  lambda: info() + ' panel %d %s expected %s' % (
                      n, total, want))
        # share of each panel known after each ply, in optimisation order
        seq = list(range(m))
        if not sym:
            seq = seq[0:m - m//2], seq[m - m//2:][::-1]
            seq = [seq[r % 2][r//2] for r in range(m)]
        acc = np.zeros(3)
        pos = np.cumsum(rows[i]) - 1
        for k in seq:
            if rows[i][k]:
                acc = acc + plus[i][int(pos[k])]
            mon.ev('cumulated')
            got = [c[i, k] for c in cum]
            mon.check(np.allclose(got, acc, atol=1e-10),
                      'cumulated-moments-%s' % ('sym' if sym else 'asym'),
                      lambda: info() + ' panel %d ply %d %s expected %s' % (
                          n, k, got, acc))


def make_one(rng, tier):
    sym = bool(rng.random() < .5)
    n = int(rng.integers(2, 60))
    m = n - n//2 if sym else n
    cuts = sorted(set([int(v) for v in rng.integers(1, m, 3)] + [m])) \
        if m > 1 else [m]
    return {'sym': sym, 'n': n, 'groups': [b - a for a, b in
                                           zip([0] + cuts, cuts)]}


def run_one(case, mon):
    from src.LAYLA_V02.moment_of_areas import calc_mom_of_areas
    from src.LAYLA_V02.ply_order import calc_ply_order
    from src.LAYLA_V02.targets import Targets
    sym, n = case['sym'], case['n']
    cons = gen.layla(dict(sym=sym))
    tgt = Targets(n)
    order = calc_ply_order(cons, tgt)
    mom, cum, grp = calc_mom_of_areas(cons, tgt, order,
                                      np.array(case['groups']))
    info = lambda: str(case)
    mon.ev('layla_sym' if sym else 'layla_asym')
    mon.sig('layla', n, sym, case['groups'])
    acc = np.zeros(3)
    at = 0
    bound = list(np.cumsum(case['groups']))
    start = np.zeros(3)
    for r, k in enumerate(int(v) for v in order):
        s, p = moments(k, n)
        if sym:
            f = 2. if not (n % 2 and k == n//2) else 1.
            s, p = [f*v for v in s], [f*v for v in p]
            if f == 1:
                # half of the middle ply, counted twice
                s = [2*0.5/n, -1/n**2, 1/n**3]
                p = [abs(v) for v in s]
        mon.ev('ply_moments')
        mon.check(np.allclose(mom[r], s, atol=1e-12), 'layla-ply-moments',
                  lambda: info() + ' ply %d %s expected %s' % (k, mom[r], s))
        acc = acc + p
        mon.check(np.allclose(cum[r], acc, atol=1e-10),
                  'layla-cumulated-moments',
                  lambda: info() + ' ply %d %s expected %s' % (k, cum[r], acc))
        if r + 1 == bound[at]:
            mon.ev('layla_groups')
            mon.check(np.allclose(grp[at], acc - start, atol=1e-10),
                      'layla-group-moments',
                      lambda: info() + ' group %d %s' % (at, grp[at]))
            start = acc
            at += 1
    mon.check(np.allclose(acc, 1), 'layla-moments-total', info)


FAMILIES = [Family('panels', make, run, 500, 15000),
            Family('laminate', make_one, run_one, 1500, 30000)]
