"""C01 contiguity rule: verdict, violation count and penalty are exact"""
import numpy as np
from vlib import gen, oracle as orc
from vlib.core import Family

ID = 'C01'
RULE = ('random stacks (1-60 plies, four textures, some grown to respect the '
        'rule then mutated) x contiguity limit 2..6; non-trivial: the longest '
        'run is within one ply of the limit, or the rule is broken')
REQUIRED = ['accepted', 'rejected', 'boundary_cases', 'penalty_nonzero',
            'penalty_zero', 'multi_panel', 'incremental_violations']


def make_stack(rng, lo=1, hi=60):
    angles = gen.angle_set(rng)
    n = gen.size(rng, lo, hi)
    k = int(rng.integers(2, 7))
    if rng.random() < 0.5:
        ss = gen.raw_stack(rng, angles, n)
    else:
        ss = gen.smooth_stack(rng, angles, n, 45, k)
        if rng.random() < 0.6 and n > k + 1:
            # plant a run of exactly k or k + 1 plies at a random place
            run = k + int(rng.integers(0, 2))
            pos = int(rng.integers(0, n - run + 1))
            ss[pos:pos + run] = [int(gen.choice(rng, angles))]*run
    if rng.random() < 0.3:
        ss = gen.mirror(ss[:max(1, n//2)],
                        ss[-1] if rng.random() < .5 else None)
    return angles, k, ss


def make_verdict(rng, tier):
    angles, k, ss = make_stack(rng)
    return {'ss': ss, 'k': k}


def run_verdict(case, mon):
    from src.guidelines.contiguity import is_contig, calc_contig_vector
    ss, k = case['ss'], case['k']
    arr = np.array(ss, int)
    want = orc.contig_ok(ss, k)
    got = is_contig(arr, k)
    mon.ev('accepted' if got else 'rejected')
    run = orc.longest_run(ss)
    if abs(run - k) <= 1:
        mon.ev('boundary_cases')
    if run >= k:
        mon.sig(k, tuple(ss))
    mon.check(bool(got) == want, 'verdict',
              lambda: 'stack %s limit %d: longest run %d, reported %s' % (
                  ss, k, run, got))
    # mirror images have the same verdict
    mon.check(bool(is_contig(arr[::-1], k)) == want, 'verdict-flipped',
              lambda: 'flipped stack %s limit %d' % (ss[::-1], k))
    vec = np.asarray(calc_contig_vector(arr, k))
    mon.check(int(np.sum(vec)) == len(orc.contig_windows(ss, k)), 'window-count',
              lambda: 'stack %s limit %d: windows %s, got %s' % (
                  ss, k, orc.contig_windows(ss, k), vec))
    if vec.size:
        mon.check([int(i) for i in np.nonzero(vec)[0]]
                  == orc.contig_windows(ss, k), 'window-positions',
                  lambda: 'stack %s limit %d: %s' % (ss, k, vec))
    mon.check((arr == np.array(ss)).all(), 'input-modified', lambda: str(ss))
    mon.sample('limit %d, %s -> %s' % (k, ss, got))


def make_penalty(rng, tier):
    angles = gen.angle_set(rng)
    k = int(rng.integers(2, 7))
    panels = []
    for _ in range(int(rng.integers(1, 6))):
        _, _, ss = make_stack(rng, 5, 40)
        panels.append(ss)
    rule = int(rng.integers(0, 4))
    return {'panels': panels, 'k': k, 'rule': rule}


def run_penalty(case, mon):
    from src.guidelines.contiguity import (
        calc_penalty_contig_mp, calc_penalty_contig_ss, calc_matrix_viol_contig,
        penalty_contig)
    k, rule = case['k'], case['rule']
    cons = gen.bella(dict(contig=True, n_contig=k, dam_tol=rule > 0,
                          dam_tol_rule=rule or 2))
    panels = [np.array(p, int) for p in case['panels']]
    per_panel = calc_penalty_contig_mp(panels, cons)
    mon.ev('multi_panel')
    mon.check(len(per_panel) == len(panels), 'penalty-size', lambda: str(case))
    counted = []
    for p, got in zip(case['panels'], per_panel):
        seen = p[1:-1] if rule in (2, 3) else p
        want = len(orc.contig_windows(seen, k))
        counted.append(want)
        mon.ev('penalty_nonzero' if want else 'penalty_zero')
        mon.check(int(got) == want, 'penalty-multi-panel',
                  lambda: 'stack %s limit %d damtol rule %d: %d violating '
                  'windows, reported %s' % (p, k, rule, want, got))
        one = calc_penalty_contig_ss(np.array(p, int), cons)
        mon.check(int(one) == want, 'penalty-single-panel',
                  lambda: 'stack %s limit %d damtol rule %d: %d violating '
                  'windows, reported %s' % (p, k, rule, want, one))
        if want:
            mon.sig(k, rule, tuple(p))
    mat = calc_matrix_viol_contig(panels, k)
    for p, row in zip(case['panels'], mat):
        mon.check([int(i) for i in np.nonzero(row)[0]]
                  == orc.contig_windows(p, k), 'violation-positions',
                  lambda: 'stack %s limit %d: %s' % (p, k, row))
    n = len(panels)
    viol = np.array([[c, 2*c] for c in counted])
    pen = penalty_contig(n, viol, contig=True, coeff_contig=3,
                         norm_diso_contig=4)
    mon.check(np.allclose(pen, 3*3*np.array(counted)/4), 'penalty-scaling',
              lambda: '%s -> %s' % (viol, pen))
    mon.check(not np.any(penalty_contig(n, viol, contig=False)),
              'penalty-inactive', lambda: str(case))


def make_grow(rng, tier):
    angles = gen.angle_set(rng)[:3]
    large = rng.random() < .05
    n_levels = int(rng.integers(2, 60 if large else 14))
    pdl = []
    for p in range(int(rng.integers(1, 13 if large else 5))):
        drop = set() if p == 0 else set(
            int(v) for v in rng.choice(
                n_levels, int(rng.integers(0, max(1, n_levels - 1))),
                replace=False)) - {0, 1}
        pdl.append([-1 if i in drop else i for i in range(n_levels)])
    seq = [int(gen.choice(rng, angles))]
    while len(seq) < n_levels:
        seq.append(seq[-1] if rng.random() < .7
                   else int(gen.choice(rng, angles)))
    sym = bool(rng.random() < .5)
    return {'angles': seq, 'pdl': pdl, 'sym': sym,
            'middle': bool(sym and rng.random() < .5),
            'k': int(rng.integers(2, 7))}


def run_grow(case, mon):
    """plies added one level at a time (bottom, and top for asymmetric
    laminates): the running counts must add up to the count of the laminate"""
    from src.guidelines.contiguity import calc_n_viola_contig
    sym, k = case['sym'], case['k']
    cons = gen.bella(dict(sym=sym, contig=True, n_contig=k))
    pdl = np.array(case['pdl'])
    n_p, n_l = pdl.shape
    bot = [np.array((), int) for _ in range(n_p)]
    top = [np.array((), int) for _ in range(n_p)]
    full = None
    total = np.zeros(n_p, int)
    for lev, ang in enumerate(case['angles']):
        last = lev == n_l - 1
        if case['middle'] and last:
            full = [np.hstack((b, [ang] if d >= 0 else [], b[::-1]))
                    for b, d in zip(bot, pdl[:, lev])]
        given = np.array(total)
        mine = [np.array(s) for s in bot + top]
        mother = total
        total = calc_n_viola_contig(
            total, bot, np.array([ang]), n_p, cons, lev, n_l, pdl,
            mother_ss_top=top, last_level=last,
            has_middle_ply=case['middle'])
        mon.check(np.array_equal(mother, given) and all(
            np.array_equal(a, b) for a, b in zip(bot + top, mine)),
                  'parent-altered', lambda: '%s level %d' % (case, lev))
        for p in range(n_p):
            if pdl[p, lev] >= 0:
                if sym or lev % 2 == 0:
                    bot[p] = np.append(bot[p], ang)
                else:
                    top[p] = np.insert(top[p], 0, ang)
    full = full or [np.hstack((b, b[::-1])) if sym else np.hstack((b, t))
                    for b, t in zip(bot, top)]
    want = [len(orc.contig_windows(list(s), k)) for s in full]
    mon.ev('incremental_totals')
    mon.ev('incremental_violations', sum(want))
    mon.sig('grow', str(case))
    mon.check([int(v) for v in total] == want, 'incremental-count',
              lambda: '%s: laminates %s have %s violations, running count %s'
              % (case, [list(f) for f in full], want, total))


FAMILIES = [Family('verdict', make_verdict, run_verdict, 24000, 400000),
            Family('penalty', make_penalty, run_penalty, 2500, 40000),
            Family('grow', make_grow, run_grow, 600, 8000)]
