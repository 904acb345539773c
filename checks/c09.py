"""C09 ply-drop spacing and covering verdicts"""
import numpy as np
from vlib import gen, mps
from vlib.core import Family, CaseEnd

ID = 'C09'
RULE = ('random connected structures (one thickness per strip panel) with '
        'nested ply-drop layouts, scattered and clustered drops, with '
        'arbitrary splits into previous/current/next group; single layouts. '
        'Non-trivial: at least one boundary with two or more drops')
REQUIRED = ['single_layout', 'single_violating', 'single_ok', 'strip_zero',
            'strip_positive', 'split_groups', 'full_structure', 'accepted',
            'refused_covering', 'refused_spacing', 'rule_off', 'undesigned']


def gaps_missing(line, m):
    drops = [i for i, x in enumerate(line) if x == -1]
    return sum(max(0, m - (b - a - 1)) for a, b in zip(drops, drops[1:]))


def boundary_term(r1, r2, m):
    keep = [i for i in range(len(r1)) if not (r1[i] == -1 and r2[i] == -1)]
    thin = r1 if sum(x == -1 for x in r1) >= sum(x == -1 for x in r2) else r2
    line = [thin[i] for i in keep]
    return gaps_missing(line, m)/len(line), sum(x == -1 for x in line)


def make_single(rng, tier):
    n = int(rng.integers(1, 40))
    p = float(gen.choice(rng, [0.05, .15, .3, .6]))
    return {'line': [-1 if rng.random() < p else int(i) for i in range(n)],
            'm': int(rng.integers(1, 6))}


def run_single(case, mon):
    from src.guidelines.ply_drop_spacing import calc_penalty_spacing_1ss as f
    line, m = case['line'], case['m']
    got = f(np.array(line), m)
    want = gaps_missing(line, m)/len(line)
    mon.ev('single_layout')
    mon.ev('single_violating' if want else 'single_ok')
    if sum(x == -1 for x in line) > 1:
        mon.sig(tuple(x == -1 for x in line), m)
    mon.check(abs(got - want) < 1e-12, 'single-layout-penalty',
              lambda: '%s min %d: %s, expected %s' % (line, m, got, want))
    back = f(np.array(line[::-1]), m)
    mon.check(abs(got - back) < 1e-12, 'single-layout-flip', lambda: str(case))


def make_strip(rng, tier):
    sym = bool(rng.random() < .5)
    cov = bool(rng.random() < .7)
    spec = dict(sym=sym, min_drop=int(rng.integers(2, 6)), pdl_spacing=True,
                covering=cov, n_covering=int(rng.integers(1, 3)))
    mp = mps.mp_spec(rng, sym, lo=10, hi=30, n_panels=int(rng.integers(2, 7)))
    plies = mps.strip_plies(mp)
    protect = int(gen.choice(rng, [0, 1, 2, 2]))
    rows = mps.nested_rows(rng, plies, sym, protect=protect)
    n = plies[-1]
    a, b = sorted(int(x) for x in rng.integers(0, n + 1, 2))
    return {'spec': spec, 'mp': mp, 'rows': rows, 'cut': [a, b],
            'style': gen.choice(rng, ['pos', 'local']),
            'spread': spread_rows(rng, plies, sym, spec['min_drop'])}


def spread_rows(rng, plies, sym, m):
    """a layout meant to satisfy the rule: drops far apart"""
    n = plies[-1]
    kept = [1]*n
    rows = [list(kept)]
    step = m + 1
    cand = list(range(2, n//2 - (m if sym else 0), step)) if sym else \
        list(range(2, n - 2, step))
    for p, q in zip(plies[-2::-1], plies[:0:-1]):
        drop = q - p
        if sym and drop % 2:
            kept[n//2] = 0
            drop -= 1
        k = drop//2 if sym else drop
        if k > len(cand):
            return None
        for _ in range(k):
            i = cand.pop(int(rng.integers(len(cand))))
            kept[i] = 0
            if sym:
                kept[n - 1 - i] = 0
        rows.append(list(kept))
    return rows[::-1]


def run_strip(case, mon):
    from src.guidelines.ply_drop_spacing import calc_penalty_spacing
    from src.BELLA.format_pdl import extend_after_guide_based_blending
    cons = gen.bella(case['spec'])
    m = case['spec']['min_drop']
    for which in ('rows', 'spread'):
        if case[which] is None:
            continue
        multi = mps.build(case['mp'], cons)
        multi.from_mp_to_blending_strip(cons, n_plies_ref_panel=1)
        pdl = mps.to_pdl(case[which], case['style'])
        plies = mps.strip_plies(case['mp'])
        # the boundaries of the strip, from the definition of the structure
        weight = {}
        given = {}
        for i, j, w in case['mp']['bweights'] or []:
            given[frozenset((i, j))] = w
        for i, j in case['mp']['edges']:
            a = plies.index(case['mp']['plies'][i])
            b = plies.index(case['mp']['plies'][j])
            if a != b:
                key = (min(a, b), max(a, b))
                weight[key] = weight.get(key, 0) + \
                    (given[frozenset((i, j))] if given else 1)
        want, most = 0., 0
        for (a, b), w in weight.items():
            t, d = boundary_term(pdl[a], pdl[b], m)
            want += w*t
            most = max(most, d)
        got = calc_penalty_spacing(pdl, multi, cons, on_blending_strip=True)
        mon.ev('strip_zero' if want == 0 else 'strip_positive')
        if most > 1:
            mon.sig(tuple(map(tuple, case[which])), m, tuple(weight))
        info = lambda: '%s min_drop %d weights %s pdl %s: got %s expected %s' \
            % (case['mp'], m, weight, pdl.tolist(), got, want)
        mon.check(abs(got - want) < 1e-9*(1 + want), 'strip-penalty', info)
        a, b = case['cut']
        if b - a > 1:
            mon.ev('split_groups')
            parts = calc_penalty_spacing(
                pdl[:, a:b], multi, cons, on_blending_strip=True,
                pdl_before=pdl[:, :a], pdl_after=pdl[:, b:])
            mon.check(abs(parts - want) < 1e-9*(1 + want), 'split-penalty',
                      lambda: info() + ' split %s: %s' % ((a, b), parts))
        full = extend_after_guide_based_blending(multi, pdl)
        mon.ev('full_structure')
        whole = calc_penalty_spacing(full, mps.build(case['mp'], cons), cons)
        mon.check(abs(whole - want) < 1e-9*(1 + want), 'structure-penalty',
                  lambda: info() + ' structure %s' % whole)
        # panels not designed yet are ignored
        if len(plies) > 1:
            mon.ev('undesigned')
            part = [None if r == 0 else pdl[r] for r in range(len(plies))]
            sub = sum(w*boundary_term(pdl[a], pdl[b], m)[0]
                      for (a, b), w in weight.items() if 0 not in (a, b))
            val = calc_penalty_spacing(part, multi, cons,
                                       on_blending_strip=True)
            mon.check(abs(val - sub) < 1e-9*(1 + sub), 'undesigned-panels', info)
        off = gen.bella(dict(case['spec'], pdl_spacing=False))
        mon.ev('rule_off')
        mon.check(calc_penalty_spacing(pdl, multi, off, on_blending_strip=True)
                  == 0, 'penalty-with-rule-off', info)
        verdict(case, multi, pdl, full, want, cons, mon, which)
        mon.sample('%s -> %s' % (case[which], got))


def refused(sst, multi, cons, reduced):
    from src.guidelines.one_stack import check_ply_drop_rules
    try:
        check_ply_drop_rules(sst, multi, cons, reduced=reduced)
    except Exception as exc:
        if type(exc) is not Exception:
            raise
        return str(exc).lower()
    return None


def verdict(case, multi, pdl, full, want, cons, mon, which):
    spec = case['spec']
    k = spec['n_covering'] if spec['covering'] else 0
    uncovered = any(r[i] == -1 or r[-1 - i] == -1
                    for r in pdl.tolist() for i in range(k))
    sst = np.where(pdl == -1, -1, 45)
    for table, red in ((sst, True), (np.where(full == -1, -1, 45), False)):
        msg = refused(table, multi, cons, red)
        info = lambda: '%s covering %s, drop penalty %s, reduced %s: %s\n%s' % (
            spec, not uncovered, want, red, msg, pdl.tolist())
        mon.check((msg is not None) == (uncovered or want > 1e-12),
                  'verdict-%s' % ('uncovered' if uncovered else
                                  'spacing' if want else 'valid'), info)
        if msg is None:
            mon.ev('accepted')
        elif 'cover' in msg:
            mon.ev('refused_covering')
            mon.check(uncovered, 'wrong-reason-covering', info)
        else:
            mon.ev('refused_spacing')
            mon.check(want > 0, 'wrong-reason-spacing', info)
    if spec['covering']:
        off = gen.bella(dict(spec, covering=False))
        mon.check((refused(sst, multi, off, True) is not None) == (want > 1e-12),
                  'covering-off', lambda: str(case))


FAMILIES = [Family('layout', make_single, run_single, 4000, 60000),
            Family('strip', make_strip, run_strip, 1500, 25000)]
