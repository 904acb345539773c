"""C10 stacking-sequence tables, ply lists and ply positions stay consistent"""
import numpy as np
from vlib import gen, mps
from vlib.core import Family, CaseEnd

ID = 'C10'
RULE = ('random nested blending strips (1-8 thicknesses, symmetric with or '
        'without middle ply, asymmetric) with a random guide laminate: tables, '
        'per-panel lists and ply positions are converted back and forth, '
        'reduced to and expanded from the strip, and a redesigned reference '
        'panel is pushed through the table. Non-trivial: at least one ply '
        'dropped')
REQUIRED = ['table_built', 'panel_list', 'ref_pushed', 'reduced', 'extended',
            'positions', 'positions_dropped', 'layout_recovered',
            'layout_with_middle_ply', 'layout_asym', 'layouts_filtered',
            'layouts_dropped', 'layouts_kept', 'drops_formatted']


def make(rng, tier):
    sym = bool(rng.random() < .6)
    far = bool(rng.random() < .04)
    spec = mps.mp_spec(rng, sym, lo=120 if far else 8, hi=300 if far else 40,
                       max_gap=16)
    cover = int(rng.integers(0, 3))
    rows = mps.nested_rows(rng, mps.strip_plies(spec), sym, protect=cover)
    angles = gen.angle_set(rng)
    n = len(rows[-1])
    guide = gen.raw_stack(rng, angles, n)
    if sym:
        guide = guide[:n//2] + guide[n//2:n//2 + n % 2] + guide[:n//2][::-1]
    ref = int(rng.integers(len(rows)))
    m = sum(rows[ref])
    new = gen.raw_stack(rng, angles, m)
    return {'sym': sym, 'spec': spec, 'rows': rows, 'guide': guide,
            'ref': ref, 'new': new, 'cover': cover, 'angles': angles,
            'style': 'pos' if rng.random() < .5 else 'own',
            'pos': [int(v) for v in
                    rng.permutation(n)[:int(rng.integers(0, n + 1))] + 1],
            'posref': [int(v) for v in
                       rng.permutation(m)[:int(rng.integers(0, m + 1))] + 1]}


def run(case, mon):
    from src.BELLA import format_pdl as fp
    rows, guide = case['rows'], case['guide']
    pdl = mps.to_pdl(rows, case['style'])
    n = len(guide)
    want = np.array([[g if k else -1 for g, k in zip(guide, r)] for r in rows])
    lists = [[g for g, k in zip(guide, r) if k] for r in rows]
    if len(rows) > 1:
        mon.sig(rows, guide)
    # table and lists
    keep = pdl.copy()
    sst = fp.convert_ss_guide_to_sst(np.array(guide), pdl)
    mon.ev('table_built')
    mon.check(np.array_equal(sst, want), 'table-from-guide',
              lambda: '%s %s -> %s' % (guide, pdl.tolist(), sst.tolist()))
    ss = fp.convert_sst_to_ss(sst)
    mon.ev('panel_list')
    mon.check([list(map(int, s)) for s in ss] == lists, 'lists-from-table',
              lambda: '%s -> %s' % (sst.tolist(), [list(s) for s in ss]))
    back = fp.convert_ss_to_sst([np.array(s) for s in lists], pdl)
    mon.check(np.array_equal(back, want), 'table-from-lists',
              lambda: '%s -> %s' % (lists, back.tolist()))
    # redesigned reference panel
    ref, new = case['ref'], case['new']
    pushed = fp.convert_ss_ref_to_reduced_sst(
        np.array(new), ref, pdl, [np.array(s) for s in lists])
    mon.ev('ref_pushed')
    it = iter(new)
    col = [next(it) if rows[ref][j] else guide[j] for j in range(n)]
    wantp = np.array([[c if k else -1 for c, k in zip(col, r)] for r in rows])
    mon.check(np.array_equal(pushed, wantp), 'reference-pushed',
              lambda: 'ref %d new %s guide %s pdl %s -> %s' % (
                  ref, new, guide, pdl.tolist(), pushed.tolist()))
    mon.check(np.array_equal(pdl, keep), 'layout-modified', '')
    # strip <-> structure
    cons = gen.bella(dict(set_of_angles=case['angles'], sym=case['sym'],
                          covering=case['cover'] > 0,
                          n_covering=case['cover']))
    mp = mps.build(case['spec'], cons)
    mp.from_mp_to_blending_strip(cons, mp.n_plies_max)
    strip = sorted(set(case['spec']['plies']))
    full = fp.extend_after_guide_based_blending(mp, sst)
    fulll = fp.extend_after_guide_based_blending(mp, ss)
    mon.ev('extended')
    for i, p in enumerate(case['spec']['plies']):
        j = strip.index(p)
        mon.check(list(map(int, full[i])) == want[j].tolist()
                  and list(map(int, fulll[i])) == lists[j],
                  'panel-gets-wrong-stack', lambda: '%s' % case['spec'])
    red = fp.reduce_for_guide_based_blending(mp, full)
    redl = fp.reduce_for_guide_based_blending(mp, fulll)
    mon.ev('reduced')
    mon.check(np.array_equal(red, want) and
              [list(map(int, s)) for s in redl] == lists,
              'reduction-inverse', lambda: '%s' % case['spec'])
    # ply positions (numbered from 1)
    row = pdl[ref]
    kept = [j + 1 for j in range(n) if rows[ref][j]]
    got = fp.pos_in_ss_ref_to_pos_in_sst(
        np.array(case['posref'], int), row)
    mon.ev('positions')
    mon.check([int(v) for v in got] == [kept[p - 1] for p in case['posref']],
              'position-panel-to-table',
              lambda: '%s %s -> %s' % (case['posref'], row, list(got)))
    pos = case['pos']
    got = fp.pos_in_sst_to_pos_in_panel(np.array(sorted(pos), int), row)
    exp = [kept.index(p) + 1 for p in sorted(pos) if p in kept]
    mon.check([int(v) for v in got] == exp, 'position-table-to-panel',
              lambda: '%s %s -> %s' % (sorted(pos), row, list(got)))
    got = fp.pos_in_sst_to_pos_in_panel_2(np.array(pos, int), row)
    exp = [kept.index(p) + 1 if p in kept else 1e10 for p in pos]
    if 1e10 in exp:
        mon.ev('positions_dropped')
    mon.check([float(v) for v in got] == exp, 'position-table-to-panel-2',
              lambda: '%s %s -> %s' % (pos, row, list(got)))


def run_layout(case, mon):
    """ply-drop layout recovered from a table of one row per strip panel"""
    from src.BELLA import pdl_tools as pt
    rows, guide, sym = case['rows'], case['guide'], case['sym']
    spec = dict(case['spec'])
    strip = mps.strip_plies(spec)
    spec['plies'] = strip
    k = len(strip)
    spec['ids'] = list(range(1, k + 1))
    spec['neigh'] = [[j for j in (i - 1, i + 1) if 0 <= j < k]
                     for i in range(k)]
    spec['bweights'] = None
    cons = gen.bella(dict(set_of_angles=case['angles'], sym=sym,
                          covering=case['cover'] > 0,
                          n_covering=case['cover']))
    mp = mps.build(spec, cons)
    mp.from_mp_to_blending_strip(cons, mp.n_plies_max)
    sst = np.array([[g if x else -1 for g, x in zip(guide, r)] for r in rows])
    n = len(guide)
    if n//2 <= case['cover'] + 1:
        raise CaseEnd
    keep = sst.copy()
    out = pt.input_pdl_from_sst(sst, mp, cons)[0]
    mon.ev('layout_recovered')
    if sym and n % 2:
        mon.ev('layout_with_middle_ply')
    if not sym:
        mon.ev('layout_asym')
    mon.check(np.array_equal(sst, keep), 'table-modified', '')
    mon.check(out.shape == sst.shape
              and np.array_equal(out == -1, sst == -1), 'layout-from-table',
              lambda: '%s -> %s' % (sst.tolist(), out.tolist()))
    half = n if not sym else (n + 1)//2
    for r in out:
        seq = [int(v) for v in r[:half] if v != -1]
        mon.check(all(b == a + 1 for a, b in zip(seq, seq[1:])),
                  'layout-numbering',
                  lambda: '%s' % r)
    mon.sig('layout', rows)


def make_rules(rng, tier):
    k = int(rng.integers(2, 5))
    n = int(rng.integers(4, 14))
    out = []
    for _ in range(int(rng.integers(1, 12))):
        plies = sorted(int(v) for v in rng.integers(2, n + 1, k))
        plies[-1] = n
        out.append(mps.nested_rows(rng, plies, False))
    side = []
    for w in (int(rng.integers(0, 6)), int(rng.integers(0, 6))):
        side.append(None if w == 0 else
                    mps.nested_rows(rng, sorted(
                        [int(v) for v in rng.integers(0, w + 1, k - 1)]
                        + [w]), False))
    bnd = [[i, i + 1] for i in range(k - 1)]
    if rng.random() < .5 and k > 2:
        bnd.append([0, k - 1])
    lists = [sorted(int(v) for v in rng.permutation(n)[:int(d)])
             for d in rng.integers(0, n, k)]
    return {'lay': out, 'before': side[0], 'after': side[1], 'bnd': bnd,
            'm': int(rng.integers(1, 5)), 'on': bool(rng.random() < .85),
            'lists': lists, 'n': n}


def viol(line, m):
    d = [i for i, x in enumerate(line) if x == -1]
    return any(b - a - 1 < m for a, b in zip(d, d[1:]))


def run_rules(case, mon):
    from src.BELLA import pdl_tools as pt
    lay = np.array([mps.to_pdl(r) for r in case['lay']])
    bef = None if case['before'] is None else mps.to_pdl(case['before'])
    aft = None if case['after'] is None else mps.to_pdl(case['after'])
    out = pt.ply_drops_rules(lay, case['m'], case['bnd'], bef, aft,
                             pdl_spacing=case['on'])
    want = []
    for p in lay:
        ok = True
        for i, j in case['bnd']:
            l1 = ([] if bef is None else list(bef[i])) + list(p[i]) \
                + ([] if aft is None else list(aft[i]))
            l2 = ([] if bef is None else list(bef[j])) + list(p[j]) \
                + ([] if aft is None else list(aft[j]))
            keep = [q for q in range(len(l1))
                    if not (l1[q] == -1 and l2[q] == -1)]
            if viol([l1[q] for q in keep], case['m']) \
                    or viol([l2[q] for q in keep], case['m']):
                ok = False
        if ok or not case['on']:
            want.append(p.tolist())
    mon.ev('layouts_filtered')
    mon.ev('layouts_kept', len(want))
    mon.ev('layouts_dropped', len(lay) - len(want))
    if 0 < len(want) < len(lay):
        mon.sig('rules', case['lay'], case['m'])
    mon.check(out.tolist() == want, 'layout-filter',
              lambda: '%s -> %s expected %s' % (case, out.tolist(), want))
    f = pt.format_ply_drops(case['lists'], case['n'])
    mon.ev('drops_formatted')
    exp = [[-1 if j in d else j for j in range(case['n'])]
           for d in case['lists']]
    mon.check(f.tolist() == exp, 'drops-formatted',
              lambda: '%s -> %s' % (case['lists'], f.tolist()))
    f2 = pt.format_ply_drops2(np.array(exp))
    e2 = []
    for r in exp:
        c = 0
        row = []
        for x in r:
            row.append(-1 if x == -1 else c)
            c += x != -1
        e2.append(row)
    mon.check(f2.tolist() == e2, 'drops-renumbered',
              lambda: '%s -> %s' % (exp, f2.tolist()))


FAMILIES = [Family('tables', make, run, 2500, 60000),
            Family('layout', make, run_layout, 1200, 30000),
            Family('filter', make_rules, run_rules, 1500, 30000)]
