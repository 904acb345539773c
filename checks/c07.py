"""C07 candidate filters keep exactly the admissible sublaminates"""
import numpy as np
from vlib import gen, oracle as orc
from vlib.core import Family

ID = 'C07'
RULE = ('tables of 1-25 candidate sublaminates (1-9 plies, a few angles so '
        'that runs are common), with and without a paired table, an adjacent '
        'stack of 0-9 plies often ending in a run, all contiguity limits 2..6 '
        'and both rules switched on or off. Non-trivial: some candidates kept '
        'and some dropped')
REQUIRED = ['internal_mixed', 'external_mixed', 'paired_external_dropped',
            'paired_internal_dropped', 'kept', 'dropped', 'rules_off',
            'one_row_vectors', 'single_stack']


def make(rng, tier):
    angles = gen.angle_set(rng)
    few = [int(gen.choice(rng, angles)) for _ in range(int(rng.integers(2, 5)))]
    k = int(rng.integers(2, 7))
    n = int(rng.integers(1, 10)) if rng.random() < .9 else int(
        rng.integers(10, 25))
    rows = []
    n_rows = 1 if rng.random() < 0.08 else int(rng.integers(2, 26))
    lead = int(gen.choice(rng, few))
    for _ in range(n_rows):
        row = [int(gen.choice(rng, few)) for _ in range(n)]
        r = int(rng.integers(0, min(n, k + 1) + 1))
        p = 0 if rng.random() < .6 else int(rng.integers(0, n - r + 1))
        row[p:p + r] = [lead]*r
        rows.append(row)
    before = [int(gen.choice(rng, few)) for _ in range(int(rng.integers(0, 10)))]
    if before and rng.random() < 0.7:
        r = int(rng.integers(1, len(before) + 1))
        before[-r:] = [lead]*r
    return {'rows': rows, 'before': before, 'k': k,
            'delta': gen.delta(rng),
            'diso': bool(rng.random() < .5), 'contig': bool(rng.random() < .85),
            'checked': int(rng.integers(1, n + 1)) if rng.random() < .3 else n,
            'pair': int(rng.integers(1, 6)), 'angles': angles}


def internal_ok(row, case, diso):
    if case['contig'] and not orc.contig_ok(row, case['k']):
        return False
    return not (diso and case['diso'] and orc.diso_pairs(row, case['delta']))


def external_ok(row, case, diso):
    b, m = case['before'], case['checked']
    if not b:
        return True
    if case['contig']:
        whole = b + row[:m]
        for i in orc.contig_windows(whole, case['k']):
            if i < len(b) <= i + case['k']:
                return False
    return not (diso and case['diso']
                and orc.ang_gap(b[-1], row[0]) > case['delta'])


def run(case, mon):
    from src.guidelines.internal_contig import internal_contig, internal_contig2
    from src.guidelines.internal_diso_contig import internal_diso_contig
    from src.guidelines.external_contig import external_contig
    from src.guidelines.external_diso_contig import external_diso_contig
    cons = gen.bella(dict(
        set_of_angles=case['angles'], diso=case['diso'],
        contig=case['contig'], n_contig=case['k'], delta_angle=case['delta']))
    rows = case['rows']
    table = np.array(rows, int)
    before = np.array(case['before'], int)
    # the second table carries the row number, so that rows stay identifiable
    second = np.arange(len(rows))[:, None]*10 + np.arange(case['pair'])
    if not case['diso'] and not case['contig']:
        mon.ev('rules_off')
    m = case['checked']
    for name, ok, call in (
            ('internal-contig', lambda r: internal_ok(r, case, False),
             lambda t, s: internal_contig(t, cons, s)),
            ('internal-diso-contig', lambda r: internal_ok(r, case, True),
             lambda t, s: internal_diso_contig(t, cons, s)),
            ('external-contig', lambda r: external_ok(r, case, False),
             lambda t, s: external_contig(t, m, cons, before, s)),
            ('external-diso-contig', lambda r: external_ok(r, case, True),
             lambda t, s: external_diso_contig(t, m, cons, before, s))):
        keep = [i for i, r in enumerate(rows) if ok(r)]
        mixed = 0 < len(keep) < len(rows)
        if mixed:
            mon.ev(name[:8] + '_mixed')
            mon.sig(name, str(rows), str(case['before']), case['k'])
        mon.ev('kept', len(keep))
        mon.ev('dropped', len(rows) - len(keep))
        for paired in (False, True):
            t = table.copy()
            s = second.copy() if paired else None
            out, out2 = call(t, s)
            got = [tuple(int(a) for a in r) for r in np.asarray(out)]
            mon.check(got == [tuple(rows[i]) for i in keep],
                      '%s%s' % (name, '-paired' if paired else ''),
                      lambda: '%s: kept %s, admissible rows are %s' % (
                          case, got, keep))
            if paired:
                if len(keep) < len(rows):
                    mon.ev('paired_%s_dropped' % name[:8])
                mon.check(np.array_equal(out2, second[keep]),
                          '%s-second-table' % name, lambda: '%s: rows %s kept '
                          'but second table is %s' % (case, keep,
                                                      np.asarray(out2)[:, 0]))
            else:
                mon.check(out2 is None, name + '-second-none', '')
            mon.check((t == table).all(), name + '-input-modified', '')
        if len(rows) == 1:
            mon.ev('one_row_vectors')
            out, _ = call(np.array(rows[0], int), None)
            mon.check(np.asarray(out).shape[0] == len(keep),
                      name + '-vector', lambda: str(case))
    for r in rows[:4]:
        whole = case['before'] + r
        mon.ev('single_stack')
        got = internal_contig2(np.array(whole, int), cons)
        mon.check(bool(got) == internal_ok(whole, case, False), 'single-stack',
                  lambda: '%s limit %s: %s' % (whole, case['k'], got))
        got = internal_contig2(np.array([whole], int), cons)
        mon.check(bool(got) == internal_ok(whole, case, False),
                  'single-stack-2d', lambda: str(whole))
    mon.sample('limit %d, after %s: %d candidates like %s' % (
        case['k'], case['before'], len(rows), rows[0]))


FAMILIES = [Family('filters', make, run, 5000, 90000)]
