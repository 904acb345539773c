"""C26 the workbooks say what was asked and what was obtained"""
import glob
import os
import numpy as np
from vlib import boot, e2e, gen, mps, oracle
from vlib.core import Family
from checks import c09, c16, c21, c22, c23, c25

ID = 'C26'
RULE = ('workbooks of optimisations of random structures, of set-ups of random '
        'structures with their penalties, initial ply-drop layouts given in '
        'workbooks, and the scripts of the repository with their data files; '
        'all the cells are read back and recomputed. Non-trivial: at least two '
        'thicknesses')
REQUIRED = ['results_row', 'best_row', 'several_layouts', 'setup', 'materials',
            'no_materials', 'penalty_row', 'penalised', 'spacing_penalised',
            'reread', 'buckling', 'layouts_read', 'layouts_used',
            'layouts_refused', 'script', 'only_best', 'laminate_setup',
            'laminate_compared', 'overwritten', 'overwriting_refused',
            'layout_left_out', 'panel_without_lengths', 'unrepaired_design']
BUDGET = 6_000_000
WATCHDOG = 300
setup = c16.setup
MAT = dict(E11=130e9, E22=9e9, G12=4e9, nu12=.3, density_area=.2, ply_t=2e-4)


# -------------------------------------------------------------------- reading
def rows_of(book, sheet):
    import openpyxl
    wb = openpyxl.load_workbook(book, data_only=True)
    if sheet not in wb.sheetnames:
        return None
    return [list(r) for r in wb[sheet].iter_rows(values_only=True)]


def pairs(book, sheet):
    """{name: value} of a sheet with names in the first column"""
    rows = rows_of(book, sheet)
    if rows is None:
        return None
    return {r[0]: r[1] for r in rows if r and r[0] is not None}


def tables(book, sheet):
    """list of tables (lists of {column: value}) stacked in a sheet"""
    out, head = [], None
    for r in rows_of(book, sheet) or []:
        if 'index panel' in r or 'Panel ID' in r:
            head = r
            out.append([])
        elif head and any(v is not None for v in r):
            out[-1].append({h: v for h, v in zip(head, r) if h is not None})
    return out


def same(got, want, tol=1e-7):
    if isinstance(want, (bool, np.bool_)):
        return bool(got) == bool(want) and got in (True, False, 0, 1)
    if isinstance(want, str):
        return str(got) == want
    if want is None:
        return got is None
    if got is None or isinstance(got, str):
        return False
    return abs(float(got) - float(want)) <= tol*(1 + abs(float(want)))


def compare(mon, got, want, mech, info, sampled=False):
    """every expected cell"""
    if not mon.check(got is not None, mech + '-sheet-missing', info):
        return
    for k, v in want.items():
        ok = k in got and same(got.get(k), v)
        if not ok and sampled and k in ('Penalty 10% rule', 'penalty_10') \
                and isinstance(got.get(k), (int, float)):
            # distances to the limits of Abdalla are to a sampled curve
            ok = v - 1e-7 <= got[k] <= np.hypot(v, .01)
        mon.check(ok, '%s:%s' % (mech, k),
                  lambda: '%s expected %s; %s' % (
                      got.get(k, '(missing)'), v, info()))


def limits(case):
    return case['spec']['rule_10_percent'] and \
        case['spec'].get('rule_10_Abdalla', False)


# ----------------------------------------------------------- expected content
def want_constraints(spec):
    rules = oracle.Rules(spec)
    ten = spec['rule_10_percent']
    abd = ten and spec.get('rule_10_Abdalla', False)
    pct = dict(rules.pct) if ten and not abd else {}
    cov = c21.protected(spec)
    out = {'symmetry': spec['sym'], 'balance': spec['bal'],
           'out-of-plane orthotropy': spec['oopo'],
           'damage tolerance': spec['dam_tol'],
           'dam_tol_rule': spec['dam_tol_rule'] if spec['dam_tol'] else 0,
           'covering': cov > 0,
           '10% rule': ten, '10% rule applied on LPs': bool(abd),
           '10% rule applied on ply percentages': bool(ten and not abd),
           'percentage limit when rule applied on LPs':
           spec['percent_Abdalla'] if abd else 0,
           'diso': spec['diso'], 'contig': spec['contig'],
           'number fibre orientations': len(set(spec['set_of_angles'])),
           'fibre orientations': ' '.join(
               str(a) for a in sorted(set(spec['set_of_angles']))),
           'ply drop spacing rule': spec['pdl_spacing'],
           'minimum number of continuous plies between ply drops':
           spec['min_drop']}
    if cov:
        out['n_covering'] = cov
    if spec['diso']:
        out['delta_angle'] = spec['delta_angle']
    if spec['contig']:
        out['n_contig'] = spec['n_contig']
    for k, p in (('percent_0', 0), ('percent_45', 45), ('percent_90', 90),
                 ('percent_-45', -45), ('percent_+-45', 'pm')):
        out[k] = pct.get(p, 0)
    return out


def want_material():
    m = MAT
    nu21 = m['nu12']*m['E22']/m['E11']
    den = 1 - m['nu12']*nu21
    q11, q22, q12, q66 = (m['E11']/den, m['E22']/den, nu21*m['E11']/den,
                          m['G12'])
    return {'E11': m['E11'], 'E22': m['E22'], 'G12': m['G12'],
            'nu12': m['nu12'], 'nu21': nu21,
            'areal density': m['density_area'],
            'volumic density': m['density_area']/m['ply_t'],
            'ply thickness': m['ply_t'], 'Q11': q11, 'Q12': q12, 'Q22': q22,
            'Q66': q66,
            'U1': (3*q11 + 3*q22 + 2*q12 + 4*q66)/8, 'U2': (q11 - q22)/2,
            'U3': (q11 + q22 - 2*q12 - 4*q66)/8,
            'U4': (q11 + q22 + 6*q12 - 4*q66)/8,
            'U5': (q11 + q22 - 2*q12 + 4*q66)/8}


def area_of(mp, i):
    return mp['lx'][i]*mp['ly'][i] or mp['area'][i]


def want_multipanel(case, mat):
    mp = case['mp']
    area = [area_of(mp, i) for i in range(len(mp['plies']))]
    out = {'Number of panels': len(mp['plies']),
           'Number of plies max': max(mp['plies']), 'Area': sum(area),
           'Area of all patches': sum(
               a*p for a, p in zip(area, mp['plies']))}
    if mat:
        out['Weight'] = MAT['density_area']*out['Area of all patches']
    return out


def targets_of(case):
    """targets as filtered by the rules"""
    spec, out = case['spec'], []
    for t in case['targets']:
        t = np.array(t, float)
        if spec['sym']:
            t[4:8] = 0
        if set(spec['set_of_angles']) == {0, 45, -45, 90}:
            t[[3, 7, 11]] = 0
        if spec['bal']:
            t[2:4] = 0
        if spec['oopo']:
            t[10:12] = 0
        out.append(t)
    return out


def check_panels(case, mon, book, mat, info, extra=None):
    mp, spec = case['mp'], case['spec']
    got = tables(book, 'Panels')
    if not mon.check(len(got) == 1 and len(got[0]) == len(mp['plies']),
                     'panels-sheet', info):
        return
    thick = pairs(book, 'Multipanel').get('Index of one thickest panel')
    mon.check(thick is not None and
              mp['plies'][int(thick)] == max(mp['plies']),
              'multipanel:Index of one thickest panel', info)
    lpw = e2e.weightings(case)
    for i, row in enumerate(got[0]):
        area = area_of(mp, i)
        want = {'Panel ID': mp['ids'][i], 'Number of plies': mp['plies'][i],
                'Weighting in MP objective funtion': mp['weighting'][i],
                'Area': area, 'N_x': mp['nx'][i], 'N_y': mp['ny'][i]}
        if mp['lx'][i]:
            want.update(Length_x=mp['lx'][i], Length_y=mp['ly'][i])
        else:
            mon.ev('panel_without_lengths')
            mon.check(row.get('Length_x') is None, 'panels:Length_x', info)
        if mat:
            want['Weight'] = area*mp['plies'][i]*MAT['density_area']
        for k in range(12):
            want['lampam_weightings[%d]' % (k + 1)] = lpw[i][k]
            t = case['targets'][i][k]
            f = targets_of(case)[i][k]
            name = 'lampam_target[%d]' % (k + 1)
            # targets that no longer matter may be reset
            mon.check(same(row.get(name), t) or same(row.get(name), f) or
                      lpw[i][k] == 0, 'panels:lampam_target',
                      lambda: '%s %s' % (row, info()))
            w = row.get('lampam_weightings_ini[%d]' % (k + 1))
            mon.check(w is not None and (w != 0) == (case['lpw'][i][k] != 0),
                      'panels:lampam_weightings_ini', info)
        if extra:
            want.update(extra[i])
        near = sorted(int(v) for v in str(
            row.get('Neighbour panel IDs') or '').split())
        mon.check(near == sorted(mp['ids'][j] for j in mp['neigh'][i]),
                  'panels:Neighbour panel IDs', lambda: '%s %s' % (
                      near, info()))
        compare(mon, row, want, 'panels', info, limits(case))


def want_parameters(case, n):
    p = case['par']
    names = {k: k for k in (
        'global_node_limit', 'global_node_limit_final', 'local_node_limit',
        'local_node_limit_final', 'global_node_limit2', 'local_node_limit2',
        'global_node_limit3', 'local_node_limit3', 'p_A', 'n_D1', 'n_D2',
        'n_D3', 'repair_membrane_switch', 'repair_flexural_switch')}
    names.update({'minimum group size': 'group_size_min',
                  'maximum group size': 'group_size_max'})
    out = {k: p[v] for k, v in names.items()}
    out['number of initial ply drops'] = n
    out['input number of plies in reference panel'] = case['ref']
    out['time_limit_group_pdl'], out['time_limit_all_pdls'] = .02, .6
    return out


def want_objective(case):
    spec, c = case['spec'], case['obj']
    return {'optimisation problem': 'LP matching',
            'coeff_contig': c['coeff_contig'] if spec['contig'] else 0,
            'coeff_diso': c['coeff_diso'] if spec['diso'] else 0,
            'coeff_10': c['coeff_10'] if spec['rule_10_percent'] else 0,
            'coeff_bal_ipo': c.get('coeff_bal_ipo', 1) if spec['bal'] else 0,
            'coeff_oopo': c.get('coeff_oopo', 1) if spec['oopo'] else 0,
            'coeff_spacing': c.get('coeff_spacing', 1)
            if spec['pdl_spacing'] else 0}


def want_panel(case, i, ss, sst, mat, buckling):
    """row of a panel in the sheets of results"""
    spec, mp = case['spec'], case['mp']
    n = len(ss)
    lp = oracle.lampam(ss)
    pct = lambda *aa: sum(ss.count(a) for a in aa)/n
    diso, contig, ten = e2e.penalties(case, ss)
    out = {'index panel': i + 1, 'n_plies': mp['plies'][i],
           'ipo: |lampam[3]| + |lampam[4]|': abs(lp[2]) + abs(lp[3]),
           'oopo: |lampam[11]| + |lampam[12]|': abs(lp[10]) + abs(lp[11]),
           'percentage_0_plies': pct(0), 'percentage_90_plies': pct(90),
           'percentage_+45_plies': pct(45), 'percentage_-45_plies': pct(-45),
           'percentage_+-45_plies': pct(45, -45), 'penalty_diso': diso,
           'penalty_contig': contig, 'penalty_10': ten,
           'penalty_ipo': (abs(lp[2]) + abs(lp[3]))/2 if spec['bal'] else 0,
           'penalty_oopo': (abs(lp[10]) + abs(lp[11]))/2 if spec['oopo']
           else 0,
           'n_violations_diso': round(diso*n),
           'stacking sequences': ' '.join(map(str, ss)),
           'stacking sequences with ply drops included':
           ' '.join(map(str, sst))}
    if spec['contig']:
        out['n_violations_contig'] = round(contig*n)
    for a in spec['set_of_angles']:
        out['n_%dplies' % a] = ss.count(a)
    for k in range(12):
        out['lampam[%d]' % (k + 1)] = lp[k]
    if mat:
        m = want_material()
        d11 = m['U1'] + m['U2']*lp[8] + m['U3']*lp[9]
        d22 = m['U1'] - m['U2']*lp[8] + m['U3']*lp[9]
        d16 = m['U2']*lp[10]/2 + m['U3']*lp[11]
        d26 = m['U2']*lp[10]/2 - m['U3']*lp[11]
        out['gamma'] = abs(d16)/(d11**3*d22)**.25
        out['delta'] = abs(d26)/(d22**3*d11)**.25
    if buckling:
        c = dict(MAT, t=MAT['ply_t'], modes=10, lx=mp['lx'][i], ly=mp['ly'][i],
                 nx=mp['nx'][i], ny=mp['ny'][i])
        out['lambda buckling'] = c23.critical(c23.stiffness(ss, c), c)[0]
    return out


def check_rows(case, mon, got, sss, ssts, mat, buckling, info, pdl=None,
               obj=None):
    mp = case['mp']
    if not mon.check(len(got) == len(mp['plies']), 'results-panels', info):
        return
    costs = e2e.panel_costs(case, sss)
    for i, row in enumerate(got):
        want = want_panel(case, i, sss[i], ssts[i], mat, buckling)
        compare(mon, row, want, 'results', info, limits(case))
        for k in range(12):
            e = row.get('lampam_error[%d]' % (k + 1))
            lp = oracle.lampam(sss[i])[k]
            mon.check(e is not None and (
                same(e, abs(case['targets'][i][k] - lp)) or
                same(e, abs(targets_of(case)[i][k] - lp)) or
                e2e.weightings(case)[i][k] == 0), 'results:lampam_error', info)
        if obj:
            mon.check(same(row.get('obj_no_constraints'), costs[i]),
                      'results:obj_no_constraints', info)
        if pdl is not None:
            line = [round(float(v)) for v in
                    str(row.get('initial ply drop layout')).split()]
            mon.check([v == -1 for v in line] == [v == -1 for v in pdl[i]],
                      'results:initial ply drop layout', lambda: '%s %s' % (
                          line, info()))


def spacing(case, strip):
    """ply-drop spacing penalty of the lines of the blending strip"""
    want, plies = 0., mps.strip_plies(case['mp'])
    given = {frozenset((a, b)): w for a, b, w in case['mp']['bweights'] or []}
    if case['spec']['pdl_spacing']:
        for a, b in case['mp']['edges']:
            p, q = (plies.index(case['mp']['plies'][j]) for j in (a, b))
            if p != q:
                want += (given[frozenset((a, b))] if given else 1) * \
                    c09.boundary_term(strip[p], strip[q],
                                      case['spec']['min_drop'])[0]
    return want


# ----------------------------------------------------- workbooks of optimisations
def make_book(rng, tier):
    case = e2e.case(rng, lo=8, hi=16, gap=5)
    p = case['par']
    for k in ('global_node_limit', 'local_node_limit', 'global_node_limit2',
              'global_node_limit3', 'local_node_limit2', 'local_node_limit3'):
        p[k] = min(p[k], 4)
    p['global_node_limit_final'] = int(rng.integers(1, 3))
    p['n_ini_ply_drops'] = int(rng.integers(1, 5))
    p['save_buckling'] = bool(case['mat'] and rng.random() < .6)
    if rng.random() < .3:       # some repairs give up
        case['faults'] = {str(i): int(rng.integers(1, 4)) for i in range(9)
                          if rng.random() < .5}
        p['n_ini_ply_drops'] = int(rng.integers(2, 5))
        p['save_success_rate'] = bool(rng.random() < .3)
    if rng.random() < .25:
        case['stale'] = str(gen.choice(rng, ['y', 'yes', 'n', '']))
    return case


def run_book(case, mon):
    with e2e.scratch() as folder:
        if case.get('stale') is not None:
            out = stale_book(case, mon, folder)
            if out is None:
                return
            res, calls, layouts, book, parts = out
        else:
            res, calls, layouts, book, parts = e2e.optimise(case, folder)
        if isinstance(res, str):
            mon.ev('refused')
            return
        check_book(case, mon, res, layouts, book, parts)
        without(case, mon, res, layouts, folder, parts)


def without(case, mon, res, layouts, folder, parts):
    """results with layouts of which nothing came out: their tables are left
    out, and only theirs"""
    import copy
    from src.BELLA.save_result import save_result_BELLAs
    tab = np.array(res.obj_constraints_tab, float)
    best = int(res.ind_mini)
    others = [i for i in range(len(tab)) if i != best and not
              np.isnan(tab[i])]
    if not others or len(layouts) != len(tab):
        return
    gone = others[case['seed'] % len(others)]
    cons, multi, par, obj, mat = parts
    new = copy.copy(res)
    new.obj_constraints_tab = tab.copy()
    new.obj_constraints_tab[gone] = np.nan
    book = os.path.join(folder, 'without.xlsx')
    save_result_BELLAs(book, multi, cons, par, obj, [
        [pdl[mps.strip_plies(case['mp']).index(p)] for p in case['mp']['plies']]
        for pdl in layouts], new, mat)
    mon.ev('layout_left_out')
    left = [i for i, v in enumerate(new.obj_constraints_tab)
            if not np.isnan(v)]
    got = tables(book, 'Results')
    info = lambda: '%s left %s' % (gen.tag(case['spec']), left)
    if not mon.check(len(got) == len(left), 'results-tables', info):
        return
    for t, i in zip(got, left):
        mon.check(bool(t) and same(t[0].get('obj_constraints'), tab[i]) and [
            str(r.get('stacking sequences')) for r in t] == [
                ' '.join(map(str, e2e.lay(s))) for s in res.ss_tab[i]],
                'results-of-another-layout', info)


def stale_book(case, mon, folder):
    """the workbook of another optimisation is there already: overwritten as a
    whole if the user agrees, left as it was otherwise"""
    import builtins
    import openpyxl
    book = os.path.join(folder, 'result.xlsx')
    wb = openpyxl.Workbook()
    wb.active.title = 'Sheet of another design'
    for name in ('Constraints', 'Parameters', 'Results'):
        ws = wb.create_sheet(name)
        for i in range(60):
            ws.append(['other %d' % i, i])
    wb.save(book)
    before = open(book, 'rb').read()
    asked, real = [], builtins.input

    def answer(*args):
        asked.append(args)
        return case['stale']
    builtins.input = answer
    try:
        out = e2e.optimise(case, folder)
    except SystemExit:
        out = None
    finally:
        builtins.input = real
    if not case['stale'].startswith('y'):
        mon.ev('overwriting_refused')
        mon.check(out is None and open(book, 'rb').read() == before,
                  'workbook-overwritten-without-agreement', str(case['stale']))
        return None
    mon.ev('overwritten')
    if not mon.check(out is not None, 'overwriting-refused',
                     str(case['stale'])):
        return None
    if not isinstance(out[0], str):
        mon.check(rows_of(book, 'Sheet of another design') is None,
                  'sheet-of-another-design-kept', str(case['stale']))
    return out


def check_book(case, mon, res, layouts, book, parts):
    info = lambda: '%s %s' % (gen.tag(case['spec']), {
        k: v for k, v in case.items() if k != 'spec'})
    mat, buckling = case['mat'], case['par'].get('save_buckling', False)
    plies = mps.strip_plies(case['mp'])
    mon.ev('setup')
    if len(plies) > 1:
        mon.sig(case['mp'], case['spec'], case['seed'])
    compare(mon, pairs(book, 'Constraints'), want_constraints(case['spec']),
            'constraints', info)
    if mat:
        mon.ev('materials')
        compare(mon, pairs(book, 'Materials'), want_material(), 'materials',
                info)
    else:
        mon.ev('no_materials')
        mon.check(rows_of(book, 'Materials') is None, 'materials-made-up',
                  info)
    compare(mon, pairs(book, 'Parameters'), want_parameters(
        case, len(layouts)), 'parameters', info)
    compare(mon, pairs(book, 'Objective function'), want_objective(case),
            'objective', info)
    compare(mon, pairs(book, 'Multipanel'), want_multipanel(case, mat),
            'multipanel', info)
    check_panels(case, mon, book, mat, info)
    # designs
    tab = [float(v) for v in res.obj_constraints_tab]
    found = [i for i, v in enumerate(tab) if not np.isnan(v)]
    mon.ev('failed_layout', len(tab) - len(found))
    got = tables(book, 'Results')
    spread = lambda pdl: [pdl[plies.index(p)] for p in case['mp']['plies']]
    if mon.check(len(got) == len(found), 'results-tables', lambda: '%d of %d '
                 '%s' % (len(got), len(found), info())):
        mon.ev('several_layouts', len(found) > 1)
        for t, i in zip(got, found):
            one_table(case, mon, t, i, res, res.ss_tab[i], res.ss_tab_tab[i],
                      mat, buckling, info, spread(layouts[i]))
            mon.ev('results_row', len(t))
    best = tables(book, 'Best Result')
    k = int(res.ind_mini)
    if mon.check(len(best) == 1, 'best-table', info):
        one_table(case, mon, best[0], k, res, res.ss, res.sst, mat, buckling,
                  info, spread(layouts[k]))
        mon.ev('best_row', len(best[0]))
        t = best[0][0].get('time (s)')
        mon.check(t is not None and float(t) > 0, 'time', info)
        mon.check(same(best[0][0].get('obj_constraints'), min(
            tab[i] for i in found)), 'best-result-not-the-best', info)


def one_table(case, mon, t, i, res, sss, ssts, mat, buckling, info, pdl):
    sss, ssts = ([e2e.lay(s) for s in v] for v in (sss, ssts))
    failed = float(res.obj_constraints_tab[i]) >= 1e10
    mon.ev('unrepaired_design', failed)
    check_rows(case, mon, t, sss, ssts, mat, buckling, info, pdl,
               obj=not failed)
    if not t:
        return
    want = {'n_obj_func_calls': float(res.n_obj_func_calls_tab[i])}
    if not limits(case):
        want['obj_constraints'] = 1e10 if failed else e2e.total_cost(case,
                                                                     sss)
    if not failed:
        inds = [case['mp']['plies'].index(p)
                for p in mps.strip_plies(case['mp'])]
        want['penalty_spacing'] = spacing(case, [ssts[j] for j in inds])
    compare(mon, t[0], want, 'results', info)


# ------------------------------------------------------------------- set-ups
def make_setup(rng, tier, only=False):
    while True:
        case = e2e.case(rng, n_panels=int(rng.integers(2, 6)), lo=8, hi=26)
        mp, spec = case['mp'], case['spec']
        if not all(mp['neigh']):
            mp['neigh'] = [[j for e in mp['edges'] for j in e if i in e and
                            j != i] for i in range(len(mp['plies']))]
        spec['oopo'] = bool(rng.random() < .2)
        plies = mps.strip_plies(mp)
        try:
            rows = mps.nested_rows(rng, plies, spec['sym'], protect=1)
        except ValueError:
            continue
        case['rows'] = rows
        case['ss'] = c21.guide(rng, spec, plies[-1]) if rng.random() < .5 \
            else [int(gen.choice(rng, spec['set_of_angles'])) for _ in
                  range(plies[-1])]
        case['buckling'] = bool(case['mat'] and rng.random() < .5)
        case['script'] = int(rng.integers(2))
        for k in ('coeff_bal_ipo', 'coeff_oopo', 'coeff_spacing'):
            case['obj'][k] = float(round(rng.uniform(0, 3), 2))
        for i in range(len(plies)):         # loads along one direction only
            if rng.random() < .2:
                mp[gen.choice(rng, ['nx', 'ny'])][i] = 0.
        mp['area'] = [float(round(rng.uniform(.5, 9), 2)) for _ in mp['plies']]
        if not case['buckling'] and not only:
            for i in range(len(mp['plies'])):
                if rng.random() < .3:
                    mp['lx'][i] = mp['ly'][i] = 0.
                    case['script'] = 0      # the other one needs them
        if not np.all(np.isfinite(e2e.weightings(case))):
            continue
        return case


SCRIPTS = ['run_BELLA_from_input_file_SST_1.py',
           'run_BELLA_from_input_file_horseshoe.py']


def table_of(case):
    plies = mps.strip_plies(case['mp'])
    strip = [[a if k else -1 for a, k in zip(case['ss'], row)]
             for row in case['rows']]
    return strip, [strip[plies.index(p)] for p in case['mp']['plies']]


def run_setup(case, mon):
    from src.BELLA.save_set_up import (
        save_multipanel, save_materials, save_constraints_BELLA,
        save_objective_function_BELLA)
    spec = case['spec']
    cons, multi, par, obj, mat = e2e.build(case)
    multi.filter_target_lampams(cons, obj)
    multi.filter_lampam_weightings(cons, obj)
    strip, sst = table_of(case)
    sss = [[a for a in s if a != -1] for s in sst]
    info = lambda: '%s %s' % (gen.tag(spec), {
        k: v for k, v in case.items() if k != 'spec'})
    with e2e.scratch() as folder:
        book = os.path.join(folder, 'set_up.xlsx')
        save_multipanel(book, multi, obj, calc_penalties=True,
                        constraints=cons, sst=np.array(sst), mat=mat,
                        save_buckling=case['buckling'])
        save_constraints_BELLA(book, cons)
        save_objective_function_BELLA(book, obj)
        from src.BELLA.materials import Material
        save_materials(book, mat or Material(**MAT))
        extra = []
        for i, ss in enumerate(sss):
            diso, contig, ten = e2e.penalties(case, ss)
            lp = oracle.lampam(ss)
            mon.ev('penalised', bool(diso or contig or ten))
            mon.ev('penalty_row')
            extra.append({
                'Penalty disorientation': diso, 'Penalty contiguity': contig,
                'Penalty 10% rule': ten,
                'Penalty balance': (abs(lp[2]) + abs(lp[3]))/2
                if spec['bal'] else 0,
                'Penalty out-of-plane orthotropy':
                (abs(lp[10]) + abs(lp[11]))/2 if spec['oopo'] else 0})
        if case['buckling']:
            mon.ev('buckling')
            mp = case['mp']
            for i, p in enumerate(multi.panels):
                t = p.lampam_target
                m, h = want_material(), mp['plies'][i]*MAT['ply_t']
                d = [m['U1'] + m['U2']*t[8] + m['U3']*t[9],
                     m['U4'] - m['U3']*t[9],
                     m['U1'] - m['U2']*t[8] + m['U3']*t[9],
                     m['U5'] - m['U3']*t[9]]
                c = dict(modes=10, lx=mp['lx'][i], ly=mp['ly'][i],
                         nx=mp['nx'][i], ny=mp['ny'][i])
                extra[i]['lambda buckling'] = c23.critical(
                    [v*h**3/12 for v in d], c)[0]
        compare(mon, pairs(book, 'Constraints'), want_constraints(spec),
                'constraints', info)
        compare(mon, pairs(book, 'Materials'), want_material(), 'materials',
                info)
        compare(mon, pairs(book, 'Objective function'), want_objective(case),
                'objective', info)
        want = want_multipanel(case, case['mat'])
        want['Penalty spacing'] = spacing(case, strip)
        mon.ev('spacing_penalised', want['Penalty spacing'] > 0)
        compare(mon, pairs(book, 'Multipanel'), want, 'multipanel', info)
        check_panels(case, mon, book, case['mat'], info, extra)
        if len(set(case['mp']['plies'])) > 1:
            mon.sig(case['mp'], spec)
        reread(case, mon, book, folder, info)


class Captured(Exception):
    pass


def execute(script, folder, redirect):
    """runs a script of the repository in a scratch folder; -> arguments of
    the optimiser if it calls it"""
    import sys
    import pandas as pd
    import src.BELLA.optimiser as opt
    caught = {}

    def stand_in(*args, **kwargs):
        names = ('multipanel', 'parameters', 'obj_func_param', 'constraints',
                 'filename', 'mat', 'filename_initial_pdls')
        caught.update(zip(names, args))
        caught.update(kwargs)
        raise Captured
    read, real, here = pd.read_excel, opt.BELLA_optimiser, os.getcwd()
    path = list(sys.path)
    pd.read_excel = lambda f, *a, **k: read(redirect(f), *a, **k)
    opt.BELLA_optimiser = stand_in
    os.chdir(folder)
    try:
        with open(os.path.join(boot.REPO, script), encoding='utf8') as f:
            code = compile(f.read(), os.path.join(boot.REPO, script), 'exec')
        exec(code, {'__name__': '__main__'})
    except Captured:
        pass
    finally:
        os.chdir(here)
        pd.read_excel, opt.BELLA_optimiser = read, real
        sys.path[:] = path
    return caught


def reread(case, mon, book, folder, info):
    """the scripts that run the optimiser from a workbook understand it as it
    was meant"""
    script = SCRIPTS[case['script']]
    if not os.path.exists(os.path.join(boot.REPO, script)):
        return
    got = execute(script, folder, lambda f: book)
    mon.ev('reread')
    spec = case['spec']
    cons, multi, par, obj, mat = e2e.build(case)
    multi.filter_target_lampams(cons, obj)
    multi.filter_lampam_weightings(cons, obj)
    new = got['constraints']
    for k, v in vars(cons).items():
        if k in ('n_contig_c', 'delta_angle', 'n_covering') or \
                not isinstance(v, (bool, int, float)):
            continue
        if 'Abdalla' in k and not spec['rule_10_percent']:
            continue
        mon.check(same(getattr(new, k, None), v), 'reread-constraints:' + k,
                  lambda: '%s %s instead of %s; %s' % (
                      k, getattr(new, k, None), v, info()))
    mon.check(list(new.set_of_angles) == list(cons.set_of_angles),
              'reread-orientations', info)
    if spec['diso']:
        mon.check(new.delta_angle == cons.delta_angle, 'reread-delta', info)
    if c21.protected(spec):
        mon.check(new.n_covering == cons.n_covering, 'reread-covering', info)
    for k in ('coeff_diso', 'coeff_contig', 'coeff_10', 'coeff_oopo',
              'coeff_spacing'):
        mon.check(same(getattr(got['obj_func_param'], k), getattr(obj, k)),
                  'reread-objective:' + k, info)
    for k in ('E11', 'E22', 'G12', 'nu12', 'density_area', 'ply_t'):
        mon.check(same(getattr(got['mat'], k), MAT[k]),
                  'reread-material:' + k, info)
    other = got['multipanel']
    other.filter_target_lampams(new, got['obj_func_param'])
    other.filter_lampam_weightings(new, got['obj_func_param'])
    if not mon.check(other.n_panels == multi.n_panels, 'reread-panels', info):
        return
    for a, b in zip(other.panels, multi.panels):
        mon.check(a.ID == b.ID and a.n_plies == b.n_plies and
                  same(a.weighting, b.weighting) and
                  np.allclose(a.lampam_target, b.lampam_target) and
                  np.allclose(a.lampam_weightings, b.lampam_weightings),
                  'reread-panel', info)
    mon.check(np.array_equal(other.boundaries, multi.boundaries),
              'reread-boundaries', info)


# ------------------------------------------------- initial ply-drop layouts
def make_pdls(rng, tier):
    while True:
        case = e2e.case(rng, lo=8, hi=16, gap=5,
                        n_panels=int(rng.integers(1, 5)))
        spec, plies = case['spec'], mps.strip_plies(case['mp'])
        try:
            case['layouts'] = [mps.nested_rows(
                rng, plies, spec['sym'], protect=c21.protected(spec))
                for _ in range(int(rng.integers(1, 4)))]
        except ValueError:
            continue
        p = case['par']
        for k in ('global_node_limit', 'local_node_limit', 'global_node_limit2',
                  'global_node_limit3', 'local_node_limit2',
                  'local_node_limit3'):
            p[k] = min(p[k], 3)
        p['global_node_limit_final'] = 1
        case['harm'] = gen.choice(rng, [None, None, 'panel', 'ply', 'more'])
        case['style'] = gen.choice(rng, ['pos', 'local'])
        return case


def run_pdls(case, mon):
    import openpyxl
    from src.BELLA.pdl_ini import read_pdls_excel
    info = lambda: '%s %s' % (gen.tag(case['spec']), {
        k: v for k, v in case.items() if k != 'spec'})
    pdls = [[e2e.lay(r) for r in mps.to_pdl(rows, case['style'])]
            for rows in case['layouts']]
    sheets = [[list(r) for r in p] for p in pdls]
    if case['harm'] == 'panel':
        sheets[-1] = sheets[-1] + [sheets[-1][-1]]
    if case['harm'] == 'ply':
        r = sheets[-1][0]
        r[next(i for i, v in enumerate(r) if v != -1)] = -1
    if case['harm'] == 'more':
        sheets[-1] = [r + [99] for r in sheets[-1]]
    with e2e.scratch() as folder:
        given = os.path.join(folder, 'layouts.xlsx')
        wb = openpyxl.Workbook()
        wb.active.title = 'notes'
        for i in range(len(sheets), 0, -1):
            ws = wb.create_sheet('pdl%d' % i)
            for r in sheets[i - 1]:
                ws.append(r)
        wb.save(given)
        read = read_pdls_excel(given)
        mon.ev('layouts_read')
        mon.check([[e2e.lay(r) for r in p] for p in read] == sheets,
                  'layouts-misread', info)
        try:
            res, calls, layouts, book, parts = e2e.optimise(
                case, folder, pdl_file=given)
        except Exception as e:
            if case['harm'] and 'wrong number' in str(e):
                mon.ev('layouts_refused')
                return
            raise
        if not mon.check(not case['harm'], 'wrong-layout-accepted', info):
            return
        mon.ev('layouts_used')
        if isinstance(res, str):
            return
        mon.check([c['pdl'] for c in calls if c['pdl'] not in pdls] == [],
                  'other-layouts-used', info)
        check_book(case, mon, res, layouts, book, parts)


# ------------------------------------- results given by another optimiser
def make_only(rng, tier):
    case = make_setup(rng, tier, only=True)
    case['load'] = bool(case['mat'] and rng.random() < .7)
    if not case['load']:
        case['mp'].update(nx=[0.]*len(case['mp']['plies']),
                          ny=[0.]*len(case['mp']['plies']))
    return case


def run_only(case, mon):
    from src.BELLA.results import BELLA_Results, BELLA_ResultsOnePdl
    from src.BELLA.save_result import save_result_BELLAs
    spec, mp = case['spec'], case['mp']
    cons, multi, par, obj, mat = e2e.build(case)
    multi.filter_target_lampams(cons, obj)
    multi.filter_lampam_weightings(cons, obj)
    strip, sst = table_of(case)
    sss = [[a for a in s if a != -1] for s in sst]
    info = lambda: '%s %s' % (gen.tag(spec), {
        k: v for k, v in case.items() if k != 'spec'})
    one = BELLA_ResultsOnePdl()
    one.ss = [np.array(s) for s in sss]
    one.sst = np.array(sst)
    one.lampam = np.array([oracle.lampam(s) for s in sss])
    one.penalty_diso = one.penalty_contig = one.penalty_10 = \
        one.penalty_bal_ipo = one.penalty_oopo = np.zeros(len(sss))
    one.n_diso = one.n_contig = np.zeros(len(sss))
    one.penalty_spacing = spacing(case, strip)
    res = BELLA_Results(cons, multi)
    res.update(0, one)
    res.lampam, res.sst, res.ss = one.lampam, one.sst, one.ss
    with e2e.scratch() as folder:
        book = os.path.join(folder, 'best.xlsx')
        save_result_BELLAs(book, multi, cons, None, obj, None, res, mat,
                           only_best=True)
        got = tables(book, 'Best Result')
        if mon.check(len(got) == 1, 'best-table', info):
            mon.ev('only_best')
            mon.ev('buckling', case['load'])
            check_rows(case, mon, got[0], sss, sst, case['mat'], case['load'],
                       info)
            compare(mon, got[0][0], {'penalty_spacing': one.penalty_spacing},
                    'results', info)


# -------------------------------------------- set-ups of single laminates
def make_laminate(rng, tier):
    spec = gen.con_spec(rng)
    spec['ipo'] = bool(rng.random() < .5)
    spec['n_contig'] = int(rng.integers(2, 6))
    steps = int(rng.integers(1, 4))
    low = int(rng.integers(6, 10))
    return {'spec': spec, 'other': gen.con_spec(rng),
            'compared': bool(rng.random() < .6),
            'ints': {k: int(rng.integers(1, 40)) for k in c25.LAY_INT
                     if k not in ('n_outer_step', 'group_size_min')},
            'steps': steps, 'low': low,
            'high': [low + int(v) for v in rng.integers(0, 6, steps)],
            'switch': {k: bool(rng.random() < .5) for k in
                       ('repair_membrane_switch', 'repair_flexural_switch')},
            'penalty': int(rng.integers(3)), 'pen_bal': int(rng.integers(3)),
            'coeff': [float(round(v, 3)) for v in rng.uniform(0, 3, 3)],
            'p_A': int(gen.choice(rng, [0, 30, 100])),
            'first': [float(round(v, 3)) for v in rng.uniform(.1, 1, 12)],
            'opt': [1, 1] + [int(v) for v in rng.integers(0, 2, 10)],
            'type': int(rng.integers(1, 3))}


def run_laminate(case, mon):
    from src.LAYLA_V02.save_set_up import (
        save_materials, save_constraints_LAYLA, save_parameters_LAYLA_V02)
    from src.LAYLA_V02.materials import Material
    from src.LAYLA_V02.parameters import Parameters
    spec, other = case['spec'], case['other']
    cons, nots = gen.layla(spec), gen.layla(other)
    ten, ipo = spec['rule_10_percent'], spec['ipo'] or spec['bal']
    opt = dict(case['ints'], **case['switch'], n_outer_step=case['steps'],
               group_size_min=case['low'], p_A=case['p_A'],
               coeff_10=case['coeff'][0], coeff_bal_ipo=case['coeff'][1],
               coeff_oopo=case['coeff'][2], type_obj_func=case['type'],
               penalty_10_pc_switch=ten and case['penalty'] == 1,
               penalty_10_lampam_switch=ten and case['penalty'] == 2,
               penalty_bal_switch=spec['bal'] and case['pen_bal'] == 1,
               penalty_ipo_switch=ipo and case['pen_bal'] == 2)
    par = Parameters(cons, group_size_max=np.array(case['high']),
                     first_level_sensitivities=np.array(case['first']),
                     lampam_to_be_optimised=np.array(case['opt']), **opt)
    info = lambda: '%s %s' % (gen.tag(spec), case)
    mon.sig(case)
    mon.ev('laminate_setup')

    def numbers(rule):
        """LAYLA keeps all the minima, and the +-45 total is at least the sum
        of the two"""
        pct = {k: rule.get(k, 0) if rule['rule_10_percent'] else 0 for k in
               ('percent_0', 'percent_45', 'percent_90', 'percent_135',
                'percent_45_135')}
        return [('percent_0', pct['percent_0']),
                ('percent_45', pct['percent_45']),
                ('percent_90', pct['percent_90']),
                ('percent_-45', pct['percent_135']),
                ('percent_+-45', max(pct['percent_45_135'],
                                     pct['percent_45'] + pct['percent_135']))]
    want = {'symmetry': spec['sym'], 'balance': spec['bal'],
            'in-plane orthotropy': ipo, 'out-of-plane orthotropy': spec['oopo'],
            'damage tolerance': spec['dam_tol'], '10% rule': ten,
            'diso': spec['diso'], 'contig': spec['contig'],
            'fibre orientations': ' '.join(
                str(a) for a in sorted(set(spec['set_of_angles'])))}
    if spec['dam_tol'] and hasattr(cons, 'dam_tol_rule'):
        want['dam_tol_rule'] = spec['dam_tol_rule']
    if spec['diso']:
        want['delta_angle'] = spec['delta_angle']
    if spec['contig']:
        want['n_contig'] = spec['n_contig']
    want.update(numbers(spec))
    absent = []
    if case['compared']:
        mon.ev('laminate_compared')
        for k, on, more in (
                ('No diso !', other['diso'],
                 [('delta_angle (no)', other['delta_angle'])]),
                ('No contig !', other['contig'],
                 [('n_contig (no)', other['n_contig'])]),
                ('No 10% rule !', other['rule_10_percent'],
                 [(k + ' (no)', v) for k, v in numbers(other)])):
            if on:
                want.update([(k, True)] + more)
            else:
                absent += [k] + [m for m, _ in more]
    else:
        absent = ['No diso !', 'No contig !', 'No 10% rule !']
    if not ten:
        opt['coeff_10'] = 0
    if not ipo:
        opt['coeff_bal_ipo'] = 0
    if not spec['oopo']:
        opt['coeff_oopo'] = 0
    names = {'maximum number of iterations': 'n_outer_step',
             'penalty for the 10% rule (ply counts)': 'penalty_10_pc_switch',
             'penalty for the 10% rule (lampam)': 'penalty_10_lampam_switch',
             'penalty for balance': 'penalty_bal_switch',
             'penalty for in-plane orthotropy': 'penalty_ipo_switch',
             'coeff for in-plane orthotropy/balance penalty': 'coeff_bal_ipo',
             'coeff for out-of plane orthotropy penalty': 'coeff_oopo',
             'coeff for the 10% rule penalty': 'coeff_10',
             'minimum group size': 'group_size_min'}
    names.update({k: k for k in list(case['ints']) + list(case['switch'])})
    settings = {k: opt[v] for k, v in names.items()}
    settings.update({
        'type of objective function': 'Norm %d' % case['type'],
        'maximum group size': ' '.join(str(v) for v in case['high']),
        'p_A': case['p_A']})
    for i in range(12):
        settings['first_level_sensitivities[%d]' % (i + 1)] = case['first'][i]
        settings['lampam_to_be_optimised[%d]' % (i + 1)] = case['opt'][i]
    with e2e.scratch() as folder:
        book = os.path.join(folder, 'laminate.xlsx')
        save_constraints_LAYLA(book, cons, nots if case['compared'] else None)
        save_materials(book, Material(**MAT))
        save_parameters_LAYLA_V02(book, par)
        got = pairs(book, 'Constraints')
        compare(mon, got, want, 'laminate-rules', info)
        for k in absent:
            mon.check(k not in (got or {}), 'laminate-rule-not-waived',
                      lambda: k + info())
        compare(mon, pairs(book, 'Materials'), want_material(),
                'laminate-materials', info)
        compare(mon, pairs(book, 'Parameters'), settings,
                'laminate-parameters', info)


# ---------------------------------------------- scripts and data of the repository
def make_script(rng, tier):
    return {'script': gen.choice(rng, LIST)}


LIST = ['run_BELLA_from_input_file_SST_1.py',
        'run_BELLA_from_input_file_horseshoe.py',
        'FXI-results/format_restults_FXI_SST_1.py',
        'FXI-results/format_restults_FXI_horseshoe.py',
        'input-files/create_input_file_SST.py',
        'input-files/create_input_file_horseshoe.py',
        'input-files/create_input_file_horseshoe2.py']


def find(name):
    base = os.path.basename(str(name).replace('\\', '/'))
    hits = sorted(glob.glob(os.path.join(boot.REPO, '**', base),
                            recursive=True))
    return hits[0] if hits else name


def run_script(case, mon):
    script = case['script']
    if not os.path.exists(os.path.join(boot.REPO, script)):
        return
    used = []

    def redirect(f):
        used.append(find(f))
        return used[-1]
    with e2e.scratch() as folder:
        got = execute(script, folder, redirect)
        mon.ev('script')
        mon.sig(script)
        books = [os.path.join(folder, f) for f in os.listdir(folder)]
        if got:
            source = tables(used[0], 'Panels')[0]
            multi = got['multipanel']
            info = lambda: script
            mon.check(multi.n_panels == len(source), 'script-panels', info)
            for p, row in zip(multi.panels, source):
                mon.check(p.ID == row['Panel ID'] and
                          p.n_plies == row['Number of plies'] and
                          same(p.weighting,
                               row['Weighting in MP objective funtion']) and
                          all(same(p.lampam_target[k],
                                   row['lampam_target[%d]' % (k + 1)])
                              for k in range(12)), 'script-panel', info)
            return
        mon.check(len(books) == 1, 'script-workbook', lambda: script)
        for b in books:
            script_book(script, b, mon)


def script_book(script, book, mon):
    """stacks written in the workbook against what is written about them"""
    info = lambda: script
    for t in tables(book, 'Best Result'):
        for row in t:
            ss = [int(float(v)) for v in row['stacking sequences'].split()]
            sst = [int(float(v)) for v in row[
                'stacking sequences with ply drops included'].split()]
            lp = oracle.lampam(ss)
            mon.check([a for a in sst if a != -1] == ss and
                      len(ss) == row['n_plies'], 'script-stacks', info)
            mon.check(all(same(row['lampam[%d]' % (k + 1)], lp[k])
                          for k in range(12)), 'script-lampam', info)
            mon.check(same(row['percentage_0_plies'],
                           ss.count(0)/len(ss)), 'script-percentages', info)
    for t in tables(book, 'Panels'):
        mon.check(len(t) == pairs(book, 'Multipanel')['Number of panels'],
                  'script-number-of-panels', info)
        for row in t:
            w = [row['lampam_weightings[%d]' % (k + 1)] for k in range(12)]
            mon.check(same(sum(w), 1), 'script-weightings', info)


CORPUS = [('scripts', {'script': s}) for s in LIST]
FAMILIES = [Family('optimised', make_book, run_book, 40, 600),
            Family('setup', make_setup, run_setup, 60, 900),
            Family('layouts', make_pdls, run_pdls, 40, 500),
            Family('only_best', make_only, run_only, 40, 600),
            Family('laminates', make_laminate, run_laminate, 60, 900),
            Family('scripts', make_script, run_script, 1, 2)]
