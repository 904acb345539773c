"""Runs the whole optimiser on a generated structure, in a scratch folder, and
records what goes through the multi-panel repair."""
import contextlib
import os
import shutil
import sys
import tempfile
import numpy as np
from vlib import boot, gen, mps, oracle


def case(rng, n_panels=None, lo=8, hi=22, gap=6, tiny=False):
    """the structure, rules, settings and material of one optimisation"""
    from checks import c21
    while True:
        spec = c21.spec_for(rng)
        sym = spec['sym']
        if rng.random() < .3:
            spec['rule_10_percent'] = False
        if spec['rule_10_percent'] and spec.get('rule_10_Abdalla'):
            lo, hi = max(lo, 12), max(hi, 16)   # enough plies to satisfy it
        mp = mps.mp_spec(rng, sym, lo=lo, hi=hi, max_gap=gap,
                         n_panels=n_panels or int(rng.integers(1, 6)),
                         allow_mid=False)
        if sym and rng.random() < .3:
            mp['plies'] = [p + 1 for p in mp['plies']]
        plies = mps.strip_plies(mp)
        # enough plies in the thinnest panel for the rules, and enough plies
        # that may be dropped
        if plies[0] - 2*c21.protected(spec) < 2:
            continue
        # each of them may be the reference panel: the 10% rule must be
        # compatible with the other rules
        if not all(feasible(spec, p) for p in plies):
            continue
        break
    targets, lpw = c21.aims(rng, spec, len(mp['plies']))
    if not sym and rng.random() < .4:
        for w in lpw:
            for k in range(4, 8):
                w[k] = float(gen.choice(rng, [0, 1, .3]))
    if rng.random() < .1:       # targets that can be reached, for early stops
        k = int(gen.choice(rng, [0, 0, 1]))
        for t, w in zip(targets, lpw):
            w[:] = [0.]*12
            w[k] = 1.
            t[:] = targets[0]
    # one target and one weighting per thickness
    first = {p: i for i, p in reversed(list(enumerate(mp['plies'])))}
    targets = [targets[first[p]] for p in mp['plies']]
    lpw = [lpw[first[p]] for p in mp['plies']]
    i = lambda a, b: int(rng.integers(a, b + 1))
    group = i(2, 5)
    big = 10**6
    return {
        'spec': spec, 'mp': mp, 'targets': targets, 'lpw': lpw,
        'ref': int(gen.choice(rng, [1000, 1000, 1, int(gen.choice(
            rng, plies))])),
        'par': dict(
            group_size_min=group, group_size_max=2*group + i(0, 4),
            global_node_limit=big if tiny else i(1, 12),
            local_node_limit=big if tiny else i(1, 8),
            local_node_limit_final=big if tiny else i(1, 3),
            global_node_limit_final=i(1, 5),
            global_node_limit2=i(1, 6), local_node_limit2=i(1, 6),
            global_node_limit3=i(1, 6), local_node_limit3=i(1, 6),
            n_ini_ply_drops=1 if tiny else i(1, 4) if rng.random() < .8
            else i(5, 8),
            p_A=int(gen.choice(rng, [100, 80, 50])),
            n_D1=i(2, 6), n_D2=i(2, 6), n_D3=i(1, 2),
            repair_membrane_switch=bool(rng.random() < .6),
            repair_flexural_switch=bool(rng.random() < .6),
            save_success_rate=bool(rng.random() < .4)),
        'obj': dict(coeff_diso=float(gen.choice(rng, [0, .1, 2])),
                    coeff_contig=float(gen.choice(rng, [0, .1])),
                    coeff_10=float(gen.choice(rng, [0, .1]))),
        'mat': bool(rng.random() < .5), 'seed': i(0, 10**6)}


def feasible(spec, n):
    from checks import c16
    if not spec['rule_10_percent'] or spec.get('rule_10_Abdalla'):
        return True
    req = c16.need(spec, n)
    return req[0] + req[1] + req[4] <= (n//2 if spec['sym'] else n)


def build(case):
    from src.BELLA.parameters import Parameters
    from src.BELLA.obj_function import ObjFunction
    from src.BELLA.materials import Material
    cons = gen.bella(case['spec'])
    multi = mps.build(case['mp'], cons, case['targets'], case['lpw'])
    par = Parameters(cons, n_plies_ref_panel=case['ref'],
                     time_limit_group_pdl=.02, time_limit_all_pdls=.6,
                     **case['par'])
    obj = ObjFunction(cons, **case['obj'])
    mat = Material(E11=130e9, E22=9e9, G12=4e9, nu12=.3, density_area=.2,
                   ply_t=2e-4) if case['mat'] else None
    return cons, multi, par, obj, mat


@contextlib.contextmanager
def scratch():
    folder = tempfile.mkdtemp(prefix='verif_bella_')
    try:
        yield folder
    finally:
        shutil.rmtree(folder, ignore_errors=True)


@contextlib.contextmanager
def tap(name, origin, record):
    """every module that imported the function calls the recorder instead"""
    mod = sys.modules.get(origin)
    orig = getattr(mod, name, None)
    if orig is None:
        yield False
        return
    def spy(*args, **kwargs):
        return record(orig, *args, **kwargs)
    held = [m for m in list(sys.modules.values())
            if getattr(m, name, None) is orig]
    try:
        for m in held:
            setattr(m, name, spy)
        yield True
    finally:
        for m in held:
            setattr(m, name, orig)


def refusal(e):
    """refusals of structures that cannot be designed with the settings"""
    text = str(e)
    if type(e).__name__ == 'PartitioningError':
        return 'partition'
    if 'No laminate design solution found' in text:
        return 'no_design'
    if 'beam search with no solutions' in text:
        return 'closed_search'
    return None


def lay(s):
    return [int(a) for a in s]


def table(sss, pdl):
    """stacking sequences laid out on a ply-drop layout"""
    out = []
    for ss, row in zip(sss, pdl):
        plies = iter(ss)
        out.append([next(plies) if k >= 0 else -1 for k in row])
    return out


def optimise(case, folder, parts=None, pdl_file=None, save=True):
    """-> results (or reason of the refusal), calls of the repair, layouts at
    the start, name of the workbook, definitions"""
    import random
    from src.BELLA.optimiser import BELLA_optimiser
    import src.RELAY.repair_mp
    import src.BELLA.pdl_ini
    parts = parts or build(case)
    cons, multi, par, obj, mat = parts
    calls, layouts = [], []

    def repair(orig, multipanel, reduced_ss, *args, **kwargs):
        entry = {'in': [lay(s) for s in reduced_ss], 'pdl': None}
        pdl = kwargs.get('reduced_pdl', args[3] if len(args) > 3 else None)
        if pdl is not None:
            entry['pdl'] = [lay(s) for s in pdl]
        out = orig(multipanel, reduced_ss, *args, **kwargs)
        fault = (case.get('faults') or {}).get(str(len(calls)))
        if fault and out[0] and len(out) == 5 and pdl is not None:
            # injected: this repair gives up, as it does on other designs
            out = (False, [np.array(s) for s in reduced_ss], np.array(table(
                entry['in'], entry['pdl'])), pdl, fault)
        entry['ok'], entry['step'] = bool(out[0]), int(out[4])
        entry['ss'] = [lay(s) for s in out[1]]
        entry['sst'] = [lay(s) for s in out[2]]
        calls.append(entry)
        return out

    def layout(orig, *args, **kwargs):
        out = orig(*args, **kwargs)
        layouts.extend([lay(s) for s in pdl] for pdl in out)
        return out

    idle = contextlib.ExitStack()
    if not save:            # nothing written in the workbook, much faster
        for name in ('append_df_to_excel', 'autofit_column_widths'):
            idle.enter_context(tap(name, 'src.divers.excel',
                                   lambda orig, *args, **kwargs: None))
    book = os.path.join(folder, 'result.xlsx')
    random.seed(case['seed'])
    np.random.seed(case['seed'] % 2**32)
    with idle, boot.virtual_clock(.002), \
            tap('repair_mp', 'src.RELAY.repair_mp', repair), \
            tap('create_initial_pdls', 'src.BELLA.pdl_ini', layout), \
            tap('read_pdls_excel', 'src.BELLA.pdl_ini', layout):
        try:
            res = BELLA_optimiser(multi, par, obj, cons, book, mat=mat,
                                  **({'filename_initial_pdls': pdl_file}
                                     if pdl_file else {}))
        except Exception as e:
            res = refusal(e)
            if res is None:
                raise
    return res, calls, layouts, book, parts


def weightings(case):
    """per panel: weightings of the lamination parameters, filtered by the
    rules and normalised"""
    spec, out = case['spec'], []
    for w in case['lpw']:
        w = np.array(w, float)
        if spec['sym']:
            w[4:8] = 0
        if set(spec['set_of_angles']) == {0, 45, -45, 90}:
            w[[3, 7, 11]] = 0
        if spec['bal']:
            w[2:4] = 0
        if spec.get('oopo'):        # penalised, as much as the others
            w[10:12] = 0
            mean = w[w != 0].mean() if any(w) else np.nan
            w[10] = mean*case['obj'].get('coeff_oopo', 1)
            if set(spec['set_of_angles']) != {0, 45, -45, 90}:
                w[11] = w[10]
        out.append(w/w.sum() if w.sum() else w*np.nan)
    return out


def panel_costs(case, sss):
    """distance to the targets, per panel of the structure"""
    return [float(sum(w*(oracle.lampam(ss) - np.array(t))**2))
            for ss, w, t in zip(sss, weightings(case), case['targets'])]


def penalties(case, ss):
    """disorientation, contiguity and 10% rule penalties of a laminate"""
    spec = case['spec']
    rules = oracle.Rules(spec)
    diso = contig = ten = 0.
    if spec['diso']:
        pairs = oracle.diso_pairs(ss, spec['delta_angle'])
        if rules.damtol in (2, 3):
            pairs = [i for i in pairs if i not in (0, len(ss) - 2)]
        diso = len(pairs)/len(ss)
    if spec['contig']:
        seen = ss[1:-1] if rules.damtol in (2, 3) else ss
        contig = len(oracle.contig_windows(seen, spec['n_contig']))/len(ss)
    if spec['rule_10_percent']:
        if spec.get('rule_10_Abdalla'):
            lp = oracle.lampam(ss)
            ten = oracle.abdalla_distance(lp[0], lp[1],
                                          spec['percent_Abdalla']/100)
        else:
            ten = oracle.ten_deficit(oracle.counts(ss), len(ss), rules.pct)
    return diso, contig, ten


def total_cost(case, sss):
    """objective of the structure, with the penalties"""
    spec, c = case['spec'], case['obj']
    out = 0.
    for ss, cost, w in zip(sss, panel_costs(case, sss),
                           case['mp']['weighting']):
        diso, contig, ten = penalties(case, ss)
        out += w*cost*(1 + c['coeff_diso']*diso)*(
            1 + c['coeff_contig']*contig)*(1 + c['coeff_10']*ten)
    return out
