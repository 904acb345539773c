"""C06 a lay-up is accepted iff it satisfies every active rule"""
import numpy as np
from vlib import gen, oracle as orc
from vlib.core import Family

ID = 'C06'
RULE = ('random sets of active rules x stacks grown towards satisfying all of '
        'them, then possibly changed by one ply or one swap. Non-trivial: '
        'accepted, or exactly one rule broken')
REQUIRED = ['accepted', 'rejected', 'only_damtol', 'only_bal', 'only_diso',
            'only_contig', 'only_ten', 'only_abdalla', 'no_rules',
            'checks_waived', 'wrong_size', 'orthotropic_unbalanced',
            'only_first_coupling', 'only_second_coupling']


def aim(rng, spec, n):
    """a stack that has a fair chance of satisfying the specification"""
    angles = spec['set_of_angles']
    k = spec['n_contig'] if spec['contig'] else 99
    d = spec['delta_angle'] if spec['diso'] else 180
    if spec['bal']:
        # multiset balanced, then ordered greedily
        pool = []
        while len(pool) < n:
            a = int(gen.choice(rng, angles))
            pool += [a] if a in (0, 90) or abs(a) == 90 else [a, -a]
    else:
        pool = [int(gen.choice(rng, angles)) for _ in range(n)]
    if spec['rule_10_percent']:
        pool = [0, 90, 45, -45]*(1 + n//10) + pool
        pool = pool[:max(n, 4)]
        if spec['bal'] and not orc.balanced(pool):
            pool = [a for a in pool if abs(a) in (0, 90, 45)]
            while pool.count(45) != pool.count(-45):
                pool.append(45 if pool.count(45) < pool.count(-45) else -45)
    rng.shuffle(pool)
    pool = [int(a) for a in pool]
    out = []
    if spec['dam_tol']:
        s = 45 if rng.random() < .5 else -45
        first = [s] if spec['dam_tol_rule'] == 1 else [s, -s]
        for a in first:
            if a in pool:
                pool.remove(a)
            out.append(a)
    while pool:
        ok = [a for a in pool if not out or (
            orc.ang_gap(a, out[-1]) <= d and orc.contig_ok(out[-k:] + [a], k))]
        a = ok[int(rng.integers(len(ok)))] if ok else pool[0]
        pool.remove(a)
        out.append(a)
    return out


def make(rng, tier):
    angles = gen.angle_set(rng)
    spec = gen.con_spec(rng, angles)
    if rng.random() < 0.3:       # one rule alone
        for k in ('bal', 'dam_tol', 'diso', 'contig', 'rule_10_percent'):
            spec[k] = False
        spec[gen.choice(rng, ('bal', 'dam_tol', 'diso', 'contig',
                              'rule_10_percent'))] = True
    if spec['rule_10_percent'] and rng.random() < 0.25:
        spec['rule_10_Abdalla'] = True
        spec['percent_Abdalla'] = int(gen.choice(rng, [5, 10, 15, 20]))
    n = gen.size(rng, 4, 24, 120)
    spec['sym'] = False
    half = aim(rng, spec, n)
    ss = half
    kind = int(rng.integers(4))
    if kind == 0:
        ss = gen.mirror(half)
    elif kind == 1 and abs(half[-1]) in (0, 90):
        ss = gen.mirror(half[:-1], half[-1])
    m = int(rng.integers(4))
    if m == 0:
        ss = gen.mutate(rng, ss, angles)
    elif m == 1:
        i, j = rng.integers(0, len(ss), 2)
        ss[i], ss[j] = ss[j], ss[i]
    return {'spec': spec, 'ss': [int(a) for a in ss]}


def accepted(ss, cons, **kw):
    from src.guidelines.one_stack import check_lay_up_rules
    try:
        out = check_lay_up_rules(np.array(ss, int), cons, **kw)
    except Exception as exc:      # the documented way to refuse
        if type(exc) is not Exception:
            raise
        return False, str(exc)
    return True, str(out)


MESSAGE = {'damtol': 'damage', 'bal': 'balance', 'diso': 'disorientation',
           'contig': 'contiguity', 'ten': '10%', 'abdalla': '10%'}


def run(case, mon):
    spec, ss = case['spec'], case['ss']
    cons = gen.bella(spec)
    bad = orc.Rules(spec).violated(ss)
    got, msg = accepted(ss, cons)
    if 'abdalla' in bad or spec.get('rule_10_Abdalla'):
        lp = orc.lampam(ss)
        if abs(orc.abdalla_margin(lp[0], lp[1],
                                  spec['percent_Abdalla']/100)) < 1e-8:
            return
    mon.ev('accepted' if got else 'rejected')
    if not any(spec.get(k) for k in ('bal', 'dam_tol', 'diso', 'contig',
                                     'rule_10_percent')):
        mon.ev('no_rules')
    if len(bad) == 1:
        mon.ev('only_' + bad[0])
    if len(bad) <= 1:
        mon.sig(tuple(ss), gen.tag(spec))
    which = bad[0] if len(bad) == 1 else ('several' if bad else 'none')
    mon.check(got == (not bad), 'verdict-broken-%s' % which,
              lambda: '%s, stack %s: broken %s, accepted %s (%s)' % (
                  spec, ss, bad, got, msg))
    if len(bad) == 1 and not got:
        mon.check(MESSAGE[bad[0]] in msg.lower(), 'wrong-reason-%s' % bad[0],
                  lambda: '%s, stack %s: broken %s, message %r' % (
                      spec, ss, bad, msg))
    if spec['bal'] and bad in ([], ['bal']):
        mon.ev('checks_waived')
        got, msg = accepted(ss, cons, no_ipo_check=True, no_bal_check=True)
        mon.check(got, 'waived-balance', lambda: '%s %s: %s' % (spec, ss, msg))
        if bad and not orc.in_plane_orthotropic(ss):
            got, msg = accepted(ss, cons, no_ipo_check=True)
            mon.check(not got, 'waived-ipo-only', lambda: '%s %s' % (spec, ss))
    if not bad:
        mon.ev('wrong_size')
        mon.check(accepted(ss, cons, n_plies=len(ss))[0], 'size-refused',
                  lambda: str(ss))
        mon.check(not accepted(ss, cons, n_plies=len(ss) + 1)[0],
                  'wrong-size-accepted', lambda: str(ss))
    mon.sample('%s %s -> %s' % (gen.tag(spec), ss, bad or 'accepted'))


# plies that add up to no in-plane coupling although they are not balanced, or
# to a single coupling term
BLOCKS = ([15, 75, -45], [-15, -75, 45], [45], [-45], [15, 75], [30, -60],
          [-30, 60], [0], [90], [45, -45], [30, -30], [75, -75])


def make_ipo(rng, tier):
    angles = [0, 15, -15, 30, -30, 45, -45, 60, -60, 75, -75, 90]
    few = [gen.choice(rng, BLOCKS) for _ in range(int(rng.integers(1, 4)))]
    ss = []
    for _ in range(int(rng.integers(1, 7))):
        ss += gen.choice(rng, few)
    ss = [int(a) for a in rng.permutation(ss)]
    if rng.random() < .2:
        ss = gen.mutate(rng, ss, angles)
    if rng.random() < .3:
        ss = gen.mirror(ss)
    return {'ss': ss, 'angles': angles, 'contig': bool(rng.random() < .2)}


def run_ipo(case, mon):
    """in-plane orthotropy asked for without balance (LAYLA)"""
    ss = case['ss']
    cons = gen.layla(dict(set_of_angles=case['angles'], ipo=True, bal=False,
                          contig=case['contig'], n_contig=3, sym=False))
    lp = orc.lampam(ss)
    first, second = abs(lp[2]) > 1e-9, abs(lp[3]) > 1e-9
    want = not first and not second and not (
        case['contig'] and not orc.contig_ok(ss, 3))
    mon.ev('only_first_coupling', first and not second)
    mon.ev('only_second_coupling', second and not first)
    mon.ev('orthotropic_unbalanced', want and not orc.balanced(ss))
    got, msg = accepted(ss, cons)
    mon.sig('ipo', tuple(ss))
    mon.check(got == want, 'verdict-orthotropy', lambda: '%s: %s (%s), '
              'lamination parameters %s' % (case, got, msg, lp))
    got, msg = accepted(ss, cons, no_ipo_check=True)
    mon.check(got or case['contig'], 'waived-orthotropy',
              lambda: '%s: %s' % (case, msg))


FAMILIES = [Family('lay-up', make, run, 16000, 250000),
            Family('orthotropy', make_ipo, run_ipo, 2000, 30000)]
