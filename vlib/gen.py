"""Generators of angle sets, stacks and constraint specifications."""
import numpy as np

ANGLE_SETS = (
    [0, 45, 90, -45],
    [0, 45, 90, -45],
    [0, 30, -30, 45, -45, 60, -60, 90],
    [0, 15, -15, 30, -30, 45, -45, 60, -60, 75, -75, 90],
    [0, 20, -20, 45, -45, 70, -70, 90],
    [0, 45, -45, 90, 10, -10],
)


def choice(rng, seq):
    return seq[int(rng.integers(len(seq)))]


def angle_set(rng):
    if rng.random() < .12:
        out = [0, 45, 90, -45]
        for _ in range(int(rng.integers(1, 4))):
            a = int(rng.integers(2, 90))    # -1 marks dropped plies
            if a not in out:
                out += [a, -a]
        return [out[i] for i in rng.permutation(len(out))]
    return list(choice(rng, ANGLE_SETS))


def delta(rng):
    if rng.random() < .12:
        return int(rng.integers(20, 91))
    return int(choice(rng, [45, 45, 45, 30, 60, 75]))


def size(rng, lo, hi, far=250):
    """ply count, now and then much beyond the usual range"""
    if rng.random() < .04:
        return int(rng.integers(hi, far + 1))
    return int(rng.integers(lo, hi + 1))


def raw_stack(rng, angles, n):
    """random stack of one of several textures"""
    kind = int(rng.integers(4))
    if kind == 0:                                   # uniform
        return [int(choice(rng, angles)) for _ in range(n)]
    if kind == 1:                                   # long runs
        out = []
        while len(out) < n:
            out += [int(choice(rng, angles))]*int(rng.integers(1, 9))
        return out[:n]
    if kind == 2:                                   # few angles
        few = [choice(rng, angles) for _ in range(2)]
        return [int(choice(rng, few)) for _ in range(n)]
    base = [int(choice(rng, angles)) for _ in range(max(1, n//3))]
    return (base*4)[:n] if len(base)*4 >= n else (base*(n//len(base) + 1))[:n]


def smooth_stack(rng, angles, n, delta, n_contig):
    """random walk respecting disorientation and contiguity (almost always)"""
    from vlib.oracle import ang_gap
    out = [int(choice(rng, angles))]
    while len(out) < n:
        cand = [a for a in angles if ang_gap(a, out[-1]) <= delta
                and not (len(out) >= n_contig
                         and all(b == a for b in out[-n_contig:]))]
        out.append(int(choice(rng, cand or angles)))
    return out


def mutate(rng, ss, angles, k=1):
    out = list(ss)
    for _ in range(k):
        out[int(rng.integers(len(out)))] = int(choice(rng, angles))
    return out


def mirror(half, mid=None):
    return list(half) + ([mid] if mid is not None else []) + list(half)[::-1]


def con_spec(rng, angles=None, sym=None, **force):
    """keyword arguments of a BELLA constraint set"""
    angles = angles or angle_set(rng)
    b = lambda p=0.5: bool(rng.random() < p)
    spec = dict(set_of_angles=angles, sym=b() if sym is None else sym)
    spec['bal'] = b()
    spec['oopo'] = False
    spec['dam_tol'] = b()
    spec['dam_tol_rule'] = int(rng.integers(1, 4))
    spec['diso'] = b(0.6)
    spec['delta_angle'] = delta(rng)
    spec['contig'] = b(0.6)
    spec['n_contig'] = int(rng.integers(2, 7))
    spec['rule_10_percent'] = b(0.6)
    spec.update(pct_spec(rng))
    spec.update(force)
    return spec


def pct_spec(rng):
    k = int(rng.integers(5))
    if k == 0:
        return dict(percent_0=10, percent_45=10, percent_90=10,
                    percent_135=10, percent_45_135=0)
    if k == 1:
        return dict(percent_0=10, percent_45=0, percent_90=10,
                    percent_135=0, percent_45_135=10)
    if k == 2:
        return dict(percent_0=10, percent_45=0, percent_90=10,
                    percent_135=0, percent_45_135=20)
    if k == 3:
        return dict(percent_0=int(rng.integers(0, 16)),
                    percent_45=int(rng.integers(0, 16)),
                    percent_90=int(rng.integers(0, 16)),
                    percent_135=int(rng.integers(0, 16)),
                    percent_45_135=int(rng.integers(0, 31)))
    return dict(percent_0=int(rng.integers(0, 31)), percent_45=0,
                percent_90=int(rng.integers(0, 31)), percent_135=0,
                percent_45_135=int(rng.integers(0, 41)))


def bella(spec):
    from src.BELLA.constraints import Constraints
    kw = dict(spec)
    if 'set_of_angles' in kw:
        kw['set_of_angles'] = np.array(kw['set_of_angles'])
    return Constraints(**kw)


LAYLA_KEYS = ('sym', 'bal', 'ipo', 'oopo', 'dam_tol', 'rule_10_percent',
              'combine_45_135', 'percent_0', 'percent_45', 'percent_90',
              'percent_135', 'percent_45_135', 'diso', 'contig', 'n_contig',
              'delta_angle', 'dam_tol_rule', 'set_of_angles')


def layla(spec):
    from src.LAYLA_V02.constraints import Constraints
    kw = {k: v for k, v in spec.items() if k in LAYLA_KEYS}
    if 'set_of_angles' in kw:
        kw['set_of_angles'] = np.array(kw['set_of_angles'])
    return Constraints(**kw)


def tag(spec):
    """short description of the active rules"""
    out = ['S' if spec.get('sym') else 'U']
    if spec.get('bal'):
        out.append('bal')
    if spec.get('dam_tol'):
        out.append('dt%d' % spec['dam_tol_rule'])
    if spec.get('diso'):
        out.append('diso%d' % spec['delta_angle'])
    if spec.get('contig'):
        out.append('contig%d' % spec['n_contig'])
    if spec.get('rule_10_percent'):
        out.append('abd' if spec.get('rule_10_Abdalla') else 'ten')
    return '/'.join(out)
