"""C23 buckling factors of simply-supported orthotropic plates"""
import math
import numpy as np
from vlib import gen
from vlib.core import Family

ID = 'C23'
RULE = ('random laminates, plate dimensions, loads and materials; the '
        'stiffnesses are integrated ply by ply by the oracle. Non-trivial: '
        'the critical mode is not (1, 1), or biaxial loads')
REQUIRED = ['from_stack', 'from_lampam', 'from_out_of_plane_lampam',
            'higher_mode', 'biaxial', 'negative_load', 'margin', 'one_mode',
            'scaling']


def make(rng, tier):
    n = int(rng.integers(2, 41))
    half = gen.raw_stack(rng, gen.angle_set(rng), max(1, n//2))
    ss = [int(v) for v in (gen.mirror(half) if rng.random() < .7 else half)]
    nx, ny = (float(round(v, 2)) for v in rng.uniform(0, 500, 2))
    r = rng.random()
    if r < .2:
        nx = 0.
    elif r < .4:
        ny = 0.
    if rng.random() < .3:
        nx, ny = -nx, -ny
    return {'ss': ss, 'nx': nx, 'ny': ny,
            'lx': float(round(rng.uniform(.05, 3), 3)),
            'ly': float(round(rng.uniform(.05, 3), 3)),
            'modes': int(gen.choice(rng, [1, 2, 5, 10])),
            'E11': float(round(rng.uniform(50e9, 250e9), -6)),
            'E22': float(round(rng.uniform(3e9, 20e9), -6)),
            'G12': float(round(rng.uniform(1e9, 9e9), -6)),
            'nu12': float(round(rng.uniform(.05, .45), 3)),
            't': float(round(rng.uniform(5e-5, 5e-4), 6)),
            'lay': bool(rng.random() < .3)}


def stiffness(ss, c):
    """D matrix integrated over the plies (classical lamination theory)"""
    nu21 = c['nu12']*c['E22']/c['E11']
    den = 1 - c['nu12']*nu21
    q11, q22 = c['E11']/den, c['E22']/den
    q12, q66 = c['nu12']*c['E22']/den, c['G12']
    n = len(ss)
    out = np.zeros(4)
    for i, a in enumerate(ss):
        z0, z1 = (i - n/2)*c['t'], (i + 1 - n/2)*c['t']
        m, s = math.cos(math.radians(a)), math.sin(math.radians(a))
        b11 = q11*m**4 + 2*(q12 + 2*q66)*m*m*s*s + q22*s**4
        b22 = q11*s**4 + 2*(q12 + 2*q66)*m*m*s*s + q22*m**4
        b12 = (q11 + q22 - 4*q66)*m*m*s*s + q12*(s**4 + m**4)
        b66 = (q11 + q22 - 2*q12 - 2*q66)*m*m*s*s + q66*(s**4 + m**4)
        out += np.array([b11, b12, b22, b66])*(z1**3 - z0**3)/3
    return out


def critical(d, c):
    best, mode = None, None
    for m in range(1, c['modes'] + 1):
        for n in range(1, c['modes'] + 1):
            a, b = (m/c['lx'])**2, (n/c['ly'])**2
            v = math.pi**2*(d[0]*a*a + 2*(d[1] + 2*d[3])*a*b + d[2]*b*b) \
                / (a*abs(c['nx']) + b*abs(c['ny']))
            if best is None or v < best:
                best, mode = v, (m, n)
    return best, mode


def run(case, mon):
    from src.buckling.buckling import (buckling_factor_ss, buckling_factor,
                                       buckling_margin)
    from src.CLA.lampam_functions import calc_lampam
    if case['lay']:
        from src.LAYLA_V02.materials import Material
    else:
        from src.BELLA.materials import Material
    if case['nx'] == 0 and case['ny'] == 0:
        return
    mat = Material(E11=case['E11'], E22=case['E22'], G12=case['G12'],
                   nu12=case['nu12'], ply_t=case['t'])
    ss = np.array(case['ss'])
    want, mode = critical(stiffness(case['ss'], case), case)
    kw = dict(N_x=case['nx'], N_y=case['ny'], length_x=case['lx'],
              length_y=case['ly'], n_modes=case['modes'])
    if mode != (1, 1):
        mon.ev('higher_mode')
    if case['nx'] and case['ny']:
        mon.ev('biaxial')
    if mode != (1, 1) or (case['nx'] and case['ny']):
        mon.sig(case)
    if case['nx'] < 0:
        mon.ev('negative_load')
    if case['modes'] == 1:
        mon.ev('one_mode')
    near = lambda a, b: abs(a - b) <= 1e-7*abs(b)
    got = float(buckling_factor_ss(ss, mat=mat, **kw))
    mon.ev('from_stack')
    info = lambda: '%s got %r expected %r' % (case, got, want)
    mon.check(near(got, want), 'buckling-of-stack', info)
    lam = calc_lampam(ss)
    got = float(buckling_factor(lam, mat, ss.size, **kw))
    mon.ev('from_lampam')
    mon.check(near(got, want), 'buckling-of-lamination-parameters', info)
    got = float(buckling_factor(lam[8:12], mat, ss.size, **kw))
    mon.ev('from_out_of_plane_lampam')
    mon.check(near(got, want), 'buckling-of-out-of-plane-parameters', info)
    mon.ev('margin')
    mon.check(near(buckling_margin(got) + 100, 100*got),
              'buckling-margin', info)
    # twice the loads, half the factor; more modes, never a larger factor
    mon.ev('scaling')
    kw2 = dict(kw, N_x=2*case['nx'], N_y=2*case['ny'])
    mon.check(near(2*float(buckling_factor(lam, mat, ss.size, **kw2)), want),
              'load-scaling', info)
    kw3 = dict(kw, n_modes=case['modes'] + 1)
    mon.check(float(buckling_factor(lam, mat, ss.size, **kw3))
              <= got*(1 + 1e-9), 'more-modes', info)


FAMILIES = [Family('plates', make, run, 1500, 40000)]
