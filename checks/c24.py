"""C24 lamina properties"""
import math
import numpy as np
from vlib import gen
from vlib.core import Family

ID = 'C24'
RULE = ('random lamina properties, valid and one edit from valid (wrong type, '
        'zero, negative), for both optimisers. Non-trivial: all')
REQUIRED = ['accepted', 'refused', 'density_default', 'density_area',
            'density_volume', 'both_densities', 'rotated']

KEYS = ('E11', 'E22', 'nu12', 'G12', 'density_volume', 'density_area', 'ply_t')


def make(rng, tier):
    c = {'E11': float(rng.uniform(20e9, 300e9)),
         'E22': float(rng.uniform(1e9, 20e9)),
         'G12': float(rng.uniform(1e9, 10e9)),
         'nu12': float(rng.uniform(0, .45)),
         'ply_t': float(rng.uniform(5e-5, 1e-3)),
         'density_area': 0., 'density_volume': 0.}
    r = int(rng.integers(4))
    if r & 1:
        c['density_area'] = float(rng.uniform(50, 900))
    if r & 2:
        c['density_volume'] = float(rng.uniform(5e5, 3e6))
    if rng.random() < .15:          # stiffer across the fibres
        c['E22'] = c['E11']*float(rng.uniform(1, 2.5))
    bad = None
    if rng.random() < .5:
        k = gen.choice(rng, KEYS)
        v = gen.choice(rng, ['text', 0., -1., -1e9, [1.]])
        if k == 'nu12' and not isinstance(v, (str, list)):
            v = 'text'
        c[k] = v
        if isinstance(v, (str, list)):
            bad = k
        elif v < 0:
            bad = k
        elif k in ('E11', 'E22', 'G12', 'ply_t'):
            bad = k
    if rng.random() < .2 and bad is None:
        for k in ('E11', 'E22', 'G12'):
            c[k] = int(c[k])
    return {'c': c, 'bad': bad, 'lay': bool(rng.random() < .5)}


def run(case, mon):
    if case['lay']:
        from src.LAYLA_V02.materials import Material
    else:
        from src.BELLA.materials import Material
    c = case['c']
    mon.sig(case)
    try:
        mat = Material(**c)
        refused = False
    except Exception as exc:                   # noqa: BLE001
        if type(exc).__name__ != 'MaterialDefinitionError':
            raise
        refused = True
    mon.check(refused == (case['bad'] is not None), 'lamina-refused',
              lambda: '%s refused %s' % (case, refused))
    if refused or case['bad'] is not None:
        mon.ev('refused')
        return
    mon.ev('accepted')
    near = lambda a, b, s=None: abs(a - b) <= 1e-9*max(abs(b), s or 0)
    info = lambda: '%s' % case
    for k in ('E11', 'E22', 'G12', 'nu12', 'ply_t'):
        mon.check(getattr(mat, k) == c[k], 'property-kept', info)
    # densities
    da, dv, t = c['density_area'], c['density_volume'], c['ply_t']
    if da and dv:
        mon.ev('both_densities')
        want = (da, dv)
    elif da:
        mon.ev('density_area')
        want = (da, da/t)
    elif dv:
        mon.ev('density_volume')
        want = (dv*t, dv)
    else:
        mon.ev('density_default')
        want = (300.5, 300.5/t)
    mon.check(near(mat.density_area, want[0]) and
              near(mat.density_volume, want[1]), 'densities',
              lambda: '%s: %s %s expected %s' % (
                  case, mat.density_area, mat.density_volume, want))
    # reduced stiffnesses
    nu21 = c['nu12']*c['E22']/c['E11']
    den = 1 - c['nu12']*nu21
    q11, q22 = c['E11']/den, c['E22']/den
    q12, q66 = c['nu12']*c['E22']/den, c['G12']
    mon.check(near(mat.nu21, nu21) and near(mat.Q11, q11) and
              near(mat.Q22, q22) and near(mat.Q12, q12) and
              near(mat.Q66, q66), 'reduced-stiffnesses', info)
    # the invariants give the stiffnesses of a rotated lamina
    for a in (0, 23, 45, 67, 90, -30):
        m, s = math.cos(math.radians(a)), math.sin(math.radians(a))
        c2, c4 = math.cos(2*math.radians(a)), math.cos(4*math.radians(a))
        b = (q11*m**4 + 2*(q12 + 2*q66)*m*m*s*s + q22*s**4,
             q11*s**4 + 2*(q12 + 2*q66)*m*m*s*s + q22*m**4,
             (q11 + q22 - 4*q66)*m*m*s*s + q12*(s**4 + m**4),
             (q11 + q22 - 2*q12 - 2*q66)*m*m*s*s + q66*(s**4 + m**4))
        g = (mat.U1 + mat.U2*c2 + mat.U3*c4, mat.U1 - mat.U2*c2 + mat.U3*c4,
             mat.U4 - mat.U3*c4, mat.U5 - mat.U3*c4)
        mon.ev('rotated')
        mon.check(all(near(x, y, q11) for x, y in zip(g, b)),
                  'material-invariants', lambda: '%s at %d' % (case, a))


FAMILIES = [Family('laminae', make, run, 4000, 80000)]
