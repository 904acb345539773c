"""Independent statements of the lay-up design rules (written from their
definitions, not from the code under test)."""
from fractions import Fraction
from itertools import groupby
import math
import numpy as np


def ang_gap(a, b):
    """smallest angle between two fibre directions (period 180 deg)"""
    d = abs(int(a) - int(b)) % 180
    return min(d, 180 - d)


def longest_run(ss):
    return max((len(list(g)) for _, g in groupby(list(ss))), default=0)


def contig_ok(ss, n_contig):
    return longest_run(ss) <= n_contig


def contig_windows(ss, n_contig):
    """start positions of windows of n_contig + 1 equal plies"""
    ss = [int(a) for a in ss]
    return [i for i in range(len(ss) - n_contig)
            if len(set(ss[i:i + n_contig + 1])) == 1]


def diso_pairs(ss, delta):
    """positions i such that plies i, i+1 are too disoriented"""
    ss = [int(a) for a in ss]
    return [i for i in range(len(ss) - 1) if ang_gap(ss[i], ss[i + 1]) > delta]


def diso_ok(ss, delta, two_ply_damtol=False):
    pairs = diso_pairs(ss, delta)
    if two_ply_damtol:
        # the interfaces inside the outer +-45 pairs are exempt
        pairs = [i for i in pairs if i not in (0, len(ss) - 2)]
    return not pairs


def balanced(ss):
    ss = [int(a) for a in ss]
    return all(ss.count(a) == ss.count(-a) for a in set(ss)
               if abs(a) not in (0, 90))


def damtol_ok(ss, rule):
    ss = [int(a) for a in ss]
    if rule == 1:
        return abs(ss[0]) == 45 and abs(ss[-1]) == 45
    four = [ss[0], ss[1], ss[-1], ss[-2]]
    if any(abs(a) != 45 for a in four):
        return False
    if rule == 2:
        return ss[0] == -ss[1] and ss[-1] == -ss[-2]
    return True


def counts(ss):
    out = {}
    for a in ss:
        out[int(a)] = out.get(int(a), 0) + 1
    return out


def ten_ok(cnt, n_total, pct, equality_45_135=False, equality_0_90=False):
    """pct: dict of minimum percentages (numbers out of 100) keyed 0, 45, 90,
    -45 and 'pm' (+45 and -45 together)"""
    f = {a: Fraction(cnt.get(a, 0)).limit_denominator(10**6)/n_total
         for a in (0, 45, 90, -45)}
    p = {k: Fraction(v).limit_denominator(10**9)/100 for k, v in pct.items()}
    if equality_0_90:
        if f[0] + f[90] < p[0] + p[90]:
            return False
    elif f[0] < p[0] or f[90] < p[90]:
        return False
    if equality_45_135:
        if f[45] + f[-45] < p[45] + p[-45]:
            return False
    elif f[45] < p[45] or f[-45] < p[-45]:
        return False
    return f[45] + f[-45] >= p['pm']


def ten_deficit(cnt, n_total, pct):
    f = {a: cnt.get(a, 0)/n_total for a in (0, 45, 90, -45)}
    return sum(max(0., pct[a]/100 - f[a]) for a in (0, 45, 90, -45)) \
        + max(0., pct['pm']/100 - f[45] - f[-45])


def abdalla_margin(lp1, lp2, p):
    """>= 0 inside the region of the LP form of the 10% rule (p: fraction)"""
    a = 1 - 4*p
    return min(a*a + a*lp2 - 2*lp1*lp1, a - lp2)


def abdalla_distance(lp1, lp2, p):
    """distance of (lp1, lp2) to {2 x^2/a - a <= y <= a}"""
    if abdalla_margin(lp1, lp2, p) >= 0:
        return 0.
    a = 1 - 4*p
    # parabola arc: minimise over x in [-a, a]; roots of the derivative
    # (x - lp1) + (2x^2/a - a - lp2) * 4x/a = 0
    coef = [8/a**2, 0., 1 - 4*(a + lp2)/a, -lp1]
    cand = [r.real for r in np.roots(coef)
            if abs(r.imag) < 1e-9 and -a <= r.real <= a] + [-a, a]
    best = min(math.hypot(x - lp1, 2*x*x/a - a - lp2) for x in cand)
    x = min(max(lp1, -a), a)
    return min(best, math.hypot(x - lp1, a - lp2))


def lampam(ss):
    """12 lamination parameters of a stack, from the definition"""
    n = len(ss)
    out = np.zeros(12)
    for k, a in enumerate(ss):
        t = math.radians(float(a))
        trig = (math.cos(2*t), math.cos(4*t), math.sin(2*t), math.sin(4*t))
        z0, z1 = -1 + 2*k/n, -1 + 2*(k + 1)/n
        for j in range(4):
            out[j] += 0.5*(z1 - z0)*trig[j]
            out[4 + j] += 0.5*(z1**2 - z0**2)*trig[j]
            out[8 + j] += 0.5*(z1**3 - z0**3)*trig[j]
    return out


def in_plane_orthotropic(ss):
    lp = lampam(ss)
    return abs(lp[2]) <= 1e-9 and abs(lp[3]) <= 1e-9


def pcts(con):
    """percentages (out of 100) asked of a Constraints object's definition"""
    return con['pct']


class Rules:
    """the lay-up rules requested by a constraint specification (a dict of
    keyword arguments), decided from the specification alone"""

    def __init__(self, spec):
        self.spec = spec
        self.damtol = spec.get('dam_tol_rule', 2) if spec.get('dam_tol') else 0
        self.pct = ten_spec(spec)

    def violated(self, ss, ipo=True):
        spec = self.spec
        out = []
        if self.damtol and not damtol_ok(ss, self.damtol):
            out.append('damtol')
        if spec.get('bal') and not balanced(ss):
            out.append('bal')
        if spec.get('diso') and not diso_ok(
                ss, spec['delta_angle'], self.damtol in (2, 3)):
            out.append('diso')
        if spec.get('contig') and not contig_ok(ss, spec['n_contig']):
            out.append('contig')
        if spec.get('rule_10_percent'):
            if spec.get('rule_10_Abdalla'):
                lp = lampam(ss)
                if abdalla_margin(lp[0], lp[1],
                                  spec['percent_Abdalla']/100) < -1e-9:
                    out.append('abdalla')
            elif not ten_ok(counts(ss), len(ss), self.pct):
                out.append('ten')
        return out


def ten_spec(spec, combine=True):
    """which minima apply: either the +-45 total or +45 and -45 separately"""
    if not spec.get('rule_10_percent') or spec.get('rule_10_Abdalla'):
        return {0: 0, 45: 0, 90: 0, -45: 0, 'pm': 0}
    p45, p135 = spec.get('percent_45', 0), spec.get('percent_135', 0)
    pm = spec.get('percent_45_135', 0)
    if max(p45, p135) > pm/2 + 1e-12:
        return {0: spec.get('percent_0', 0), 90: spec.get('percent_90', 0),
                45: p45, -45: p135, 'pm': 0}
    return {0: spec.get('percent_0', 0), 90: spec.get('percent_90', 0),
            45: 0, -45: 0, 'pm': pm}
