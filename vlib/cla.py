"""Stand-in for the package ``src.CLA`` that noemiefedon/BELLA imports but does
not ship (classical-lamination-theory helpers of the author's other projects).

It is part of the trusted base of the checks: lamination parameters computed
straight from their textbook definition.  ``install()`` only fills the hole; if
a real ``src/CLA`` ever appears in the tree under test, that one is used.

Order of the twelve lamination parameters: A1..A4, B1..B4, D1..D4 with
(cos 2t, cos 4t, sin 2t, sin 4t) in each block.
"""
import importlib.util
import sys
import types
import numpy as np


def _trig(angles):
    t = np.deg2rad(np.asarray(angles, float))
    return np.stack((np.cos(2*t), np.cos(4*t), np.sin(2*t), np.sin(4*t)), 1)


def lampam_of_stack(stack):
    """12 lamination parameters of one stack (array of angles in degrees)"""
    stack = np.asarray(stack)
    n = stack.size
    z = np.linspace(-1., 1., n + 1)
    trig = _trig(stack)
    out = np.empty((12,), float)
    out[0:4] = 0.5*np.matmul(z[1:] - z[:-1], trig)
    out[4:8] = 0.5*np.matmul(z[1:]**2 - z[:-1]**2, trig)
    out[8:12] = 0.5*np.matmul(z[1:]**3 - z[:-1]**3, trig)
    return out


def calc_lampam(ss, constraints=None):
    if isinstance(ss, (list, tuple)):
        return np.array([lampam_of_stack(s) for s in ss]).reshape((-1, 12))
    ss = np.asarray(ss)
    if ss.ndim == 2:
        return np.array([lampam_of_stack(s) for s in ss]).reshape((-1, 12))
    return lampam_of_stack(ss)


def calc_lampam_2(ss):
    return calc_lampam(ss)


def calc_lampamA(ss, constraints=None):
    return calc_lampam(ss)[..., 0:4]


def calc_lampamD(ss, constraints=None):
    return calc_lampam(ss)[..., 8:12]


def calc_delta_lampam(*args, **kwargs):
    raise NotImplementedError('src.CLA stand-in: not used at this commit')


def calc_delta_lampam_mp_3(*args, **kwargs):
    raise NotImplementedError('src.CLA stand-in: not used at this commit')


def calc_lampam_from_delta_lp_matrix(stack, constraints, delta_lampams):
    lampam = np.zeros((12,), float)
    for ind_ply in range(delta_lampams.shape[0]):
        lampam += delta_lampams[
            ind_ply, constraints.ind_angles_dict[stack[ind_ply]]]
    return lampam


def A_from_lampam(lampam, mat):
    return _stiff(lampam[0:4], mat)


def B_from_lampam(lampam, mat):
    out = _stiff(lampam[4:8], mat)
    return out - _stiff(np.zeros(4), mat)


def D_from_lampam(lampam, mat):
    return _stiff(lampam[8:12], mat)


def _stiff(lp, mat):
    """stiffness normalised by the (power of) thickness"""
    c2, c4, s2, s4 = lp
    u1, u2, u3, u4, u5 = mat.U1, mat.U2, mat.U3, mat.U4, mat.U5
    m11 = u1 + u2*c2 + u3*c4
    m22 = u1 - u2*c2 + u3*c4
    m12 = u4 - u3*c4
    m66 = u5 - u3*c4
    m16 = u2*s2/2 + u3*s4
    m26 = u2*s2/2 - u3*s4
    return np.array([[m11, m12, m16], [m12, m22, m26], [m16, m26, m66]])


def install():
    """puts the stand-in in sys.modules unless a real src.CLA exists"""
    try:
        if importlib.util.find_spec('src.CLA.lampam_functions') is not None:
            return False
    except (ImportError, ValueError, AttributeError):
        pass
    import src
    pkg = types.ModuleType('src.CLA')
    pkg.__path__ = []
    subs = {
        'lampam_functions': (
            calc_lampam, calc_lampam_2, calc_delta_lampam,
            calc_delta_lampam_mp_3, calc_lampam_from_delta_lp_matrix),
        'lp_functions_2': (calc_lampamA, calc_lampamD),
        'ABD': (A_from_lampam, B_from_lampam, D_from_lampam)}
    sys.modules['src.CLA'] = pkg
    src.CLA = pkg
    for name, funcs in subs.items():
        mod = types.ModuleType('src.CLA.' + name)
        for func in funcs:
            setattr(mod, func.__name__, func)
        sys.modules['src.CLA.' + name] = mod
        setattr(pkg, name, mod)
    return True
