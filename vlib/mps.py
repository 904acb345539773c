"""Generators of multi-panel structures and ply-drop layouts."""
import numpy as np
from vlib import gen


def mp_spec(rng, sym, n_panels=None, lo=8, hi=40, max_gap=10, allow_mid=True,
            n_diff=None):
    """a connected multi-panel structure as JSON-able data"""
    k = n_panels or int(rng.integers(1, 8))
    base = int(rng.integers(lo, hi + 1))
    span = int(rng.integers(0, max_gap + 1))
    plies = [int(base + rng.integers(0, span + 1)) for _ in range(k)]
    if sym:
        # even panels may be thinner than odd ones, never thicker
        plies = [p - p % 2 for p in plies]
        if allow_mid and rng.random() < 0.35:
            cut = plies[int(rng.integers(k))]
            plies = [p + 1 if p >= cut else p for p in plies]
    ids = rng.permutation(np.arange(1, 3*k + 1))[:k]
    if rng.random() < .5:
        ids = np.arange(1, k + 1)
    if rng.random() < .1:
        # part numbers and the like
        ids = rng.permutation(np.arange(1, 5000, 7))[:k]
    ids = [int(i) for i in ids]
    edges = set()
    for i in range(1, k):
        edges.add((int(rng.integers(i)), i))
    for _ in range(int(rng.integers(0, k + 1))):
        i, j = int(rng.integers(k)), int(rng.integers(k))
        if i != j:
            edges.add((min(i, j), max(i, j)))
    if rng.random() < .5:
        # panels listed in any order, not each one next to an earlier one
        name = [int(i) for i in rng.permutation(k)]
        edges = {tuple(sorted((name[i], name[j]))) for i, j in edges}
    edges = sorted(edges)
    one_sided = bool(rng.random() < .5)
    neigh = {i: [] for i in range(k)}
    for i, j in edges:
        if one_sided and rng.random() < .5:
            neigh[i].append(j) if rng.random() < .5 else neigh[j].append(i)
        else:
            neigh[i].append(j)
            neigh[j].append(i)
    weights = None
    if rng.random() < .7:
        weights = []
        for i, j in edges:
            if rng.random() < .5:
                i, j = j, i
            weights.append([i, j, 0. if rng.random() < .03 else
                            float(rng.integers(1, 50))/4])
    return {'plies': plies, 'ids': ids, 'edges': [list(e) for e in edges],
            'neigh': [neigh[i] for i in range(k)], 'bweights': weights,
            'weighting': [float(rng.integers(1, 20))/4 for _ in range(k)],
            'lx': [float(rng.integers(1, 9)) for _ in range(k)],
            'ly': [float(rng.integers(1, 9)) for _ in range(k)],
            'nx': [float(rng.integers(1, 99)) for _ in range(k)],
            'ny': [float(rng.integers(1, 99)) for _ in range(k)]}


def build(spec, cons, targets=None, lpw=None):
    from src.BELLA.panels import Panel
    from src.BELLA.multipanels import MultiPanel
    ids = spec['ids']
    panels = []
    for i, n in enumerate(spec['plies']):
        kw = {}
        if targets is not None:
            kw['lampam_target'] = np.array(targets[i], float)
        if lpw is not None:
            kw['lampam_weightings'] = np.array(
                lpw[i] if np.ndim(lpw) == 2 else lpw, float)
        panels.append(Panel(
            ID=ids[i], constraints=cons, n_plies=int(n),
            neighbour_panels=[ids[j] for j in spec['neigh'][i]],
            weighting=spec['weighting'][i], length_x=spec['lx'][i],
            area=spec['area'][i] if 'area' in spec else 0,
            length_y=spec['ly'][i], N_x=spec['nx'][i], N_y=spec['ny'][i],
            **kw))
    bw = None
    if spec['bweights'] is not None:
        bw = {(ids[i], ids[j]): w for i, j, w in spec['bweights']}
    return MultiPanel(panels, bw)


def strip_plies(spec):
    return sorted(set(spec['plies']))


def nested_rows(rng, plies, sym, clustered=None, protect=0):
    """kept-ply masks of a blending strip (thickest last): thinner panels keep a
    subset of the plies of thicker ones. Rows are lists of 0/1."""
    n = plies[-1]
    kept = [1]*n
    rows = [list(kept)]
    clustered = rng.random() < .5 if clustered is None else clustered
    for p, q in zip(plies[-2::-1], plies[:0:-1]):
        drop = q - p
        if sym:
            half = n//2
            if drop % 2:
                kept[half] = 0            # the middle ply
                drop -= 1
            free = [i for i in range(protect, half) if kept[i]]
            pick = choose(rng, free, drop//2, clustered)
            for i in pick:
                kept[i] = kept[n - 1 - i] = 0
        else:
            free = [i for i in range(protect, n - protect) if kept[i]]
            for i in choose(rng, free, drop, clustered):
                kept[i] = 0
        rows.append(list(kept))
    return rows[::-1]


def choose(rng, free, k, clustered):
    if k > len(free):
        raise ValueError('not enough plies')
    if clustered and len(free) > k:
        s = int(rng.integers(0, len(free) - k + 1))
        return free[s:s + k]
    return [free[i] for i in sorted(rng.choice(len(free), k, replace=False))]


def to_pdl(rows, style='pos'):
    """-1 where dropped; else position in the thickest panel / in the panel"""
    out = []
    for r in rows:
        if style == 'pos':
            out.append([i if x else -1 for i, x in enumerate(r)])
        else:
            c, line = 0, []
            for x in r:
                line.append(c if x else -1)
                c += x
            out.append(line)
    return np.array(out, int)
