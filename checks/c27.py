"""C27 utilities: element-wise maxima, custom ordering, workbooks"""
import builtins
import collections
import os
import shutil
import tempfile
import numpy as np
from vlib import gen
from vlib.core import Family

ID = 'C27'
RULE = ('random arrays, orders and sequences of writings in workbooks of a '
        'temporary folder. Non-trivial: arrays of more than one element, '
        'orders with missing or unlisted values, several writings')
REQUIRED = ['max_same_size', 'max_scalar', 'max_one_element', 'max_refused',
            'order', 'order_unlisted', 'order_absent', 'written', 'appended',
            'new_sheet', 'startrow', 'truncated', 'autofit', 'deleted', 'kept']


def make_max(rng, tier):
    n = int(rng.integers(1, 12))
    kind = gen.choice(rng, ['same', 'same', 'scalar', 'one', 'differ'])
    m = {'same': n, 'scalar': 0, 'one': 1,
         'differ': n + int(rng.integers(1, 4))}[kind]
    if kind == 'differ' and n == 1:
        n, m = 2, 3
    vals = lambda k: [round(float(v), 3) for v in rng.uniform(-9, 9, max(1, k))]
    return {'a': vals(n), 'b': vals(m), 'kind': kind,
            'swap': bool(rng.random() < .5),
            'int': bool(rng.random() < .3)}


def run_max(case, mon):
    from src.divers.arrays import max_arrays
    a, b = case['a'], case['b']
    if case['int']:
        a, b = [int(v) for v in a], [int(v) for v in b]
    x = np.array(a)
    y = b[0] if case['kind'] == 'scalar' else np.array(b)
    before = x.copy()
    args = (y, x) if case['swap'] else (x, y)
    info = lambda: str(case)
    try:
        got = max_arrays(*args)
    except ValueError:
        mon.ev('max_refused')
        mon.check(case['kind'] == 'differ', 'max-refused', info)
        return
    if not mon.check(case['kind'] != 'differ', 'max-accepted', info):
        return
    mon.ev({'same': 'max_same_size', 'scalar': 'max_scalar',
            'one': 'max_one_element'}[case['kind']])
    if len(a) > 1:
        mon.sig(case)
    bb = b if len(b) == len(a) else [b[0]]*len(a)
    want = [float(max(u, v)) for u, v in zip(a, bb)]
    mon.check(isinstance(got, np.ndarray) and got.shape == (len(a),) and
              got.tolist() == want, 'max-values',
              lambda: info() + ' got %s' % got)
    mon.check((x == before).all(), 'max-alters-arguments', info)


def make_order(rng, tier):
    pool = [int(v) for v in rng.choice(gen.choice(
        rng, [[0, 45, 90, -45], list(range(-90, 91, 15)), list(range(9))]),
        4, replace=False)]
    n = int(rng.integers(0, 15))
    a1 = [int(pool[int(rng.integers(len(pool)))]) for _ in range(n)]
    a2 = [v for v in pool if rng.random() < .7]
    if rng.random() < .4:
        a2.append(777)
    a2 = [a2[int(i)] for i in rng.permutation(len(a2))]
    return {'a1': a1, 'a2': a2, 'array': bool(rng.random() < .3)}


def run_order(case, mon):
    from src.divers.sorting import sortAccording
    a1 = np.array(case['a1'], int) if case['array'] else list(case['a1'])
    a2 = list(case['a2'])
    sortAccording(a1, a2)
    info = lambda: '%s got %s' % (case, list(a1))
    got = [int(v) for v in a1]
    mon.ev('order')
    rest = sorted(v for v in case['a1'] if v not in case['a2'])
    if rest:
        mon.ev('order_unlisted')
    if set(case['a2']) - set(case['a1']):
        mon.ev('order_absent')
    if len(set(case['a1'])) > 1:
        mon.sig(case)
    want = [v for x in case['a2'] for v in case['a1'] if v == x] + rest
    mon.check(collections.Counter(got) == collections.Counter(case['a1']),
              'order-loses-values', info)
    mon.check(got == want, 'order', info)
    mon.check(a2 == case['a2'], 'order-alters-arguments', info)


def make_book(rng, tier):
    steps = []
    for _ in range(int(rng.integers(1, 5))):
        rows, cols = int(rng.integers(1, 5)), int(rng.integers(1, 5))
        steps.append({
            'sheet': gen.choice(rng, ['A', 'A', 'B', 'Results 1']),
            'data': [[round(float(v), 4) for v in rng.uniform(-99, 99, cols)]
                     for _ in range(rows)],
            'text': bool(rng.random() < .3),
            'header': bool(rng.random() < .5), 'index': bool(rng.random() < .5),
            'row': None if rng.random() < .8 else int(rng.integers(0, 12)),
            'trunc': bool(rng.random() < .2)})
    return {'steps': steps, 'fit': bool(rng.random() < .5),
            'delete': gen.choice(rng, [None, 'y', 'n', 'yes', 'Y', ''])}


def run_book(case, mon):
    import openpyxl
    import pandas as pd
    from src.divers.excel import (append_df_to_excel, autofit_column_widths,
                                  delete_file)
    tmp = tempfile.mkdtemp(prefix='verif_c27_')
    info = lambda: str(case)
    try:
        name = os.path.join(tmp, 'book.xlsx')
        delete_file(name)           # nothing to delete, no question
        model = {}                  # sheet -> {(row, col): value}
        order = []
        for st in case['steps']:
            data = st['data']
            if st['text']:
                data = [['v%s' % v + '.'*((7*i) % 60)   # wider than a column
                         for i, v in enumerate(row, k)]
                        for k, row in enumerate(data)]
            frame = pd.DataFrame(data, columns=['c%d' % i for i
                                                in range(len(data[0]))])
            kw = {}
            row0 = st['row']
            trunc = st['trunc'] and row0 is not None
            if row0 is not None:
                kw['startrow'] = row0
                mon.ev('startrow')
            if trunc:
                kw['truncate_sheet'] = True
            append_df_to_excel(name, frame, st['sheet'], header=st['header'],
                               index=st['index'], **kw)
            old = model.get(st['sheet'])
            if old is None:
                order.append(st['sheet'])
                mon.ev('new_sheet' if model else 'written')
                cells = {}
                if row0 is None:
                    row0 = 0
            else:
                mon.ev('truncated' if trunc else 'appended')
                cells = {} if trunc else old
                if row0 is None:
                    row0 = max(r for r, _ in cells) + 1
            c0 = 1 if st['index'] else 0
            if st['header']:
                for j in range(len(data[0])):
                    cells[row0, c0 + j] = 'c%d' % j
                row0 += 1
            for i, row in enumerate(data):
                if st['index']:
                    cells[row0 + i, 0] = i
                for j, v in enumerate(row):
                    cells[row0 + i, c0 + j] = v
            model[st['sheet']] = cells
        if len(case['steps']) > 1:
            mon.sig(case)
        if case['fit']:
            autofit_column_widths(name)
            mon.ev('autofit')
        book = openpyxl.load_workbook(name)
        mon.check(book.sheetnames == order, 'sheets',
                  lambda: info() + str(book.sheetnames))
        for sheet, cells in model.items():
            if sheet not in book.sheetnames:
                continue
            got = {}
            for row in book[sheet].iter_rows():
                for cell in row:
                    if cell.value is not None:
                        got[cell.row - 1, cell.column - 1] = cell.value
            mon.check(got == cells, 'cells', lambda: '%s sheet %s got %s '
                      'expected %s' % (info(), sheet, got, cells))
            if case['fit']:
                for col in {c for _, c in cells}:
                    letter = openpyxl.utils.get_column_letter(col + 1)
                    width = max(len(str(v)) for (_, c), v in cells.items()
                                if c == col)
                    got_w = book[sheet].column_dimensions[letter].width
                    mon.check(got_w is not None and got_w >= width,
                              'column-width', info)
        answer = case['delete']
        if answer is not None:
            asked = []
            real = builtins.input
            builtins.input = lambda msg='': (asked.append(msg), answer)[1]
            left = False
            try:
                delete_file(name)
            except SystemExit:
                left = True
            finally:
                builtins.input = real
            yes = answer.lower() in ('y', 'yes')
            mon.ev('deleted' if yes else 'kept')
            mon.check(len(asked) == 1 and os.path.exists(name) != yes and
                      left != yes, 'overwriting', info)
            mon.check(os.listdir(tmp) == ([] if yes else ['book.xlsx']),
                      'overwriting', info)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


FAMILIES = [Family('maxima', make_max, run_max, 4000, 60000),
            Family('order', make_order, run_order, 4000, 60000),
            Family('workbook', make_book, run_book, 300, 4000)]
