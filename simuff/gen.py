"""Data-set generators.

A data-set *spec* is a small JSON object {"t": type, "s": seed, "n": size, "o": {options}}.  build(spec)
turns it into the dictionary a caller would pass to write_sets, and into what reading it back must give
(field -> (value, tolerance)), worked out here from the supplied values and never by pyuff.

Tolerances: 'i' same integer value, 's' same string, 'x' bit for bit, k (a number) relative error 0.5 * 10**-k.
"""
import random
import numpy as np

TYPES = ['15', '18', '55', '58', '58b', '82', '151', '164', '1858', '2400', '2411', '2412', '2414',
         '2420', '2429', '2467']
TEXTS = ['NONE', 'a', 'Title 1', 'x = 1.5e+03 D+01', '-1', 'b', '58', 'p.1:X+ / p.2:Y-', 'Z', '1', '0',
         'Meritev \u017eice', '\u00c5ngstr\u00f6m', '\u6d4b\u8bd5 set', '\u03a9/\u03bcm', '#!%^&*()[]{}', "O'Neil \"q\"", '000', '1 -1 2',
         'tab\tinside', 'a  b   c', '\U0001d54f', '%s %d', '\\n', 'e+05', 'D', 'None', 'nan', '-1 -1']


def text(r, width, empty=True):
    k = r.random()
    if LIKE and width == 80 and k < 0.4:
        # fills its column, and ends like a tag
        return r.choice(['a', 'b.', 'c d', '    -1 e', '58', 'f' * 74])[:74].strip().ljust(74, r.choice(' .')) + '    -1'
    if empty and k < 0.08:
        return ''
    if k < 0.6:
        s = r.choice(TEXTS)
    elif k < 0.75:
        # exactly as wide as its column
        s = ''.join(r.choice('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_.,-+/') for _ in range(width))
        if k > 0.73:
            # many bytes for few characters
            s = r.choice(['\u017e', '\u6d4b', '\U0001d54f']) * width
    else:
        n = r.randint(1, width)
        s = ''.join(r.choice('abcXYZ019_.,-+/ ') for _ in range(n))
    s = s[:width].strip()
    if s.isdigit() and len(s) == 6:
        s = s[:5]
    return s or ('' if empty else 'A')


TINY = LIKE = False


def num(r, wide=30):
    """A float; always well inside the exponent range that keeps two digits (unless the spec asks for 'tiny')."""
    if TINY:
        return -1.25e-100
    k = r.random()
    if k < 0.12:
        return 0.0
    if k < 0.27:
        return float(r.randint(-1000, 1000))
    if k < 0.32:
        return r.choice([-1.0, 1.0, -1e-5, 9.999996, -9.9999951, 99999.96, 1e98, -1e98, 1e-98, -9.99999e97, 0.1, 1 / 3])
    if k < 0.6:
        return r.uniform(-10, 10)
    return r.choice([-1, 1]) * r.uniform(1, 10) * 10.0 ** r.randint(-wide, wide)


def xnum(r, wide=30):
    """A float of a field that keeps exponents of three digits apart from its neighbours."""
    if r.random() < 0.04:
        return r.choice([-1, -1, 1]) * r.uniform(1, 10) * 10.0 ** r.choice([-300, -200, -101, -100, -99, 99, 100, 120, 300])
    return num(r, wide)


def xarr(r, n, wide=30):
    return np.array([xnum(r, wide) for _ in range(n)], dtype=float)


def xcarr(r, n, wide=30):
    return xarr(r, n, wide) + 1j * xarr(r, n, wide)


def arr(r, n, wide=30):
    return np.array([num(r, wide) for _ in range(n)], dtype=float)


def carr(r, n, wide=30):
    return arr(r, n, wide) + 1j * arr(r, n, wide)


def label(r):
    """A node/element label."""
    k = r.random()
    return r.randint(1, 99) if k < 0.5 else r.randint(1, 99999) if k < 0.8 else r.randint(1, 999999999)


def labels(r, n):
    return np.array([label(r) for _ in range(n)], dtype=np.int64)


def small(r, neg=True):
    """An integer of a I10 field which may be -1 as well."""
    k = r.random()
    if k < 0.45:
        return r.randint(0, 12)
    if k < 0.6 and neg:
        return -1
    if k < 0.7 and neg:
        return r.randint(-99999, -1)
    return r.randint(0, 999999)


def smalls(r, n, neg=True):
    return np.array([small(r, neg) for _ in range(n)], dtype=np.int64)


def I(w, r, neg=True):
    """An integer for a field of w columns; sometimes one that fills it."""
    k = r.random()
    if k < 0.06:
        return -r.randint(10 ** (w - 2), 10 ** (w - 1) - 1) if neg and k < 0.02 else \
            min(r.randint(10 ** (w - 1), 10 ** w - 1), r.randint(2 ** 31 - 99, 2 ** 31 - 1))
    if k < 0.5:
        return r.randint(0, 9)
    if k < 0.65 and neg:
        return -r.randint(1, 9) if k < 0.6 else -r.randint(1, 10 ** (w - 2) - 1)
    return r.randint(0, 10 ** (w - 1) - 1)


class Built:
    def __init__(self, kw, expect, prep=None, fd=True):
        self.kw = kw            # dictionary for write_sets, or the arguments of the prepare function
        self.expect = expect    # field -> (value, tolerance)
        self.prep = prep        # None or the name of the prepare function
        self.fd = fd            # force_double


def opt(r, d, e, key, value, tol, default=None, p=0.5):
    """An optional field: sometimes supplied, otherwise the default is expected."""
    if r.random() < p:
        d[key] = value
        e[key] = (value, tol)
    elif default is not None:
        e[key] = (default, tol)


def ids(r, d, e, names=('id1', 'id2', 'id3', 'id4', 'id5'), default='NONE', p=0.6):
    for k in names:
        opt(r, d, e, k, text(r, 80), 's', default, p)


def aslist(r, a):
    """Arrays may also be given as lists."""
    return a.tolist() if r.random() < 0.3 and len(a) else a


# --------------------------------------------------------------------------------------------------
def b15(r, n, o):
    d, e = {}, {}
    a = labels(r, n)
    d['node_nums'] = aslist(r, a)
    e['node_nums'] = (a, 'i')
    for k in ('def_cs', 'disp_cs', 'color'):
        opt(r, d, e, k, smalls(r, n), 'i', np.zeros(n, int), 0.7)
    for k in 'xyz':
        d[k] = xarr(r, n)
        e[k] = (d[k], 5)
    return d, e


def b18(r, n, o):
    n = max(n, 1)
    d, e = {}, {}
    d['cs_num'] = labels(r, n)
    d['ref_cs_num'] = smalls(r, n)
    e['cs_num'], e['ref_cs_num'] = (d['cs_num'], 'i'), (d['ref_cs_num'], 'i')
    opt(r, d, e, 'cs_type', smalls(r, n), 'i', np.zeros(n, int))
    opt(r, d, e, 'color', smalls(r, n), 'i', np.zeros(n, int))
    opt(r, d, e, 'method', smalls(r, n), 'i', np.ones(n, int))
    opt(r, d, e, 'cs_name', [text(r, 40) for _ in range(n)], 's', [''] * n)
    for k in ('ref_o', 'x_point', 'xz_point'):
        d[k] = xarr(r, 3 * n).reshape(n, 3)
        e[k] = (d[k], 5)
    return d, e


def b55(r, n, o):
    d, e = {}, {}
    ids(r, d, e)
    an = o.get('an', 2)
    opt(r, d, e, 'model_type', r.randint(0, 3), 'i', 1)
    d['analysis_type'] = an
    d['data_ch'] = r.randint(0, 5)
    d['spec_data_type'] = r.randint(0, 18)
    for k in ('analysis_type', 'data_ch', 'spec_data_type'):
        e[k] = (d[k], 'i')
    d['load_case'] = I(10, r)
    e['load_case'] = (d['load_case'], 'i')
    if an == 5:
        d['freq_step_n'] = I(10, r)
        e['freq_step_n'] = (d['freq_step_n'], 'i')
    else:
        d['mode_n'] = I(10, r)
        e['mode_n'] = (d['mode_n'], 'i')
    if an in (2, 5):
        d['freq'] = xnum(r)
        e['freq'] = (d['freq'], 5)
    if an == 2:
        opt(r, d, e, 'modal_m', xnum(r), 5, 0)
        opt(r, d, e, 'modal_damp_vis', xnum(r), 5, 0)
        opt(r, d, e, 'modal_damp_his', xnum(r), 5, 0)
    elif an in (3, 7):
        d['eig'] = complex(xnum(r), xnum(r))
        e['eig'] = (d['eig'], 5)
        for k in ('modal_a', 'modal_b'):
            v = xnum(r) if r.random() < 0.3 else complex(xnum(r), xnum(r))
            opt(r, d, e, k, v, 5, 0.0)
    a = labels(r, n)
    d['node_nums'] = aslist(r, a)
    e['node_nums'] = (a, 'i')
    cx = bool(o.get('cx'))
    six = bool(o.get('six')) and not cx
    some = r.sample(['r1', 'r2', 'r3'], r.choice([1, 2])) if cx and r.random() < 0.3 else ['r1', 'r2', 'r3']
    for k in ('r1', 'r2', 'r3') + (('r4', 'r5', 'r6') if six else ()):
        d[k] = xcarr(r, n) if cx and k in some else xarr(r, n)
        e[k] = (d[k], 5)
    e['data_type'] = (5 if cx else 2, 'i')
    e['n_data_per_node'] = (6 if six else 3, 'i')
    return d, e


LIKE_TAGS = [b'    -1\n', b'\n    -1\n', b'\r\n    -1\r\n', b'    -1\r', b'    -1\0', b'\n    -1' + b' ' * 74 + b'\n',
             b'\n    -1\n    -1\n', b'    -1', b'\n    -1\n ']


# bytes that mean something to text, in binary data
TEXTLIKE = [b'\r\r\n', b'\n\n', b'\r\n\r\n', b'\x1a', b'\r', b' \n', b'\t\n', b'\0\0\0\0', b'\xff\xfe', b'\xef\xbb\xbf', b'\x85\xa0',
            b'\x0b\x0c', b'\x1c\x1d\x1e', b'        ', b'-1', b'\n  -1', b'\n    58\n', b'\n\r', b'\r\n', b'\n', b'    -', b'\n    -']


def lookalikes(r, data, pats=LIKE_TAGS):
    """Finite numbers whose bytes contain what looks like a closing tag."""
    b = data.tobytes()
    for _ in range(r.choice([1, 1, 2, 3])):
        pat = r.choice(pats)[:len(b)]
        at = r.choice([r.randint(0, len(b) - len(pat)), (r.randint(0, len(b) - len(pat)) // 8) * 8, len(b) - len(pat), 0])
        new = b[:at] + pat + b[at + len(pat):]
        if np.isfinite(np.frombuffer(new, data.dtype)).all():
            b = new
    return np.frombuffer(b, data.dtype).copy()


def like_tags(r, sets, p=0.12):
    """Some binary sets get data with bytes that look like tags."""
    for x in sets:
        if x.get('o', {}).get('bin') and not x['o'].get('sp') and not x['o'].get('nan') and r.random() < p:
            x['o']['tag'] = 1
        if 'o' in x and r.random() < p / 2:
            x['o']['ttag'] = 1
    return sets


AX = ('abscissa', 'ordinate', 'orddenom', 'z_axis')


def b58(r, n, o):
    n = max(n, 1)
    d, e = {}, {}
    prep = o.get('prep')
    binary, cx, even, fd = int(bool(o.get('bin'))), bool(o.get('cx')), int(bool(o.get('even'))), not o.get('sp')
    if binary or r.random() < 0.5:
        d['binary'] = binary
    e['binary'] = (binary, 'i')
    ids(r, d, e)
    d['func_type'] = r.choice([0, 1, 2, 3, 4, 6, 9])
    e['func_type'] = (d['func_type'], 'i')
    if not prep:
        opt(r, d, e, 'func_id', I(10, r), 'i', 0)
    opt(r, d, e, 'ver_num', I(5, r), 'i', 0)
    opt(r, d, e, 'load_case_id', I(10, r), 'i', 0)
    for k in ('rsp', 'ref'):
        opt(r, d, e, k + '_ent_name', text(r, 10), 's', 'NONE')
        d[k + '_node'], d[k + '_dir'] = label(r), r.randint(-6, 6)
        e[k + '_node'], e[k + '_dir'] = (d[k + '_node'], 'i'), (d[k + '_dir'], 'i')
    for k in AX:
        opt(r, d, e, k + '_spec_data_type', r.randint(0, 20), 'i', 0 if k != 'orddenom' else None, 1.0 if k == 'orddenom' else 0.5)
        for u in ('len', 'force', 'temp'):
            opt(r, d, e, '%s_%s_unit_exp' % (k, u), I(5, r), 'i', 0)
        if not prep:
            opt(r, d, e, k + '_axis_lab', text(r, 20), 's', 'NONE')
        opt(r, d, e, k + '_axis_units_lab', text(r, 20), 's', 'NONE')
    opt(r, d, e, 'z_axis_value', xnum(r), 5, 0.0)
    if even or r.random() < 0.7:
        d['abscissa_spacing'] = even
    e['abscissa_spacing'] = (even, 'i')
    # data
    wide = 30
    if o.get('x') == 'wild' and not even:
        x = xarr(r, n, wide)
    else:
        x0, dx = r.choice([0.0, 0.0, num(r, 3), 100.0]), r.choice([1.0, 0.5, 0.1, 1 / 3, 1e-4, 2.44140625e-4, 7.0])
        x = x0 + np.arange(n) * dx
    data = xcarr(r, n, wide) if cx else xarr(r, n, wide)
    if o.get('tag') and binary and fd:
        data = lookalikes(r, data)
    elif o.get('raw') and binary and fd:
        data = lookalikes(r, data, TEXTLIKE)
    supplied = data
    if o.get('nan'):
        data = data.copy()
        bad = [np.nan] if (o.get('sp') and binary) else [np.nan, np.inf, -np.inf]
        for _ in range(r.choice([1, 1 + n // 7])):
            data[r.randrange(n)] = r.choice(bad)
        supplied = np.nan_to_num(data)
    single = not fd
    if single:
        d['ord_data_type'] = 5 if cx else 2
    elif r.random() < 0.4:
        d['ord_data_type'] = r.choice([5, 6] if cx else [2, 4])
    e['ord_data_type'] = ((5 if cx else 2) if single else (6 if cx else 4), 'i')
    e['num_pts'] = (n, 'i')
    if single and o.get('dp'):
        # force_double off, but the set itself says double
        d['ord_data_type'] = 6 if cx else 4
        e['ord_data_type'] = (d['ord_data_type'], 'i')
        single = False
    if binary and single:
        # keep within the range of single precision
        def sq(a):
            a = np.where(np.abs(a) > 1e37, 1.5, a)
            return np.where((np.abs(a) < 1e-36) & (a != 0), 2.5, a)
        if cx:
            data = sq(data.real) + 1j * sq(data.imag)
        else:
            data = sq(data)
        supplied = np.nan_to_num(data)
        if not even:
            x = sq(x)
    d['x'], d['data'] = x, data
    if binary:
        e['byte_ordering'], e['fp_format'], e['n_ascii_lines'] = (1, 'i'), (2, 'i'), (11, 'i')
        e['n_bytes'] = (n * (2 if cx else 1) * (4 if single else 8) if even else
                        n * (3 if cx else 2) * (4 if single else 8), 'i')
    if binary:
        if single:
            c = supplied.astype(np.complex64).astype(complex) if cx else supplied.astype(np.float32).astype(float)
            e['data'] = (c, 'x')
            xs = x.astype(np.float32).astype(float)
        else:
            e['data'] = (supplied, 'x')
            xs = x
    else:
        e['data'] = (supplied, 5 if single else 11)
        xs = x
    if even:
        if n > 1:
            inc = x[1] - x[0]
        else:
            inc = 0.0
            if not prep and r.random() < 0.5:
                d['abscissa_inc'] = inc = dx
        e['abscissa_min'] = (x[0], 5)
        e['abscissa_inc'] = (inc, 5)
        e['x'] = (x, ('abs', 1.001e-5 * (abs(x[0]) + abs(inc) * np.arange(n)) + 1e-300))
    else:
        e['x'] = (xs, 'x' if binary else 5)
    return d, e


def b82(r, n, o):
    d, e = {}, {}
    d['trace_num'] = I(10, r)
    e['trace_num'] = (d['trace_num'], 'i')
    opt(r, d, e, 'color', I(10, r), 'i', 0)
    opt(r, d, e, 'id', text(r, 80), 's', 'NONE')
    k = r.random()
    if k < 0.4:
        nodes = labels(r, n)
    elif k < 0.7:
        nodes = np.array([r.choice([0, 1, 2, 3, 3, 7]) for _ in range(n)], dtype=np.int64)
    else:
        nodes = np.array([0 if i % 3 == 2 else label(r) for i in range(n)], dtype=np.int64)
    if n and nodes[-1] == 0:
        nodes[-1] = 5
    d['nodes'] = nodes
    e['nodes'] = (nodes, 'i')
    e['n_nodes'] = (n, 'i')
    return d, e


def dt(r):
    return '%02d-%s-%02d' % (r.randint(1, 28), r.choice(['Jan', 'Feb', 'Jul', 'Dec']), r.randint(0, 99)), \
        '%02d:%02d:%02d' % (r.randint(0, 23), r.randint(0, 59), r.randint(0, 59))


def b151(r, n, o):
    d, e = {}, {}
    for k in ('model_name', 'description', 'db_app', 'program'):
        d[k] = text(r, 80)
        e[k] = (d[k], 's')
    given = o.get('given', 'csw')
    for c, k in (('c', 'db_created'), ('s', 'db_saved'), ('w', 'file_written')):
        if c in given:
            da, ti = dt(r)
            if o.get('prep') and c == 'w':
                d['date_db_written'], d['time_db_written'] = da, ti
            else:
                d['date_' + k], d['time_' + k] = da, ti
            e['date_' + k], e['time_' + k] = (da, 's'), (ti, 's')
    if o.get('half'):
        # only the date or only the time
        h = o['half']
        x = h.replace('file_written', 'db_written') if o.get('prep') else h
        if h not in e:
            d[x] = '01-Apr-99' if h.startswith('date') else '12:34:56'
            e[h] = (d[x], 's')
    for k in ('version_db1', 'version_db2'):
        opt(r, d, e, k, I(10, r), 'i', 0)
    opt(r, d, e, 'file_type', r.randint(0, 2), 'i', 0)
    return d, e


def b164(r, n, o):
    d, e = {}, {}
    d['units_code'] = r.randint(0, 9)
    e['units_code'] = (d['units_code'], 'i')
    opt(r, d, e, 'units_description', text(r, 20), 's', 'User unit system')
    opt(r, d, e, 'temp_mode', r.choice([1, 2]), 'i', 1)
    for k in ('length', 'force', 'temp', 'temp_offset'):
        d[k] = num(r, 90)
        e[k] = (d[k], 'x')
    return d, e


def b1858(r, n, o):
    d, e = {}, {}
    for k in ('record_num', 'octave_format', 'measurement_run'):
        d[k] = r.choice([small(r), I(12, r)])
        e[k] = (d[k], 'i')
    for k in ('weighting_type', 'window_type', 'amplitude_units', 'normalization_method', 'abscissa_data_type_qualifier',
              'ordinate_numerator_data_type_qualifier', 'ordinate_denominator_data_type_qualifier',
              'z_axis_data_type_qualifier', 'sampling_type'):
        d[k] = I(6, r)
        e[k] = (d[k], 'i')
    for k in ('z_rpm_value', 'z_time_value', 'z_order_value', 'num_of_samples', 'user_value_1', 'user_value_2',
              'user_value_3', 'user_value_4', 'exponential_window_damping_factor'):
        d[k] = xnum(r)
        e[k] = (d[k], 7)
    for k in ('response_direction', 'reference_direction'):
        d[k] = r.choice(['X+', 'Y-', 'NONE', 'RX+', 'S', '', text(r, 4)])
        e[k] = (d[k], 's')
    return d, e


def b2400(r, n, o):
    d, e = {}, {}
    opt(r, d, e, 'model_uid', I(12, r), 'i', 0)
    opt(r, d, e, 'entity_type', I(6, r), 'i', 0)
    opt(r, d, e, 'entity_subtype', I(6, r), 'i', 0)
    opt(r, d, e, 'version_number', I(12, r), 'i', 0)
    opt(r, d, e, 'entity_name', text(r, 80), 's', '')
    opt(r, d, e, 'part_number', text(r, 80), 's', '')
    opt(r, d, e, 'status_mask', [r.choice([0, 1, 0, 9, r.randint(0, 99), -1]) for _ in range(32)], 'i', [0] * 32)
    da, ti = dt(r)
    opt(r, d, e, 'date', da, 's', '')
    opt(r, d, e, 'time', ti, 's', '')
    opt(r, d, e, 'idm_version_id', I(12, r), 'i', 0)
    opt(r, d, e, 'idm_item_id', I(12, r), 'i', 0)
    opt(r, d, e, 'primary_parent_uid', I(12, r), 'i', 0)
    opt(r, d, e, 'optimization_switches', I(12, r), 'i', 0)
    return d, e


def b2411(r, n, o):
    d, e = {}, {}
    a = labels(r, n)
    d['node_nums'] = aslist(r, a)
    e['node_nums'] = (a, 'i')
    for k in ('def_cs', 'disp_cs', 'color'):
        d[k] = smalls(r, n)
        e[k] = (d[k], 'i')
    for k in 'xyz':
        d[k] = arr(r, n)
        e[k] = (d[k], 'x')
    return d, e


def b2412(r, n, o):
    if o.get('prep') or o.get('arrays'):
        return arrays2412(r, n, o)
    d, e = {}, {}
    descs = r.sample([11, 21, 22, 23, 24, 41, 44, 91, 94, 111, 115, 116, 118, 136], r.randint(1, 4))
    nn = {11: 2, 21: 2, 22: 3, 23: 2, 24: 3, 41: 3, 44: 4, 91: 3, 94: 4, 111: 4, 115: 8, 116: 20, 118: 10, 136: 1}
    # elements of a mesh share nodes; an element may even repeat one
    pool = [label(r) for _ in range(r.choice([4, 4, 5, 6, 9]))] if r.random() < 0.4 else []
    for q in descs:
        els = []
        for _ in range(r.randint(1, max(1, n))):
            el = {'element_nums': label(r), 'fe_descriptor': q, 'phys_table': small(r), 'mat_table': small(r),
                  'color': small(r), 'num_nodes': nn[q]}
            if q in (11, 21, 22, 23, 24):
                el.update(beam_orientation=small(r), beam_foreend_cross=small(r), beam_aftend_cross=small(r))
            if len(pool) >= nn[q]:
                el['nodes_nums'] = r.sample(pool, nn[q]) if r.random() < 0.85 else [r.choice(pool) for _ in range(nn[q])]
            else:
                el['nodes_nums'] = [label(r) for _ in range(nn[q])]
            els.append(el)
        d[q] = els
        e[q] = (els, 'i')
        name = {41: 'triangle', 44: 'quad'}.get(q)
        if name:
            e[name] = ({k: [x[k] for x in els] for k in ('element_nums', 'fe_descriptor', 'phys_table', 'mat_table',
                                                         'color', 'num_nodes', 'nodes_nums')}, 'i')
    return d, e


def arrays2412(r, n, o):
    """Elements as arrays: through prepare_2412, or as 'triangle' and 'quad' of the legacy interface."""
    d, e = {}, {}
    kinds = [r.choice([11, 21, 22, 41, 44, 91, 94, 111, 115, 116])] if o.get('prep') else r.sample([41, 44], r.choice([1, 1, 2]))
    nn = {11: 2, 21: 2, 22: 3, 41: 3, 44: 4, 91: 3, 94: 4, 111: 4, 115: 8, 116: 20}
    for q in kinds:
        m = max(1, n)
        a = {'element_nums': labels(r, m), 'fe_descriptor': np.full(m, q), 'phys_table': smalls(r, m), 'mat_table': smalls(r, m)}
        if r.random() < 0.7:
            a['color'] = smalls(r, m)
        if r.random() < 0.7:
            a['num_nodes'] = np.full(m, nn[q])
        if q in (11, 21, 22):
            for k in ('beam_orientation', 'beam_foreend_cross', 'beam_aftend_cross'):
                a[k] = smalls(r, m)
        a['nodes_nums'] = labels(r, m * nn[q]).reshape(m, nn[q])
        els = [{k: int(v[j]) if k != 'nodes_nums' else [int(x) for x in v[j]] for k, v in a.items()} for j in range(m)]
        for el in els:
            el.setdefault('color', 0)
            el.setdefault('num_nodes', nn[q])
        e[q] = (els, 'i')
        name = {41: 'triangle', 44: 'quad'}.get(q)
        if name:
            e[name] = ({k: [x[k] for x in els] for k in ('element_nums', 'fe_descriptor', 'phys_table', 'mat_table',
                                                         'color', 'num_nodes', 'nodes_nums')}, 'i')
        if not o.get('prep') and r.random() < 0.4:
            a = {k: v.tolist() for k, v in a.items()}
        if o.get('prep'):
            d = a
        else:
            d[name] = a
    return d, e


def b2414(r, n, o):
    n = max(n, 1)
    d, e = {}, {}

    def put(k, v, t):
        d[k] = v
        e[k] = (v, t)
    put('analysis_dataset_label', I(10, r), 'i')
    put('analysis_dataset_name', text(r, 80), 's')
    loc = o.get('loc', 1)
    put('dataset_location', loc, 'i')
    for k in ('id1', 'id2', 'id3', 'id4', 'id5'):
        put(k, text(r, 80), 's')
    an = o.get('an', 0)
    put('model_type', r.randint(0, 3), 'i')
    put('analysis_type', an, 'i')
    put('data_characteristic', r.choice([0, 1, 2, 3, 4, 6]), 'i')
    put('result_type', I(10, r), 'i')
    if an == 5:
        nc = o.get('nc', 3)
        dt = o.get('dt', 5)
        put('data_type', dt, 'i')
        put('number_of_data_values_for_the_data_component', nc, 'i')
        for k in ('design_set_id', 'iteration_number', 'solution_set_id', 'boundary_condition', 'load_set', 'mode_number',
                  'time_step_number', 'frequency_number', 'creation_option', 'number_retained'):
            put(k, I(10, r), 'i')
        for k in ('time', 'frequency', 'eigenvalue', 'modal_mass', 'viscous_damping', 'hysteretic_damping',
                  'real_part_eigenvalue', 'imaginary_part_eigenvalue', 'real_part_of_modal_A_or_modal_mass',
                  'imaginary_part_of_modal_A_or_modal_mass', 'real_part_of_modal_B_or_modal_mass',
                  'imaginary_part_of_modal_B_or_modal_mass'):
            put(k, xnum(r), 5)
        put('node_nums', labels(r, n), 'i')
        for k in 'xyz'[:nc]:
            put(k, xcarr(r, n) if dt > 4 and r.random() < 0.8 else xarr(r, n), 5)
        return d, e
    put('data_type', r.choice([1, 2, 4, 5, 6]), 'i')
    put('number_of_data_values_for_the_data_component', r.randint(1, 9), 'i')
    for rec in (10, 11):
        for f in range(1, 9):
            opt(r, d, e, 'record%d_field%d' % (rec, f), I(10, r), 'i', 0, 0.6)
    for rec in (12, 13):
        for f in range(1, 7):
            opt(r, d, e, 'record%d_field%d' % (rec, f), xnum(r), 5, 0, 0.6)
    if loc == 1:
        put('node_nums', labels(r, n), 'i')
        put('data_at_node', [xarr(r, r.choice([1, 3, 5, 6, 6, 7, 12, r.randint(1, 14)])) for _ in range(n)], 5)
    elif loc == 2:
        put('element_nums', labels(r, n), 'i')
        put('data_at_element', [xarr(r, r.choice([1, 3, 5, 6, 6, 7, 12, r.randint(1, 14)])) for _ in range(n)], 5)
        e['NDVAL'] = ([len(a) for a in d['data_at_element']], 'i')
    elif loc == 3:
        put('element_nums', labels(r, n), 'i')
        put('IEXP', np.array([r.choice([1, 1, 2]) for _ in range(n)]), 'i')
        put('number_of_nodes', np.array([r.randint(1, 4) for _ in range(n)]), 'i')
        put('number_of_values_per_node', np.array([r.choice([1, 3, 6, 7, 12, r.randint(1, 13)]) for _ in range(n)]), 'i')
        data = []
        for i in range(n):
            rows = []
            for _ in range(d['number_of_nodes'][i] if d['IEXP'][i] == 1 else 1):
                left = int(d['number_of_values_per_node'][i])
                while left:
                    rows.append(xarr(r, min(6, left)))
                    left -= min(6, left)
            data.append(rows)
        put('data_at_nodes_on_element', data, 5)
    return d, e


def b2420(r, n, o):
    n = max(n, 1)
    d, e = {}, {}
    opt(r, d, e, 'Part_UID', I(10, r), 'i', 1)
    opt(r, d, e, 'Part_Name', text(r, 80), 's', 'None')
    d['CS_sys_labels'] = aslist(r, labels(r, n))
    p = 1.0 if n != 1 else 0.5
    e['CS_sys_labels'] = (d['CS_sys_labels'], 'i')
    opt(r, d, e, 'CS_types', [r.randint(0, 2) for _ in range(n)], 'i', [0], p)
    opt(r, d, e, 'CS_colors', [small(r) for _ in range(n)], 'i', [8], p)
    d['CS_names'] = [text(r, 60) for _ in range(n)]
    e['CS_names'] = (d['CS_names'], 's')
    m = [xarr(r, 12).reshape(4, 3) for _ in range(n)]
    d['CS_matrices'] = m
    e['CS_matrices'] = (m, 'x')
    return d, e


SETS = ('active_constraint_set_no_for_group', 'active_restraint_set_no_for_group', 'active_load_set_no_for_group',
        'active_dof_set_no_for_group', 'active_temperature_set_no_for_group', 'active_contact_set_no_for_group')


def groups(r, n, o, cols):
    gs, es = [], []
    for _ in range(r.randint(1, 4)):
        g, e = {}, {}
        g['group_number'] = r.randint(0, 99999)
        g['group_name'] = text(r, 40, empty=False)
        full = o.get('full')
        for k in SETS:
            if full or r.random() < 0.6:
                g[k] = I(10, r, neg=False)
                e[k] = g[k]
            else:
                e[k] = 0
        m = r.randint(0, max(0, n))
        for c in cols:
            g[c] = smalls(r, m, neg=(c in ('entity_node_leaf_id', 'entity_component_id')))
            if c == 'entity_tag':
                g[c] = labels(r, m)
            g[c] = aslist(r, g[c]) if m else g[c]
            e[c] = list(g[c])
        e['group_number'], e['group_name'] = g['group_number'], g['group_name']
        e['number_of_entities_in_group'] = m
        gs.append(g)
        es.append(e)
    return gs, es


def b2429(r, n, o):
    gs, es = groups(r, n, o, ('entity_type_code', 'entity_tag'))
    return {'groups': gs}, {'groups': (es, 'sub')}


def b2467(r, n, o):
    gs, es = groups(r, n, o, ('entity_type_code', 'entity_tag', 'entity_node_leaf_id', 'entity_component_id'))
    return {'groups': gs}, {'groups': (es, 'sub')}


BUILDERS = {'15': b15, '18': b18, '55': b55, '58': b58, '82': b82, '151': b151, '164': b164, '1858': b1858,
            '2400': b2400, '2411': b2411, '2412': b2412, '2414': b2414, '2420': b2420, '2429': b2429, '2467': b2467}
PREPARABLE = {'15', '18', '55', '58', '82', '151', '164', '1858', '2400', '2411', '2412', '2414', '2420', '2429', '2467'}


def plain(v):
    """The same data-set with simple content (used when minimising)."""
    if isinstance(v, str):
        return 'A' if v else v
    if isinstance(v, np.ndarray):
        if v.dtype.kind == 'c':
            return np.ones_like(v) + 2j
        if v.dtype.kind == 'f':
            return np.ones_like(v)
        return np.ones_like(v)
    return v


FORMS = ['view', 'reversed', 'fixed', 'swapped', 'columns', 'scalars', 'scalars']


def reform(v, form, r):
    """The same values in another memory form."""
    if form == 'scalars':
        # numbers as numpy gives them
        if isinstance(v, dict):
            return {np.int64(k) if type(k) is int else k: reform(x, form, r) for k, x in v.items()}
        if isinstance(v, list):
            return [reform(x, form, r) for x in v]
        return np.int64(v) if type(v) is int else np.float64(v) if type(v) is float else np.complex128(v) if type(v) is complex else v
    if isinstance(v, np.ndarray) and v.dtype.kind in 'iufc' and v.ndim:
        if form == 'view':
            w = np.empty(v.shape[:-1] + (v.shape[-1] * 2,), v.dtype)
            w[..., 1::2] = v if v.dtype.kind == 'i' else 9.75
            w[..., ::2] = v
            return w[..., ::2]
        if form == 'reversed':
            return v[::-1].copy()[::-1]
        if form == 'swapped':
            return v.astype(v.dtype.newbyteorder('S'))
        if form == 'columns':
            return np.asfortranarray(v)
        v = v.copy()
        v.flags.writeable = False
        return v
    if isinstance(v, list):
        return [reform(x, form, r) for x in v]
    if isinstance(v, dict):
        return {k: reform(x, form, r) for k, x in v.items()}
    return v


def build(spec):
    """spec -> Built.  A pure function of the spec."""
    global TINY, LIKE
    r = random.Random('%s/%d' % (spec['t'], spec['s']))
    o = spec.get('o', {})
    TINY, LIKE = bool(o.get('tiny')), bool(o.get('ttag'))
    d, e = BUILDERS[spec['t']](r, spec['n'], o)
    if o.get('form'):
        d = reform(d, 'view' if o['form'] in ('swapped', 'scalars') and o.get('prep') else o['form'], r)
    prep = None
    if o.get('prep') and spec['t'] in PREPARABLE and not (spec['t'] == '2414' and o.get('an', 0) != 5):
        prep = 'prepare_' + spec['t']
    else:
        d['type'] = int(spec['t'])
    if o.get('form') == 'scalars' and not prep:
        d['type'] = np.int64(d['type'])
    e['type'] = (int(spec['t']), 'i')
    return Built(d, e, prep, fd=not o.get('sp'))


def materialize(pyuff, spec):
    """spec -> (dictionary as a caller passes it to write_sets, Built)."""
    b = build(spec)
    if not b.prep:
        return b.kw, b
    if spec['t'] in ('2429', '2467'):
        import importlib
        pg = importlib.import_module('pyuff.datasets.dataset_' + spec['t']).prepare_group
        kw = [pg(**g) for g in b.kw['groups']]
        return getattr(pyuff, b.prep)(groups=kw), b
    return getattr(pyuff, b.prep)(**b.kw), b


SIZES = [0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 24, 33]


def gen_spec(r, types=None, big=0.03, small_only=False, prep=0.3):
    t = r.choice(types or TYPES)
    n = r.choice(SIZES[:14] if small_only else SIZES)
    if not small_only and r.random() < big:
        n = r.choice([64, 100, 257, 700])
        if r.random() < 0.12:
            n = r.choice([1100, 1500, 4100, 8200])
            if t in ('58', '58b') and r.random() < 0.3:
                n = r.choice([16400, 33000] + [66000, 140000] * (t == '58b'))
    o = {}
    if t in ('58', '58b'):
        if t == '58b':
            o['bin'] = 1
        for k, p in (('cx', 0.5), ('even', 0.5), ('sp', 0.3), ('nan', 0.1)):
            if r.random() < p:
                o[k] = 1
        if o.get('sp') and r.random() < 0.3:
            o['dp'] = 1
        if not o.get('even') and r.random() < 0.4:
            o['x'] = 'wild'
        if o.get('nan') and not small_only and r.random() < 0.1:
            n = r.choice([300, 1100, 3000])
        if o.get('bin') and not o.get('sp') and r.random() < 0.25:
            o['raw'] = 1
        t = '58'
    elif t == '55':
        o['an'] = r.choice([2, 3, 5, 7])
        if r.random() < 0.4:
            o['cx'] = 1
        elif r.random() < 0.4:
            o['six'] = 1
    elif t == '2414':
        if r.random() < 0.45:
            o['an'], o['nc'], o['dt'] = 5, r.choice([1, 2, 3]), r.choice([5, 5, 5, 2, 2, 1, 4, 6])
            o['loc'] = r.choice([1, 1, 2, 3, 5])
        else:
            o['an'] = r.choice([0, 1, 2, 3, 4, 6, 7, 9])
            o['loc'] = r.choice([1, 2, 3, 1, 2, 3, 5])
        if o['loc'] == 3:
            n = min(n, 8)
    elif t == '2412':
        n = min(n, 12)
        if r.random() < 0.2:
            o['arrays'] = 1
    elif t in ('2429', '2467'):
        if r.random() < 0.5:
            o['full'] = 1
        n = min(n, 4100)
    elif t == '18' or t == '2420':
        n = min(n, 12)
    if r.random() < prep and t in PREPARABLE:
        o['prep'] = 1
    return {'t': t, 's': r.randrange(10 ** 6), 'n': n, 'o': o}


def spec_type(spec):
    return int(spec['t'])


def is_binary(spec):
    return 1 if spec.get('o', {}).get('bin') else 0


# --------------------------------------------------------------------------------------------------
# sets that write_sets has to reject, and sets of types it does not support
def make_bad(pyuff, spec):
    """A set that cannot be written: spec['bad'] says why."""
    kind = spec['bad']
    if kind == 'notype':
        d, _ = materialize(pyuff, dict(spec, o={k: v for k, v in spec.get('o', {}).items() if k != 'prep'}))
        d.pop('type', None)
        return d
    if kind == 'notdict':
        return 58
    d, b = materialize(pyuff, spec)
    r = random.Random('bad/%d' % spec['s'])
    t = spec['t']
    if kind == 'missing':
        req = REQUIRED[t]
        if callable(req):
            req = req(d)
        d.pop(r.choice(req), None)
    elif kind == 'value':
        CORRUPT[t](r, d)
    return d


def _req2414(d):
    q = ['analysis_dataset_label', 'dataset_location', 'id1', 'id5', 'model_type', 'result_type', 'data_type']
    if d.get('analysis_type') == 5:
        q += ['frequency_number', 'creation_option', 'time', 'imaginary_part_of_modal_B_or_modal_mass', 'node_nums', 'x']
    else:
        q += {1: ['node_nums', 'data_at_node'], 2: ['element_nums', 'data_at_element'],
              3: ['element_nums', 'IEXP', 'data_at_nodes_on_element']}.get(d.get('dataset_location'), [])
    return q


REQUIRED = {
    '15': ['node_nums', 'x', 'y', 'z'], '18': ['cs_num', 'ref_cs_num', 'ref_o', 'x_point', 'xz_point'],
    '55': lambda d: ['analysis_type', 'data_ch', 'spec_data_type', 'load_case', 'node_nums', 'r1', 'r2', 'r3']
    + (['freq'] if d.get('analysis_type') in (2, 5) else ['eig', 'mode_n']),
    '58': ['func_type', 'rsp_node', 'rsp_dir', 'ref_node', 'ref_dir', 'data', 'x'],
    '82': ['trace_num', 'nodes'], '151': ['model_name', 'description', 'db_app', 'program'],
    '164': ['units_code', 'length', 'force', 'temp', 'temp_offset'],
    '1858': ['record_num', 'window_type', 'z_rpm_value', 'user_value_3', 'reference_direction'],
    '2400': lambda d: ['__none__'], '2411': ['node_nums', 'color', 'x', 'z'], '2412': lambda d: ['__none__'],
    '2414': _req2414, '2420': ['CS_sys_labels', 'CS_names', 'CS_matrices'],
    '2429': ['groups'], '2467': ['groups'],
}


def _shorten(key):
    def f(r, d):
        # the last elements of an array are missing: fails in the middle of writing the rows
        d[key] = d[key][:len(d[key]) // 2]
    return f


def _setv(key, val):
    def f(r, d):
        d[key] = val
    return f


def _c2412(r, d):
    k = [k for k in d if isinstance(k, int)]
    if k:
        del d[k[-1]][-1][r.choice(['nodes_nums', 'mat_table', 'element_nums'])]
        return
    a = d if 'element_nums' in d else d[[k for k in d if k != 'type'][-1]]
    k = r.choice(['nodes_nums', 'phys_table', 'fe_descriptor'])
    if r.random() < 0.5:
        del a[k]
    else:
        a[k] = a[k][:-1]


def _cgroup(r, d):
    g = d['groups'][-1]
    g['group_number'] = 'one'


def _c55(r, d):
    k = r.random()
    if k < 0.3:
        # complex values at six degrees of freedom have no layout
        for q in ('r4', 'r5', 'r6'):
            d.setdefault(q, d['r1'])
        q = r.choice(['r2', 'r3', 'r4', 'r6'])
        d[q] = d[q] + 1j
    elif k < 0.6 or len(d['node_nums']) < 2:
        d['analysis_type'] = 4
    else:
        d['r3'] = d['r3'][:len(d['r3']) // 2]


def _c58(r, d):
    k = r.choice(['func', 'node', 'z', 'lab', 'data'])
    if k == 'func':
        d['func_type'] = 5
    elif k == 'node':
        d['ref_node'] = 'x'
    elif k == 'z':
        d['z_axis_value'] = None
    elif k == 'lab':
        d['z_axis_spec_data_type'] = 'q'
    else:
        d['x'] = d['x'][:-1]


def _c2414(r, d):
    if d.get('analysis_type') == 5:
        k = r.random()
        if k < 0.6:
            d['x'] = d['x'][:len(d['x']) // 2]
        elif k < 0.8:
            d['number_of_data_values_for_the_data_component'] = r.choice([0, 4, 6])
        else:
            d['data_type'] = 2
            d['x'] = d['x'] + 1j
    elif r.random() < 0.5 and d['dataset_location'] in (1, 2, 3):
        # values at nodes and elements are real
        k = {1: 'data_at_node', 2: 'data_at_element', 3: 'data_at_nodes_on_element'}[d['dataset_location']]
        v = d[k][-1]
        d[k] = d[k][:-1] + [[x + 1j for x in v] if isinstance(v, list) else v + 1j]
    else:
        d['record13_field6'] = 'x'


CORRUPT = {'15': _shorten('z'), '18': _shorten('xz_point'), '55': _c55, '58': _c58, '82': _setv('color', 'red'),
           '151': lambda r, d: d.pop('program'), '164': _setv('temp_offset', 'x'), '1858': _setv('user_value_4', 'x'),
           '2400': _setv('optimization_switches', 'x'), '2411': _shorten('z'), '2412': _c2412, '2414': _c2414,
           '2420': _shorten('CS_names'), '2429': _cgroup, '2467': _cgroup}


def gen_bad(r, types=None):
    while True:
        spec = gen_spec(r, types, big=0, small_only=True, prep=0.1)
        spec['n'] = max(spec['n'], 2)
        spec['o'].pop('sp', None)
        spec['o'].pop('dp', None)
        spec['bad'] = r.choice(['missing', 'value', 'value', 'notype'])
        if spec['bad'] == 'missing' and spec['t'] in ('2400', '2412'):
            spec['bad'] = 'value'
        if spec['bad'] == 'notype':
            spec['o'].pop('prep', None)
        return spec


BLOCKS = [512, 1024, 4096, 4096, 4096, 8192, 8192, 8192, 16384, 32768, 65536, 65536, 131072]


def gen_filler(r):
    """A set of other software so long that what follows it lies about a boundary of blocks of the file."""
    k = r.random()
    b = 1 << 24 if k < 0.004 else 1 << 20 if k < 0.025 else r.choice(BLOCKS) * r.choice([1, 1, 1, 2, 3])
    k = r.random()
    pad = b + (r.randint(-16, 8) if k < 0.6 else -r.randint(0, 900) if k < 0.9 else r.randint(0, 100))
    return {'u': r.choice(UNSUPPORTED), 's': r.randrange(1000), 'pad': max(60, pad)}


UNSUPPORTED = [1, 56, 100, 161, 773, 780, 781, 1802, 2437, 2448, 2477, 3000, 9999, 58000, 7, 158, 1515, 580, 2413, 24122, 115858, 999999]


def unsupported_text(spec):
    """A block of a type pyuff does not support, as other software would write it."""
    r = random.Random('uns/%d' % spec['s'])
    out = ['    -1', '%6d' % spec['u']]
    if 'pad' in spec:
        # exactly that many bytes
        left = max(0, spec['pad'] - 21)
        lines = ['%9d.%-70d' % (r.randint(0, 10 ** 8), i) for i in range(7)]
        i = 0
        while left > 0:
            k = min(81, left)
            out.append(lines[i % 7][:k - 1] if k > 1 else '')
            left -= k
            i += 1
    for _ in range(r.randint(0, 6) if 'pad' not in spec else 0):
        out.append(r.choice(['%10d%10d%10d' % (r.randint(0, 10 ** 6), 3, 4), 'free text', '', '-1', '  1.0000E+00  2.0000E+00',
                             '        -1', '        -1         5', 'x' * 100, '%6d' % r.randint(1, 99999)]))
    out.append('    -1')
    return ('\n'.join(out) + '\n').encode()
