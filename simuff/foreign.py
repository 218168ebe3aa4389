"""Another program that shares universal files with pyuff: it knows the published record layouts and nothing of pyuff.

emit(spec, style) -> (bytes of the set as that program writes it, {field: (value recorded, 'x')})
parse(data)       -> [Read]: the sets of a file, every number taken from its columns; Broken if a record does not
                     follow its layout.
"""
import math
import random
import struct

import numpy as np

from . import gen


class Broken(Exception):
    pass


# ---- numbers ---------------------------------------------------------------------------------------
def num(v, w, d, st, dexp=False):
    """A real number in w columns, at most d decimals."""
    v = float(v)
    d = min(d, st.get('digits', 99))
    how = st.get('num', '1P')
    e = 'D' if dexp and st.get('dexp') else 'E'
    if st.get('lower'):
        e = e.lower()
    a = abs(v)
    if not math.isfinite(v):
        return '%*s' % (w, repr(v) if st.get('lower') else repr(v).upper())
    if how == 'G' and v == int(v) and a < 1e6:
        return '%*s' % (w, '%d.' % v)
    if how in 'FG' and (v == 0 or 1e-3 <= a < 1e4):
        t = '%.*f' % (min(d, 5), v)
    elif how == '0P' and v != 0:
        m, x = ('%.*E' % (d - 1, v)).split('E')
        x = int(x) + 1
        t = '%s0.%s%s%s%02d' % ('-' if v < 0 else '', m.lstrip('-').replace('.', ''), e, '-' if x < 0 else '+', abs(x))
    else:
        t = ('%.*E' % (d, v)).replace('E', e)
    if len(t) > w:
        t = '%.*E' % (d, v)
    return '%*s' % (w, t)


def val(t):
    return float(t.lower().replace('d', 'e'))


REALS = {'15': {k: (13, 5) for k in 'xyz'}, '18': {k: (13, 5) for k in ('ref_o', 'x_point', 'xz_point')},
         '55': {k: (13, 5) for k in ('freq', 'modal_m', 'modal_damp_vis', 'modal_damp_his', 'eig', 'modal_a', 'modal_b',
                                     'r1', 'r2', 'r3', 'r4', 'r5', 'r6')},
         '58': {'z_axis_value': (13, 5)},
         '164': {k: (25, 16, 1) for k in ('length', 'force', 'temp', 'temp_offset')},
         '1858': {k: (15, 7) for k in ('z_rpm_value', 'z_time_value', 'z_order_value', 'num_of_samples', 'user_value_1', 'user_value_2',
                                       'user_value_3', 'user_value_4', 'exponential_window_damping_factor')},
         '2411': {k: (25, 16, 1) for k in 'xyz'}, '2420': {'CS_matrices': (25, 16, 1)},
         '2414': {k: (13, 5) for k in
                  ['time', 'frequency', 'eigenvalue', 'modal_mass', 'viscous_damping', 'hysteretic_damping', 'real_part_eigenvalue',
                   'imaginary_part_eigenvalue', 'real_part_of_modal_A_or_modal_mass', 'imaginary_part_of_modal_A_or_modal_mass',
                   'real_part_of_modal_B_or_modal_mass', 'imaginary_part_of_modal_B_or_modal_mass', 'x', 'y', 'z',
                   'data_at_node', 'data_at_element', 'data_at_nodes_on_element']
                  + ['record%d_field%d' % (a, b) for a in (12, 13) for b in range(1, 7)]}}


def quant(v, f):
    """The value the columns hold."""
    if isinstance(v, list):
        return [quant(x, f) for x in v]
    a = np.asarray(v)
    if a.dtype.kind == 'c':
        # (not re + 1j * im, which turns -0.0 and huge values into something else)
        out = np.empty(a.shape, complex)
        out.real, out.imag = quant(a.real, f), quant(a.imag, f)
        return out if a.shape else complex(out)
    out = np.array([f(x) for x in a.ravel()], dtype=float).reshape(a.shape)
    return out if a.shape else float(out)


# ---- writing ---------------------------------------------------------------------------------------
class Out:
    def __init__(self, st):
        self.st = st
        self.lines = []

    def rec(self, *parts):
        self.lines.append(''.join(parts))

    def ints(self, w, *v):
        return ''.join('%*d' % (w, int(x)) for x in v)

    def reals(self, w, d, v, dexp=False):
        return ''.join(num(x, w, d, self.st, dexp) for x in v)

    def text(self, s, w=80):
        return '%-*s' % (w, s)

    def rows(self, w, d, v, per, dexp=False):
        v = list(v)
        for i in range(0, len(v), per):
            self.rec(self.reals(w, d, v[i:i + per], dexp))

    def irows(self, w, v, per):
        v = list(v)
        for i in range(0, len(v), per):
            self.rec(self.ints(w, *v[i:i + per]))

    def done(self, t, mark=''):
        """All records between the tags."""
        st = self.st
        eol = st.get('eol', '\n')
        pad = st.get('pad', 0)
        head = ['    -1', '%6d' % int(t) + mark]
        if st.get('tagpad'):
            head[0] = '%-80s' % head[0]
            head[1] = '%-80s' % head[1]
        body = [('%-80s' % x) if pad == 1 else x.rstrip(' ') if pad == 2 else x for x in self.lines]
        return ''.join(x + eol for x in head + body).encode('latin-1' if st.get('latin') else 'utf-8', 'replace')

    def close(self):
        st = self.st
        return (('%-80s' % '    -1') if st.get('tagpad') else '    -1').encode() + st.get('eol', '\n').encode()


def cpair(v):
    out = []
    for x in v:
        out += [complex(x).real, complex(x).imag]
    return out


def e15(o, e):
    for i in range(len(e['node_nums'])):
        o.rec(o.ints(10, e['node_nums'][i], e['def_cs'][i], e['disp_cs'][i], e['color'][i]), o.reals(13, 5, [e[k][i] for k in 'xyz']))


def e18(o, e):
    for i in range(len(e['cs_num'])):
        o.rec(o.ints(10, *[e[k][i] for k in ('cs_num', 'cs_type', 'ref_cs_num', 'color', 'method')]))
        o.rec(o.text(e['cs_name'][i], 40))
        o.rec(o.reals(13, 5, list(e['ref_o'][i]) + list(e['x_point'][i])))
        o.rec(o.reals(13, 5, e['xz_point'][i]))


def e55(o, e):
    for k in range(1, 6):
        o.rec(o.text(e['id%d' % k]))
    an, cx, n = e['analysis_type'], e['data_type'] == 5, e['n_data_per_node']
    o.rec(o.ints(10, e['model_type'], an, e['data_ch'], e['spec_data_type'], e['data_type'], n))
    if an == 2:
        o.rec(o.ints(10, 2, 4, e['load_case'], e['mode_n']))
        o.rec(o.reals(13, 5, [e[k] for k in ('freq', 'modal_m', 'modal_damp_vis', 'modal_damp_his')]))
    elif an == 5:
        o.rec(o.ints(10, 2, 1, e['load_case'], e['freq_step_n']))
        o.rec(o.reals(13, 5, [e['freq']]))
    else:
        o.rec(o.ints(10, 2, 6, e['load_case'], e['mode_n']))
        o.rec(o.reals(13, 5, cpair([e['eig'], e['modal_a'], e['modal_b']])))
    for i in range(len(e['node_nums'])):
        o.rec(o.ints(10, e['node_nums'][i]))
        v = [e['r%d' % k][i] for k in range(1, n + 1)]
        o.rec(o.reals(13, 5, cpair(v) if cx else v))


AXES = ('abscissa', 'ordinate', 'orddenom', 'z_axis')


def e58(o, e):
    for k in range(1, 6):
        o.rec(o.text(e['id%d' % k]))
    o.rec(o.ints(5, e['func_type']), o.ints(10, e['func_id']), o.ints(5, e['ver_num']), o.ints(10, e['load_case_id']),
          *[' ' + o.text(e[k + '_ent_name'], 10) + o.ints(10, e[k + '_node']) + o.ints(4, e[k + '_dir']) for k in ('rsp', 'ref')])
    even = e['abscissa_spacing']
    o.rec(o.ints(10, e['ord_data_type'], e['num_pts'], even),
          o.reals(13, 5, [e['abscissa_min'] if even else 0, e['abscissa_inc'] if even else 0, e['z_axis_value']]))
    for k in AXES:
        o.rec(o.ints(10, e[k + '_spec_data_type']), o.ints(5, *[e['%s_%s_unit_exp' % (k, u)] for u in ('len', 'force', 'temp')]),
              ' ', o.text(e[k + '_axis_lab'], 20), ' ', o.text(e[k + '_axis_units_lab'], 20))


def values58(e):
    cols = ([] if e['abscissa_spacing'] else [np.asarray(e['x'], float)]) + \
        ([e['data'].real, e['data'].imag] if e['ord_data_type'] in (5, 6) else [np.asarray(e['data'], float)])
    return np.stack(cols, axis=1)


def form58(e):
    """(columns of one row of the text form)"""
    S, D = (13, 5), (20, 11)
    if e['ord_data_type'] in (2, 5):
        return [S] * 6
    if e['abscissa_spacing']:
        return [D] * 4
    return [S, D, D] if e['ord_data_type'] == 6 else [S, D, S, D]


def e82(o, e):
    o.rec(o.ints(10, e['trace_num'], e['n_nodes'], e['color']))
    o.rec(o.text(e['id']))
    o.irows(10, e['nodes'], 8)


def e151(o, e):
    for k in ('model_name', 'description', 'db_app'):
        o.rec(o.text(e[k]))
    v = [e['version_db1'], e['version_db2'], e['file_type']]
    o.rec(o.text(e['date_db_created'], 10), o.text(e['time_db_created'], 10),
          o.ints(10, *v) if any(v) or not o.st.get('blank') else '')
    o.rec(o.text(e['date_db_saved'], 10), o.text(e['time_db_saved'], 10))
    o.rec(o.text(e['program']))
    o.rec(o.text(e['date_file_written'], 10), o.text(e['time_file_written'], 10))


def e164(o, e):
    o.rec(o.ints(10, e['units_code']), o.text(e['units_description'], 20), o.ints(10, e['temp_mode']))
    o.rec(o.reals(25, 16, [e[k] for k in ('length', 'force', 'temp')], True))
    o.rec(o.reals(25, 16, [e['temp_offset']], True))


R1858 = [('weighting_type', 'window_type', 'amplitude_units', 'normalization_method', 'abscissa_data_type_qualifier',
          'ordinate_numerator_data_type_qualifier', 'ordinate_denominator_data_type_qualifier', 'z_axis_data_type_qualifier',
          'sampling_type'), ('z_rpm_value', 'z_time_value', 'z_order_value', 'num_of_samples'),
         ('user_value_1', 'user_value_2', 'user_value_3', 'user_value_4', 'exponential_window_damping_factor')]


def e1858(o, e):
    o.rec(o.ints(12, e['record_num'], e['octave_format'], e['measurement_run'], 0, 0, 0))
    o.rec(o.ints(6, *[e[k] for k in R1858[0]]), o.ints(6, 0, 0, 0))
    o.rec(o.reals(15, 7, [e[k] for k in R1858[1]] + [0]))
    o.rec(o.reals(15, 7, [e[k] for k in R1858[2]]))
    o.rec(o.reals(15, 7, [0] * 5))
    o.rec(o.text(e['response_direction'], 4), '  ', o.text(e['reference_direction'], 4))
    o.rec(o.text('NONE'))


def e2400(o, e):
    o.rec(o.ints(12, e['model_uid']), o.ints(6, e['entity_type'], e['entity_subtype']), o.ints(12, e['version_number']))
    o.rec(o.text(e['entity_name']))
    o.rec(o.text(e['part_number']))
    o.rec(o.ints(2, *e['status_mask']))
    o.rec(o.text(e['date'], 10), o.text(e['time'], 10), o.ints(12, e['idm_version_id'], e['idm_item_id'], e['primary_parent_uid']))
    o.rec(o.ints(12, e['optimization_switches']))


def e2411(o, e):
    for i in range(len(e['node_nums'])):
        o.rec(o.ints(10, e['node_nums'][i], e['def_cs'][i], e['disp_cs'][i], e['color'][i]))
        o.rec(o.reals(25, 16, [e[k][i] for k in 'xyz'], True))


BEAMS = (11, 21, 22, 23, 24)


def e2412(o, e):
    els = [x for k in e if isinstance(k, int) for x in e[k]]
    if o.st.get('mix'):
        random.Random(o.st['mix']).shuffle(els)
        for k in [k for k in e if isinstance(k, int)]:
            e[k] = [x for x in els if x['fe_descriptor'] == k]
        for k, name in ((41, 'triangle'), (44, 'quad')):
            if name in e:
                e[name] = {f: [x[f] for x in e[k]] for f in e[name]}
    for x in els:
        o.rec(o.ints(10, *[x[k] for k in ('element_nums', 'fe_descriptor', 'phys_table', 'mat_table', 'color', 'num_nodes')]))
        if x['fe_descriptor'] in BEAMS:
            o.rec(o.ints(10, *[x[k] for k in ('beam_orientation', 'beam_foreend_cross', 'beam_aftend_cross')]))
        o.irows(10, x['nodes_nums'], 8)


F5 = [('design_set_id', 'iteration_number', 'solution_set_id', 'boundary_condition', 'load_set', 'mode_number', 'time_step_number',
       'frequency_number'), ('creation_option', 'number_retained'),
      ('time', 'frequency', 'eigenvalue', 'modal_mass', 'viscous_damping', 'hysteretic_damping'),
      ('real_part_eigenvalue', 'imaginary_part_eigenvalue', 'real_part_of_modal_A_or_modal_mass',
       'imaginary_part_of_modal_A_or_modal_mass', 'real_part_of_modal_B_or_modal_mass', 'imaginary_part_of_modal_B_or_modal_mass')]
F0 = [['record%d_field%d' % (a, b) for b in range(1, n + 1)] for a, n in ((10, 8), (11, 8), (12, 6), (13, 6))]


def e2414(o, e):
    o.rec(o.ints(10, e['analysis_dataset_label']))
    o.rec(o.text(e['analysis_dataset_name']))
    o.rec(o.ints(10, e['dataset_location']))
    for k in range(1, 6):
        o.rec(o.text(e['id%d' % k]))
    o.rec(o.ints(10, *[e[k] for k in ('model_type', 'analysis_type', 'data_characteristic', 'result_type', 'data_type',
                                      'number_of_data_values_for_the_data_component')]))
    F = F5 if e['analysis_type'] == 5 else F0
    for f in F[:2]:
        o.rec(o.ints(10, *[e[k] for k in f]))
    for f in F[2:]:
        o.rec(o.reals(13, 5, [e[k] for k in f]))
    if e['analysis_type'] == 5:
        for i in range(len(e['node_nums'])):
            o.rec(o.ints(10, e['node_nums'][i]))
            v = [e[k][i] for k in 'xyz'[:e['number_of_data_values_for_the_data_component']]]
            o.rows(13, 5, cpair(v) if e['data_type'] in (5, 6) else v, 6)
        return
    loc = e['dataset_location']
    if loc == 1:
        for i, v in enumerate(e['data_at_node']):
            o.rec(o.ints(10, e['node_nums'][i]))
            o.rows(13, 5, v, 6)
    elif loc == 2:
        for i, v in enumerate(e['data_at_element']):
            o.rec(o.ints(10, e['element_nums'][i], len(v)))
            o.rows(13, 5, v, 6)
    elif loc == 3:
        for i, v in enumerate(e['data_at_nodes_on_element']):
            o.rec(o.ints(10, *[e[k][i] for k in ('element_nums', 'IEXP', 'number_of_nodes', 'number_of_values_per_node')]))
            for row in v:
                o.rec(o.reals(13, 5, row))


def e2420(o, e):
    o.rec(o.ints(10, e['Part_UID']))
    o.rec(o.text(e['Part_Name']))
    for i in range(len(e['CS_sys_labels'])):
        o.rec(o.ints(10, e['CS_sys_labels'][i], e['CS_types'][i], e['CS_colors'][i]))
        o.rec(o.text(e['CS_names'][i]))
        for row in e['CS_matrices'][i]:
            o.rec(o.reals(25, 16, row, True))


GROUP = ['group_number'] + list(gen.SETS) + ['number_of_entities_in_group']


def egroups(cols):
    def f(o, e):
        for g in e['groups']:
            o.rec(o.ints(10, *[g[k] for k in GROUP]))
            o.rec(o.text(g['group_name'], 40))
            o.irows(10, [g[c][i] for i in range(g['number_of_entities_in_group']) for c in cols], 8)
    return f


C29 = ('entity_type_code', 'entity_tag')
C67 = ('entity_type_code', 'entity_tag', 'entity_node_leaf_id', 'entity_component_id')
EMIT = {'15': e15, '18': e18, '55': e55, '58': e58, '82': e82, '151': e151, '164': e164, '1858': e1858, '2400': e2400,
        '2411': e2411, '2412': e2412, '2414': e2414, '2420': e2420, '2429': egroups(C29), '2467': egroups(C67)}
DEFAULTS = {'func_id': 0, 'abscissa_axis_lab': 'NONE', 'ordinate_axis_lab': 'NONE', 'orddenom_axis_lab': 'NONE', 'z_axis_axis_lab': 'NONE'}


def recorded(spec, st):
    """The values another program records: those of the spec, at the precision of its notation."""
    b = gen.build(spec)
    e = {k: v[0] for k, v in b.expect.items()}
    tol = {k: v[1] for k, v in b.expect.items()}
    t = spec['t']
    if t == '58':
        for k, v in DEFAULTS.items():
            e.setdefault(k, v)
            tol.setdefault(k, 's' if isinstance(v, str) else 'i')
        even, binary = e['abscissa_spacing'], e['binary']
        if even:
            for k in ('abscissa_min', 'abscissa_inc'):
                e[k] = val(num(e[k], 13, 5, st))
                tol[k] = 'x'
            x = e['abscissa_min'] + np.arange(e['num_pts']) * e['abscissa_inc']
            e['x'], tol['x'] = x, ('abs', 1e-12 * (abs(e['abscissa_min']) + abs(e['abscissa_inc']) * np.arange(e['num_pts'])))
        if not binary:
            f, cx = form58(e), e['ord_data_type'] in (5, 6)
            w, d = f[-1] if e['ord_data_type'] in (4, 6) else (13, 5)
            e['data'], tol['data'] = quant(e['data'], lambda v: val(num(v, w, d, st))), 'x'
            if not even:
                e['x'], tol['x'] = quant(e['x'], lambda v: val(num(v, 13, 5, st))), 'x'
        else:
            tol['x'] = tol['x'] if even else 'x'
            tol['data'] = 'x'
            if st.get('big'):
                e['byte_ordering'] = 2
    for k, q in REALS.get(t, {}).items():
        if k in e:
            w, d, dexp = (tuple(q) + (0,))[:3]
            # twice: what is written is what is recorded
            f = lambda v: val(num(v, w, d, st, dexp))
            v = e[k]
            if t == '2420':
                v = [quant(m, f) for m in v]
            e[k] = quant(quant(v, f), f)
            tol[k] = 'x'
    return e, tol


def variant(spec, e, st):
    """Whether pyuff may decline to read the set (but not read it wrong)."""
    return bool(spec['t'] == '55' and st.get('ndv') and e['data_type'] == 2)


def emit(spec, st):
    e, tol = recorded(spec, st)
    t = spec['t']
    if t == '82':
        e['n_nodes'] = len(e['nodes'])
    if t in ('2429', '2467'):
        e['groups'] = [dict(g) for g in e['groups']]
    if t == '2412':
        e = dict(e)
    if t == '58' and st.get('ft'):
        # functions pyuff does not write
        e['func_type'] = st['ft']
    if t == '58' and st.get('one'):
        e['num_pts'], e['data'] = 1, e['data'][:1]
        if tol['x'] and not isinstance(tol['x'], (str, int)):
            tol['x'] = (tol['x'][0], tol['x'][1][:1])
        e['x'] = e['x'][:1]
    if variant(spec, e, st):
        # other numbers of values per node
        n = min(e['n_data_per_node'] - 1, st['ndv'])
        e = {k: v for k, v in e.items() if k[0] != 'r' or k not in ['r%d' % i for i in range(n + 1, 7)]}
        e['n_data_per_node'] = n
    o = Out(st)
    EMIT[t](o, e)
    if t == '58' and e['binary']:
        v = values58(e)
        with np.errstate(all='ignore'):
            payload = v.ravel().astype(('>' if st.get('big') else '<') + ('f4' if e['ord_data_type'] in (2, 5) else 'f8')).tobytes()
        e['n_bytes'] = len(payload)
        head = ('B' if st.get('B') else 'b') + '%6d%6d%12d%12d%6d%6d%12d%12d' % (
            2 if st.get('big') else 1, 2, 11, len(payload), 0, 0, 0, 0)
        raw = o.done(58, head) + payload + (st.get('eol', '\n').encode() if st.get('own') else b'') + o.close()
    elif t == '58':
        v = values58(e).ravel()
        f = form58(e)
        for i in range(0, len(v), len(f)):
            o.rec(*[num(x, w, d, st) for x, (w, d) in zip(v[i:i + len(f)], f)])
        raw = o.done(58) + o.close()
    else:
        raw = o.done(t) + o.close()
    if st.get('gap'):
        raw += st.get('eol', '\n').encode()
    if st.get('latin'):
        e = {k: garbled(v) for k, v in e.items()}
    return raw, {k: (v, tol[k]) for k, v in e.items() if k in tol}


def garbled(v):
    """Texts in ISO 8859-1 as a program sees them that takes everything for UTF-8."""
    if isinstance(v, str):
        return v.encode('latin-1', 'replace').decode('utf-8', 'replace')
    if isinstance(v, list):
        return [garbled(x) for x in v]
    if isinstance(v, dict):
        return {k: garbled(x) for k, x in v.items()}
    return v


def gen_style(r, binary=False):
    st = {'eol': r.choice(['\n', '\n', '\r\n']), 'pad': r.choice([0, 0, 1, 2]), 'tagpad': int(r.random() < 0.3),
          'num': r.choice(['1P', '1P', '0P', 'F', 'G'])}
    if r.random() < 0.3:
        st['digits'] = r.choice([2, 3, 4, 6, 12])
    if r.random() < 0.5:
        st['dexp'] = 1
    if r.random() < 0.3:
        st['lower'] = 1
    if r.random() < 0.3:
        st['mix'] = r.randint(1, 999)
    if r.random() < 0.4:
        st['blank'] = 1
    if r.random() < 0.5:
        st['big'] = 1
    if r.random() < 0.2:
        st['B'] = 1
    if r.random() < 0.2:
        st['latin'] = 1         # texts in ISO 8859-1
    if r.random() < 0.1:
        st['gap'] = 1           # an empty line behind the set
    if r.random() < 0.1:
        st['ft'] = r.randint(5, 26)
    if r.random() < 0.04:
        st['one'] = 1           # one point, only
    if r.random() < 0.3:
        st['own'] = 1           # the closing tag after binary data in a line of its own
    return st


# ---- reading ---------------------------------------------------------------------------------------
class Read:
    def __init__(self, type, binary, fields):
        self.type, self.binary, self.fields = type, binary, fields


class In:
    """The records of one set."""

    def __init__(self, lines, what):
        self.lines, self.i, self.what = lines, 0, what

    def more(self):
        return self.i < len(self.lines)

    def line(self):
        if not self.more():
            raise Broken('%s: record %d is missing' % (self.what, self.i + 1))
        x = self.lines[self.i]
        self.i += 1
        if len(x.rstrip(' ')) > 80:
            raise Broken('%s: record %d is longer than 80 columns: %r' % (self.what, self.i, x))
        return '%-80s' % x

    def cut(self, x, a, w):
        return x[a:a + w]

    def bad(self, x, why):
        raise Broken('%s: record %d: %s: %r' % (self.what, self.i, why, x.rstrip()))

    def int(self, x, a, w):
        t = x[a:a + w]
        if t != t.rstrip() or not t.strip().lstrip('-').isdigit():
            self.bad(x, 'no integer in columns %d-%d' % (a + 1, a + w))
        return int(t)

    def real(self, x, a, w):
        t = x[a:a + w]
        try:
            if t != t.rstrip() or ' ' in t.strip():
                raise ValueError
            if '.' not in t and math.isfinite(val(t)):
                raise ValueError
            return val(t)
        except ValueError:
            self.bad(x, 'no real number in columns %d-%d' % (a + 1, a + w))

    def end(self, x, a):
        if x[a:].strip():
            self.bad(x, 'more than belongs into the record, behind column %d' % a)

    def ints(self, w, n):
        x = self.line()
        self.end(x, w * n)
        return [self.int(x, w * i, w) for i in range(n)]

    def reals(self, w, n):
        x = self.line()
        self.end(x, w * n)
        return [self.real(x, w * i, w) for i in range(n)]

    def text(self, w=80):
        x = self.line()
        self.end(x, w)
        return x[:w].rstrip()

    def irows(self, w, n, per):
        out = []
        while len(out) < n:
            out += self.ints(w, min(per, n - len(out)))
        return out

    def rows(self, w, n, per):
        out = []
        while len(out) < n:
            out += self.reals(w, min(per, n - len(out)))
        return out

    def values(self, w=13, per=6):
        """The rows of reals up to the next record that holds integers only (how many is not stated)."""
        out = []
        while self.more() and '.' in self.lines[self.i]:
            n = min(per, len(self.lines[self.i].rstrip()) // w)
            if out and len(out) % per:
                self.bad(self.lines[self.i], 'a row of values follows one that is not full')
            out += self.reals(w, n)
        return np.array(out, float)


def pairs(v):
    return [complex(v[i], v[i + 1]) for i in range(0, len(v), 2)]


def columns(rows, names, dtype=None):
    a = list(zip(*rows)) if rows else [[] for _ in names]
    return {k: np.array(c, dtype) for k, c in zip(names, a)}


def p15(o):
    rows = []
    while o.more():
        x = o.line()
        o.end(x, 79)
        rows.append([o.int(x, 10 * i, 10) for i in range(4)] + [o.real(x, 40 + 13 * i, 13) for i in range(3)])
    return columns(rows, ('node_nums', 'def_cs', 'disp_cs', 'color', 'x', 'y', 'z'))


def p18(o):
    rows = []
    while o.more():
        a = o.ints(10, 5)
        n = o.text(40)
        v = o.reals(13, 6)
        rows.append(a + [n, v[:3], v[3:], o.reals(13, 3)])
    d = columns(rows, ('cs_num', 'cs_type', 'ref_cs_num', 'color', 'method', 'cs_name', 'ref_o', 'x_point', 'xz_point'))
    d['cs_name'] = [str(x) for x in d['cs_name']]
    return d


def p55(o):
    d = {'id%d' % k: o.text() for k in range(1, 6)}
    d.update(zip(('model_type', 'analysis_type', 'data_ch', 'spec_data_type', 'data_type', 'n_data_per_node'), o.ints(10, 6)))
    an, cx, n = d['analysis_type'], d['data_type'] == 5, d['n_data_per_node']
    want = {2: [2, 4], 5: [2, 1], 3: [2, 6], 7: [2, 6]}[an]
    a = o.ints(10, 4)
    if a[:2] != want:
        raise Broken('%s: record 7 starts with %s instead of %s' % (o.what, a[:2], want))
    d['load_case'], d['freq_step_n' if an == 5 else 'mode_n'] = a[2:]
    v = o.reals(13, want[1])
    if an == 2:
        d.update(zip(('freq', 'modal_m', 'modal_damp_vis', 'modal_damp_his'), v))
    elif an == 5:
        d['freq'] = v[0]
    else:
        d.update(zip(('eig', 'modal_a', 'modal_b'), pairs(v)))
    rows = []
    while o.more():
        k = o.ints(10, 1)
        v = o.reals(13, n * (2 if cx else 1))
        rows.append(k + (pairs(v) if cx else v))
    d.update(columns(rows, ['node_nums'] + ['r%d' % k for k in range(1, n + 1)]))
    return d


def p58(o, head, payload):
    d = {'binary': 0}
    if head is not None:
        x = '%-80s' % head
        v = [o.int(x, a, w) for a, w in ((7, 6), (13, 6), (19, 12), (31, 12), (43, 6), (49, 6), (55, 12), (67, 12))]
        d.update(binary=1, byte_ordering=v[0], fp_format=v[1], n_ascii_lines=v[2], n_bytes=v[3])
    for k in range(1, 6):
        d['id%d' % k] = o.text()
    x = o.line()
    o.end(x, 80)
    for k, a, w in (('func_type', 0, 5), ('func_id', 5, 10), ('ver_num', 15, 5), ('load_case_id', 20, 10), ('rsp_node', 41, 10),
                    ('rsp_dir', 51, 4), ('ref_node', 66, 10), ('ref_dir', 76, 4)):
        d[k] = o.int(x, a, w)
    d['rsp_ent_name'], d['ref_ent_name'] = x[31:41].strip(), x[56:66].strip()
    if x[30] != ' ' or x[55] != ' ':
        o.bad(x, 'columns 31 and 56 are not blank')
    x = o.line()
    o.end(x, 69)
    for i, k in enumerate(('ord_data_type', 'num_pts', 'abscissa_spacing')):
        d[k] = o.int(x, 10 * i, 10)
    amin, ainc, d['z_axis_value'] = [o.real(x, 30 + 13 * i, 13) for i in range(3)]
    for k in AXES:
        x = o.line()
        o.end(x, 67)
        d[k + '_spec_data_type'] = o.int(x, 0, 10)
        for i, u in enumerate(('len', 'force', 'temp')):
            d['%s_%s_unit_exp' % (k, u)] = o.int(x, 10 + 5 * i, 5)
        d[k + '_axis_lab'], d[k + '_axis_units_lab'] = x[26:46].strip(), x[47:67].strip()
        if x[25] != ' ' or x[46] != ' ':
            o.bad(x, 'columns 26 and 47 are not blank')
    even, cx, dbl = d['abscissa_spacing'], d['ord_data_type'] in (5, 6), d['ord_data_type'] in (4, 6)
    per = (0 if even else 1) + (2 if cx else 1)
    n = per * d['num_pts']
    if payload is not None:
        size = 8 if dbl else 4
        if d['n_bytes'] != n * size:
            raise Broken('%s: %d bytes of data stated, %d points need %d' % (o.what, d['n_bytes'], d['num_pts'], n * size))
        v = np.array(struct.unpack(('<' if d['byte_ordering'] == 1 else '>') + '%d%s' % (n, 'd' if dbl else 'f'), payload), float)
    else:
        f = form58(d)
        v = []
        while len(v) < n:
            x = o.line()
            a = 0
            for w, _ in f[:n - len(v)]:
                v.append(o.real(x, a, w))
                a += w
            o.end(x, a)
        v = np.array(v)
    v = v.reshape(d['num_pts'], per)
    if even:
        d['abscissa_min'], d['abscissa_inc'] = amin, ainc
        d['x'] = amin + np.arange(d['num_pts']) * ainc
    else:
        d['x'] = v[:, 0]
        v = v[:, 1:]
    if cx:
        d['data'] = np.empty(d['num_pts'], complex)
        d['data'].real, d['data'].imag = v[:, 0], v[:, 1]
    else:
        d['data'] = v[:, 0]
    return d


def p82(o):
    d = dict(zip(('trace_num', 'n_nodes', 'color'), o.ints(10, 3)))
    d['id'] = o.text()
    d['nodes'] = np.array(o.irows(10, d['n_nodes'], 8), dtype=int)
    return d


def p151(o):
    d = {k: o.text() for k in ('model_name', 'description', 'db_app')}

    def when(k, x):
        d['date_' + k], d['time_' + k] = x[:10].strip(), x[10:20].strip()
    x = o.line()
    when('db_created', x)
    o.end(x, 50)
    for i, k in enumerate(('version_db1', 'version_db2', 'file_type')):
        # blank columns are a zero
        d[k] = o.int(x, 20 + 10 * i, 10) if x[20 + 10 * i:30 + 10 * i].strip() else 0
    when('db_saved', o.text(20))
    d['program'] = o.text()
    when('file_written', o.text(20))
    return d


def p164(o):
    x = o.line()
    o.end(x, 40)
    d = {'units_code': o.int(x, 0, 10), 'units_description': x[10:30].strip(), 'temp_mode': o.int(x, 30, 10)}
    d.update(zip(('length', 'force', 'temp'), o.reals(25, 3)))
    d['temp_offset'] = o.reals(25, 1)[0]
    return d


def p1858(o):
    d = dict(zip(('record_num', 'octave_format', 'measurement_run'), o.ints(12, 6)))
    d.update(zip(R1858[0], o.ints(6, 12)))
    d.update(zip(R1858[1], o.reals(15, 5)))
    d.update(zip(R1858[2], o.reals(15, 5)))
    o.reals(15, 5)
    x = o.text(10)
    d['response_direction'], d['reference_direction'] = x[:4].strip(), x[6:10].strip()
    o.text()
    return d


def p2400(o):
    x = o.line()
    o.end(x, 36)
    d = {k: o.int(x, a, w) for k, a, w in (('model_uid', 0, 12), ('entity_type', 12, 6), ('entity_subtype', 18, 6), ('version_number', 24, 12))}
    d['entity_name'], d['part_number'] = o.text(), o.text()
    d['status_mask'] = o.ints(2, 32)
    x = o.line()
    o.end(x, 56)
    d['date'], d['time'] = x[:10].strip(), x[10:20].strip()
    for i, k in enumerate(('idm_version_id', 'idm_item_id', 'primary_parent_uid')):
        d[k] = o.int(x, 20 + 12 * i, 12)
    d['optimization_switches'] = o.ints(12, 1)[0]
    return d


def p2411(o):
    rows = []
    while o.more():
        rows.append(o.ints(10, 4) + o.reals(25, 3))
    return columns(rows, ('node_nums', 'def_cs', 'disp_cs', 'color', 'x', 'y', 'z'))


def p2412(o):
    d = {}
    while o.more():
        x = dict(zip(('element_nums', 'fe_descriptor', 'phys_table', 'mat_table', 'color', 'num_nodes'), o.ints(10, 6)))
        if x['fe_descriptor'] in BEAMS:
            x.update(zip(('beam_orientation', 'beam_foreend_cross', 'beam_aftend_cross'), o.ints(10, 3)))
        x['nodes_nums'] = o.irows(10, x['num_nodes'], 8)
        d.setdefault(x['fe_descriptor'], []).append(x)
    for k, name in ((41, 'triangle'), (44, 'quad')):
        if k in d:
            d[name] = {f: [x[f] for x in d[k]] for f in d[k][0]}
    return d


def p2414(o):
    d = {'analysis_dataset_label': o.ints(10, 1)[0], 'analysis_dataset_name': o.text(), 'dataset_location': o.ints(10, 1)[0]}
    for k in range(1, 6):
        d['id%d' % k] = o.text()
    d.update(zip(('model_type', 'analysis_type', 'data_characteristic', 'result_type', 'data_type',
                  'number_of_data_values_for_the_data_component'), o.ints(10, 6)))
    F = F5 if d['analysis_type'] == 5 else F0
    for f in F[:2]:
        d.update(zip(f, o.ints(10, len(f))))
    for f in F[2:]:
        d.update(zip(f, o.reals(13, len(f))))
    if d['analysis_type'] == 5:
        n = d['number_of_data_values_for_the_data_component']
        rows = []
        while o.more():
            rows.append(o.ints(10, 1) + (pairs(o.rows(13, 2 * n, 6)) if d['data_type'] in (5, 6) else o.rows(13, n, 6)))
        d.update(columns(rows, ['node_nums'] + list('xyz')[:n]))
        return d
    loc = d['dataset_location']
    if loc in (1, 2):
        a, v = [], []
        while o.more():
            a.append(o.ints(10, loc))
            v.append(o.values())
            if loc == 2 and len(v[-1]) != a[-1][1]:
                raise Broken('%s: %d values stated, %d there' % (o.what, a[-1][1], len(v[-1])))
        if loc == 1:
            d.update(node_nums=np.array([x[0] for x in a]), data_at_node=v)
        else:
            d.update(element_nums=np.array([x[0] for x in a]), NDVAL=[x[1] for x in a], data_at_element=v)
    elif loc == 3:
        a, v = [], []
        while o.more():
            a.append(o.ints(10, 4))
            per = a[-1][3]
            v.append([])
            for _ in range(a[-1][2] if a[-1][1] == 1 else 1):
                left = per
                while left > 0:
                    v[-1].append(np.array(o.reals(13, min(6, left))))
                    left -= 6
        d.update(columns(a, ('element_nums', 'IEXP', 'number_of_nodes', 'number_of_values_per_node')))
        d['data_at_nodes_on_element'] = v
    return d


def p2420(o):
    d = {'Part_UID': o.ints(10, 1)[0], 'Part_Name': o.text()}
    rows, names, m = [], [], []
    while o.more():
        rows.append(o.ints(10, 3))
        names.append(o.text())
        m.append(np.array([o.reals(25, 3) for _ in range(4)]))
    d.update(columns(rows, ('CS_sys_labels', 'CS_types', 'CS_colors')))
    d['CS_names'], d['CS_matrices'] = names, m
    return d


def pgroups(cols):
    def f(o):
        out = []
        while o.more():
            g = dict(zip(GROUP, o.ints(10, 8)))
            g['group_name'] = o.text(40)
            v = o.irows(10, g['number_of_entities_in_group'] * len(cols), 8)
            for i, c in enumerate(cols):
                g[c] = np.array(v[i::len(cols)], int)
            out.append(g)
        return {'groups': out}
    return f


PARSE = {15: p15, 18: p18, 55: p55, 82: p82, 151: p151, 164: p164, 1858: p1858, 2400: p2400, 2411: p2411, 2412: p2412,
         2414: p2414, 2420: p2420, 2429: pgroups(C29), 2467: pgroups(C67)}


def parse(data):
    """The sets of a file, taken apart strictly by the published layouts."""
    out = []
    at = 0

    def line(at):
        j = data.find(b'\n', at)
        if j < 0:
            raise Broken('byte %d: the last line is not finished' % at)
        return data[at:j].rstrip(b'\r'), j + 1
    while at < len(data):
        x, nxt = line(at)
        what = 'set %d at byte %d' % (len(out), at)
        if x.rstrip(b' ') != b'    -1' or len(x) > 80:
            raise Broken('%s: no opening delimiter: %r' % (what, x[:90]))
        x, nxt = line(nxt)
        if len(x) > 80:
            raise Broken('%s: number of the set: %r' % (what, x[:90]))
        h = x.decode('utf-8', 'replace')
        try:
            t = int(h[:6])
        except ValueError:
            raise Broken('%s: number of the set: %r' % (what, h))
        binary = h[6:7] in ('b', 'B')
        if h[6 + binary:].strip() and not binary:
            raise Broken('%s: number of the set: %r' % (what, h))
        what += ' (type %d%s)' % (t, 'b' if binary else '')
        lines = []
        if binary:
            for _ in range(11):
                x, nxt = line(nxt)
                lines.append(x.decode('utf-8', 'replace'))
            try:
                n = int(h[31:43])
            except ValueError:
                raise Broken('%s: number of bytes: %r' % (what, h))
            payload = data[nxt:nxt + n]
            nxt += n
            if data[nxt:nxt + 1] == b'\r':
                nxt += 1
            if data[nxt:nxt + 1] == b'\n':
                nxt += 1
            x, end = line(nxt)
            if x.rstrip(b' ') != b'    -1':
                raise Broken('%s: no closing delimiter after %d bytes of data: %r' % (what, n, x[:90]))
            o = In(lines, what)
            f = p58(o, h, payload)
        else:
            while True:
                x, end = line(nxt)
                if x.rstrip(b' ') == b'    -1' and len(x) <= 80:
                    break
                lines.append(x.decode('utf-8', 'replace'))
                nxt = end
            o = In(lines, what)
            f = p58(o, None, None) if t == 58 else PARSE[t](o) if t in PARSE else {}
        if o.more() and (t in PARSE or t == 58):
            raise Broken('%s: %d records too many: %r' % (what, len(o.lines) - o.i, o.lines[o.i]))
        f['type'] = t
        out.append(Read(t, int(binary), f))
        at = end
    return out
