"""Shared alphabets: values of every type, and parameter grids of every field type."""

import datetime
import decimal
import itertools
from collections import OrderedDict

from mc.spec import Fixed, Junk

D = decimal.Decimal
date, time, dt = datetime.date, datetime.time, datetime.datetime
UTC = datetime.timezone.utc

# values of all types, tried on every field
POOL = [
    None, True, False, 0, 1, -1, 2, 10, 2 ** 31, 2 ** 63, -2 ** 63 - 1, 10 ** 25,
    0.0, -0.0, 1.0, -1.5, 0.1, 0.1 + 0.2, 1e300, 1e-300, float('inf'), float('-inf'), float('nan'),
    '', ' ', 'a', 'b', 'A', ' a', 'a ', ' a b ', 'abc', 'null', 'true', '0', '1', '-1', '1.5',
    ' 1 ', '1_0', '1e3', 'nan', 'NaN', 'inf', '0x10', '\u00e9', '\u0660', '\u2003a', 'a\n', '\ta',
    '\x00', 'x' * 300,
    b'', b'a', b'abc', b'YWJj', b'_-8=', b'YQ==', b'YQ=', b'!!', b'\xff\xfe', b'1',
    D('0'), D('-0'), D('1'), D('1.0'), D('1.50'), D('-1E+5'), D('1E-7'),
    date(1, 1, 1), date(999, 12, 31), date(2000, 1, 1), date(2000, 1, 2), date(2000, 2, 29),
    date(9999, 12, 31),
    time(0, 0), time(12, 30, 15), time(12, 30, 16), time(23, 59, 59), time(12, 30, 15, 123456),
    dt(1, 1, 1), dt(999, 12, 31, 23, 59, 59), dt(2000, 1, 1), dt(2000, 1, 1, 12, 30, 15),
    dt(2000, 1, 1, 12, 30, 15, 999999), dt(2000, 1, 1, 12, 30, 15, tzinfo=UTC),
    dt(2000, 1, 1, 12, 30, 16, tzinfo=Fixed(90)), dt(9999, 12, 31, 23, 59, 59),
    '2000-01-01', '2000-1-1', '2000-02-30', '1999-02-29', '2000-02-29', '0001-01-01',
    '9999-12-31', '20000101', '2000-01-01 ', '01-01-2000', '2000-13-01', '2000-00-10',
    '12:30:15', '12:30', '24:00:00', '00:00:00', '23:59:59', '1:2:3', '12:60:00',
    '12:30:15.5',
    '2000-01-01T12:30:15Z', '2000-01-01T12:30:15', '2000-01-01 12:30:15Z',
    '0001-01-01T00:00:00Z', '9999-12-31T23:59:59Z', '2000-01-01T12:30:15+00:00',
    '2000-01-01T24:00:00Z',
    [], [1], ['a'], [None], (), (1,), {}, {'a': 1}, {'a': 'b'}, {1: 2}, Junk(),
]

UUIDS = ['00000000-0000-0000-0000-000000000000', 'abcdef01-2345-6789-abcd-ef0123456789']
BAD_UUIDS = ['ABCDEF01-2345-6789-abcd-ef0123456789', 'abcdef01-2345-6789-abcd-ef012345678',
    'abcdef01-2345-6789-abcd-ef01234567890', 'abcdef0123456789abcdef0123456789',
    'gbcdef01-2345-6789-abcd-ef0123456789', ' abcdef01-2345-6789-abcd-ef0123456789',
    'abcdef01-2345-6789-abcd-ef0123456789\n', '{abcdef01-2345-6789-abcd-ef0123456789}',
    'abcdef0-12345-6789-abcd-ef0123456789', 'abcdef01-2345-6789-abcd_ef0123456789']

def grid(**axes):
    """All combinations of parameter values; Ellipsis leaves a parameter out."""
    names = sorted(axes)
    for values in itertools.product(*[axes[name] for name in names]):
        yield dict((n, v) for n, v in zip(names, values) if v is not Ellipsis)

E_ = Ellipsis

# leaves with canonical valid native values (the first few are representative)
def leaves():
    return [
        (('text', {}), ['a', '', 'two words\n\u00e9"\'<&>', '1', 'null']),
        (('text', {'strip': False}), [' a ', '\n', ' ']),
        (('token', {}), ['a:b-c.d', 'x']),
        (('email', {}), ['a@b.co', '']),
        (('email', {'extended': True}), ['Name X <A@b.co>', 'a@b.co']),
        (('email', {'multiple': True}), ['a@b.co,c@d.org']),
        (('uuid', {}), UUIDS),
        (('integer', {}), [0, 1, -1, 2 ** 70, -2 ** 63]),
        (('float', {}), [1.5, 0.0, -0.0, 1e300, 5e-324, float('inf'), 0.1, 1e22, 123456789.125,
            0.1 + 0.2, 1.7976931348623157e308, -2 / 3.0, 2.0 ** 53 + 2]),
        (('decimal', {}), [D('1.50'), D('-0'), D('1E+5'), D('1E-30'), D('123456789' * 5), D('0'),
            D('Infinity')]),
        (('boolean', {}), [True, False]),
        (('binary', {}), [b'abc', b'', b'\x00\xff\xfe', bytes(range(256))]),
        (('date', {}), [date(2000, 2, 29), date(1, 1, 1), date(999, 12, 31), date(9999, 12, 31)]),
        (('time', {}), [time(12, 30, 15), time(0, 0), time(23, 59, 59), time(1, 2, 3, 999999)]),
        (('datetime', {'utc': True}), [dt(2000, 1, 1, 12, 30, 15, tzinfo=UTC),
            dt(999, 1, 2, 3, 4, 5), dt(2000, 7, 1, 0, 0, tzinfo=Fixed(-330)),
            dt(9999, 12, 31, 23, 59, 59, 999999), dt(1, 1, 1)]),
        (('datetime', {}), [dt(2000, 1, 1, 12, 30, 15), dt(1970, 1, 1, tzinfo=UTC),
            dt(2038, 1, 20, 1, 1, 1, tzinfo=Fixed(60))]),
        (('enumeration', {'enumeration': ['a', 1, True, 1.5, '']}), ['a', 1, 1.5, '']),
        (('field', {}), ['x', {'a': [1, None, {'b': 1.5}]}, [], 0, False, ()]),
    ]

def few_leaves():
    """One representative of each group of similar leaves, with few values."""
    kinds = {'text': 2, 'integer': 2, 'decimal': 2, 'binary': 2, 'date': 2, 'datetime': 2,
        'boolean': 2, 'field': 2}
    found = {}
    for term, values in leaves():
        if term[0] in kinds and term[0] not in found:
            found[term[0]] = (term, values[:kinds[term[0]]])
    return list(found.values())

# containers around one (term, values); each gives (term, values)

def in_structure(term, values):
    spec = ('structure', {'structure': {'a': term, 'b': ('text', {})}})
    return spec, [{'a': v} for v in values] + [{}, {'b': 'x', 'a': values[-1]}, {'a': None}]

def in_ordered(term, values):
    spec = ('structure', {'structure': {'a': term, 'b': ('text', {}), 'c': ('integer', {})},
        'key_order': ('c', 'a', 'b')})
    order = lambda d: OrderedDict((k, d[k]) for k in ('c', 'a', 'b') if k in d)
    return spec, [order({'a': v, 'b': 'x', 'c': 1}) for v in values[:2]] + [order({'c': 2}),
        order({})]

def in_poly(term, values):
    spec = ('structure', {'polymorphic_on': 'kind', 'structure': {'x': {'a': term},
        'y': {'b': ('text', {})}, 'z': {}}})
    return spec, [{'kind': 'x', 'a': v} for v in values[:3]] + [{'kind': 'x'}, {'kind': 'y',
        'b': 'q'}, {'kind': 'z'}]

def in_sequence(term, values):
    return ('sequence', {'item': term}), [[], [values[0]], list(values), [values[-1], None,
        values[0]]]

def in_map(term, values):
    return ('map', {'value': term}), [{}, {'k': values[0]}, dict(('k %d' % i, v)
        for i, v in enumerate(values)), {'': None}]

def in_keyed(term, values):
    return ('map', {'value': term, 'key': ('integer', {})}), [{}, {1: values[0], -5: values[-1]}]

def in_tuple(term, values):
    return ('tuple', {'values': [('integer', {}), term]}), [(i, v)
        for i, v in enumerate(values)] + [(None, None)]

def in_union(term, values):
    if term[0] in ('boolean', 'field', 'enumeration', 'union'):
        return None
    return ('union', {'fields': [('boolean', {}), term]}), [True, False] + list(values[:3])

WRAPPERS = [in_structure, in_sequence, in_map, in_tuple, in_poly, in_union, in_keyed, in_ordered]

def wrapped(pairs, wrappers=WRAPPERS):
    for term, values in pairs:
        for wrapper in wrappers:
            found = wrapper(term, values)
            if found:
                yield found

# containers with many members, each different from its neighbours

MEMBERS = [(('text', {}), 'ab', 5), (('integer', {'maximum': 99}), 7, 'x'), (('boolean', {}), False, 1),
    (('float', {}), 0.0, 'x'), (('date', {}), date(2001, 2, 3), 'x'), (('decimal', {}), D('1.50'), 'x'),
    (('time', {}), time(1, 2, 3), 5), (('sequence', {'item': ('text', {})}), ['p', '1'], {}),
    (('map', {'value': ('integer', {})}), {'k': 0}, []), (('datetime', {'utc': True}),
    dt(2001, 2, 3, 4, 5, 6, tzinfo=UTC), 'x'), (('structure', {'structure': {'z': ('date', {})}}),
    {'z': date(2002, 3, 4)}, {'u': 1}), (('tuple', {'values': [('integer', {}), ('text', {})]}),
    (1, '1'), (1,)), (('enumeration', {'enumeration': ['e', 'f']}), 'f', 'g'),
    (('uuid', {}), UUIDS[1], 'x'), (('email', {}), 'a@b.co', '@'), (('token', {}), 'a:b', ':')]

def wide_pairs():
    """(term, valid values, invalid values)"""
    terms = [m[0] for m in MEMBERS]
    good = [m[1] for m in MEMBERS]
    bad = [m[2] for m in MEMBERS]
    count = len(MEMBERS)
    def replaced(found, i, value):
        return found[:i] + [value] + found[i + 1:]
    for turn in (0, 5, 10):
        ts, gs, bs = [x[turn:] + x[:turn] for x in (terms, good, bad)]
        yield (('tuple', {'values': ts}), [tuple(gs)] + [tuple(replaced(gs, i, None))
            for i in range(count)] + [tuple([None] * count)], [tuple(replaced(gs, i, bs[i]))
            for i in range(count)] + [tuple(bs), tuple(gs[:-1]), tuple(gs + gs[:1])])
    names = ['n%d' % i if i % 3 else 'name_%d' % i for i in range(count)]
    fields = dict(zip(names, terms))
    full = dict(zip(names, good))
    valid = [full, {}] + [dict((k, v) for k, v in full.items() if k != n) for n in names] + [
        dict(full, **{n: None}) for n in names] + [{n: full[n]} for n in names]
    invalid = [dict(full, **{n: b}) for n, b in zip(names, bad)] + [dict(zip(names, bad)), dict(full,
        zz=1)]
    yield (('structure', {'structure': fields, 'name': 'wide'}), valid, invalid)
    yield (('structure', {'structure': fields, 'key_order': tuple(names[::-1])}), [OrderedDict((n, v[n])
        for n in names[::-1] if n in v) for v in valid], invalid[:-1])
    variants = dict(('v%d' % i, {'a': t, 'b%d' % i: ('integer', {})}) for i, t in enumerate(terms))
    yield (('structure', {'structure': variants, 'polymorphic_on': 'type'}), [{'type': 'v%d' % i, 'a': g}
        for i, g in enumerate(good)] + [{'type': 'v%d' % i, 'b%d' % i: i} for i in range(count)],
        [{'type': 'v%d' % i, 'a': b} for i, b in enumerate(bad)] + [{'type': 'v%d' % i, 'b%d' % (i - 1): 1}
        for i in range(1, count)] + [{'type': 'v%d' % count}])
    for i in range(count):
        if i % 3 == 0:
            yield (('map', {'value': terms[i]}), [dict((n, good[i]) for n in names)], [dict((n, bad[i] if n
                == m else good[i]) for n in names) for m in names])
            yield (('sequence', {'item': terms[i]}), [[good[i]] * 20, [None] * 5 + [good[i]] * 12],
                [replaced([good[i]] * count, j, bad[i]) for j in range(count)])
    yield wide_union()
    term, value, wrong = MEMBERS[4]
    for turn in range(4):
        for wrap in ['stmq', 'qtms', 'mqst', 'tsqm'][turn] * 3:
            if wrap == 's':
                term = ('structure', {'structure': {'a': term, 'b': ('text', {})}})
                value, wrong = {'a': value, 'b': '1'}, {'a': wrong, 'b': '1'}
            elif wrap == 't':
                term = ('tuple', {'values': [('text', {}), term]})
                value, wrong = ('1', value), ('1', wrong)
            elif wrap == 'm':
                term = ('map', {'value': term})
                value, wrong = {'k': value, 'l': None}, {'k': wrong, 'l': value}
            else:
                term = ('sequence', {'item': term})
                value, wrong = [value, None], [None, wrong]
        yield term, [value], [wrong]
        term, value, wrong = MEMBERS[4]

def wide_union():
    chosen = [MEMBERS[i] for i in (2, 1, 4, 10, 11, 5, 0)]
    return (('union', {'fields': [c[0] for c in chosen]}), [c[1] for c in chosen if c[0][0] != 'tuple'],
        [b'x', [1, 2, 3], 100])
