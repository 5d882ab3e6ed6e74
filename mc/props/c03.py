"""All combinations of field flags, presence, strictness, extra keys, partial processing, key order,
phase and form for structures of one to three fields, nested and polymorphic structures, compared
with the reference model."""

import itertools

from mc import ref, spec
from mc.core import Violation
from mc.domains import *
from mc.observe import PHASES, check_process

BOUNDS = {
    'quick': 'all flags of 1 and 2 fields x presence x strict x unknown x partial x order x phase;'
        ' 3 fields with 6 flag sets each; nested and polymorphic grids',
    'thorough': 'as quick, with 3 fields over 12 flag sets each and nested structures over all'
        ' flag sets of both levels',
}

ABSENT = Ellipsis

def flags(kind, defaults, full=True):
    found = []
    for p in grid(required=[E_, True], default=[E_] + defaults, nonnull=[E_, True],
            ignore_null=[E_, True]):
        found.append((kind, p))
    found.append((kind, {'nonempty': True}))
    found.append((kind, {'nonempty': True, 'default': defaults[0]}))
    return found

INTS = flags('integer', [0, 7])
TEXTS = flags('text', ['', 'd'])
SOME = [('integer', {}), ('integer', {'required': True}), ('integer', {'default': 0}),
    ('integer', {'default': 7, 'required': True, 'ignore_null': True}),
    ('integer', {'nonnull': True, 'default': 0}), ('integer', {'ignore_null': True,
        'required': True})]
MORE = SOME + [('integer', {'nonempty': True}), ('integer', {'ignore_null': True, 'default': 0}),
    ('integer', {'nonnull': True}), ('integer', {'nonnull': True, 'ignore_null': True,
        'required': True}), ('integer', {'default': 7}), ('integer', {'ignore_null': True})]

def presence(name, kind):
    good, bad = (5, 'x') if kind == 'integer' else ('t', 5)
    return [ABSENT, None, good, bad]

def cases(tier):
    for i in range(len(INTS)):
        yield ('one', i)
    for i in range(len(INTS)):
        yield ('two', i)
    pool = SOME if tier == 'quick' else MORE
    for i in range(len(pool)):
        for j in range(len(pool)):
            yield ('three', len(pool), i, j)
    inner = SOME if tier == 'quick' else INTS
    for i in range(len(inner)):
        yield ('nested', tier == 'quick', i)
    for i in range(len(polymorphs())):
        yield ('poly', i)
    for i in range(len(DEFAULTS)):
        yield ('defaults', i)
    yield ('partial', )
    yield ('preprocessed', )
    yield ('shapes', )
    yield ('wide', )
    yield ('generated', )
    yield ('members', )
    yield ('binary', )

DEFAULTS = [
    (('text', {'strip': False}), ['', ' ', 'x']),
    (('boolean', {}), [False, True]),
    (('float', {}), [0.0, -0.0, 1.5]),
    (('decimal', {}), [D('0'), D('1.50')]),
    (('date', {}), [date(1, 1, 1)]),
    (('time', {}), [time(0, 0)]),
    (('datetime', {'utc': True}), [dt(2000, 1, 1, tzinfo=UTC)]),
    (('enumeration', {'enumeration': [0, 1, '', False]}), [0, '']),
    (('sequence', {'item': ('integer', {})}), [[], [0]]),
    (('map', {'value': ('integer', {})}), [{}, {'a': 0}]),
    (('tuple', {'values': [('integer', {})]}), [(0,)]),
    (('structure', {'structure': {'q': ('integer', {}), 'r': ('integer', {'default': 0})}}),
        [{}, {'q': 0}, {'q': None, 'r': 2}]),
    (('union', {'fields': [('integer', {}), ('text', {})]}), [0, '']),
    (('field', {}), [0, '', False, [], {}, ()]),
    (('token', {}), ['a']),
    (('integer', {'minimum': 5}), [0]),
]

def polymorphs():
    found = []
    variants = {'x': {'a': ('integer', {'required': True})}, 'y': {'a': ('text', {}),
        'b': ('integer', {'default': 0})}, 'z': {}}
    for on in ('kind', ('enumeration', {'enumeration': ['x', 'y', 'z', 'w'], 'name': 'kind'}),
            ('text', {'name': 'kind'}), ('token', {'name': 'kind', 'nonnull': True})):
        for strict in (True, False):
            found.append(('structure', {'polymorphic_on': on, 'structure': variants,
                'strict': strict}))
        found.append(('structure', {'polymorphic_on': on, 'structure': dict(variants, **{
            '*': {'c': ('integer', {'default': 0}), 'd': ('integer', {'required': True})}})}))
        found.append(('structure', {'polymorphic_on': on, 'structure': variants,
            'key_order': ('b', 'kind', 'a')}))
        found.append(('structure', {'polymorphic_on': on, 'structure': dict(variants, **{'*': {
            'c': ('integer', {}), 'd': ('integer', {'default': 1})}}), 'key_order': 'd q a'}))
    found.append(('structure', {'polymorphic_on': ('integer', {'name': 'kind'}), 'structure': {
        1: variants['x'], 2: variants['y'], 0: {}}}))
    found.append(('structure', {'polymorphic_on': ('enumeration', {'name': 'kind',
        'enumeration': ['x', 'y', 'z'], 'default': 'x', 'ignored_values': ['']}),
        'structure': variants}))
    for kind, x, y, z in (('date', date(1, 1, 1), date(999, 12, 31), date(2000, 1, 1)),
            ('time', time(0), time(3, 4, 5), time(1)), ('decimal', D('1.5'), D('0'), D('2')),
            ('boolean', True, False, None), ('float', 0.0, 1.5, 2.0)):
        structure = {x: variants['x'], y: variants['y']}
        if z is not None:
            structure[z] = {}
        found.append(('structure', {'polymorphic_on': (kind, {'name': 'kind'}), 'structure':
            structure}))
        found.append(('structure', {'polymorphic_on': (kind, {'name': 'kind'}), 'structure':
            dict(structure, **{'*': {'c': ('integer', {'default': 0}), 'd': ('integer', {})}}),
            'strict': False}))
    return found

def everything(st, term, values, partial=False):
    field = spec.build(term)
    st.state(repr(term))
    for value in values:
        for phase, serialized in PHASES:
            check_process(field, term, value, phase, serialized, st)
            if partial:
                check_process(field, term, value, phase, serialized, st, partial=True)

def inputs(names, options, unknown=True):
    for chosen in itertools.product(*options):
        value = dict((n, v) for n, v in zip(names, chosen) if v is not ABSENT)
        yield value
        if unknown:
            yield dict(value, zz=1)

def run(case, st):
    kind = case[0]
    if kind == 'one':
        for pool, name in ((INTS, 'integer'), (TEXTS, 'text')):
            field = pool[case[1]]
            for strict in (E_, True, False):
                for order in (E_, 'a', ('a', ), 'b', 'zz a b'):
                    params = {'structure': {'a': field}}
                    if strict is not E_:
                        params['strict'] = strict
                    if order is not E_:
                        params['key_order'] = order
                    everything(st, ('structure', params), list(inputs('a', [presence('a', name)]))
                        + [dict(a=None, zz=None), {'zz': 1, 'yy': None}, {1: 2}, {'': 1},
                        {'A': 1}, {'a ': 1}], True)
    elif kind == 'two':
        values = list(inputs('ab', [presence('a', 'integer'), presence('b', 'text')]))
        for i, other in enumerate(TEXTS):
            for strict in (True, False):
                params = {'structure': {'a': INTS[case[1]], 'b': other}, 'strict': strict}
                if (i + case[1]) % 3 == 1:
                    params['key_order'] = 'b a'
                elif (i + case[1]) % 3 == 2:
                    params['key_order'] = ('a', 'b')
                everything(st, ('structure', params), values, True)
    elif kind == 'three':
        pool = (SOME if case[1] == len(SOME) else MORE)
        values = list(inputs('abc', [presence(n, 'integer') for n in 'abc'], False))
        for i, third in enumerate(pool):
            params = {'structure': {'a': pool[case[2]], 'b': pool[case[3]], 'c': third}}
            everything(st, ('structure', params), values)
            params = dict(params, key_order=('c a b', 'c', 'b zz', 'b a')[i % 4], strict=False)
            everything(st, ('structure', params), [dict(v, d=1) for v in values])
    elif kind == 'nested':
        pool = SOME if case[1] else INTS
        for outer in flags('structure', [{}, {'a': 5}]):
            inner = ('structure', dict(outer[1], structure={'a': pool[case[2]],
                'b': ('text', {})}))
            term = ('structure', {'structure': {'s': inner, 't': ('text', {'default': ''})}})
            deep = [ABSENT, None, {}, {'a': 5}, {'a': None}, {'a': 'x'}, {'b': 't'},
                {'a': 5, 'zz': 1}, [], 5]
            everything(st, term, list(inputs('st', [deep, [ABSENT, None, 'x', 5]])), True)
    elif kind == 'poly':
        term = polymorphs()[case[1]]
        kinds = [ABSENT, None, 'x', 'y', 'z', 'w', '*', '', 0, 1, 2, '1', 5, True, [], {}, 'kind']
        kinds += [k for k in term[1]['structure'] if k not in kinds or k is False]
        kinds += {'date': ['0001-01-01', '0999-12-31', '1-1-1'], 'time': ['00:00:00', '03:04:05'],
            'decimal': ['1.5', '0', '0.0', '2', D('1.50')], 'boolean': ['true', False],
            'float': ['0.0', 1.5]}.get(term[1]['polymorphic_on'][0], [])
        rest = [{}, {'a': 1}, {'a': 'x'}, {'a': None}, {'b': 1}, {'a': 1, 'b': 1},
            {'a': 't', 'b': None}, {'c': 1, 'd': 2}, {'a': 1, 'd': 2}, {'a': 1, 'd': None, 'c': 3},
            {'d': 1}, {'zz': 1, 'a': 1}, {'a': 't', 'b': 'x'}]
        values = []
        for k, r in itertools.product(kinds, rest):
            values.append(dict(r) if k is ABSENT else dict(r, kind=k))
        everything(st, term, values, True)
        everything(st, ('structure', {'structure': {'p': spec.with_params(term, nonnull=True),
            'q': spec.with_params(term, default={'kind': 
                sorted(term[1]['structure'], key=str)[-1], 'd': 1})}}),
            [{'p': v, 'q': v} for v in values] + [{'p': v} for v in values])
        everything(st, ('sequence', {'item': term}), [[v, values[30]] for v in values])
    elif kind == 'defaults':
        term, defaults = DEFAULTS[case[1]]
        for default in defaults:
            for p in grid(required=[E_, True], nonnull=[E_, True], ignore_null=[E_, True]):
                field = (term[0], dict(term[1], default=default, **p))
                everything(st, ('structure', {'structure': {'a': field}}), [{}, {'a': None},
                    {'a': default}], True)
                everything(st, ('structure', {'structure': {'a': field, 'b': ('text', {})},
                    'key_order': 'b a'}), [{}, {'b': 'x'}, {'b': 'x', 'a': None}], True)
                everything(st, ('sequence', {'item': ('structure', {'structure': {'a': field}})}),
                    [[{}, {}], [{'a': default}, {}]])
                everything(st, ('structure', {'polymorphic_on': 'kind', 'structure': {
                    'x': {'a': field}, 'y': {'a': ('text', {'default': 'other'})}}}),
                    [{'kind': 'x'}, {'kind': 'y'}, {'kind': 'x', 'a': None}], True)
    elif kind == 'partial':
        inner = ('structure', {'structure': {'r': ('integer', {'required': True}),
            'd': ('integer', {'default': 3})}})
        for strict in (True, False):
            term = ('structure', {'strict': strict, 'structure': {'r': ('integer',
                {'required': True}), 'd': ('integer', {'default': 0}), 's': inner,
                'n': ('integer', {'nonempty': True}), 'i': ('integer', {'ignore_null': True})}})
            values = []
            for names in itertools.product((0, 1, 2), repeat=5):
                value = {}
                for name, how in zip('rdsni', names):
                    if how == 1:
                        value[name] = {} if name == 's' else 4
                    elif how == 2:
                        value[name] = {'r': 1} if name == 's' else None
                values.append(value)
                if names[0] == 1:
                    values.append(dict(value, zz=0))
            everything(st, term, values, True)
    elif kind == 'preprocessed':
        for name in ('same', 'fail', 'upper'):
            term = ('structure', {'structure': {'a': ('integer', {'required': True})},
                'preprocessor': name, 'nonnull': True})
            everything(st, term, [{}, {'a': 1}, None, 5, [], {'zz': 1}])
            term = ('structure', {'structure': {'a': ('text', {'preprocessor': name,
                'default': 'q'})}})
            everything(st, term, [{}, {'a': 'z'}, {'a': None}, {'a': 5}])
    elif kind == 'shapes':
        for p in grid(nonnull=[E_, True], strict=[E_, False], required=[E_, True]):
            term = ('structure', dict(p, structure={}))
            everything(st, term, list(POOL) + [{'a': 1}, {'': None}], False)
            term = ('structure', dict(p, structure={'a': ('text', {}), '': ('integer', {}),
                'a.b': ('integer', {'required': True}), 'A': ('integer', {'default': 1})}))
            everything(st, term, list(POOL) + [{'a': 'x', 'a.b': 1}, {'': 1, 'a.b': 2, 'A': 3}])
    elif kind == 'wide':
        names = ['f%02d' % i for i in range(40)]
        fields = {}
        for i, name in enumerate(names):
            fields[name] = MORE[i % len(MORE)]
        order = tuple(names[i * 7 % 40] for i in range(40))
        full = dict((n, i) for i, n in enumerate(names))
        values = [full, {}] + [dict((k, v) for k, v in full.items() if k != n) for n in names] + \
            [dict(full, **{n: None}) for n in names] + [dict(full, **{n: 'x'}) for n in names]
        for params in ({}, {'key_order': order}, {'key_order': ' '.join(order), 'strict': False}):
            everything(st, ('structure', dict(params, structure=fields)), values, True)
    elif kind == 'members':
        for term, values, wrong in wide_pairs():
            if term[0] == 'structure':
                everything(st, term, values + wrong, True)
    elif kind == 'generated':
        generated(st)
    elif kind == 'binary':
        binary(st)

def binary(st):
    """The default of a binary field, which is native data, must not be decoded."""
    from mc.observe import Raised, attempt
    for default in (b'abc', b'YWJj', b'', b'abcd'):
        field = spec.build(('structure', {'structure': {'a': ('binary', {'default': default})}}))
        for serialized in (False, True):
            st.state('binary', default, serialized)
            result = attempt(field.process, {}, 'inbound', serialized)
            if isinstance(result, Raised) or result != {'a': default}:
                st.violate('default %r of a binary field gives %r' % (default, result),
                    'binary-default:%r:serialized=%r' % (default, serialized))
            st.step()
            st.trace('binary default')

def generated(st):
    """Defaults generated from the defaults and constants of the fields."""
    import scheme
    from scheme import Integer, Structure, Text
    for a in (None, 0, 5):
        for b in (None, '', 'x'):
            for c in (None, 1):
                expected = dict((k, v) for k, v in (('a', a), ('b', b), ('c', c))
                    if v is not None)
                make = lambda **p: Structure({'a': Integer(default=a), 'b': Text(default=b),
                    'c': Integer(constant=c)}, **p)
                st.state('generated', a, b, c)
                for identity in (None, 'x'):
                    if identity:
                        expected = dict(expected, kind='x')
                        field = Structure({'x': {'a': Integer(default=a), 'b': Text(default=b),
                            'c': Integer(constant=c)}, 'y': {}}, polymorphic_on='kind',
                            generate_default='x')
                        defaults = field.generate_defaults('x')
                    else:
                        field = make(generate_default=True)
                        defaults = field.generate_defaults()
                    if field.default != expected or defaults != expected:
                        raise Violation('generated default %r, expected %r' % (field.default,
                            expected))
                    result = Structure({'s': field}).process({}, 'inbound')
                    if expected and result != {'s': expected}:
                        raise Violation('generated default %r gives %r' % (expected, result))
                    st.step(3)
                    st.trace('generated')
                everything = dict(a=a, b=b, c=c)
                for first in ('x', 7, 0):
                    field = Structure({first: {'a': Integer(default=a), 'b': Text(default=b),
                        'c': Integer(constant=c)}, 8: {'d': Text(), 'e': Integer(default=4)},
                        9: {}}, polymorphic_on=scheme.Enumeration([first, 8, 9], name='kind'))
                    present = dict((k, v) for k, v in everything.items() if v is not None)
                    for sparse in (True, False):
                        one = present if sparse else everything
                        wanted = {first: dict(one, kind=first), 8: {'e': 4, 'kind': 8},
                            9: {'kind': 9}}
                        if not sparse:
                            wanted[8]['d'] = None
                        st.step()
                        if field.generate_defaults(sparse=sparse) != wanted:
                            raise Violation('%r: generate_defaults(sparse=%r) gives %r, expected '
                                '%r' % (field, sparse, field.generate_defaults(sparse=sparse),
                                wanted))
                        for kind in wanted:
                            if field.generate_defaults(kind, sparse) != wanted[kind]:
                                raise Violation('%r: generate_defaults(%r, %r) gives %r' % (field,
                                    kind, sparse, field.generate_defaults(kind, sparse)))
                if make().generate_defaults(sparse=False) != everything:
                    raise Violation('full defaults %r, expected %r' % (
                        make().generate_defaults(sparse=False), everything))
                st.step()
