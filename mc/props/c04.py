"""All lists, maps and tuples up to a bounded length over an alphabet of valid, null, duplicate and
invalid items x all bounds and flags x phase x form, compared with the reference model."""

import itertools

from mc import ref, spec
from mc.core import Violation
from mc.domains import *
from mc.observe import PHASES, check_process

BOUNDS = {
    'quick': 'lists to length 4 over 5 items; bounds 0..3; maps over 3 keys; tuples of arity 1..3;'
        ' long lists to 300; nesting depth 2',
    'thorough': 'lists to length 5 over 6 items; bounds 0..4; maps over 4 keys; arity 1..4',
}

ITEMS = [
    (('integer', {}), [1, 2, None, 'x', '1', True]),
    (('text', {}), ['a', 'b', None, 5, ' a', '']),
    (('integer', {'nonnull': True, 'minimum': 0}), [1, 0, None, -1, 'x', 2]),
    (('date', {}), [date(2000, 1, 1), '2000-01-01', '2000-01-02', 5, None, date(2001, 1, 1)]),
    (('sequence', {'item': ('integer', {}), 'max_length': 1}), [[1], [2], [], [1, 2], ['x'], None]),
    (('structure', {'structure': {'a': ('integer', {'default': 0})}}), [{}, {'a': 0}, {'a': 1},
        {'a': 'x'}, {'z': 1}, None]),
    (('field', {}), [1, 'a', [1], {'a': 1}, None, True]),
    (('union', {'fields': [('integer', {}), ('text', {})]}), [1, 'a', None, 1.5, '1', []]),
    (('float', {}), [0.0, -0.0, 1.0, None, 'x', 1.5]),
    (('map', {'value': ('integer', {})}), [{}, {'a': 1}, {'a': 2}, {'a': 'x'}, {1: 1}, None]),
    (('tuple', {'values': [('integer', {})]}), [(1,), [1], (2,), ('x',), (), None]),
]

KEYS = [None, ('text', {}), ('text', {'min_length': 1, 'strip': False}), ('integer', {}),
    ('token', {}), ('date', {}), ('enumeration', {'enumeration': ['a', 'b', 1]}),
    ('text', {'nonnull': True, 'max_length': 1}), ('decimal', {}),
    ('tuple', {'values': [('integer', {}), ('text', {})]})]

def cases(tier):
    quick = tier == 'quick'
    bounds = [E_, 0, 1, 2, 3] + ([] if quick else [4])
    for i in range(len(ITEMS)):
        for p in grid(min_length=bounds, max_length=bounds):
            yield ('list', i, p, 4 if quick else 5, 4 if quick and i else 6)
    for i in range(len(KEYS)):
        for j in range(len(ITEMS)):
            yield ('map', i, j, 3 if quick else 4)
    for j in range(len(ITEMS)):
        yield ('required', j)
    for arity in range(1, 4 if quick else 5):
        for chosen in itertools.product(range(0, 6 if quick else 8), repeat=arity):
            if arity < 4 or len(set(chosen)) > 2:
                yield ('tuple', chosen, quick)
    yield ('long', )
    yield ('members', )
    for i in range(len(ITEMS)):
        yield ('types', i)
        yield ('nested', i)
    yield ('preprocessed', )

def everything(st, term, values, phases=PHASES):
    field = spec.build(term)
    st.state(repr(term))
    for value in values:
        for phase, serialized in phases:
            check_process(field, term, value, phase, serialized, st)
        st.state(repr(term), repr(value))

def run(case, st):
    kind = case[0]
    if kind == 'list':
        item, alphabet = ITEMS[case[1]]
        alphabet = alphabet[:case[4]]
        for unique in (E_, True):
            params = dict(case[2], item=item)
            if unique is not E_:
                params['unique'] = True
            term = ('sequence', params)
            depth = case[3] if unique is E_ or len(case[2]) < 2 else case[3] - 1
            if len(case[2]) == 2:
                depth = min(depth, case[3] - 1)
            everything(st, term, (list(chosen) for length in range(depth + 1)
                for chosen in itertools.product(alphabet, repeat=length)), PHASES)
    elif kind == 'map':
        key, (value, alphabet) = KEYS[case[1]], ITEMS[case[2]]
        names = ['a', 'b', '', 1, None, '1', ' c', date(2000, 1, 1), '2000-01-01', 1.5, 'bb', (1,), (1, 'a'),
            D('1.5'), dt(2000, 1, 1, 1, tzinfo=UTC)]
        term = ('map', {'value': value})
        if key:
            term[1]['key'] = key
        values = [{}]
        for count in range(1, case[3] + 1):
            subset = names if count < 3 else names[:5]
            for chosen in itertools.combinations(subset, count):
                items = alphabet if count == 1 else alphabet[:4 if case[3] > 3 or not key else 2] \
                    if count == 2 else alphabet[:3]
                for filled in itertools.product(items, repeat=count):
                    values.append(dict(zip(chosen, filled)))
        if key and key[0] in ('integer', 'decimal'):
            # two distinct keys denoting one are outside of the property
            values = [v for v in values if not ('1' in v and 1 in v)]
        if key and key[0] == 'date':
            values = [v for v in values if not (date(2000, 1, 1) in v and ('2000-01-01' in v))
                and not (date(2000, 1, 1) in v and dt(2000, 1, 1, 1, tzinfo=UTC) in v)
                and not ('2000-01-01' in v and dt(2000, 1, 1, 1, tzinfo=UTC) in v)]
        everything(st, term, values)
    elif kind == 'required':
        value, alphabet = ITEMS[case[1]]
        for key in KEYS:
            required = [['a'], ['a', 'b'], 'a b', ('b', ), [], ['zz', 'a']]
            if key and key[0] == 'integer':
                required = [[1], [1, 2]]
            elif key and key[0] == 'date':
                required = [[date(2000, 1, 1)]]
            elif key and key[0] == 'decimal':
                required = [[D('1.5')]]
            for names in required:
                params = {'value': value, 'required_keys': names}
                if key:
                    params['key'] = key
                values = []
                for chosen in ((), ('a', ), ('b', ), ('a', 'b'), ('a', 'b', 'zz'), ('zz', ),
                        (1, ), (1, 2), (date(2000, 1, 1), ), (D('1.5'), )):
                    for filled in itertools.product(alphabet[:3], repeat=len(chosen)):
                        values.append(dict(zip(chosen, filled)))
                everything(st, ('map', params), values)
    elif kind == 'tuple':
        fields = [ITEMS[i] for i in case[1]]
        term = ('tuple', {'values': [f for f, a in fields]})
        values = []
        size = 4 if len(fields) < 3 else 3
        for filled in itertools.product(*[a[:size] for f, a in fields]):
            values.append(filled)
            values.append(list(filled))
            values.append(filled[:-1])
            values.append(filled + filled[:1])
        values += [(), []]
        everything(st, term, values)
    elif kind == 'members':
        for term, values, wrong in wide_pairs():
            if term[0] not in ('structure', 'union'):
                everything(st, term, values + wrong)
    elif kind == 'long':
        for length in (5, 8, 16, 31, 64, 100, 255, 256, 257, 300):
            for bound in (length - 1, length, length + 1):
                for p in ({'min_length': bound}, {'max_length': bound}, {'unique': True},
                        {'unique': True, 'min_length': bound, 'max_length': bound}):
                    term = ('sequence', dict(p, item=('integer', {})))
                    plain = list(range(length))
                    values = [plain, plain[::-1], plain[:-1] + [0], plain[:-1] + ['x'],
                        ['x'] + plain[1:], plain[:length // 2] + [None] + plain[length // 2 + 1:],
                        [0] * length, plain[:-1] + [None]]
                    everything(st, term, values, PHASES[1:3])
            names = ['k%d' % i for i in range(length)]
            term = ('map', {'value': ('integer', {}), 'required_keys': names})
            full = dict((n, i) for i, n in enumerate(names))
            lacking = dict(full)
            del lacking[names[-1]]
            everything(st, term, [full, lacking, dict(full, extra=1), dict(full, k0='x')],
                PHASES[1:3])
            term = ('tuple', {'values': [('integer', {})] * length})
            everything(st, term, [list(range(length)), tuple(range(length)),
                tuple(range(length - 1)), tuple(range(length + 1)),
                tuple(range(length - 1)) + ('x', )], PHASES[1:3])
    elif kind == 'types':
        item, alphabet = ITEMS[case[1]]
        for p in grid(nonnull=[E_, True], required=[E_, True]):
            for kind, params in (('sequence', {'item': item}), ('map', {'value': item}),
                    ('tuple', {'values': [item]}), ('tuple', {'values': [item, item]})):
                everything(st, (kind, dict(params, **p)), POOL + [[v] for v in POOL] +
                    [(v, ) for v in POOL] + [{'k': v} for v in POOL])
    elif kind == 'nested':
        inner, alphabet = ITEMS[case[1]]
        alphabet = alphabet[:4]
        lists = [list(c) for n in range(3) for c in itertools.product(alphabet, repeat=n)]
        for p in ({}, {'min_length': 1}, {'max_length': 1}, {'unique': True}, {'min_length': 1,
                'max_length': 1, 'unique': True}):
            term = ('sequence', {'item': ('sequence', dict(p, item=inner)), 'max_length': 2})
            everything(st, term, [[a, b] for a in lists[:12] for b in lists] + [[a] for a in lists])
            term = ('map', {'value': ('sequence', dict(p, item=inner))})
            everything(st, term, [{'a': a, 'b': b} for a in lists[:12] for b in lists])
            term = ('tuple', {'values': [('sequence', dict(p, item=inner)), ('map', {'value':
                inner, 'required_keys': ['r']})]})
            everything(st, term, [(a, {'r': b, 's': b}) for a in lists[:12] for b in alphabet] +
                [(a, {'s': b}) for a in lists[:12] for b in alphabet])
            term = ('sequence', {'unique': True, 'item': ('map', {'value': ('sequence', dict(p,
                item=inner))})})
            everything(st, term, [[{'a': a}, {'a': b}] for a in lists[:8] for b in lists[:8]])
    elif kind == 'preprocessed':
        for name in ('same', 'twice'):
            for kind, params in (('sequence', {'item': ('integer', {}), 'min_length': 2}),
                    ('sequence', {'item': ('integer', {}), 'unique': True, 'max_length': 2}),
                    ('tuple', {'values': [('integer', {}), ('integer', {})]})):
                everything(st, (kind, dict(params, preprocessor=name)), [[], [1], [1, 2], None])
