"""Every schema of the grids is cloned, cloned twice and deep-copied, and compared with its
original by type, attributes of every node, description and behaviour on derived probe values;
every overridable parameter is overridden and the clone compared with a schema declared with that
parameter; then every single edit of every node of either side is made, after which the other side
must be as before."""

import copy
import datetime
import decimal
import re

from mc.core import Violation
from mc.domains import wide_pairs
from mc.freeze import behaviour, freeze, outcome, tree
from mc.probe import samples
from mc.props import c09
from mc.spec import build, with_params

D = decimal.Decimal
date, time, dt = datetime.date, datetime.time, datetime.datetime

BOUNDS = {
    'quick': 'every field type with parameter grids, alone and in 9 containers; every override of '
        'every scalar and container type; every edit of every node of 60 nested schemas',
    'thorough': 'as quick, parameter grids inside containers, containers of containers to depth 3',
}
ASSUMPTIONS = ['schemas with no undefined placeholders; recursive schemas cannot be cloned (a '
    'listed finding)', "the aspect 'representation' which enumerations gain when cloned, pinned "
    'by an existing test, is not compared']

NATIVE = [
    ('date', {'default': date(2000, 1, 2), 'constant': date(2000, 1, 2)}),
    ('date', {'minimum': date(2000, 1, 2)}),
    ('time', {'default': time(1, 2), 'minimum': time(0, 0)}),
    ('datetime', {'default': dt(2000, 1, 1), 'maximum': dt(2000, 1, 1, 12), 'utc': True}),
    ('datetime', {'minimum': dt(2000, 1, 1, 12)}),
    ('decimal', {'default': D('1.5'), 'minimum': D('1')}), ('decimal', {'constant': D('1.5')}),
    ('binary', {'default': b'abc', 'constant': b'abc'}),
    ('text', {'pattern': '^a', 'default': 'abc'}), ('text', {'preprocessor': 'upper'}),
    ('text', {'errors': [('invalid', 'mine', '%(field)s is mine'), ('pattern', 't', '%(field)s')],
        'pattern': 'b'}),
    ('integer', {'preprocessor': 'twice', 'minimum': 3}), ('integer', {'preprocessor': 'fail'}),
    ('integer', {'errors': [('minimum', 'mine', '%(field)s below %(minimum)d')], 'minimum': 3}),
    ('sequence', {'item': ('date', {}), 'default': [date(2000, 1, 1)], 'preprocessor': 'twice',
        'max_length': 3}),
    ('sequence', {'item': ('text', {}), 'errors': [('max_length', 'mine', '%(field)s long')],
        'max_length': 1}),
    ('map', {'value': ('date', {}), 'key': ('decimal', {}), 'default': {D(1): date(2000, 1, 1)},
        'required_keys': [D(1)], 'errors': [('required', 'r', '%(field)s %(name)s')]}),
    ('structure', {'structure': {'a': ('date', {'default': date(2000, 1, 1)})}, 'default': {'a':
        date(2001, 1, 1)}, 'preprocessor': 'same', 'errors': [('unknown', 'u',
        '%(field)s %(name)s')]}),
    ('tuple', {'values': [('time', {}), ('date', {})], 'default': (None, date(2000, 1, 1)),
        'preprocessor': 'same', 'errors': [('length', 'l', '%(field)s %(length)d')]}),
]

# parameter -> values, by type; '' for all types
OVERRIDES = {
    '': {'name': ['other', None], 'description': ['d'], 'title': ['t', ''], 'notes': ['n'],
        'required': [True, False], 'nonnull': [True, False], 'ignore_null': [True, False],
        'extra': [5], 'constant': [None]},
    'text': {'min_length': [0, 2], 'max_length': [1], 'strip': [False, True], 'default': ['', 'z'],
        'pattern': ['b'], 'preprocessor': ['upper'], 'constant': ['a', '']},
    'token': {'segments': [1], 'default': ['q']}, 'email': {'multiple': [True, False], 'min_length':
        [7]},
    'integer': {'minimum': [2, 0], 'maximum': [0, 3], 'default': [0], 'constant': [0, 5]},
    'float': {'minimum': [0.0], 'maximum': [1.5], 'default': [0.0]},
    'decimal': {'minimum': ['0'], 'maximum': ['1.5'], 'default': [D(0)]},
    'boolean': {'default': [False], 'constant': [False]},
    'binary': {'min_length': [1], 'max_length': [3], 'default': [b'']},
    'date': {'minimum': ['2000-01-02'], 'maximum': [date(2000, 1, 2)], 'default': [date(2000, 1,
        1)]},
    'time': {'minimum': ['12:30:15'], 'maximum': ['12:30:15']},
    'datetime': {'minimum': ['2000-01-01T12:00:00Z'], 'maximum': ['2000-01-01T12:00:00Z'], 'utc':
        [True, False]},
    'enumeration': {'enumeration': [['zz', 'a'], 'b c'], 'ignored_values': [['b'], ''], 'default':
        ['a']},
    'definition': {'valid_fields': [['text'], 'integer']},
    'surrogate': {'valid_surrogates': [['zz']]},
    'structure': {'strict': [True, False], 'key_order': [['b', 'a']], 'default': [{}, {'a': None}]},
    'sequence': {'min_length': [2, 0], 'max_length': [1], 'unique': [True, False], 'default': [[]]},
    'map': {'required_keys': [['k'], 'j'], 'default': [{}]},
    'tuple': {'default': [()]},
    'field': {'default': [[], 0], 'constant': [0]},
}
NESTED = {
    'sequence': {'item': [('text', {}), ('date', {'nonnull': True})]},
    'map': {'value': [('text', {})], 'key': [('integer', {}), ('text', {})]},
    'tuple': {'values': [[('text', {})], [('text', {}), ('integer', {}), ('date', {})]]},
    'union': {'fields': [[('text', {})]]},
}

def grids():
    for term in c09.scalars():
        yield term
    for term in NATIVE:
        yield term
    for term in c09.representative() + NATIVE:
        for container in c09.containers(term):
            yield container
    for leaf, default in ((('integer', {'maximum': 5}), 0), (('date', {}), date(2000, 1, 1))):
        for term in c09.parametrised(leaf, default):
            yield term

def cases(tier):
    for term in grids():
        yield ('clone', term)
    for term in c09.nested(2):
        yield ('clone', term)
        yield ('edit', term)
    for term, good, bad in wide_pairs():
        yield ('clone', term)
        yield ('override', term)
    for term in c09.representative() + NATIVE:
        yield ('override', term)
        yield ('edit', ('structure', {'structure': {'a': term, 'b': ('text', {})}}))
    for leaf in (('integer', {'minimum': 1, 'default': 2}), ('text', {'name': 'q'}), ('enumeration',
            {'enumeration': ['a', 'b']})):
        for term in c09.containers(leaf):
            yield ('override', term)
            yield ('edit', term)
    yield ('finding', )
    if tier != 'quick':
        for term in grids():
            yield ('override', term)
            for container in c09.containers(term):
                yield ('clone', container)
        for term in c09.nested(3):
            yield ('clone', term)
            if hash(repr(term)) % 4 == 0:
                yield ('edit', term)

def described(description):
    """A description without what cloned enumerations gain."""
    if isinstance(description, dict):
        return dict((k, described(v)) for k, v in description.items() if k != 'representation'
            or description.get('fieldtype') != 'enumeration')
    if isinstance(description, (list, tuple)):
        return type(description)(described(v) for v in description)
    return description

def description_of(field):
    try:
        return ('description', freeze(described(field.describe())), freeze(described(
            field.describe(None, True))))
    except Exception as exception:
        return ('undescribable', type(exception).__name__)

def image(field, values):
    """Everything observable about a schema."""
    nodes = []
    for path, node in tree(field):
        nodes.append((path, type(node).__name__, dict((name, freeze(getattr(node, name)))
            for name in ('name', 'description', 'title', 'notes', 'required', 'nonnull',
            'ignore_null', 'default', 'constant')), node.extractor, node.instantiator,
            freeze(dict((k, v) for k, v in node.aspects.items() if k not in ('representation',
            'timezone')))))
    return nodes, description_of(field), behaviour(field, values)

def difference(what, actual, expected, values):
    if actual[0] != expected[0]:
        raise Violation('%s has nodes\n%r\nrather than\n%r' % (what, actual[0], expected[0]))
    if actual[1] != expected[1]:
        raise Violation('%s is described as\n%r\nrather than\n%r' % (what, actual[1], expected[1]))
    for i, (new, old) in enumerate(zip(actual[2], expected[2])):
        if new != old:
            raise Violation('%s: %r (phase %d) gives %r rather than %r' % (what, values[i // 4],
                i % 4, new, old))

def marked(path, term):
    return {'extractor': EXTRACTORS[len(path) % 3], 'instantiator': INSTANTIATORS[len(path) % 2]}

def extract_one(field, value):
    return value
def extract_two(field, value):
    return value
def instantiate_one(field, value, key):
    return ('one', value, key)

EXTRACTORS = (extract_one, extract_two, None)
INSTANTIATORS = (instantiate_one, None)

def run(case, st):
    if case[0] == 'finding':
        return recursive(st)
    term = case[1]
    values = samples(term)
    if case[0] == 'clone':
        field = build(term, marked)
        original = image(field, values)
        clone = field.clone()
        for what, other in (('clone', clone), ('clone of clone', clone.clone()), ('deep copy',
                copy.deepcopy(field)), ('deep copy in a list', copy.deepcopy([field])[0])):
            if other is field:
                raise Violation('%s of %r is the field itself' % (what, term))
            difference('%s of %r' % (what, term), image(other, values), original, values)
            shared = set(map(id, (n for _, n in tree(field)))) & set(map(id, (n for _, n in
                tree(other))))
            if shared:
                raise Violation('%s of %r shares nested fields with it' % (what, term))
            st.step(len(original[2]))
            st.trace(what)
        difference('%r after being cloned' % (term,), image(field, values), original, values)
        st.state(repr(original[0]), repr(original[1]))
    elif case[0] == 'override':
        field = build(term)
        original = image(field, values)
        options = []
        for table in (OVERRIDES[''], OVERRIDES.get(term[0], {}), NESTED.get(term[0], {})):
            for name, choices in table.items():
                options += [{name: choice} for choice in choices]
        options += [{'name': 'x', 'required': True, 'nonnull': True, 'zz': 1}]
        for override in options:
            if term[0] == 'email' and override.get('multiple') and term[1].get('extended'):
                continue
            if 'polymorphic_on' in term[1] and ('default' in override and override['default']):
                continue
            if 'default' in override and term[0] == 'structure' and 'generate_default' in term[1]:
                continue
            base = term
            if term[1].get('nonempty'):
                # what nonempty stands for, of which each part can be overridden
                base = with_params(term, required=True, nonnull=True)
                del base[1]['nonempty']
                if term[0] in ('text', 'email', 'binary'):
                    base[1].setdefault('min_length', 1)
            wanted = build(with_params(base, **override))
            params = copy.deepcopy(override)
            for name in params:
                if name in ('item', 'value', 'key'):
                    params[name] = build(params[name])
                elif name in ('values', 'fields'):
                    params[name] = [build(f) for f in params[name]]
                elif name == 'preprocessor':
                    from mc.spec import PREPROCESSORS
                    params[name] = PREPROCESSORS[params[name]]
            clone = field.clone(**params)
            probes = values + samples(with_params(term, **override))[:8]
            difference('clone(%r) of %r' % (override, term), image(clone, probes), image(wanted,
                probes), probes)
            st.step(len(probes) * 4)
            st.trace('overridden')
            st.state(repr(term), repr(override))
        difference('%r after being cloned' % (term,), image(field, values), original, values)
    elif case[0] == 'edit':
        original = image(build(term), values)
        count = len(list(tree(build(term))))
        for position in range(count):
            for number in range(100):
                for side in (0, 1):
                    field = build(term)
                    pair = [field, field.clone() if number % 2 else copy.deepcopy(field)]
                    node = list(tree(pair[side]))[position][1]
                    applied = edit(node, number)
                    if not applied:
                        break
                    if applied == 'skip':
                        continue
                    difference('%s of %r after %r of the %s at node %d' % (side and 'original'
                        or 'clone', term, applied, side and 'clone' or 'original', position),
                        image(pair[1 - side], values), original, values)
                    st.step(len(values) * 4)
                    st.trace('edited')
                    st.state(repr(term), position, number, side)
                else:
                    continue
                break

def edit(node, number):
    """Applies one of the edits a node supports and names it; None when there are no more."""
    from scheme import Enumeration, Integer, Structure, Text
    general = [
        ('rename', lambda: setattr(node, 'name', 'renamed')),
        ('require', lambda: (setattr(node, 'required', not node.required), setattr(node, 'nonnull',
            not node.nonnull))),
        ('redefault', lambda: setattr(node, 'default', 'other')),
        ('aspect', lambda: node.aspects.update(vandal=1)),
    ]
    if isinstance(node, Structure) and not node.polymorphic_on:
        names = list(node.structure)
        general += [
            ('insert', lambda: node.insert(Integer(name='vandal', required=True))),
            ('overwrite', lambda: node.insert(Integer(name=(names or ['q'])[0], required=True),
                True)),
            ('merge', lambda: node.merge(dict((n, Integer(required=True)) for n in names + ['v']),
                True)),
            ('remove', lambda: node.remove(*names)),
        ]
    elif isinstance(node, Structure):
        def variants():
            for fields in node.structure.values():
                fields['vandal'] = Text(name='vandal', required=True)
        general += [('variants', variants)]
    elif isinstance(node, Enumeration):
        general += [('redefine', lambda: node.redefine(['vandal'])),
            ('replace', lambda: node.redefine('vandal', 'replace'))]
    if number >= len(general):
        return None
    general[number][1]()
    return general[number][0]

def recursive(st):
    """Recursive schemas have no finite clone under the present algorithm."""
    from scheme import Integer, Sequence, Structure, Undefined
    hole = Undefined()
    schema = Structure({'v': Integer(), 'kids': Sequence(hole)})
    hole.define(schema)
    try:
        clone = schema.clone()
    except RecursionError:
        st.violate('a recursive schema cannot be cloned', 'recursive-clone')
        st.trace('recursive')
        return
    value = {'v': 1, 'kids': [{'v': 2, 'kids': []}]}
    if clone.process(value) != value:
        raise Violation('clone of a recursive schema gives %r' % (clone.process(value),))
    st.trace('recursive')
