"""All histories of operations up to a bounded length on a shared schema (valid and invalid
processing, description, derivation, editing of derived and sibling schemas, vandalism of every
result handed out), each followed by every probe operation, whose outcomes must be those on a fresh
schema; every argument of every operation is compared with a deep snapshot."""

import collections
import copy
import datetime
import decimal
import itertools

from mc.core import Violation, load_scheme
from mc.spec import Fixed

D = decimal.Decimal
date, time, dt = datetime.date, datetime.time, datetime.datetime

BOUNDS = {
    'quick': '11 schemas, every history of one of about 60 operations and of two of 15 of them, '
        'then all other operations as probes in a fixed order; every pair of edits of one of two '
        'fields made of the same arguments, 12 constructors',
    'thorough': '11 schemas, every history of up to two of about 60 operations, then all other '
        'operations as probes in a fixed order',
}
ASSUMPTIONS = ['instantiators, extractors and preprocessors are pure functions']

def tag(kind):
    def call(field, value, key=None):
        return (kind, value)
    return call

# schemas: name -> function giving the schema and the data to use with it

def s_flat():
    from scheme import Boolean, Date, Decimal, Enumeration, Field, Integer, Map, Sequence, \
        Structure, Text
    schema = Structure({
        'a': Integer(minimum=1, default=3, title='t'),
        'b': Text(nonempty=True),
        'c': Sequence(Date(), unique=True, min_length=1, default=[date(2000, 1, 1)]),
        'f': Field(default={'x': [1, {'y': []}]}, extra=[1, [2]], aspects={'mark': True}),
        'm': Map(Decimal(), default={'k': D(1)}, required_keys=['k']),
        'e': Enumeration('a b c', ignored_values=['', 'none'], default='a'),
        's': Structure({'q': Boolean(default=False)}, default={}, strict=False),
    }, name='flat', key_order=['b', 'a', 'c', 'f', 'm', 'e', 's'])
    return schema, [
        {'b': 'x', 'c': [date(2001, 1, 1), date(2001, 1, 2)], 'f': [{'z': 1}], 'm': {'k': D(2)},
            's': {'q': True, 'zz': 5}},
        {'b': 'x', 'c': ['2001-01-01'], 'm': {'k': '2', 'l': None}, 'e': 'none'},
        {'b': ' x '},
        {'a': 0, 'c': [], 'm': {}, 'zz': 1, 'e': 'q'},
    ], {'a': '${one}', 'b': 'p ${two}', 'c': '${dates}', 'f': {'n': '${two}'}, 'm': {'k':
        '${dec}'}, 's': {'q': '${flag}'}}

def s_poly():
    from scheme import Enumeration, Field, Integer, Sequence, Structure, Text
    schema = Structure({
        '*': {'id': Integer(required=True)},
        'x': {'a': Text(default='d', mark=True), 'n': Structure({'v': Integer()})},
        'y': {'b': Sequence(Field(), default=[[]])},
        'z': {},
    }, polymorphic_on='kind', name='poly', key_order='kind id a', title='poly') if False else \
        Structure({
        '*': {'id': Integer(required=True)},
        'x': {'a': Text(default='d', mark=True), 'n': Structure({'v': Integer()})},
        'y': {'b': Sequence(Field(), default=[[]])},
        'z': {},
    }, polymorphic_on='kind', name='poly', default={'kind': 'x', 'id': 1, 'a': 'q'})
    return schema, [
        {'kind': 'x', 'id': 1, 'n': {'v': 5}}, {'kind': 'y', 'id': 2, 'b': [{'a': [1]}]},
        {'kind': 'y', 'id': 2}, {'kind': 'z'}, {'kind': 'w', 'id': 1}, {'id': 1},
        {'kind': 'x', 'id': 1, 'n': {'v': 'x', 'w': 1}},
    ], {'kind': 'x', 'id': '${one}', 'n': {'v': '${one}'}}

def s_sequence():
    from scheme import Binary, Integer, Sequence, Structure, Text, Tuple
    schema = Sequence(Structure({
        't': Tuple((Integer(default=1), Text(mark=True)), default=(1, 'x')),
        'b': Binary(min_length=1),
    }, mark=True), name='seq', max_length=3, mark=True, default=[{'t': (2, 'y')}])
    return schema, [[{'t': (1, 'a')}, {'b': b'YWJj'}], [{}], [{'t': ('x', 5)}, {'q': 1}, {}],
        [{}, {}, {}, {}], 'x'], [{'t': ['${one}', '${two}']}]

def s_map():
    from scheme import Boolean, Integer, Map, Sequence, Structure, Text
    from scheme.fields.union import Union
    schema = Map(Union((Boolean(), Integer(minimum=5), Structure({'a': Text(default='u')}),
        Sequence(Text()))), key=Integer(), required_keys=[1], name='mapped',
        default={1: True})
    return schema, [{1: True, 2: 5, 3: {}, 4: ['x']}, {'1': False, '2': '7'}, {1: 1, 2: []},
        {2: {'b': 1}}, {'x': True}], {1: '${flag}', 2: ['${two}']}

def s_tuple():
    from scheme import Binary, DateTime, Enumeration, Time, Tuple, UUID
    schema = Tuple((Binary(), DateTime(utc=True, minimum=dt(2000, 1, 1)), Enumeration([1, 'a'],
        ignored_values=['']), Time(), UUID()), name='tup', nonnull=True)
    good = (b'YWJj', dt(2001, 1, 1), 'a', time(1, 2), None)
    return schema, [good, list(good), (b'YWJj', '2001-01-01T00:00:00Z', '', '01:02:03', None),
        (b'!', dt(1999, 1, 1), 'b', 5, 'x'), (1, ), None], ['x', '${when}', '${letter}',
        '${none}', None]

def s_recursive():
    from scheme import Integer, Map, Sequence, Structure, Text, Undefined
    hole = Undefined()
    schema = Structure({'v': Integer(default=0), 'kids': Sequence(hole, default=[]), 'by':
        Map(hole)}, name='node')
    hole.define(schema)
    return schema, [{'kids': [{'v': 1, 'kids': [{}]}], 'by': {'k': {'v': 5}}}, {},
        {'kids': [{'v': 'x', 'kids': [{'z': 1}]}]}], {'kids': [{'v': '${one}'}]}

def s_special():
    from scheme import Definition, Error, Integer, Object, Structure, Surrogate, Text
    from scheme.exceptions import StructuralError
    from scheme.surrogate import surrogate
    schema = Structure({'d': Definition(valid_fields=['text', 'integer', 'sequence']), 'o':
        Object(), 'e': Error(), 's': Surrogate(), 'q': Text(constant='c')}, name='special')
    return schema, [
        {'d': Text(name='n', default='x'), 'o': collections.OrderedDict, 'e': StructuralError(
            {'token': 'x', 'title': 't', 'message': 'm'}), 's': surrogate({'id': 1})},
        {'d': {'fieldtype': 'sequence', 'item': {'fieldtype': 'integer', 'name': 'i'}}, 'o':
            'collections.OrderedDict', 'e': [None, [None, [{'token': 'y'}]]], 's': {'_': None,
            'id': [1]}, 'q': 'c'},
        {'d': {'fieldtype': 'date'}, 'o': 'no.such', 'e': 5, 's': 5, 'q': 'd'},
    ], {'q': '${two}', 'd': None}

def s_opaque():
    from scheme import Field
    schema = Field(name='f', default=[[1]], constant={'a': [1]}, notes='n', aspects={'deep':
        [1, {'a': [2]}]}, other=('x', ['y']), mark=True)
    return schema, [{'a': [1]}, {'a': [2]}, None, 5], '${data}'

def s_hooks():
    from scheme import FieldError, Integer, Map, Sequence, Structure, Text, Tuple
    schema = Structure({
        'a': Integer(instantiator=tag('a'), extractor=lambda f, v: v[1] if isinstance(v, tuple)
            else v, mark=True),
        'l': Sequence(Text(instantiator=tag('i'), preprocessor=lambda v: v.upper()),
            instantiator=tag('l'), extractor=lambda f, v: list(v)),
        'm': Map(Text(errors=[FieldError('invalid', 'mine', '%(field)s mine')]),
            preprocessor=lambda v: dict((k, v[k]) for k in v), mark=True),
        't': Tuple((Integer(), Integer(mark=False)), instantiator=tag('t')),
    }, name='hooks', instantiator=tag('s'), preprocessor=lambda v: dict(v))
    return schema, [{'a': 1, 'l': ['x', 'y'], 'm': {'k': 'v'}, 't': (1, 2)}, {'l': [5], 'm': {'k':
        5}, 't': (1, 'x')}, {'a': 5}], {'a': '${one}', 'l': ['${two}', 'z'], 't': ['1', 2]}

def s_generated():
    from scheme import Date, Field, Integer, Structure, Text
    schema = Structure({'a': Integer(default=1), 'b': Field(default={'k': [1]}), 'c': Text(),
        'd': Structure({'x': Date(default=date(2000, 1, 1)), 'y': Field(default=[[]])},
        generate_default=True)}, generate_default=True, name='gen')
    return schema, [{'a': 2}, {}, {'d': {}}, {'d': {'x': 'bad', 'y': [1]}, 'q': 1}], {'a':
        '${one}', 'b': {'k': '${two}'}}

def s_scalars():
    from scheme import Email, Float, Integer, Sequence, Structure, Text, Token
    schema = Structure(dict((n, f) for n, f in zip('abcdefg', (Email(), Email(multiple=True),
        Email(extended=True), Token(segments=2), Float(maximum=1.0), Text(pattern='^a',
        strip=False), Integer(constant=5)))), name='scalars', strict=False)
    return schema, [{'a': ' A@b.co', 'b': 'a@b.co; c@d.co', 'c': 'N <a@b.co>', 'd': 'x:y', 'e':
        0.5, 'f': 'a ', 'g': 5, 'zz': [1]}, {'a': 'x', 'b': 'x', 'c': 'x', 'd': 'x', 'e': 2.0,
        'f': ' a', 'g': 6}], {'a': '${two}', 'd': 'x:${two}', 'e': '${num}', 'g': '${one}'}

SCHEMAS = [s_flat, s_poly, s_sequence, s_map, s_tuple, s_recursive, s_special, s_opaque, s_hooks,
    s_generated, s_scalars]

PARAMETERS = {'one': 1, 'two': 'two', 'dates': [date(2000, 1, 1)], 'dec': '1.5', 'flag': True,
    'when': dt(2001, 1, 1), 'letter': 'a', 'none': None, 'data': {'a': [1]}, 'num': 1.5,
    'unused': [{'x': []}]}

# encoding of outcomes

def encode(value):
    from scheme.exceptions import StructuralError
    from scheme.field import Field
    if isinstance(value, StructuralError):
        text = str(value)
        if 'Traceback' in text:
            text = text.partition('Captured')[0]
        return ('error', type(value).__name__, encode(value.serialize()), text)
    if isinstance(value, Exception):
        return ('exception', type(value).__name__, str(value) if not isinstance(value, TypeError)
            else '')
    if isinstance(value, Field):
        # (descriptions of fields with undescribable defaults may fail)
        try:
            description = value.describe()
        except Exception as exception:
            description = exception
        return ('field', repr(value), encode(description), encode(value.default), value.name)
    if isinstance(value, dict):
        items = [(encode(k), encode(v)) for k, v in value.items()]
        if not isinstance(value, collections.OrderedDict):
            items.sort(key=repr)
        extra = ()
        if hasattr(value, 'surrogate'):
            extra = (value.surrogate, value.version, encode(value.schema))
        return ('dict', type(value).__name__, items, extra)
    if isinstance(value, (list, tuple)):
        return (type(value).__name__, [encode(v) for v in value])
    if callable(value):
        return ('callable', getattr(value, '__name__', ''))
    return (type(value).__name__, repr(value))

def vandalize(value, seen=None):
    """What a careless caller may do to data it was handed."""
    seen = set() if seen is None else seen
    if id(value) in seen:
        return
    seen.add(id(value))
    if isinstance(value, dict):
        for item in list(value.values()):
            vandalize(item, seen)
        value.clear()
        value['vandal'] = ['vandal']
    elif isinstance(value, list):
        for item in list(value):
            vandalize(item, seen)
        value[:] = ['vandal', {}]
    elif isinstance(value, (tuple, set)):
        for item in value:
            vandalize(item, seen)

def deface(field, seen=None):
    """Edits of a schema through its public editing operations, at every depth."""
    from scheme import Enumeration, Integer, Map, Sequence, Structure, Tuple
    seen = set() if seen is None else seen
    if id(field) in seen:
        return
    seen.add(id(field))
    if isinstance(field, Structure):
        groups = field.structure.values() if field.polymorphic_on else [field.structure]
        for group in groups:
            for child in list(group.values()):
                deface(child, seen)
        if field.polymorphic_on:
            return
        names = [n for n in field.structure]
        field.remove(*names[:1])
        field.insert(Integer(name='vandal', required=True), True)
        field.merge(dict((n, Integer(required=True)) for n in names[1:]), True)
    elif isinstance(field, Sequence):
        deface(field.item, seen)
    elif isinstance(field, Map):
        deface(field.value, seen)
    elif isinstance(field, Tuple):
        for child in field.values:
            deface(child, seen)
    elif isinstance(field, Enumeration):
        field.redefine(['vandal'])

def shallow(field, schema):
    """Edits of a derived schema itself, none of its shared parts."""
    from scheme import Integer, Structure
    if field is not schema and isinstance(field, Structure) and not field.polymorphic_on:
        names = list(field.structure)
        field.remove(*names[:2])
        field.insert(Integer(name='vandal', required=True), True)
        field.merge({'other': Integer(required=True)}, True)

class Bench(object):
    """One schema with its data and the operations on it."""

    def __init__(self, index):
        self.schema, self.values, self.subject = SCHEMAS[index]()
        self.recursive = SCHEMAS[index] is s_recursive

    def operations(self):
        """name -> (function(schema, argument), argument factory, kind)."""
        from scheme import Field, Integer, Structure, Text
        ops = collections.OrderedDict()

        def op(name, function, argument=None, kind='data'):
            ops[name] = (function, argument, kind)

        for i, value in enumerate(self.values):
            op('in%d' % i, lambda s, v: s.process(v), value)
            op('unser%d' % i, lambda s, v: s.unserialize(v), value)
            op('out%d' % i, lambda s, v: s.process(v, 'outbound'), value)
            op('ser%d' % i, lambda s, v: s.serialize(v), value)
        for i, value in enumerate(self.values[:2]):
            op('json%d' % i, lambda s, v: s.serialize(v, 'json'), value)
            op('yaml%d' % i, lambda s, v: s.serialize(v, 'yaml'), value)
            op('xml%d' % i, lambda s, v: s.serialize(v, 'xml'), value)
            op('extract%d' % i, lambda s, v: s.extract(v), value)
            op('extractmark%d' % i, lambda s, v: s.extract(v, False, mark=True), value)
            op('instantiate%d' % i, lambda s, v: s.instantiate(v), value)
        op('partial', lambda s, v: s.process(v, 'inbound', False, None, True), self.values[0])
        op('interpolate', lambda s, v: s.interpolate(*v), (self.subject, PARAMETERS))
        op('interpolate undefined', lambda s, v: s.interpolate(*v), (self.subject, {'two': 'x'}))
        op('describe', lambda s, v: s.describe())
        op('describe verbose', lambda s, v: s.describe(None, True))
        op('describe more', lambda s, v: s.describe(v), {'mark': 5, 'deep': None})
        op('reconstruct', lambda s, v: Field.reconstruct(v), lambda s: s.describe(), 'clone')
        op('visit', lambda s, v: Field.visit(v, lambda f: f['fieldtype']),
            lambda s: s.describe())
        op('clone', lambda s, v: s.clone(), None, 'clone')
        op('clone named', lambda s, v: s.clone(**v), {'name': 'other', 'title': ['t'], 'required':
            True}, 'clone')
        op('deepcopy', lambda s, v: copy.deepcopy(s), None, 'clone')
        op('filter', lambda s, v: s.filter(**v), {'mark': True}, 'derived')
        op('filter all', lambda s, v: s.filter(True, **v), {'mark': False, 'required': False},
            'derived')
        op('transform', lambda s, v: s.transform(lambda f: Integer(name=f.name) if f.type == 'text'
            else None), None, 'derived')
        op('transform none', lambda s, v: s.transform(lambda f: f), None, 'derived')
        op('repr', lambda s, v: repr(s))
        op('screen', lambda s, v: s.screen(mark=True))
        if not (isinstance(self.schema, Structure) and self.schema.polymorphic_on):
            op('extend', lambda s, v: s.extend({'vandal': Text(default='x')}), None, 'clone')
        op('replace', lambda s, v: s.replace(dict((n, Integer(default=1)) for n in 'abv')),
            None, 'derived')
        op('generate', lambda s, v: s.generate_defaults(sparse=False))
        op('generate x', lambda s, v: s.generate_defaults('x'))

        # other schemas sharing parts with this one
        def sibling(s, v):
            other = Structure(s.structure, name='sibling')
            other.insert(Integer(name='vandal', required=True))
            other.remove(*list(s.structure)[:2])
            return None
        def around(s, v):
            other = Structure({'inner': s, 'more': Text()}, name='outer')
            results = []
            for value in (v, {'inner': v}, {'inner': v, 'more': 5}, {}):
                for serialized in (False, True):
                    try:
                        results.append(other.process({'inner': copy.deepcopy(value)}, 'inbound', serialized))
                    except Exception as exception:
                        str(exception)
            vandalize(results)
            other.remove('inner')
        def aspects(s, v):
            Field(aspects=s.aspects, vandal=1)
        def subclass(s, v):
            from scheme import FieldError
            type('Vandal', (type(s), ), {'errors': [FieldError('invalid', 'vandal', 'vandal')],
                'parameters': {'vandal': None}})
        def errors(s, v):
            """Fields of every type with errors of their own, which are raised."""
            import scheme
            from scheme import FieldError
            from scheme.fields.union import Union
            given = {'Enumeration': ('a b', ), 'Sequence': (Text(), ), 'Map': (Text(), ), 'Tuple':
                ((Text(), ), ), 'Structure': ({'vandal': Text(required=True)}, )}
            for name in ('Binary', 'Boolean', 'Date', 'DateTime', 'Decimal', 'Definition', 'Email',
                    'Enumeration', 'Field', 'Float', 'Integer', 'Map', 'Object', 'Sequence',
                    'Structure', 'Surrogate', 'Text', 'Time', 'Token', 'Tuple', 'UUID', 'Error'):
                cls = getattr(scheme, name)
                mine = [FieldError(token, 'mine', 'mine') for token in list(cls.errors) + ['own']]
                for own in (mine, dict((e.token, e) for e in mine)):
                    made = cls(*given.get(name, ()), errors=own, nonnull=True)
                    for value in (None, object(), 'zz', -1, {}, []):
                        for serialized in (False, True):
                            try:
                                made.process(value, 'inbound', serialized)
                            except Exception as exception:
                                str(exception)
            Union((Integer(), ), errors=[FieldError('invalid', 'mine', 'mine')])
        op('errors', errors, None, 'edit')
        op('sibling', sibling, None, 'edit')
        op('around', around, self.values[0], 'edit')
        op('aspects', aspects, None, 'edit')
        op('subclass', subclass, None, 'edit')
        if self.recursive:
            # these have no finite result on a recursive schema
            for name in list(ops):
                if ops[name][2] in ('clone', 'derived') or name.startswith('describe'):
                    del ops[name]
            del ops['visit']
        return ops

def perform(bench, name, operation, wreck):
    """Outcome of one operation, the argument having been left as it was."""
    function, argument, kind = operation
    if callable(argument):
        argument = argument(bench.schema)
    else:
        argument = copy.deepcopy(argument)
    before = encode(argument)
    try:
        result = function(bench.schema, argument)
    except Exception as exception:
        result = exception
    outcome = encode(result)
    if encode(argument) != before:
        raise Violation('%s modified its argument: %r became %r' % (name, before,
            encode(argument)))
    if wreck:
        if kind == 'clone':
            deface(result)
        elif kind == 'derived':
            shallow(result, bench.schema)
        elif kind == 'data' and not isinstance(result, Exception):
            vandalize(result)
    return outcome

BASELINE = {}

def probes(bench):
    return [(n, o) for n, o in bench.operations().items() if o[2] != 'edit']

def baseline(index):
    """Outcome of every probe alone on a fresh schema, the same in either order of probing."""
    if index not in BASELINE:
        found = []
        for order in (1, -1):
            load_scheme(fresh=True)
            outcomes = {}
            for name, operation in probes(Bench(index))[::order]:
                bench = Bench(index)
                outcomes[name] = perform(bench, name, bench.operations()[name], False)
            found.append(outcomes)
        for name in found[0]:
            if found[0][name] != found[1][name]:
                raise Violation('%s on a fresh %s depends on what was done before: %r, %r' % (name,
                    SCHEMAS[index].__name__, found[0][name], found[1][name]))
        BASELINE[index] = found[0]
    return BASELINE[index]

PAIRS = ('in0', 'unser1', 'json0', 'extract0', 'interpolate', 'describe more', 'reconstruct',
    'clone named', 'filter', 'transform', 'generate', 'errors', 'sibling', 'around', 'subclass')

# constructors and their (mutable) arguments, and the edits possible on what they make

def constructors():
    from scheme import Definition, Enumeration, Field, FieldError, Integer, Map, Sequence, \
        Structure, Surrogate, Text, Tuple
    from scheme.fields.union import Union
    def n(name, cls=Integer, **params):
        return cls(name=name, **params)
    return [
        (Enumeration, {'enumeration': ['a', 'b', 3], 'ignored_values': ['', 'none'],
            'default': 'a', 'aspects': {'x': [1]}}),
        (Structure, {'structure': {'a': n('a'), 'b': n('b', Text), 'c': n('c')},
            'key_order': ['b', 'a'], 'default': {}}),
        (Structure, {'structure': {'*': {'i': n('i')}, 'x': {'a': n('a')}, 'y': {'b': n('b'),
            'a': n('a', Text)}, 'z': {}}, 'polymorphic_on': 'kind'}),
        (Structure, {'structure': {'x': {'a': n('a')}, 'y': {}}, 'polymorphic_on': Enumeration(
            ['x', 'y'], name='kind')}),
        (Sequence, {'item': Enumeration(['p', 'q']), 'default': ['p']}),
        (Map, {'value': n('v'), 'key': Enumeration(['k', 'l']), 'required_keys': ['k'],
            'default': {'k': 1}}),
        (Tuple, {'values': [n('a'), Enumeration(['x'])], 'default': [1, 'x']}),
        (Union, {'fields': [n('a'), n('b', Text)], 'default': ['x']}),
        (Surrogate, {'valid_surrogates': ['scheme.surrogate.surrogate']}),
        (Definition, {'fields': [n('a').type, 'text']}),
        (Field, {'errors': [FieldError('invalid', 't', 'm')], 'default': {'a': [1]}, 'constant':
            {'a': [1]}, 'aspects': {'one': [1]}, 'mark': ['x']}),
        (Field, {'errors': {'invalid': FieldError('invalid', 't', 'm')}}),
    ]

def edits(field):
    """name -> (edit, argument) of everything that edits a field in place, or derives another."""
    from scheme import Enumeration, Integer, Structure, Text
    found = {}
    if isinstance(field, Enumeration):
        for given in (['new'], ['a', 'new'], 'one two', []):
            for strategy in ('append', 'replace'):
                found['redefine %r %s' % (given, strategy)] = (lambda f, v, strategy=strategy:
                    f.redefine(v, strategy), given)
    if isinstance(field, Structure):
        more = {'a': Text(name='a'), 'new': Integer(name='new')}
        if not field.polymorphic_on:
            found['insert'] = (lambda f, v: f.insert(v, True), Integer(name='new'))
            found['remove'] = (lambda f, v: f.remove(*v), ['a', 'b'])
            for prefer in (True, False):
                found['merge %s' % prefer] = (lambda f, v, p=prefer: f.merge(v, p), more)
            found['extend'] = (lambda f, v: f.extend(v).remove('a', 'new'), more)
        found['replace'] = (lambda f, v: f.replace(v), more)
    for name, function in (('clone', lambda f, v: f.clone(**v)), ('describe', lambda f, v:
            f.describe(v)), ('filter', lambda f, v: f.filter(**v)), ('screen', lambda f, v:
            f.screen(**v))):
        found[name] = (function, {'title': 'other', 'mark': [1]})
    found['deface'] = (lambda f, v: deface(f), None)
    return found

def arguments(st, index):
    """Fields made of the same arguments, which are then edited, don't affect each other or the
    arguments."""
    cls, _ = constructors()[index]
    names = list(edits(cls(**constructors()[index][1])))
    for history in itertools.chain([(name,) for name in names], itertools.permutations(names, 2)):
        given = constructors()[index][1]
        before = encode(given)
        field, sibling = cls(**given), cls(**given)
        if encode(given) != before:
            raise Violation('%s(**%r) modified its arguments' % (cls.__name__, given))
        known = encode(sibling)
        for name in history:
            if name == 'deface' and cls.__name__ != 'Enumeration' and cls.__name__ != 'Field':
                # (fields given as arguments are shared, and edited where they stand)
                continue
            edit, argument = edits(field)[name]
            kept = encode(argument)
            edit(field, argument)
            if encode(argument) != kept:
                raise Violation('%s of a %s modified its argument: %r' % (name, cls.__name__,
                    argument))
            if encode(given) != before:
                raise Violation('%s of a %s modified the arguments it was made of: %r' % (name,
                    cls.__name__, given))
            if encode(sibling) != known or encode(cls(**given)) != known:
                raise Violation('%s of a %s affected another made of the same arguments: %r' % (
                    name, cls.__name__, sibling))
            st.step()
        st.state('arguments', index, history)
    st.trace('arguments')

def cases(tier):
    load_scheme()
    for index in range(len(constructors())):
        yield ('arguments', index, None)
    for index in range(len(SCHEMAS)):
        names = list(Bench(index).operations())
        for name in names:
            yield (index, name, [None])
        pairs = names if tier != 'quick' else [name for name in PAIRS if name in names]
        for name in pairs:
            for part in range(4):
                yield (index, name, pairs[part::4])

def run(case, st):
    index, first, lasts = case
    if index == 'arguments':
        return arguments(st, first)
    expected = baseline(index)
    for last in lasts:
        history = [name for name in (first, last) if name]
        for wreck in ((True, False) if last is None else (True, )):
            bench = Bench(index)
            operations = bench.operations()
            for name in history:
                perform(bench, name, operations[name], wreck)
            st.step(len(history))
            for name, operation in probes(bench):
                outcome = perform(bench, name, operation, False)
                if outcome != expected[name]:
                    raise Violation('after %r%s on a shared %s, %s gives\n%r\nbut on a fresh one'
                        '\n%r' % (history, wreck and ' with results modified by the caller' or '',
                        SCHEMAS[index].__name__, name, outcome, expected[name]))
            st.step(len(expected))
            st.trace('history of %d' % len(history))
            st.state(index, tuple(history), wreck)
