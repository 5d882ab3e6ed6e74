"""Every implementation (generic, one version, three versions, inherited, contributing, dynamic,
unknown) x version x content x way of serializing (directly, through fields, nested in each
container and in other surrogates, through formats), restrictions, malformed data, construction and
every history of up to three operations on shared data: the type, content, version and schema of
what comes back are compared with a model over schema terms."""

import itertools
import sys
import types

from mc import ref, spec
from mc.core import Violation
from mc.domains import *
from mc.freeze import freeze
from mc.observe import Raised, attempt, compare, expect, snapshot

BOUNDS = {
    'quick': '7 implementations x every version x up to 12 contents x {direct, field, 5 containers,'
        ' 2 formats, nested surrogates to depth 3} x every restriction to up to two implementations;'
        ' 40 malformed forms; every sequence of two operations from a menu of 34 sharing their'
        ' data; 9 ways of construction',
    'thorough': 'the same with every sequence of three operations and every pair of nested'
        ' implementations',
}
ASSUMPTIONS = (
    'the content of a surrogate does not use the keys reserved by serialization',
    'implementations are classes of an importable module; the content of schemaless surrogates is'
    ' plain data',
)

INT, TEXT = ('integer', {}), ('text', {})

def S(**fields):
    return ('structure', {'structure': fields})

ONE = S(id=('text', {'nonempty': True}), n=INT)
FIRST = S(id=TEXT)
SECOND = S(id=TEXT, when=('date', {'required': True}))
THIRD = ('structure', {'structure': {'id': ('token', {'required': True}),
    'tags': ('sequence', {'item': ('date', {})}), 'blob': ('binary', {}),
    'n': ('integer', {'default': 9})}, 'strict': False})
HOLDER = S(id=TEXT, inner=('surrogate', {}), more=('sequence', {'item': ('surrogate', {})}))
DYNAMIC = [
    S(a=('integer', {'minimum': 1, 'required': True}), b=('date', {})),
    S(a=('structure', {'structure': {'b': ('binary', {})}}), c=('map', {'value': INT})),
    ('structure', {'structure': {'x': INT, 'y': ('decimal', {})}, 'key_order': 'y x'}),
    ('structure', {'polymorphic_on': 'kind', 'structure': {'p': {'a': INT},
        'q': {'b': ('sequence', {'item': ('time', {})})}}}),
    S(s=('surrogate', {}), e=('enumeration', {'enumeration': [1, 'x']})),
    S(),
]

MODULE = 'surrogates_under_check'
NAMES = ('One', 'Three', 'Child', 'Contributing', 'Plain', 'Holder')
SCHEMAS = {'One': [ONE], 'Three': [FIRST, SECOND, THIRD], 'Child': [FIRST, SECOND, THIRD],
    'Contributing': [FIRST, S(id=TEXT, extra=INT)], 'Plain': None, 'Holder': [HOLDER],
    'surrogate': None}

def token(name):
    return 'scheme.surrogate.surrogate' if name == 'surrogate' else '%s.%s' % (MODULE, name)

def implementations():
    """A new module of implementations."""
    from scheme.surrogate import surrogate
    surrogate.cache.clear()
    module = sys.modules[MODULE] = types.ModuleType(MODULE)

    def contribute(cls, value, version):
        value['extra'] = version
    def acquire(cls, version, **params):
        return cls.acquired(version, **params)
    for name in NAMES:
        namespace = {'__module__': MODULE, '_acquire_surrogate': classmethod(acquire)}
        base = surrogate
        if name == 'Child':
            base = module.Three
        elif SCHEMAS[name]:
            namespace['schemas'] = [spec.build(term) for term in SCHEMAS[name]]
        if name == 'Contributing':
            namespace['contribute'] = classmethod(contribute)
        setattr(module, name, type(surrogate)(name, (base,), namespace))
    module.surrogate = surrogate
    return module

# a surrogate by term: (implementation, version, dynamic schema term or None, content); the content
# may hold further surrogates by term

class Sur(object):
    def __init__(self, name, version, schema, content):
        self.name, self.version, self.schema, self.content = name, version, schema, content
    def __repr__(self):
        return 'Sur(%r, %r, %r, %r)' % (self.name, self.version, self.schema, self.content)
    def __eq__(self, other):
        return isinstance(other, Sur) and repr(self) == repr(other)
    def __hash__(self):
        return hash(repr(self))

    @property
    def term(self):
        if self.schema:
            return self.schema
        if SCHEMAS[self.name]:
            return SCHEMAS[self.name][self.version - 1]

class Model(ref.Model):
    """Fields holding surrogates, in terms of Sur."""
    def _surrogate(self, params, value, phase, serialized, path, name, partial):
        def refuse(kind, type_error=False):
            raise ref.Refused(path, name, [kind], type_error)
        if serialized and phase == ref.INBOUND and isinstance(value, dict):
            value = self.read(value, path)
            if value is None:
                refuse('invalid', True)
        if not isinstance(value, Sur):
            refuse('invalid', True)
        valid = params.get('valid_surrogates')
        if isinstance(valid, str):
            valid = valid.split(' ')
        if valid and token(value.name) not in valid:
            refuse('invalid-surrogate')
        if serialized and phase == ref.OUTBOUND:
            return self.write(value, path)
        return value

    def write(self, sur, path='(structure)'):
        term = sur.term
        content = dict(sur.content)
        if term:
            content = self.process(term, content, ref.OUTBOUND, True, path)
            if sur.schema:
                content['__schema__'] = ('schema', sur.schema)
            elif sur.version > 1:
                content['__version__'] = sur.version
        content['_'] = token(sur.name)
        return content

    def read(self, data, path='(structure)'):
        """The Sur serialized as ``data``, None when it's malformed."""
        data = dict(data)
        name = data.pop('_', None)
        prefix = MODULE + '.'
        if name == token('surrogate') or not isinstance(name, str):
            if not (name is None or isinstance(name, (str, int))):
                return None
            name = 'surrogate'
        elif name.startswith(prefix) and name[len(prefix):] in NAMES:
            name = name[len(prefix):]
        elif name in MALFORMED_TOKENS:
            return None
        else:
            name = 'surrogate'
        if '__schema__' in data:
            schema = data.pop('__schema__')
            if not (isinstance(schema, tuple) and schema[0] == 'schema'):
                return None
            return Sur(name, None, schema[1], self.process(schema[1], data, ref.INBOUND, True, path))
        elif SCHEMAS[name]:
            version = data.pop('__version__', 1)
            if not isinstance(version, int) or not 1 <= version <= len(SCHEMAS[name]):
                return None
            return Sur(name, version, None, self.process(SCHEMAS[name][version - 1], data,
                ref.INBOUND, True, path))
        return Sur(name, None, None, data)

MODEL = Model()
MALFORMED_TOKENS = ('os.path', 'json.JSONDecoder', 'os', MODULE)

# between terms and real values

class World(object):
    def __init__(self):
        self.module = implementations()

    def real(self, value):
        """The real value of a term."""
        if isinstance(value, Sur):
            schema = spec.build(value.schema) if value.schema else None
            return getattr(self.module, value.name)(self.real(value.content), schema,
                value.version)
        if isinstance(value, dict):
            return dict((k, self.real(v)) for k, v in value.items())
        if isinstance(value, tuple) and len(value) == 2 and value[0] == 'schema':
            return spec.build(value[1]).describe()
        if isinstance(value, (list, tuple)):
            return type(value)(self.real(v) for v in value)
        return value

    def problem(self, actual, expected):
        """None, or how ``actual`` differs from the term ``expected``."""
        if isinstance(expected, Sur):
            cls = getattr(self.module, expected.name)
            if type(actual) is not cls:
                return '%r is a %s, expected a %s' % (actual, type(actual).__name__, cls.__name__)
            if actual.version != expected.version or type(actual.version) is not \
                    type(expected.version):
                return '%r has version %r, expected %r' % (actual, actual.version,
                    expected.version)
            if (actual.schema is None) != (expected.schema is None):
                return '%r has schema %r, expected %r' % (actual, actual.schema, expected.schema)
            if expected.schema and freeze(actual.schema.describe()) != freeze(
                    spec.build(expected.schema).describe()):
                return '%r has schema %r, expected %r' % (actual, actual.schema, expected.schema)
            if actual.surrogate != token(expected.name):
                return '%r claims to be %r' % (actual, actual.surrogate)
            return self.items(actual, expected.content)
        if isinstance(expected, tuple) and len(expected) == 2 and expected[0] == 'schema':
            wanted = spec.build(expected[1]).describe()
            return None if freeze(actual) == freeze(wanted) else 'schema %r, expected %r' % (actual,
                wanted)
        if isinstance(expected, dict):
            if not isinstance(actual, dict) or hasattr(actual, 'surrogate'):
                return '%r, expected %r' % (actual, expected)
            return self.items(actual, expected)
        if isinstance(expected, (list, tuple)):
            if type(actual) is not type(expected) or len(actual) != len(expected):
                return '%r, expected %r' % (actual, expected)
            for a, e in zip(actual, expected):
                problem = self.problem(a, e)
                if problem:
                    return problem
            return None
        return None if ref.same(actual, expected) else '%r, expected %r' % (actual, expected)

    def items(self, actual, expected):
        if set(actual) != set(expected):
            return '%r has keys %r, expected %r' % (actual, sorted(map(str, actual)),
                sorted(map(str, expected)))
        for key, value in expected.items():
            problem = self.problem(actual[key], value)
            if problem:
                return 'at %r: %s' % (key, problem)

    def check(self, what, function, expected, st):
        actual = attempt(function)
        st.step()
        if isinstance(expected, ref.Refused):
            if not isinstance(actual, Raised):
                st.violate('%s gave %r, expected refusal %r' % (what, actual, expected.tree()))
            from scheme.exceptions import StructuralError, InvalidTypeError
            exception = actual.exception
            if not isinstance(exception, StructuralError):
                st.violate('%s raised %r' % (what, exception))
            if isinstance(exception, InvalidTypeError) != expected.type_error:
                st.violate('%s raised a %s, expected %r' % (what, type(exception).__name__,
                    expected.tree()))
            tokens = [e.get('token') for e in exception.errors]
            if tokens != expected.tokens:
                st.violate('%s: tokens %r, expected %r' % (what, tokens, expected.tokens))
            if ''.join(exception.identity) != expected.path:
                st.violate('%s: error at %r, expected %r' % (what, exception.identity,
                    expected.path))
            st.trace('refused')
            return actual
        if isinstance(actual, Raised):
            st.violate('%s: %r, expected %r' % (what, actual, expected))
        problem = self.problem(actual, expected)
        if problem:
            st.violate('%s: %s' % (what, problem))
        st.trace('accepted')
        return actual

    def unchanged(self, what, value, term, st):
        problem = self.problem(value, term)
        if problem:
            st.violate('%s altered its argument: %s' % (what, problem))

# contents

def surrogates():
    """Every surrogate explored alone."""
    plain = [{}, {'id': 'x'}, {'id': 'x', 'list': [1, None, {'k': [True]}], '': 0.5},
        {'schema': 1, 'version': 2, 'surrogate': 3}]
    found = [Sur(name, None, None, content) for name in ('surrogate', 'Plain')
        for content in plain]
    found += [Sur('One', 1, None, content) for content in ({'id': 'x', 'n': 1}, {'id': 'x'},
        {'id': ''}, {'n': 'x'}, {'id': 'x', 'zz': 1}, {'id': None, 'n': 1}, {'id': 'x', 'n': None})]
    for name in ('Three', 'Child'):
        found += [Sur(name, 1, None, content) for content in ({'id': 'x'}, {}, {'id': 3},
            {'when': date(2000, 1, 2)})]
        found += [Sur(name, 2, None, content) for content in ({'id': 'x', 'when': date(2000, 1, 2)},
            {'when': date(1, 1, 1)}, {'id': 'x'}, {'when': 'x'})]
        found += [Sur(name, 3, None, content) for content in ({'id': 'x'}, {'id': 'a:b', 'tags':
            [date(2000, 1, 2)], 'blob': b'\x00\xff', 'n': 4}, {'id': 'x', 'zz': 1}, {'id': '!'},
            {'id': 'x', 'tags': [date(1999, 12, 31), 3]})]
    found += [Sur('Contributing', version, None, content) for version, content in (
        (1, {'id': 'x'}), (2, {'id': 'x', 'extra': 2}), (2, {'extra': 'x'}))]
    contents = [
        [{'a': 1}, {'a': 2, 'b': date(2000, 1, 2)}, {'a': 0}, {}, {'a': 1, 'zz': 1}],
        [{'a': {'b': b'x'}, 'c': {'k': 1}}, {}, {'a': 3}, {'c': {1: 1}}],
        [{'x': 1, 'y': D('1.50')}, {'y': D('0')}],
        [{'kind': 'p', 'a': 1}, {'kind': 'q', 'b': [time(1, 2, 3)]}, {'kind': 'z'}, {}],
        [{'e': 1}, {'e': 'x'}, {'e': 2}, {'s': Sur('One', 1, None, {'id': 'y'})},
            {'s': Sur('Three', 2, None, {'when': date(1, 2, 3)}), 'e': 'x'}, {'s': {}}],
        [{}, {'a': 1}],
    ]
    for schema, values in zip(DYNAMIC, contents):
        for name in ('surrogate', 'Plain'):
            found += [Sur(name, None, schema, content) for content in values]
    return found

def nestings():
    inner = [Sur('surrogate', None, None, {'a': [1]}), Sur('One', 1, None, {'id': 'x'}),
        Sur('Three', 2, None, {'when': date(2000, 1, 2)}), Sur('Three', 3, None, {'id': 'x'}),
        Sur('Plain', None, DYNAMIC[0], {'a': 1}), Sur('One', 1, None, {'n': 1}),
        Sur('Plain', None, DYNAMIC[0], {})]
    second = [Sur('Holder', 1, None, {'inner': a, 'more': [b]}) for a in inner for b in inner[:4]]
    second += [Sur('Plain', None, DYNAMIC[4], {'s': a}) for a in inner]
    third = [Sur('Holder', 1, None, {'inner': a, 'more': [a, None]}) for a in second[::5]]
    return second + third

CONTAINERS = {
    'structure': (lambda f: S(s=f, n=INT), lambda v: {'s': v, 'n': 1}, '.s', 's'),
    'sequence': (lambda f: ('sequence', {'item': f}), lambda v: [v, v], '[0]', None),
    'map': (lambda f: ('map', {'value': f}), lambda v: {'k': v}, '[k]', None),
    'tuple': (lambda f: ('tuple', {'values': [INT, f]}), lambda v: (1, v), '[1]', None),
    'union': (lambda f: ('union', {'fields': [INT, f]}), lambda v: v, '', None),
}

ODD = [None, 0, '', 'x', [], {}, {'_': None}, {'a': 1}, True, b'x', (), 1.5, date(2000, 1, 2)]
MALFORMED = [
    {'_': ['x']}, {'_': {}}, {'_': 7, 'a': 1}, {'_': '', 'a': 1}, {'_': 'nodots', 'a': 1},
    {'_': 'no.such.Thing', 'a': 1}, {'_': MODULE + '.Missing', 'a': 1}, {'_': 'os.path'},
    {'_': 'json.JSONDecoder'}, {'_': 'os'}, {'_': MODULE}, {'_': '..'}, {'_': 'a:b:c'},
    {'_': MODULE + ':Missing'}, {'_': 'no.such:Thing', 'b': [1]},
    {'_': 'no.such.Thing', '__schema__': ('schema', DYNAMIC[0]), 'a': 1},
    {'_': 'no.such.Thing', '__version__': 2, 'a': 1},
    {'__schema__': ('schema', DYNAMIC[0]), 'a': 1}, {'__schema__': ('schema', DYNAMIC[0])},
    {'__schema__': None}, {'__schema__': {}}, {'__schema__': 'x'}, {'__schema__': {'fieldtype':
    'zzz'}}, {'__schema__': {'fieldtype': 'integer'}}, {'__schema__': 3}, {'__schema__': []},
    {'__schema__': {'fieldtype': 'structure'}}, {'__schema__': {'fieldtype': 'structure',
    'structure': 3}}, {'__schema__': {'structure': {}}},
] + [{'_': token(name), '__version__': version, 'id': 'x', 'when': '2000-01-02'}
    for name in ('One', 'Three', 'Child') for version in (0, -1, 1, 2, 3, 4, 'x', '1', None, 1.5,
    10**30, [], {})] + [
    {'_': token('Plain'), 'id': 'x'}, {'_': token('Plain'), '__version__': 2},
    {'_': token('One')}, {'_': token('One'), 'id': 3}, {'_': token('Three'), 'id': 3},
    {'_': token('Three'), '__version__': 2, 'when': 'x'},
    {'_': token('Holder'), 'inner': {'_': token('One')}},
    {'_': token('Holder'), 'inner': {'_': token('Three'), '__version__': 9}},
    {'_': token('Holder'), 'inner': 3}, {'_': token('Holder'), 'more': [{'_': 'os'}]},
    {'_': token('Holder'), 'more': [{'_': token('One'), 'id': ''}, {}]},
]

# operations

def strip_name(path):
    return path

def check_surrogate(world, sur, st):
    """One surrogate, alone, directly and through fields."""
    from scheme import Surrogate
    from scheme.surrogate import surrogate
    st.state(repr(sur))
    real = world.real(sur)
    field = Surrogate(name='f')
    written = expect(MODEL.write, sur)
    data = world.check('%r.serialize()' % sur, real.serialize, written, st)
    world.unchanged('%r.serialize()' % sur, real, sur, st)
    for serialized in (False, True):
        world.check('process(%r, outbound, %s)' % (sur, serialized),
            lambda: field.process(real, 'outbound', serialized),
            expect(MODEL.process, ('surrogate', {'name': 'f'}), sur, 'outbound', serialized), st)
        got = world.check('process(%r, inbound, %s)' % (sur, serialized),
            lambda: field.process(real, 'inbound', serialized), sur, st)
        if got is not real:
            st.violate('process(%r) returned another surrogate' % sur)
    world.unchanged('process(%r)' % sur, real, sur, st)
    if isinstance(written, ref.Refused):
        return
    again = expect(MODEL.read, written)
    for i in range(2):
        for what, unserialize in (('surrogate', surrogate.unserialize),
                ('implementation', type(real).unserialize)):
            world.check('%s.unserialize(%r)' % (what, data), lambda: unserialize(data), again, st)
        expected = expect(MODEL.process, ('surrogate', {'name': 'f'}), written, 'inbound', True)
        got = world.check('unserialize(%r) %d' % (data, i), lambda: field.unserialize(data),
            expected, st)
        world.unchanged('unserialize(%r)' % data, data, written, st)
    if not isinstance(again, ref.Refused):
        # what was read is written alike
        world.check('serialize(unserialize(%r))' % data, lambda: field.serialize(got),
            expect(MODEL.process, ('surrogate', {'name': 'f'}), again, 'outbound', True), st)

def check_containers(world, sur, st):
    from scheme import Json, Yaml
    for kind, (term, wrap, _, _) in CONTAINERS.items():
        around = term(('surrogate', {}))
        field = spec.build(around)
        value = wrap(sur)
        real = world.real(value)
        st.state(kind, repr(sur))
        for phase, serialized in (('inbound', False), ('inbound', True), ('outbound', False)):
            world.check('%s.process(%r, %s, %s)' % (kind, value, phase, serialized),
                lambda: field.process(real, phase, serialized), value, st)
        written = expect(MODEL.process, around, value, 'outbound', True)
        if isinstance(written, ref.Refused):
            result = attempt(field.serialize, real)
            if not isinstance(result, Raised):
                st.violate('%s.serialize(%r) gave %r, expected a refusal' % (kind, value, result))
            continue
        data = world.check('%s.serialize(%r)' % (kind, value), lambda: field.serialize(real),
            written, st)
        again = expect(MODEL.process, around, written, 'inbound', True)
        if isinstance(again, ref.Refused):
            continue
        world.check('%s.unserialize(%r)' % (kind, data), lambda: field.unserialize(data), again, st)
        world.unchanged('%s.unserialize(%r)' % (kind, data), data, written, st)
        if 'blob' in repr(value) or "b'x'" in repr(value) or kind == 'tuple':
            continue
        for name, format in (('json', Json), ('yaml', Yaml)):
            text = attempt(field.serialize, real, name)
            world.check('%s.unserialize(%r, %s)' % (kind, text, name),
                lambda: field.unserialize(text, name), again, st)

def check_malformed(world, data, st):
    from scheme import Surrogate
    from scheme.surrogate import surrogate
    expected = expect(MODEL.process, ('surrogate', {'name': 'f'}), data, 'inbound', True)
    real = world.real(data)
    if isinstance(data, dict) and data.get('__schema__') == {'fieldtype': 'structure'}:
        pass
    for i in range(2):
        world.check('unserialize(%r)' % (real,), lambda: Surrogate(name='f').unserialize(real),
            expected, st)
        world.unchanged('unserialize(%r)' % (real,), real, data, st)
    for phase, serialized in (('inbound', False), ('outbound', False), ('outbound', True)):
        world.check('process(%r, %s, %s)' % (real, phase, serialized),
            lambda: Surrogate(name='f').process(real, phase, serialized),
            expect(MODEL.process, ('surrogate', {'name': 'f'}), data, phase, serialized), st)
    st.state(repr(data))

def check_restrictions(world, names, st):
    from scheme import Surrogate
    tokens = [token(name) for name in names]
    for declared in (tokens, tuple(tokens), ' '.join(tokens)):
        field = Surrogate(declared, name='f')
        copies = [field, field.clone(), world.module.surrogate and __import__('scheme').Field
            .reconstruct(field.describe())]
        term = ('surrogate', {'name': 'f', 'valid_surrogates': tokens})
        for sur in FEW:
            real = world.real(sur)
            data = world.real(MODEL.write(sur))
            for copy in copies:
                world.check('inbound %r restricted to %r' % (sur, names),
                    lambda: copy.process(real), expect(MODEL.process, term, sur), st)
                for value, phase, shown in ((data, 'inbound', MODEL.write(sur)),
                        (real, 'outbound', sur)):
                    actual = world.check('%s %r restricted to %r' % (phase, sur, names),
                        lambda: copy.process(value, phase, True),
                        expect(MODEL.process, term, shown, phase, True), st)
                    if isinstance(actual, Raised):
                        for name in names:
                            if token(name) not in actual.exception.errors[0]['message']:
                                st.violate('the message %r omits %s' % (
                                    actual.exception.errors[0]['message'], name))
            st.state(tuple(names), repr(sur))

FEW = [Sur('surrogate', None, None, {'a': 1}), Sur('Plain', None, None, {}),
    Sur('Plain', None, DYNAMIC[0], {'a': 1}), Sur('One', 1, None, {'id': 'x'}),
    Sur('Three', 1, None, {'id': 'x'}), Sur('Three', 3, None, {'id': 'x'}),
    Sur('Child', 2, None, {'when': date(2000, 1, 2)}), Sur('Contributing', 2, None, {'extra': 2}),
    Sur('Holder', 1, None, {'inner': Sur('One', 1, None, {'id': 'x'})})]

# histories

UNKNOWN = [{'_': 'no.such.Thing', 'a': 1}, {'_': 'os.path'}, {'_': token('Three'),
    '__version__': 4}, {'a': 1}, {'_': token('One'), 'id': ''}]

def menu():
    """(name, argument term): operations of histories; arguments are shared along a history."""
    found = []
    for sur in FEW:
        found += [('serialize', sur), ('unserialize', sur), ('read', sur)]
    for data in UNKNOWN:
        found.append(('malformed', data))
    found += [('extra', FEW[3]), ('extra', FEW[5])]
    return found

def history(operations, st):
    from scheme import Surrogate
    from scheme.surrogate import surrogate
    world = World()
    field = Surrogate(name='f')
    reals, datas = {}, {}
    done = []
    for operation, argument in operations:
        key = repr(argument)
        if key not in reals:
            reals[key] = world.real(argument)
            if isinstance(argument, Sur):
                datas[key] = world.real(MODEL.write(argument))
        real, data = reals[key], datas.get(key)
        done.append('%s(%r)' % (operation, argument))
        what = ' then '.join(done)
        if operation == 'serialize':
            world.check(what, real.serialize, MODEL.write(argument), st)
        elif operation == 'unserialize':
            got = world.check(what, lambda: field.unserialize(data),
                expect(MODEL.process, ('surrogate', {'name': 'f'}), MODEL.write(argument),
                'inbound', True), st)
            # the result belongs to the caller
            got['mine'] = 1
        elif operation == 'read':
            world.check(what, lambda: surrogate.unserialize(data),
                expect(MODEL.read, MODEL.write(argument)), st)
        elif operation == 'malformed':
            world.check(what, lambda: field.unserialize(real), expect(MODEL.process, ('surrogate',
                {'name': 'f'}), argument, 'inbound', True), st)
        else:
            # a change made by the owner of the surrogate
            taken = real.serialize()
            taken['more'] = 1
        for key in reals:
            term = argument if repr(argument) == key else None
            if term is not None:
                world.unchanged(what, reals[key], term, st)
                if key in datas:
                    world.unchanged(what, datas[key], MODEL.write(term), st)
    st.state(tuple(done))
    st.trace('history')

# construction

class Object(object):
    def __init__(self, **attributes):
        self.__dict__.update(attributes)

def construct(st):
    world = World()
    module = world.module
    surrogate = module.surrogate
    check = lambda what, function, expected: world.check(what, function, expected, st)
    day = date(2000, 1, 2)
    for version, content in ((None, {'id': 'x', 'tags': [day]}), (3, {'id': 'x', 'tags': [day]}),
            (2, {'id': 'x', 'when': day}), (1, {'id': 'x'})):
        expected = Sur('Three', version or 3, None, content)
        full = {'id': 'x', 'tags': [day], 'when': day, 'zz': 1, 'n': None}
        before = snapshot(full)
        kinds = [('dict', dict(content)), ('wide', full), ('object', Object(**full))]
        for kind, value in kinds:
            if kind == 'wide' or kind == 'object':
                pass
            for how, function in (
                    ('class', lambda: module.Three.construct(value=value, version=version)),
                    ('impl', lambda: surrogate.construct(module.Three, value, version=version)),
                    ('token', lambda: surrogate.construct(token('Three'), value,
                        version=version))):
                check('construct %s by %s, version %r' % (kind, how, version), function, expected)
        if full != before:
            st.violate('construct() altered its argument: %r' % (full,))
        made = surrogate.construct(module.Three, full, version=version)
        field = __import__('scheme').Surrogate()
        data = field.serialize(made)
        again = field.unserialize(data)
        want = MODEL.read(MODEL.write(expected))
        problem = world.problem(again, want)
        if problem:
            st.violate('constructed %r, read back: %s' % (made, problem))
        params = dict(content)
        check('construct from parameters', lambda: surrogate.construct(module.Three,
            version=version, **params), expected)
        check('construct with parameters', lambda: surrogate.construct(module.Three, {'id': 'y'},
            version=version, **params), expected)
        # acquisition by the implementation
        for kind, value in kinds:
            type.__setattr__(module.Three, 'acquired', staticmethod(lambda v, **p: value))
            check('acquire %s' % kind, lambda: surrogate.acquire(token('Three'), version),
                expected)
        ready = world.real(expected)
        type.__setattr__(module.Three, 'acquired', staticmethod(lambda v, **p: ready))
        if surrogate.acquire(module.Three, version) is not ready:
            st.violate('acquire() did not return the surrogate acquired')
        asked = []
        type.__setattr__(module.Three, 'acquired', staticmethod(lambda v, **p: asked.append((v,
            p)) or ready))
        surrogate.acquire(module.Three, version, a=1)
        if asked != [(version or 3, {'a': 1})]:
            st.violate('acquire(version=%r, a=1) asks for %r' % (version, asked))
        st.state('construct', version)
    type.__setattr__(module.Three, 'acquired', staticmethod(lambda v, **p: {'id': 'x'}))
    for bad in (0, -1, 4, 99):
        for function in (lambda: surrogate.construct(module.Three, {'id': 'x'}, version=bad),
                lambda: surrogate.acquire(module.Three, bad),
                lambda: surrogate.acquire(surrogate), lambda: surrogate.acquire(surrogate, 1),
                lambda: surrogate.acquire(token('Three'), version=bad),
                lambda: surrogate.construct(module.Three, version=bad, id='x')):
            st.step()
            try:
                made = function()
            except Exception:
                st.trace('refused')
            else:
                st.violate('construct() accepted version %r as %r' % (bad, made))
    check('contribution', lambda: surrogate.construct(module.Contributing, {'id': 'x'}),
        Sur('Contributing', 2, None, {'id': 'x', 'extra': 2}))
    check('contribution', lambda: surrogate.construct(module.Contributing, {'id': 'x'}, version=1),
        Sur('Contributing', 1, None, {'id': 'x', 'extra': 1}))
    for name in ('surrogate', 'Plain'):
        check('construct schemaless', lambda: surrogate.construct(token(name), {'a': [1]}),
            Sur(name, None, None, {'a': [1]}))
        check('construct schemaless', lambda: getattr(module, name).construct(a=1),
            Sur(name, None, None, {'a': 1}))
        for given in ({}, {'a': 1}, {'a': [1], 'b': 2}):
            for params in ({'a': 5}, {'c': 3, 'b': None}):
                for how, function in (
                        ('class', lambda: getattr(module, name).construct(None, given, **params)),
                        ('token', lambda: surrogate.construct(token(name), given, **params))):
                    before = snapshot(given)
                    check('construct schemaless from %r with %r by %s' % (given, params, how),
                        function, Sur(name, None, None, dict(given, **params)))
                    if given != before:
                        st.violate('construct() altered its argument %r: %r' % (before, given))
        for i, content in ((0, {'a': 1}), (1, {'c': {'k': 1}}), (3, {'kind': 'p', 'a': 1})):
            schema = spec.build(DYNAMIC[i])
            check('construct dynamic', lambda: surrogate.construct(token(name), dict(content,
                zz=1), schema), Sur(name, None, DYNAMIC[i], content))
    try:
        made = surrogate.construct(module.One, {'id': 'x'}, spec.build(ONE))
    except Exception:
        pass
    else:
        st.violate('a dynamic schema was accepted by a versioned implementation: %r' % made)
    # a versioned surrogate made by its class is of the latest version
    for name, latest in (('One', 1), ('Three', 3)):
        check('%s(...)' % name, lambda: getattr(module, name)({'id': 'x'}),
            Sur(name, latest, None, {'id': 'x'}))

def interpolation(st):
    world = World()
    field = __import__('scheme').Surrogate()
    parameters = {'x': 'val', 'n': 4, 's': world.real(FEW[3])}
    for given, expected in (
            ({'_': token('One'), 'id': '${x}', 'n': '${n}'}, Sur('One', 1, None, {'id': 'val',
                'n': 4})),
            ({'_': token('Three'), 'id': '${x}'}, Sur('Three', 3, None, {'id': 'val'})),
            ({'_': token('Three'), '__version__': 1, 'id': '${x}'}, Sur('Three', 1, None,
                {'id': 'val'})),
            ({'_': token('Three'), '__version__': 2, 'id': 'y', 'when': date(2000, 1, 2)},
                Sur('Three', 2, None, {'id': 'y', 'when': date(2000, 1, 2)})),
            ({'_': token('Contributing'), '__version__': 1, 'id': '${x}'}, Sur('Contributing', 1,
                None, {'id': 'val', 'extra': 1})),
            ({'_': token('Plain'), '__schema__': ('schema', DYNAMIC[0]), 'a': '${n}'},
                Sur('Plain', None, DYNAMIC[0], {'a': 4})),
            ({'__schema__': ('schema', DYNAMIC[1]), 'c': {'k': '${n}'}}, Sur('surrogate', None,
                DYNAMIC[1], {'c': {'k': 4}})),
            ({'_': token('Holder'), 'inner': {'_': token('One'), 'id': '${x}'}, 'more': ['${s}']},
                Sur('Holder', 1, None, {'inner': Sur('One', 1, None, {'id': 'val'}), 'more':
                [FEW[3]]})),
            ('${s}', FEW[3]), (FEW[3], FEW[3]), (FEW[8], FEW[8]), (None, None)):
        real = world.real(given)
        for i in range(2):
            world.check('interpolate(%r)' % (given,), lambda: field.interpolate(real, parameters),
                expected, st)
            world.unchanged('interpolate(%r)' % (given,), real, given, st)
        st.state('interpolate', repr(given))

def cases(tier):
    for i in range(len(surrogates())):
        yield ('alone', i)
    for i in range(len(nestings())):
        yield ('nested', i)
    for i in range(len(ODD) + len(MALFORMED)):
        yield ('malformed', i)
    names = list(NAMES) + ['surrogate']
    for count in (1, 2):
        for chosen in itertools.combinations(names, count):
            yield ('restricted', chosen)
    yield ('construct',)
    yield ('interpolate',)
    count = len(menu())
    for i in range(count):
        if tier == 'quick':
            yield ('history', i)
        else:
            for j in range(count):
                yield ('history', i, j)

def run(case, st):
    kind = case[0]
    if kind in ('alone', 'nested'):
        sur = (surrogates() if kind == 'alone' else nestings())[case[1]]
        st.sample(repr(sur))
        world = World()
        check_surrogate(world, sur, st)
        check_containers(world, sur, st)
    elif kind == 'malformed':
        check_malformed(World(), (ODD + MALFORMED)[case[1]], st)
    elif kind == 'restricted':
        check_restrictions(World(), case[1], st)
    elif kind == 'construct':
        construct(st)
    elif kind == 'interpolate':
        interpolation(st)
    else:
        operations = menu()
        start = [operations[i] for i in case[1:]]
        for last in operations:
            history(start + [last], st)
