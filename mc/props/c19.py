"""Element classes over scalar, structural, nested, keyed, polymorphic, value, inherited and
recursive schemas.  For every combination of {absent, null, two or three values} per attribute:
construction from keywords and unserialization are compared attribute by attribute (and class by
class) with the reference model over the schema term; serialization with the serialized form of
the non-null attributes; serialized data, directly and through json, yaml and xml, is read back
and compared again.  Histories of constructing, mutating and serializing up to three instances
check that no default is shared.  Constructor calls are counted, so that no element is ever built
from invalid data."""

import itertools
import json

from mc import ref, spec
from mc.core import Violation
from mc.domains import *
from mc.observe import Raised, attempt, expect
from mc.ref import Refused, same

BOUNDS = {
    'quick': 'every combination of attribute values for 16 families of element classes; all'
        ' histories of three operations over two classes; recursion to depth 4',
    'thorough': 'one more value per attribute; histories of four operations',
}
ASSUMPTIONS = (
    'attributes holding a plain dict where the schema nests an element are not element data',
    'a null attribute is not serialized, so reads back as its default',
    'element classes over unions are only constructed, as unions cannot be instantiated',
)

INT, TEXT = ('integer', {}), ('text', {})

def S(element, fields, **params):
    return ('structure', dict(params, element=element, structure=fields))

AUTHOR = S('Author', {'name': ('text', {'required': True}), 'age': ('integer', {'default': 3})})
AUTHOR_VALUES = [{'name': 'n'}, {'name': 'm', 'age': 4}]
ITEM = ('text', {'name': 'value', 'element': 'Item', 'key_attr': 'key'})
COUNT = ('integer', {'name': 'n', 'element': 'Count'})
KEYED = S('Keyed', {'a': INT, 'l': ('sequence', {'item': INT, 'default': [1]})}, key_attr='id')
POLY = ('structure', {'element': 'Poly', 'polymorphic_on': 'type', 'impls': {'x': 'X', 'y': 'Y'},
    'structure': {'x': {'a': ('integer', {'default': 1})}, 'y': {'b': ('sequence', {'item': TEXT,
    'default': ['p']})}, 'z': {}}})
NUMBERED = ('structure', {'element': 'Numbered', 'polymorphic_on': ('integer', {'name': 'k'}),
    'impls': {0: 'Zero', 2: 'Two'}, 'structure': {0: {'a': INT}, 1: {'a': TEXT}, 2: {}}})
OTHER = S('Other', {'a': AUTHOR, 'c': COUNT})

# (schema, {attribute: candidate native values})
FAMILIES = [
    (S('Scalars', {'a': ('integer', {'default': 1, 'minimum': 0}), 'b': ('text', {'nonnull':
        True}), 'c': ('boolean', {'default': False}), 'd': ('date', {'required': True})}),
     {'a': [0, 5, -1], 'b': ['x', ''], 'c': [True, False], 'd': [date(2000, 1, 2)]}),
    (S('Containers', {'l': ('sequence', {'item': INT, 'default': [1, 2]}), 'm': ('map', {'value':
        INT, 'default': {'k': 1}}), 't': ('tuple', {'values': [INT, TEXT]}), 's': ('structure',
        {'structure': {'p': INT}, 'default': {'p': 1}})}),
     {'l': [[], [None, 3]], 'm': [{}, {'z': None}], 't': [(1, 'x')], 's': [{}, {'p': 2}]}),
    (S('Types', {'dec': ('decimal', {'default': D('1.50')}), 'bin': ('binary', {}),
        'when': ('datetime', {'utc': True}), 'fixed': ('integer', {'constant': 7}),
        'e': ('enumeration', {'enumeration': ['a', 'b'], 'default': 'a'})}),
     {'dec': [D('0'), D('2.25')], 'bin': [b'\xff'], 'when': [dt(2000, 1, 1, 12)], 'fixed': [7, 8],
      'e': ['b', 'c']}),
    (S('Nested', {'by': AUTHOR, 'x': INT}), {'by': AUTHOR_VALUES + [{'age': 1}], 'x': [0, 1]}),
    (S('NestedDefault', {'by': ('structure', dict(AUTHOR[1], default={'name': 'd'})),
        'n': ('integer', {'name': 'n', 'element': 'Count', 'default': 0})}),
     {'by': AUTHOR_VALUES, 'n': [0, 1]}),
    (S('Lists', {'l': ('sequence', {'item': AUTHOR, 'default': [{'name': 'q'}]}), 't': ('tuple',
        {'values': [INT, COUNT]})}),
     {'l': [[], AUTHOR_VALUES, [None]], 't': [(1, 2), (None, 0), (1, None)]}),
    (S('Maps', {'i': ('map', {'value': ITEM, 'default': {'d': 'e'}}), 'k': ('map', {'value':
        KEYED})}),
     {'i': [{}, {'p': 'q', 'r': ''}], 'k': [{'z': {}}, {'y': {'a': 1, 'l': []}, 'w': None}]}),
    (S('Direct', {'i': ITEM, 'k': KEYED}), {'i': ['v'], 'k': [{}, {'a': 1}]}),
    (S('DefaultKeys', {'i': ('text', dict(ITEM[1], default='d')), 'k': ('structure', dict(KEYED[1],
        default={'a': 2}))}), {'i': ['v'], 'k': [{}, {'a': 1}]}),
    (POLY, {'type': ['x', 'y', 'z'], 'a': [0, 5], 'b': [[], ['r']]}),
    (NUMBERED, {'k': [0, 1, 2, 3], 'a': [0, 'x']}),
    (S('HoldsPoly', {'p': POLY, 'l': ('sequence', {'item': POLY})}),
     {'p': [{'type': 'x'}, {'type': 'y', 'b': []}, {'type': 'q'}], 'l': [[{'type': 'z'}, {'type':
      'x', 'a': 3}]]}),
    (S('Deep', {'o': OTHER, 'm': ('map', {'value': ('sequence', {'item': OTHER})})}),
     {'o': [{}, {'a': {'name': 'n'}, 'c': 1}], 'm': [{'k': [{'c': 0}, {}]}]}),
    (S('Loose', {'a': INT, 'b': AUTHOR}, strict=False), {'a': [0], 'b': AUTHOR_VALUES,
        'c': [1]}),
    (S('Ordered', {'a': INT, 'b': TEXT, 'c': INT}, key_order='c a b'), {'a': [0], 'b': ['x', ''],
        'c': [1]}),
    (ITEM, {'value': ['x', '', 5]}),
    (('sequence', {'name': 'items', 'element': 'Values', 'item': AUTHOR}),
     {'items': [[], AUTHOR_VALUES, [5]]}),
    (('map', {'name': 'items', 'element': 'Values', 'value': ITEM, 'nonnull': True}),
     {'items': [{}, {'k': 'v'}]}),
    (('integer', {'name': 'n', 'element': 'Count', 'default': 4}), {'n': [0, 9]}),
]

OPERATIONS = ['new', 'given', 'read', 'mutate0', 'mutate1', 'write0', 'write1', 'reassign0']

def cases(tier):
    depth = 3 if tier == 'quick' else 4
    for i in range(len(FAMILIES)):
        yield ('values', i, tier != 'quick')
        yield ('values-falsy', i, False)
    for i in range(len(FAMILIES)):
        for j in range(i):
            if (i + j) % 3 == 0 or tier != 'quick':
                yield ('values-twice', i, j)
    for i in (1, 5, 6, 4, 8, 9):
        for first in OPERATIONS[:3]:
            for rest in itertools.product(OPERATIONS, repeat=depth):
                yield ('history', i, (first,) + rest)
    for name in ('inheritance', 'override', 'recursive', 'linked', 'shared', 'rename', 'extra',
            'identity', 'union', 'keys'):
        yield (name,)

# classes for a schema

def fields_at(term, field):
    """(term, field) for every nested place, innermost first."""
    kind, params = term
    if kind == 'structure':
        if params.get('polymorphic_on'):
            for identity, fields in params['structure'].items():
                for name, child in fields.items():
                    yield from fields_at(child, field.structure[identity][name])
        else:
            for name, child in params['structure'].items():
                yield from fields_at(child, field.structure[name])
    elif kind == 'sequence':
        yield from fields_at(params['item'], field.item)
    elif kind == 'map':
        yield from fields_at(params['value'], field.value)
    elif kind == 'tuple':
        for child, real in zip(params['values'], field.values):
            yield from fields_at(child, real)
    yield term, field

def clean(term):
    kind, params = term
    params = dict((k, v) for k, v in params.items() if k not in ('element', 'key_attr', 'impls'))
    sub = clean
    if kind == 'structure':
        if params.get('polymorphic_on'):
            params['structure'] = dict((i, dict((n, sub(t)) for n, t in fields.items()))
                for i, fields in params['structure'].items())
        else:
            params['structure'] = dict((n, sub(t)) for n, t in params['structure'].items())
    elif kind == 'sequence':
        params['item'] = sub(params['item'])
    elif kind == 'map':
        params['value'] = sub(params['value'])
    elif kind == 'tuple':
        params['values'] = [sub(t) for t in params['values']]
    return kind, params

class World(object):
    """The real classes of one schema, and how many elements they built."""
    def __init__(self, term, falsy=False):
        from scheme import Element
        self.built = 0
        self.classes = {}
        world = self

        class Counting(Element):
            def __init__(self, **params):
                world.built += 1
                super(Counting, self).__init__(**params)

            if falsy:
                def __bool__(self):
                    return False
                def __len__(self):
                    return 0

        for term, field in fields_at(term, spec.build(clean(term))):
            name = term[1].get('element')
            if not name:
                continue
            namespace = {'schema': field}
            if 'key_attr' in term[1]:
                namespace['key_attr'] = term[1]['key_attr']
            cls = type(Element)(name, (Counting,), namespace)
            impls = dict((identity, type(Element)(impl, (cls,), {'polymorphic_identity':
                identity})) for identity, impl in term[1].get('impls', {}).items())
            # the same schema may stand at several places, each with its own class
            self.classes[id(field)] = cls
            self.classes.setdefault(name, []).append((cls, impls))
            self.root, self.root_impls = cls, impls

# the model: an element is Made(class name or implementation, attributes, key)

class Made(object):
    def __init__(self, name, attributes, key=None):
        self.name, self.attributes, self.key = name, attributes, key
    def __repr__(self):
        return '%s(%r%s)' % (self.name, self.attributes, ', key=%r' % (self.key,)
            if self.key is not None else '')

def fields_of(term, value):
    params = term[1]
    on = params.get('polymorphic_on')
    if not on:
        return params['structure']
    if isinstance(on, str):
        on = ('enumeration', {'name': on, 'enumeration': sorted(params['structure'])})
    identity = value.get(on[1]['name'])
    fields = dict(params['structure'][identity])
    fields[on[1]['name']] = (on[0], dict(on[1], constant=identity))
    return fields

def default_of(term):
    default = term[1].get('default')
    return term[1].get('constant') if default is None else default

def default_element(term, name):
    """What a constructor stores for an absent attribute."""
    value = default_of(term)
    if value is None:
        return None
    # defaults are given in native form and are not completed by processing
    return instantiate(term, value, name)

def instantiate(term, value, key=None):
    kind, params = term
    if value is None:
        return None
    if kind == 'structure':
        fields = fields_of(term, value)
        made = dict((n, instantiate(fields[n], v, n)) for n, v in value.items() if n in fields)
        if params.get('element'):
            for n, field in fields.items():
                if n not in made:
                    made[n] = default_element(field, n) if default_of(field) is not None else None
        value = made
    elif kind == 'sequence':
        value = [instantiate(params['item'], v) for v in value]
    elif kind == 'map':
        value = dict((k, instantiate(params['value'], v, k)) for k, v in value.items())
    elif kind == 'tuple':
        value = tuple(instantiate(t, v) for t, v in zip(params['values'], value))
    if params.get('element'):
        name = params['element']
        attributes = value if kind == 'structure' else {params['name']: value}
        if kind == 'structure' and params.get('polymorphic_on'):
            on = params['polymorphic_on']
            identity = value[on if isinstance(on, str) else on[1]['name']]
            name = params.get('impls', {}).get(identity, name)
        return Made(name, attributes, key if params.get('key_attr') else None)
    return value

def native(value):
    """The native value of a model element, without null attributes of elements."""
    if isinstance(value, Made):
        raise TypeError()
    return value

def flatten(term, value):
    """The native value extracted from a model value."""
    kind, params = term
    if value is None:
        return None
    if isinstance(value, Made):
        if kind != 'structure':
            return flatten((kind, dict(params, element=None)), value.attributes[params['name']])
        value = value.attributes
    if kind == 'structure':
        fields = fields_of(term, value)
        return dict((n, flatten(fields[n], v)) for n, v in value.items() if v is not None)
    if kind == 'sequence':
        return [flatten(params['item'], v) for v in value]
    if kind == 'map':
        return dict((k, flatten(params['value'], v)) for k, v in value.items())
    if kind == 'tuple':
        return tuple(flatten(t, v) for t, v in zip(params['values'], value))
    return value.instant if isinstance(value, ref.Aware) else value

def matches(term, actual, expected, key_attr=None):
    """None, or how a real value differs from the model."""
    if isinstance(expected, Made):
        if type(actual).__name__ != expected.name:
            return 'is a %s, expected %s' % (type(actual).__name__, expected.name)
        attributes = dict(vars(actual))
        key_attr = key_attr_of(type(actual))
        if key_attr and key_attr not in expected.attributes:
            key = attributes.pop(key_attr, None)
            if key != expected.key:
                return 'has key %r, expected %r' % (key, expected.key)
        if set(attributes) != set(expected.attributes):
            return 'has attributes %r, expected %r' % (sorted(attributes),
                sorted(expected.attributes))
        for name, value in expected.attributes.items():
            problem = matches(None, attributes[name], value)
            if problem:
                return '.%s %s' % (name, problem)
        return None
    if type(actual) is not type(expected) and not isinstance(expected, ref.Aware) and not (
            isinstance(expected, dict) and isinstance(actual, dict)):
        return 'is %r, expected %r' % (actual, expected)
    if isinstance(expected, dict):
        if set(actual) != set(expected):
            return 'is %r, expected %r' % (actual, expected)
        for key in expected:
            problem = matches(None, actual[key], expected[key])
            if problem:
                return '[%r] %s' % (key, problem)
        return None
    if isinstance(expected, (list, tuple)):
        if len(actual) != len(expected):
            return 'is %r, expected %r' % (actual, expected)
        for i, (a, e) in enumerate(zip(actual, expected)):
            problem = matches(None, a, e)
            if problem:
                return '[%d] %s' % (i, problem)
        return None
    if not same(actual, expected):
        return 'is %r, expected %r' % (actual, expected)

def key_attr_of(cls):
    return getattr(cls, 'key_attr', None)

def real(world, term, value):
    """A real value for a model value given as keyword: nested elements are constructed."""
    if isinstance(value, Made):
        for cls, impls in world.classes[find_class(term)]:
            break
        cls = dict((c.__name__, c) for c in impls.values()).get(value.name, cls)
        kind, params = term
        if kind == 'structure':
            fields = fields_of(term, value.attributes)
            made = cls(**dict((n, real(world, fields[n], v))
                for n, v in value.attributes.items()))
        else:
            made = cls(**{params['name']: real(world, (kind, dict(params, element=None)),
                value.attributes[params['name']])})
        if value.key is not None:
            setattr(made, cls.key_attr, value.key)
        return made
    kind, params = term
    if value is None:
        return None
    if kind == 'structure':
        fields = fields_of(term, value)
        return dict((n, real(world, fields[n], v)) for n, v in value.items())
    if kind == 'sequence':
        return [real(world, params['item'], v) for v in value]
    if kind == 'map':
        return dict((k, real(world, params['value'], v)) for k, v in value.items())
    if kind == 'tuple':
        return tuple(real(world, t, v) for t, v in zip(params['values'], value))
    return value

def find_class(term):
    return term[1]['element']

MISSING = object()

def combinations(families, more):
    names = list(families)
    options = [[MISSING, None] + list(families[n]) for n in names]
    for values in itertools.product(*options):
        yield dict((n, v) for n, v in zip(names, values) if v is not MISSING)

def check_written(world, term, element, expected, st, what, formats=True):
    """Serializes an element and reads it back."""
    from scheme import ValidationError
    plain = clean(term)
    content = flatten(term, expected)
    wanted = expect(ref.process, plain, content, 'outbound', True)
    actual = attempt(element.serialize)
    if isinstance(wanted, Refused):
        if not isinstance(actual, Raised) or not isinstance(actual.exception, ValidationError):
            raise Violation('%s.serialize() gave %r, expected a refusal %r' % (what, actual,
                wanted.tree()))
        st.trace('not serializable')
        return
    if isinstance(actual, Raised) or not same(normal(actual), normal(wanted)):
        raise Violation('%s.serialize() gave %r, expected %r' % (what, actual, wanted))
    again = expect(ref.process, plain, wanted, 'inbound', True)
    if isinstance(again, Refused):
        raise AssertionError((again, wanted))
    again = instantiate(term, again)
    found = world.root.unserialize(actual)
    problem = matches(term, found, again)
    if problem:
        raise Violation('%s: reading back %r: the element %s' % (what, actual, problem))
    st.step(2)
    st.trace('written and read')
    if not formats:
        return
    for name in ('json', 'yaml', 'xml'):
        if name in ('json', 'yaml') and has_bytes(wanted):
            continue            # bytes have no form there
        if name == 'xml' and not xml_expressible(wanted):
            continue
        text = attempt(element.serialize, name)
        if isinstance(text, Raised):
            raise Violation('%s.serialize(%r) %r' % (what, name, text))
        if name == 'json' and not same(listed(json.loads(text)), listed(wanted)):
            raise Violation('%s.serialize(json) gave %s, expected %r' % (what, text, wanted))
        found = attempt(world.root.unserialize, text, name)
        if isinstance(found, Raised):
            raise Violation('%s: reading back %s: %r' % (what, text, found))
        problem = matches(term, found, again)
        if problem:
            raise Violation('%s: reading back %s: the element %s' % (what, text, problem))
        st.step(2)
        st.trace('through ' + name)

def normal(value):
    if isinstance(value, dict):
        return dict((k, normal(v)) for k, v in value.items())
    if isinstance(value, list):
        return [normal(v) for v in value]
    if isinstance(value, tuple):
        return tuple(normal(v) for v in value)
    return value

def listed(value):
    if isinstance(value, dict):
        return dict((k, listed(v)) for k, v in value.items())
    if isinstance(value, (list, tuple)):
        return [listed(v) for v in value]
    return value

def has_bytes(value):
    if isinstance(value, dict):
        return any(has_bytes(v) for v in value.values())
    if isinstance(value, (list, tuple)):
        return any(has_bytes(v) for v in value)
    return isinstance(value, bytes)

def xml_expressible(value):
    """Nested nulls, empty containers and bytes are left to the property about xml."""
    if isinstance(value, dict):
        return bool(value) and all(v is not None and xml_expressible(v) for v in value.values())
    if isinstance(value, (list, tuple)):
        return bool(value) and all(v is not None and xml_expressible(v) for v in value)
    return not isinstance(value, bytes) and value != ''

def run_values(index, more, st, before=None, falsy=False):
    from scheme import ValidationError
    term, families = FAMILIES[index]
    if more:
        families = dict((n, list(v) + list(v[:1]) and v) for n, v in families.items())
    world = World(term, falsy)
    if before is not None:
        other = World(FAMILIES[before][0])      # an unrelated family must change nothing
    plain = clean(term)
    structural = term[0] == 'structure'
    seen = set()
    for given in combinations(families, more):
        if repr(given) in seen:
            continue
        seen.add(repr(given))
        what = '%r: %r' % (plain, given)
        st.state(index, repr(given))
        # unserialized data
        if structural:
            serial = {}
            for name, value in given.items():
                serial[name] = value
            data = serial
        else:
            data = given.get(term[1]['name'])
        data = to_serialized(term, data)
        wanted = expect(ref.process, plain, data, 'inbound', True)
        built = world.built
        actual = attempt(world.root.unserialize, data)
        if isinstance(wanted, Refused):
            if not isinstance(actual, Raised) or not isinstance(actual.exception,
                    ValidationError):
                raise Violation('%s: unserialize gave %r, expected a refusal %r' % (what, actual,
                    wanted.tree()))
            if world.built != built:
                raise Violation('%s: elements were built from invalid data' % (what,))
            st.trace('refused')
        else:
            made = instantiate(term, wanted)
            problem = 'is %r' % (actual,) if isinstance(actual, Raised) else matches(term,
                actual, made)
            if problem:
                raise Violation('%s: unserialize(%r): the element %s' % (what, data, problem))
            st.trace('read')
            if made is not None:
                check_written(world, term, actual, made, st, '%s: unserialize(%r)' % (what,
                    data))
                # the class that is asked doesn't matter to data which has a class of its own
                for impl in world.root_impls.values():
                    problem = matches(term, impl.unserialize(data), made)
                    if not problem and made.name in [c.__name__ for c in
                            world.root_impls.values()]:
                        problem = matches(term, impl.instantiate(world.root.schema, wanted), made)
                    if problem:
                        raise Violation('%s: read by %s: the element %s' % (what, impl.__name__,
                            problem))
                    st.step(2)
        st.step()
        # construction from native values, valid or not
        if structural:
            try:
                fields = fields_of(term, given)
            except KeyError:
                continue
            if any(n not in fields for n in given):
                continue
            valid = dict((n, v) for n, v in given.items()
                if not isinstance(expect(ref.process, clean(fields[n]), v), Refused))
            if len(valid) != len(given):
                continue
            made = Made(None, dict((n, instantiate(fields[n], v, n))
                for n, v in given.items()))
            keywords = dict((n, real(world, fields[n], v)) for n, v in made.attributes.items())
            expected = instantiate(term, dict(given))
            cls = world.root
            for impl in world.root_impls.values():
                if impl.__name__ == expected.name:
                    cls = impl
            actual = cls(**keywords)
        else:
            if isinstance(expect(ref.process, plain, data), Refused) and data is not None:
                continue
            value = given.get(term[1]['name'], default_of(term) if not given else None)
            bare = (term[0], dict(term[1], element=None))
            attributes = {term[1]['name']: instantiate(bare, value)}
            expected = Made(term[1]['element'], attributes)
            keywords = dict((n, real(world, bare, attributes[n])) for n in given)
            actual = world.root(**keywords)
        problem = matches(term, actual, expected)
        if problem:
            raise Violation('%s: constructed element %s' % (what, problem))
        st.step()
        st.trace('constructed')
        check_written(world, term, actual, expected, st, '%s: constructed' % what, False)

def to_serialized(term, value):
    """The serialized form of a candidate, where it has one, or the candidate itself."""
    kind, params = term
    if value is None:
        return None
    if kind == 'structure' and isinstance(value, dict):
        try:
            fields = fields_of(term, value)
        except KeyError:
            return value
        return dict((n, to_serialized(fields[n], v) if n in fields else v)
            for n, v in value.items())
    if kind in ('sequence', 'map', 'tuple', 'structure'):
        return value
    wanted = expect(ref.process, (kind, {'utc': True, 'enumeration': ['a', 'b', 'c'] + ['x', 'y',
        'z']} if kind in ('datetime', 'enumeration') else {}), value, 'outbound', True)
    return value if isinstance(wanted, Refused) else wanted

# histories

def run_history(index, operations, st):
    term, families = FAMILIES[index]
    world = World(term)
    on = term[1].get('polymorphic_on')
    given = {}
    for name, values in families.items():
        if not on or name == 'type':
            given[name] = values[-1]
    if on:
        given = {'type': 'y'}
    blank = {'type': 'y'} if on else {}
    instances = []
    for number, operation in enumerate(operations):
        what = '%r: %r' % (term, operations[:number + 1])
        if operation in ('new', 'given', 'read'):
            value = dict(blank if operation == 'new' else given)
            if operation == 'given':
                fields = fields_of(term, value)
                expected = instantiate(term, value)
                actual = world.root(**dict((n, real(world, fields[n], expected.attributes[n]))
                    for n in value))
                if on:
                    actual = world.root_impls['y'](**vars(actual))
            elif operation == 'new':
                expected = instantiate(term, value)
                actual = (world.root_impls['y'] if on else world.root)(**value)
            else:
                data = to_serialized(term, blank)
                expected = instantiate(term, ref.process(clean(term), data, 'inbound', True))
                actual = world.root.unserialize(data)
            instances.append([actual, expected])
        else:
            which = int(operation[-1])
            if which >= len(instances):
                continue
            actual, expected = instances[which]
            if operation.startswith('mutate'):
                for name in sorted(vars(actual)):
                    mutate(getattr(actual, name), number)
                for name in sorted(expected.attributes):
                    mutate(expected.attributes[name], number)
            elif operation.startswith('reassign'):
                for name, value in expected.attributes.items():
                    if isinstance(value, list):
                        expected.attributes[name] = []
                        setattr(actual, name, [])
            elif operation.startswith('write'):
                check_written(world, term, actual, expected, st, what, False)
        for i, (actual, expected) in enumerate(instances):
            problem = matches(term, actual, expected)
            if problem:
                raise Violation('%s: instance %d %s' % (what, i, problem))
            st.step()
        st.state(index, operations[:number + 1])
    st.trace('history')

def mutate(value, number):
    """The same change to a real and to a model value."""
    if isinstance(value, list):
        if not value or value[0] is None:
            return
        if not isinstance(value[0], (int, str)):
            mutate(value[0], number)
        elif isinstance(value[0], str):
            value.append('m%d' % number)
        else:
            value.append(100 + number)
    elif isinstance(value, dict):
        for inner in value.values():
            if isinstance(inner, int):
                for key in value:
                    value[key] = 100 + number
                break
            mutate(inner, number)
    elif isinstance(value, Made):
        for name in sorted(value.attributes):
            if isinstance(value.attributes[name], int):
                value.attributes[name] = 100 + number
            else:
                mutate(value.attributes[name], number)
    elif hasattr(value, '__dict__') and hasattr(type(value), 'schema'):
        for name in sorted(vars(value)):
            inner = getattr(value, name)
            if isinstance(inner, int):
                setattr(value, name, 100 + number)
            else:
                mutate(inner, number)

# particular classes

def expect_equal(what, actual, expected):
    if type(actual) is not type(expected) or actual != expected:
        raise Violation('%s: gave %r, expected %r' % (what, actual, expected))

def run_special(name, st):
    import scheme
    from scheme import Element, Integer, Map, Sequence, Structure, Text, Tuple, Undefined
    from scheme import ValidationError
    if name == 'inheritance':
        for order in itertools.permutations(('base', 'middle', 'leaf')):
            class Base(Element):
                schema = Structure({'a': Integer(default=1), 'l': Sequence(Integer(),
                    default=[1])})
            class Middle(Base):
                def method(self):
                    return self.a
            class Leaf(Middle):
                pass
            class Plain(Element):
                schema = Integer(name='n')
            class PlainChild(Plain):
                key_attr = 'k'
            classes = {'base': Base, 'middle': Middle, 'leaf': Leaf}
            for chosen in order:
                cls = classes[chosen]
                for value in ({}, {'a': 2}, {'a': None}):
                    for made in (cls.unserialize(value), cls(**value)):
                        if type(made) is not cls:
                            raise Violation('%s gave a %s' % (cls.__name__, type(made).__name__))
                        expect_equal('attribute', made.a, value.get('a', 1))
                        expect_equal('attribute', made.l, [1])
                        made.l.append(2)
                        wanted = dict((k, v) for k, v in {'a': value.get('a', 1), 'l': [1,
                            2]}.items() if v is not None)
                        expect_equal('serialize', made.serialize(), wanted)
                        st.step(3)
                        st.trace('inherited')
            for cls in (PlainChild, Plain):
                made = cls.unserialize(5)
                if type(made) is not cls or made.n != 5 or made.serialize() != 5:
                    raise Violation('%s gave %r' % (cls.__name__, made))
            holder = Structure({'b': Base.schema, 'm': Middle.schema, 'l': Leaf.schema})
            made = holder.instantiate(holder.unserialize({'b': {}, 'm': {}, 'l': {}}))
            kinds = [type(made[k]) for k in 'bml']
            if kinds != [Base, Middle, Leaf]:
                raise Violation('nested schemas gave %r' % (kinds,))
            expect_equal('extract', holder.extract(made), {'b': {'a': 1, 'l': [1]}, 'm': {'a': 1,
                'l': [1]}, 'l': {'a': 1, 'l': [1]}})
    elif name == 'override':
        class Base(Element):
            schema = Structure({'a': Integer()})
        class Child(Base):
            schema = Structure({'a': Text(), 'b': Integer(default=2)})
        class Grand(Child):
            schema = Integer(name='n')
        expect_equal('base', vars(Base.unserialize({'a': 1})), {'a': 1})
        expect_equal('child', vars(Child.unserialize({'a': 'x'})), {'a': 'x', 'b': 2})
        expect_equal('grand', vars(Grand.unserialize(3)), {'n': 3})
        expect_equal('kinds', [type(Base.unserialize({})), type(Child.unserialize({})),
            type(Grand.unserialize(1))], [Base, Child, Grand])
        expect_equal('child', Child(a='x').serialize(), {'a': 'x', 'b': 2})
        for cls, value in ((Base, {'b': 1}), (Child, {'a': 1}), (Grand, {})):
            if not isinstance(attempt(cls.unserialize, value), Raised):
                raise Violation('%s accepts %r' % (cls.__name__, value))
    elif name in ('recursive', 'linked'):
        for early in (False, True):
            undefined = Undefined()
            link = {'recursive': lambda: Sequence(undefined), 'linked': lambda: undefined}[name]
            class Node(Element):
                schema = Structure({'n': Integer(default=0), 'next': link()})
            if not early:
                undefined.define(Node.schema)
            else:
                expect_equal('before', Node(n=1).serialize(), {'n': 1})
                expect_equal('before', Node.unserialize({'n': 1}).serialize(), {'n': 1})
                undefined.define(Node.schema)
            for depth in range(5):
                data, wanted = {'n': depth}, {'n': depth}
                for i in range(depth):
                    data = {'n': i, 'next': data if name == 'linked' else [data, {}]}
                    wanted = {'n': i, 'next': wanted if name == 'linked' else [wanted,
                        {'n': 0}]}
                node = Node.unserialize(data)
                expect_equal('serialize', node.serialize(), wanted)
                for format in ('json', 'yaml'):
                    again = Node.unserialize(node.serialize(format), format)
                    expect_equal('round trip', again.serialize(), wanted)
                level = node
                for i in range(depth):
                    if type(level) is not Node or level.n != depth - 1 - i:
                        raise Violation('level %d is %r' % (i, level))
                    level = level.next if name == 'linked' else level.next[0]
                if type(level) is not Node or level.next is not None:
                    raise Violation('the last level is %r' % (level,))
                bad = data
                for i in range(depth):
                    bad = bad['next'] if name == 'linked' else bad['next'][0]
                bad['n'] = 'x'
                if not isinstance(attempt(Node.unserialize, data), Raised):
                    raise Violation('invalid data at depth %d accepted' % depth)
                st.step(4)
                st.trace('recursive')
    elif name == 'shared':
        # the same nested class at several places
        class Part(Element):
            schema = Structure({'v': Integer(default=1), 'l': Sequence(Integer(), default=[])})
        class Whole(Element):
            schema = Structure({'a': Part.schema, 'b': Part.schema, 's': Sequence(Part.schema),
                'm': Map(Part.schema), 't': Tuple([Part.schema, Part.schema])})
        data = {'a': {}, 'b': {'v': 2}, 's': [{}, {'v': 3}], 'm': {'k': {}}, 't': [{}, {'v': 4}]}
        one, two = Whole.unserialize(data), Whole.unserialize(data)
        one.a.l.append(1)
        one.s[0].l.append(2)
        one.m['k'].l.append(3)
        one.t[0].v = 9
        fill = lambda v=1, l=(): {'v': v, 'l': list(l)}
        expect_equal('first', one.serialize(), {'a': fill(1, [1]), 'b': fill(2), 's': [fill(1,
            [2]), fill(3)], 'm': {'k': fill(1, [3])}, 't': (fill(9), fill(4))})
        expect_equal('second', two.serialize(), {'a': fill(), 'b': fill(2), 's': [fill(),
            fill(3)], 'm': {'k': fill()}, 't': (fill(), fill(4))})
        expect_equal('alone', Part().serialize(), fill())
    elif name == 'rename':
        # the fields of elements adopted under other names
        for make in ('value', 'structure'):
            class Item(Element):
                schema = Text(name='value') if make == 'value' else Structure({'v': Text()})
            serial = 'x' if make == 'value' else {'v': 'x'}
            value = lambda item: item.value if make == 'value' else item.v
            late = Undefined()
            waiting = Structure({'t': late, 's': Sequence(late), 'm': Map(late)})
            late.define(Item.schema)
            merged = Structure({'o': Integer()})
            merged.merge({'t': Item.schema})
            extended = Structure({'o': Integer()}).extend({'t': Item.schema})
            replaced = Structure({'t': Integer()}).replace({'t': Item.schema})
            copied = Structure({'t': Item.schema}).clone()
            for field in (waiting, merged, extended, replaced, copied):
                made = field.instantiate(field.unserialize({'t': serial}))
                if type(made['t']) is not Item or value(made['t']) != 'x':
                    raise Violation('%r: gave %r with %r' % (field, made, vars(made['t'])))
                expect_equal('serialize', field.serialize(field.extract(made)), {'t': serial})
                st.step(2)
                st.trace('renamed')
            made = waiting.instantiate(waiting.unserialize({'s': [serial], 'm': {'k': serial}}))
            if value(made['s'][0]) != 'x' or value(made['m']['k']) != 'x':
                raise Violation('gave %r' % (made,))
    elif name == 'extra':
        # attributes outside the schema are neither required nor serialized
        class Example(Element):
            schema = Structure({'a': Integer()})
        example = Example(a=1)
        example.other = 5
        expect_equal('serialize', example.serialize(), {'a': 1})
        if 'bogus' in vars(Example(bogus=1)):
            raise Violation('undeclared keywords become attributes')
        del example.a
        expect_equal('serialize', example.serialize(), {})
        expect_equal('null', Example.unserialize(None), None)
    elif name == 'identity':
        # every variant gives the class registered for its identity, whatever the order
        for identities in (('a', 'b', 'c'), (0, 1, 2), (False, True)):
            kind = {str: Text, int: Integer, bool: scheme.Boolean}[type(identities[0])]
            for size in range(len(identities) + 1):
                for registered in itertools.permutations(identities, size):
                    class Base(Element):
                        schema = Structure(dict((i, {'v': Integer(default=3)})
                            for i in identities), polymorphic_on=kind(name='k'))
                    impls = dict((i, type(Element)('Impl', (Base,), {'polymorphic_identity': i}))
                        for i in registered)
                    for identity in identities:
                        for cls in [Base] + list(impls.values()):
                            made = cls.unserialize({'k': identity})
                            if type(made) is not impls.get(identity, Base):
                                raise Violation('identity %r of %r gave a %r' % (identity,
                                    registered, type(made)))
                            expect_equal('attributes', vars(made), {'k': identity, 'v': 3})
                            expect_equal('serialize', made.serialize(), {'k': identity, 'v': 3})
                            built = type(made)(k=identity, v=None)
                            expect_equal('serialize', built.serialize(), {'k': identity})
                            st.step(3)
                            st.trace('identity')
    elif name == 'union':
        from scheme.fields.union import Union
        class Example(Element):
            schema = Structure({'u': Union([Integer(), Text()], default=3), 'v': Integer()})
        expect_equal('attributes', vars(Example()), {'u': 3, 'v': None})
        expect_equal('serialize', Example(u='x').serialize(), {'u': 'x'})
    elif name == 'keys':
        # a key attribute is set exactly where the container is keyed
        class Item(Element):
            schema = Structure({'v': Integer()})
            key_attr = 'name'
        class Holder(Element):
            schema = Structure({'m': Map(Item.schema), 's': Sequence(Item.schema),
                'd': Item.schema, 'n': Map(Item.schema, key=Integer())})
        made = Holder.unserialize({'m': {'p': {}, '': {'v': 1}}, 's': [{}], 'd': {},
            'n': {0: {}, 5: {}}})
        found = ([made.m['p'].name, made.m[''].name, made.d.name, made.n[0].name,
            made.n[5].name], hasattr(made.s[0], 'name'))
        if found != (['p', '', 'd', 0, 5], False):
            raise Violation('keys %r' % (found,))
        expect_equal('serialize', made.serialize(), {'m': {'p': {}, '': {'v': 1}}, 's': [{}],
            'd': {}, 'n': {0: {}, 5: {}}})
        class Named(Element):
            schema = Structure({'id': Text(), 'v': Integer()})
            key_attr = 'id'
        expect_equal('declared key', [vars(x) for x in Map(Named.schema).instantiate({'k': {'v':
            1}}).values()], [{'id': 'k', 'v': 1}])
        # the place of an element is its key, whatever its data says
        class Keeper(Element):
            schema = Structure({'m': Map(Named.schema), 'd': Named.schema,
                's': Sequence(Named.schema), 't': Tuple((Named.schema,))})
        for id in ('other', '', None, Ellipsis, 'k'):
            data = {'v': 1} if id is Ellipsis else {'v': 1, 'id': id}
            made = Keeper.unserialize({'m': {'k': data, 'l': data}, 'd': data, 's': [data],
                't': (data,)})
            own = None if id is Ellipsis else id
            expect_equal('keys', (made.m['k'].id, made.m['l'].id, made.d.id, made.s[0].id,
                made.t[0].id), ('k', 'l', 'd', own, own))
    st.trace(name)

def run(case, st):
    st.state(repr(case))
    if case[0] == 'values':
        run_values(case[1], case[2], st)
    elif case[0] == 'values-falsy':
        # elements may be of classes whose instances are false
        run_values(case[1], case[2], st, None, True)
    elif case[0] == 'values-twice':
        run_values(case[1], False, st, case[2])
    elif case[0] == 'history':
        run_history(case[1], case[2], st)
    else:
        run_special(case[0], st)
