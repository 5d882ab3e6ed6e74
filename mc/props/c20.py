"""Placeholders: every order of building containers around a placeholder, deriving further fields
from them, using them and defining the placeholder, for every container kind, nesting and sharing,
and recursive and mutually recursive schemas; each use runs a battery of operations over values
that reach the placeholder and values that don't.  The oracle is a model over the schema term in
which a placeholder is looked up in the definitions made so far; once every placeholder is defined,
outcomes and descriptions are also compared with a schema declared in place."""

import itertools

from mc import ref, spec
from mc.core import Violation
from mc.domains import *
from mc.freeze import freeze, outcome
from mc.observe import Raised, attempt, compare, expect, snapshot
from mc.props import c18

BOUNDS = {
    'quick': '14 container kinds alone, nested (all ordered pairs of kinds) and in pairs sharing one'
        ' placeholder, 7 definitions, every order of {build, build, derive a copy, remove or'
        ' replace the key, define} x every subset of positions at which everything built is used;'
        ' every subset of optional parameters of 6 containers; 12 recursive systems of one or two placeholders, data depth 0..4, every order x use',
    'thorough': 'the same with every definition in every configuration, copies derived in every'
        ' configuration, containers three deep',
}
ASSUMPTIONS = (
    'describing, filtering and transforming a schema that still holds an undefined placeholder, and'
    ' defining a placeholder twice, are not specified',
    'generated defaults are those known when the structure is declared',
    'null where the container hands it to the placeholder counts as data',
)

INT, TEXT = ('integer', {}), ('text', {})
H0, H1 = ('hole', {'id': 0}), ('hole', {'id': 1})

def S(**fields):
    return ('structure', {'structure': fields})

# containers: name -> (term around a field, values around values of the field)

CONTAINERS = {
    'structure': (lambda h: S(p=h, q=('integer', {'default': 2})),
        lambda v: [{'p': x} for x in v] + [{}, {'q': 1}, {'p': v[0], 'q': 'bad'}, {'zz': 1},
            {'p': v[0], 'zz': 1}, None, 'text']),
    'sibling': (lambda h: ('structure', {'structure': {'a': ('text', {'required': True}), 'p': h},
        'strict': False}),
        lambda v: [{'a': 'x', 'p': x} for x in v[:2]] + [{'p': v[0]}, {'a': 'x', 'b': 1}, {}]),
    'ordered': (lambda h: ('structure', {'structure': {'p': h, 'q': INT}, 'key_order': 'q p'}),
        lambda v: [{'p': v[0], 'q': 1}, {'q': 1}, {'p': v[-1], 'q': 'x'}]),
    'polymorphic': (lambda h: ('structure', {'polymorphic_on': 'kind', 'structure': {'x': {'p': h},
        'y': {}}}),
        lambda v: [{'kind': 'x', 'p': x} for x in v[:3]] + [{'kind': 'x'}, {'kind': 'y'},
            {'kind': 'y', 'p': v[0]}, {'kind': 'z', 'p': v[0]}, {'p': v[0]}]),
    'common': (lambda h: ('structure', {'polymorphic_on': 'kind', 'structure': {'*': {'p': h},
        'x': {'q': INT}, 'y': {}}}),
        lambda v: [{'kind': 'x', 'p': v[0], 'q': 1}, {'kind': 'y', 'p': v[-1]}, {'kind': 'x'}]),
    'twice': (lambda h: S(p=h, r=h),
        lambda v: [{'p': v[0], 'r': v[1]}, {'r': v[0]}, {'p': v[-1]}, {}]),
    'sequence': (lambda h: ('sequence', {'item': h}),
        lambda v: [[x] for x in v] + [[], [v[0], v[1]], 3, None]),
    'unique': (lambda h: ('sequence', {'item': h, 'min_length': 1, 'unique': True}),
        lambda v: [[], [v[0]], [v[0], v[0]], [v[-1]]]),
    'map': (lambda h: ('map', {'value': h, 'required_keys': ['k']}),
        lambda v: [{'k': x} for x in v] + [{}, {'k': v[0], 'l': v[1]}, {1: v[0]}]),
    'keyed': (lambda h: ('map', {'value': h, 'key': INT}),
        lambda v: [{1: v[0]}, {'2': v[1]}, {'x': v[0]}, {}]),
    'tuple': (lambda h: ('tuple', {'values': [INT, h]}),
        lambda v: [(1, x) for x in v] + [('x', v[0]), (1,), [1, v[0]], ()]),
    'both': (lambda h: ('tuple', {'values': [h, h]}),
        lambda v: [(v[0], v[1]), (v[-1], v[0])]),
    'second': (lambda h: ('union', {'fields': [('boolean', {}), h]}),
        lambda v: [True] + v),
    'first': (lambda h: ('union', {'fields': [h, ('boolean', {})]}),
        lambda v: [True] + v),
}

# definitions: term and values, a good one first

MARKED = 'marked'
DEFINITIONS = [
    (('integer', {'default': 3, 'minimum': 1}), [5, 0, '7', 'x', None]),
    (('text', {'required': True}), ['x', '', 4, None]),
    (('structure', {'structure': {'a': ('integer', {'required': True}), 'b': TEXT}}),
        [{'a': 1}, {'a': 2, 'b': 'x'}, {'a': 'x'}, {}, None]),
    (('sequence', {'item': ('date', {}), 'name': 'dates'}),
        [[date(2000, 1, 2)], [], ['2000-01-02'], [3], None]),
    (('boolean', {'nonnull': True, 'name': 'other'}), [True, False, 'x', None]),
    (('integer', {'ignore_null': True, MARKED: True}), [5, 0, 'x', None]),
    (('map', {'value': ('integer', {}), MARKED: True, 'default': {'k': 1}}),
        [{'k': 1}, {}, {'k': 'x'}, None]),
]

class Model(ref.Model):
    def __init__(self, environment):
        self.environment = environment
    def resolve(self, term):
        while term[0] == 'hole':
            try:
                term = self.environment[term[1]['id']]
            except KeyError:
                raise ref.Unresolved()
        return term

class Instances(c18.Model):
    """instantiate() and extract(); definitions are marked wherever they are placed."""
    def __init__(self, environment):
        super(Instances, self).__init__(marks=[(('@', id),) for id, term in environment.items()
            if MARKED in term[1]])
        self.environment = environment

    def resolve(self, term, path):
        while term[0] == 'hole':
            path = (('@', term[1]['id']),)
            try:
                term = self.environment[term[1]['id']]
            except KeyError:
                raise ref.Unresolved()
        return term, path

    def instantiate(self, term, value, key=None, path=()):
        term, path = self.resolve(term, path)
        if term[0] == 'union':
            raise NotImplementedError()
        return super(Instances, self).instantiate(term, value, key, path)

    def extract(self, term, subject, strict=True, screening=False, path=()):
        term, path = self.resolve(term, path)
        return super(Instances, self).extract(term, subject, strict, screening, path)

SCALARS = {'integer': int, 'text': str, 'boolean': bool, 'date': date}

def interpolate(model, term, value):
    """Interpolation of data without references."""
    kind, params = term = model.resolve(term)
    if value is None:
        return None
    if kind in SCALARS:
        # scalar fields interpolate any text
        if kind == 'integer' and (isinstance(value, bool) or
                isinstance(value, str) and not value.isdigit()):
            raise Mismatch()
        if isinstance(value, (str, SCALARS[kind])):
            return value
    elif kind == 'structure':
        if isinstance(value, dict):
            fields = c18.variant(term, value)
            if fields is not None:
                return dict((name, interpolate(model, field, value[name]))
                    for name, _, field in fields if name in value)
    elif kind == 'sequence':
        if isinstance(value, (list, tuple)):
            return [interpolate(model, params['item'], v) for v in value]
    elif kind == 'map':
        if isinstance(value, dict):
            return dict((k, interpolate(model, params['value'], v)) for k, v in value.items())
    elif kind == 'tuple':
        if isinstance(value, (list, tuple)):
            return tuple(interpolate(model, field, v)
                for field, v in zip(params['values'], value))
    elif kind == 'union':
        for field in params['fields']:
            try:
                return interpolate(model, field, value)
            except Mismatch:
                pass
    raise Mismatch()

class Mismatch(Exception):
    pass

def normal(term):
    """``term`` with the common part of polymorphic structures spread."""
    kind, params = term
    params = dict(params)
    if kind == 'structure':
        if params.get('polymorphic_on'):
            common = params['structure'].get('*', {})
            params['structure'] = dict((identity, dict((n, normal(f)) for n, f
                in list(fields.items()) + list(common.items())))
                for identity, fields in params['structure'].items() if identity != '*')
        else:
            params['structure'] = dict((n, normal(f)) for n, f in params['structure'].items())
    for name in ('item', 'value'):
        if name in params and kind in ('sequence', 'map'):
            params[name] = normal(params[name])
    for name in ('values', 'fields'):
        if name in params and kind in ('tuple', 'union'):
            params[name] = [normal(f) for f in params[name]]
    return (kind, params)

def well_shaped(model, term, value):
    """Whether ``value`` is valid once every placeholder is defined, as it stands."""
    try:
        return ref.same(model.process(term, value, ref.OUTBOUND), value, order=False)
    except (ref.Refused, ref.Unresolved):
        return False

# operations

def marked(id):
    place = (('@', id),)
    def instantiator(field, value, key=None):
        return c18.Instance(place, value, key)
    def extractor(field, value):
        if not isinstance(value, c18.Instance):
            raise IndexError()
        return value.value
    return {'instantiator': instantiator, 'extractor': extractor}

def make(term, id=None):
    params = dict(term[1])
    extra = marked(id) if params.pop(MARKED, False) else {}
    return spec.build((term[0], params), lambda path, _: extra if not path else None)

UNRESOLVED = 'the placeholder'

class System(object):
    """Schemas under construction, with the definitions made so far."""
    def __init__(self, definitions, values):
        self.definitions = definitions          # id -> term
        self.final = Model(definitions)
        self.values = values                    # name of a root -> values
        self.memo = {}

    def battery(self, name, term, environment):
        """[(operation, function of the field, expected outcome)]"""
        key = (name, repr(term), tuple(sorted(environment)))
        if key in self.memo:
            return self.memo[key]
        model, instances = Model(environment), Instances(environment)
        complete = Instances(self.definitions)
        plain = normal(term)
        found = []

        def add(operation, function, expected):
            found.append((operation, function, expected))

        for value in self.values[name]:
            for phase, serialized in (('inbound', False), ('inbound', True), ('outbound', False),
                    ('outbound', True)):
                add('process(%r, %s, %s)' % (value, phase, serialized),
                    lambda field, v=value, p=phase, s=serialized: field.process(v, p, s),
                    self.expected(model.process, plain, value, phase, serialized))
            if not well_shaped(self.final, plain, value):
                continue
            add('interpolate(%r)' % (value,), lambda field, v=value: field.interpolate(v, {}),
                self.expected(interpolate, model, plain, value))
            add('extract(%r)' % (value,), lambda field, v=value: field.extract(v),
                self.expected(instances.extract, plain, value))
            try:
                add('instantiate(%r)' % (value,), lambda field, v=value: field.instantiate(v),
                    self.expected(instances.instantiate, plain, value))
                instance = complete.instantiate(plain, value)
                add('extract(%r)' % (instance,), lambda field, v=instance: field.extract(v),
                    self.expected(instances.extract, plain, instance))
            except NotImplementedError:
                pass
        self.memo[key] = found
        return found

    def expected(self, function, *args):
        try:
            return function(*args)
        except ref.Refused as exception:
            return exception
        except ref.Unresolved:
            return UNRESOLVED
        except c18.Failed:
            return c18.Failed

    def use(self, history, name, field, term, environment, st):
        from scheme.exceptions import CannotExtractError, UndefinedFieldError
        for operation, function, expected in self.battery(name, term, environment):
            actual = attempt(function, field)
            st.step()
            st.outcomes['undefined' if expected is UNRESOLVED else 'refused' if
                isinstance(expected, ref.Refused) else 'result'] += 1
            if expected is UNRESOLVED:
                good = isinstance(actual, Raised) and \
                    type(actual.exception) is UndefinedFieldError
            elif expected is c18.Failed:
                good = isinstance(actual, Raised) and \
                    type(actual.exception) is CannotExtractError
            elif isinstance(expected, ref.Refused):
                compare(actual, expected, 'after %s: %s.%s' % (' '.join(history), name, operation))
                good = True
            elif 'process' in operation:
                good = ref.same(actual, expected)
            else:
                good = c18.equal(actual, expected)
            if not good:
                st.violate('after %s: %s.%s of %r (%r) gave %r, expected %r' % (' '.join(history),
                    name, operation, term, self.definitions, actual, expected))

def holds(term):
    if term[0] == 'hole':
        return set([term[1]['id']])
    return set(id for _, child in spec.children(term) for id in holds(child))

def substitute(term, definitions):
    """``term`` with definitions in place of placeholders."""
    if term[0] == 'hole':
        kind, params = definitions[term[1]['id']]
        params = dict(params)
        params.pop(MARKED, None)
        return (kind, params)
    kind, params = normal(term)
    params = dict(params)
    if kind == 'structure':
        if params.get('polymorphic_on'):
            params['structure'] = dict((i, dict((n, substitute(f, definitions))
                for n, f in fields.items())) for i, fields in params['structure'].items())
        else:
            params['structure'] = dict((n, substitute(f, definitions))
                for n, f in params['structure'].items())
    for name in ('item', 'value'):
        if name in params:
            params[name] = substitute(params[name], definitions)
    for name in ('values', 'fields'):
        if name in params and kind in ('tuple', 'union'):
            params[name] = [substitute(f, definitions) for f in params[name]]
    return (kind, params)

# histories

def orders(events, before):
    """Every order of ``events`` in which each pair of ``before`` is kept."""
    for order in itertools.permutations(events):
        if all(order.index(a) < order.index(b) for a, b in before):
            yield order

def histories(events, before):
    """Orders with every subset of positions, the last always included, at which to use."""
    for order in orders(events, before):
        for uses in itertools.product((False, True), repeat=len(order) - 1):
            yield order, uses + (True,)

def derivations(term):
    found = ['clone', 'deepcopy']
    if term[0] == 'structure' and not term[1].get('polymorphic_on') and \
            not term[1].get('key_order'):
        found += ['extend', 'replace']
    return found

def derive(field, term, how):
    import copy
    from scheme import Integer
    if how == 'clone':
        return field.clone(), term
    elif how == 'deepcopy':
        return copy.deepcopy(field), term
    elif how == 'extend':
        fields = dict(term[1]['structure'], extra=INT)
        return field.extend({'extra': Integer()}), (term[0], dict(term[1], structure=fields))
    other = [name for name in term[1]['structure'] if name != 'p'][-1]
    fields = dict(term[1]['structure'])
    fields[other] = INT
    return field.replace({other: Integer()}), (term[0], dict(term[1], structure=fields))

def amend(field, term, how):
    """Takes the placeholder out of a structure."""
    from scheme import Integer
    fields = dict(term[1]['structure'])
    if how == 'remove':
        field.remove('p')
        del fields['p']
    elif how == 'merge':
        field.merge({'p': Integer()}, prefer=True)
        fields['p'] = INT
    else:
        field.insert(Integer(name='p'), overwrite=True)
        fields['p'] = ('integer', {'name': 'p'})
    return (term[0], dict(term[1], structure=fields))

def explore(system, roots, events, before, st, how=None, change=None, wrapped=None):
    """Runs every history over ``roots`` (name -> term)."""
    from scheme import Undefined
    for order, uses in histories(events, before):
        spec.HOLES.clear()
        for id in system.definitions:
            spec.HOLES[id] = Undefined()
        environment, built, made, done = {}, {}, {}, []
        for event, used in zip(order, uses):
            done.append(event)
            action, _, name = event.partition(':')
            if action == 'build':
                term = roots[name]
                if wrapped and name == 'outer':
                    built[name] = (around(wrapped, built['inner'][0]), term)
                else:
                    built[name] = (make(term), term)
            elif action == 'derive':
                built[name + "'"] = derive(built[name][0], built[name][1], how)
                system.values[name + "'"] = system.values[name]
            elif action == 'amend':
                field, term = built[name]
                built[name] = (field, amend(field, term, change))
            elif action == 'make':
                id = int(name)
                made[id] = make(system.definitions[id], id)
                if event in system.values:
                    built[event] = (made[id], system.definitions[id])
            elif action == 'define':
                id = int(name)
                if id not in made:
                    made[id] = make(system.definitions[id], id)
                spec.HOLES[id].define(made[id])
                environment = dict(environment)
                environment[id] = system.definitions[id]
            if used:
                done.append('use')
                for name in sorted(built):
                    system.use(done, name, built[name][0], built[name][1], environment, st)
            st.state(tuple(done), tuple(sorted(built)), repr(roots), repr(system.definitions))
        yield order, uses, built, done
        st.trace('history')

def around(kind, field):
    """The real container around a real field."""
    spec.HOLES[99] = field
    return spec.build(CONTAINERS[kind][0](('hole', {'id': 99})))

def in_place(system, built, done, st):
    """Compares fully defined schemas with ones declared in place."""
    for name, (field, term) in sorted(built.items()):
        key = ('in place', name, repr(term))
        if key not in system.memo:
            twin = spec.build(substitute(term, system.definitions))
            system.memo[key] = (freeze(shown(twin.describe())), [outcome(twin.process, v, p, s)
                for v in system.values[name] for p, s in ref_phases()])
        description, outcomes = system.memo[key]
        if freeze(shown(field.describe())) != description:
            st.violate('after %s: description %r, declared in place %r' % (' '.join(done),
                freeze(shown(field.describe())), description))
        actual = [outcome(field.process, v, p, s) for v in system.values[name]
            for p, s in ref_phases()]
        for a, b in zip(actual, outcomes):
            if a != b:
                st.violate('after %s: %s %r: outcome %r, declared in place %r' % (' '.join(done),
                    name, term, a, b))
        st.step(len(outcomes))

def shown(description):
    """Without the informative aspect a copy of an enumeration acquires."""
    if isinstance(description, dict):
        return dict((k, shown(v)) for k, v in description.items() if k != 'representation')
    if isinstance(description, (list, tuple)):
        return type(description)(shown(v) for v in description)
    return description

def ref_phases():
    return (('inbound', False), ('inbound', True), ('outbound', True))

# recursive systems: definitions, roots, and data by depth

def tree_data(wrap, leaf, depth):
    value = leaf
    for _ in range(depth):
        value = wrap(value)
    return value

RECURSIVE = [
    ('list', {0: S(v=INT, n=H0)}, H0,
        [tree_data(lambda x: {'v': 1, 'n': x}, leaf, d) for d in range(5)
            for leaf in ({'v': 1}, {'v': 'x'}, None, {'n': {'z': 1}})]),
    ('named', {0: ('structure', {'structure': {'v': INT, 'n': H0}, 'name': 'node'})}, H0,
        [tree_data(lambda x: {'v': 1, 'n': x}, leaf, d) for d in range(5)
            for leaf in ({'v': 1}, {'v': 'x'})]),
    ('tree', {0: S(v=('date', {}), c=('sequence', {'item': H0}))}, ('sequence', {'item': H0}),
        [[tree_data(lambda x: {'v': date(2000, 1, 2), 'c': [x, {'c': []}]}, leaf, d)]
            for d in range(5) for leaf in ({}, {'v': '2000-01-02'}, {'v': 3}, 4)]),
    ('map', {0: ('map', {'value': H0})}, H0,
        [tree_data(lambda x: {'k': x, 'l': {}}, leaf, d) for d in range(5)
            for leaf in ({}, None, 3, {1: {}})]),
    ('nested', {0: ('sequence', {'item': H0})}, H0,
        [tree_data(lambda x: [x, []], leaf, d) for d in range(5) for leaf in ([], None, 3)]),
    ('json', {0: ('union', {'fields': [('sequence', {'item': H0}), ('map', {'value': H0}),
        ('integer', {}), ('text', {})]})}, H0,
        [tree_data(lambda x: [x, {'k': x}], leaf, d) for d in range(4)
            for leaf in (1, 'x', [], {}, 1.5, None)]),
    ('pair', {0: ('tuple', {'values': [INT, ('union', {'fields': [('boolean', {}), H0]})]})}, H0,
        [tree_data(lambda x: (1, x), leaf, d) for d in range(5) for leaf in (True, 'x', (2,))]),
    ('expression', {0: ('structure', {'polymorphic_on': 'op', 'structure': {
        'lit': {'v': INT}, 'neg': {'arg': H0}, 'add': {'l': H0, 'r': H0}}})}, H0,
        [tree_data(lambda x: {'op': 'add', 'l': {'op': 'neg', 'arg': x}, 'r': {'op': 'lit',
            'v': 1}}, leaf, d) for d in range(5) for leaf in ({'op': 'lit', 'v': 2},
            {'op': 'lit', 'v': 'x'}, {'op': 'zzz'}, {})]),
    ('default', {0: S(v=('integer', {'default': 7}), n=H0, m=('map', {'value': H0}))}, S(r=H0),
        [{'r': tree_data(lambda x: {'n': {'m': {'k': x}}}, leaf, d)} for d in range(4)
            for leaf in ({}, {'v': 1}, {'v': 'x'})] + [{}]),
    ('mutual', {0: S(b=H1, v=INT), 1: ('sequence', {'item': H0})}, H0,
        [tree_data(lambda x: {'b': [x, {'v': 2}]}, leaf, d) for d in range(5)
            for leaf in ({'v': 1}, {'v': 'x'}, {'b': None})]),
    ('alternating', {0: S(x=('map', {'value': H1})), 1: ('tuple', {'values': [INT, H0]})},
        ('sequence', {'item': H1}),
        [[tree_data(lambda x: (1, {'x': {'k': x}}), leaf, d)] for d in range(4)
            for leaf in ((1, {}), (1, None), ('x', {}))] + [[]]),
    ('crossed', {0: S(a=H0, b=H1), 1: S(a=H1, b=H0, v=('text', {'required': True}))},
        ('tuple', {'values': [H0, H1]}),
        [(tree_data(lambda x: {'a': x, 'b': {'v': 'y', 'b': x}}, leaf, d), {'v': 'x'})
            for d in range(4) for leaf in ({}, {'b': {'v': 'x'}}, {'b': {}})]),
]

# cases

def cases(tier):
    kinds, count = list(CONTAINERS), len(DEFINITIONS)
    for kind in kinds:
        for d in range(count):
            for i, how in enumerate(derivations(CONTAINERS[kind][0](H0))):
                if tier != 'quick' or (d + i) % 2:
                    yield ('single', kind, d, how)
    for kind in ('structure', 'sibling', 'twice'):
        for d in range(count):
            for change in ('remove', 'merge', 'insert'):
                yield ('amend', kind, d, change)
    for i, a in enumerate(kinds):
        for j, b in enumerate(kinds):
            for d in range(count):
                chosen = tier != 'quick' or d == (i * 5 + j * 3) % count
                if chosen:
                    yield ('nested', a, b, d, 'clone' if tier != 'quick' else None)
                if i <= j and (chosen or d == (i + j) % count):
                    yield ('pair', a, b, d, 'clone' if tier != 'quick' else None)
                if chosen:
                    yield ('wrap', a, b, d)
    for kind in kinds:
        for d in range(count):
            yield ('early', kind, d)
    for a, b in itertools.product(range(count), repeat=2):
        for shape in ('tuple', 'structure', 'union', 'maps'):
            yield ('two', shape, a, b)
    for i in range(len(RECURSIVE)):
        for kind in ('root', 'structure', 'map', 'tuple')[:2 if tier == 'quick' else 4]:
            yield ('recursive', i, kind)
    for kind in sorted(OPTIONS):
        for d in range(count):
            yield ('declared', kind, d)
    if tier != 'quick':
        for a, b, c in itertools.product(kinds, repeat=3):
            yield ('deep', a, b, c, (kinds.index(a) + kinds.index(b) * 3 + kinds.index(c)) % count)

# optional parameters of containers, by kind: (term around a field, options, values)

OPTIONS = {
    'structure': (lambda h: {'structure': {'p': h, 'a': INT}}, {'strict': False, 'key_order': 'a p',
        'nonempty': True, 'name': 's', 'default': {'a': 1},
        'ignore_null': True, 'description': 'd', 'extra': 1},
        lambda v: [{'p': x} for x in v] + [{}, {'a': 1, 'p': v[0]}, {'a': 'x', 'z': 1}, None]),
    'polymorphic': (lambda h: {'polymorphic_on': 'k', 'structure': {'x': {'p': h}, 'y': {'q': h}}},
        {'strict': False, 'key_order': 'p k q', 'nonnull': True,
        'name': 's', 'default': {'k': 'y'}, 'required': True},
        lambda v: [{'k': 'x', 'p': x} for x in v] + [{'k': 'y', 'q': v[0]}, {'k': 'y', 'p': v[0]},
            {'k': 'z'}, {}, None]),
    'sequence': (lambda h: {'item': h}, {'min_length': 1, 'max_length': 2, 'unique': True,
        'nonempty': True, 'name': 's', 'default': [], 'required': True, 'extra': 1},
        lambda v: [[x] for x in v] + [[], [v[0]] * 2, [v[0]] * 3, None]),
    'map': (lambda h: {'value': h}, {'key': ('token', {}), 'required_keys': 'a', 'nonempty': True,
        'name': 'm', 'default': {}, 'ignore_null': True, 'description': 'd', 'extra': 1},
        lambda v: [{'a': x} for x in v] + [{}, {'b': v[0]}, {'a': v[0], 'b c': v[0]}, {1: v[0]},
            None]),
    'tuple': (lambda h: {'values': [h, INT, h]}, {'nonempty': True, 'name': 't', 'default': None,
        'required': True, 'description': 'd', 'extra': 1},
        lambda v: [(x, 1, v[0]) for x in v] + [(v[0], 'x', v[-1]), (v[0],), None]),
    'union': (lambda h: {'fields': [('boolean', {}), h]}, {'nonempty': True, 'name': 'u',
        'required': True, 'ignore_null': True, 'description': 'd', 'extra': 1},
        lambda v: [True] + list(v)),
}

def declared(kind, d, st):
    """Every subset of the optional parameters of a container, and placeholders for its fields."""
    from scheme import Undefined
    around, options, contents = OPTIONS[kind]
    definition, values = DEFINITIONS[d]
    system = System({0: definition}, {'field': contents(values)})
    names = sorted(options)
    for count in range(len(names) + 1):
        for chosen in itertools.combinations(names, count):
            params = dict((name, options[name]) for name in chosen)
            term = (kind if kind != 'polymorphic' else 'structure', dict(around(H0), **params))
            for early in (False, True):
                spec.HOLES.clear()
                spec.HOLES[0] = Undefined(make(definition, 0) if early else None)
                field = spec.build(term)
                if not early:
                    spec.HOLES[0].define(make(definition, 0))
                st.state(kind, d, chosen, early)
                done = ['Undefined(field)'] if early else ['build', 'define:0']
                in_place(system, {'field': (field, term)}, done, st)
                st.trace('history')

def run(case, st):
    what = case[0]
    if what == 'declared':
        return declared(case[1], case[2], st)
    if what == 'recursive':
        return recursive(case[1], case[2], st)
    if what == 'early':
        return early(case[1], case[2], st)
    if what == 'two':
        return two(case[1:], st)
    how = change = wrapped = None
    if what in ('single', 'amend'):
        kind, d = case[1:3]
        definition, values = DEFINITIONS[d]
        term, around_values = CONTAINERS[kind]
        roots = {'field': term(H0)}
        contents = {'field': around_values(values)}
        events = ['build:field', 'define:0']
        if what == 'single':
            how = case[3]
            events.append('derive:field')
            before = [('build:field', 'derive:field')]
        else:
            change = case[3]
            events.append('amend:field')
            before = [('build:field', 'amend:field')]
    elif what == 'nested':
        a, b, d, how = case[1:]
        definition, values = DEFINITIONS[d]
        roots = {'field': CONTAINERS[a][0](CONTAINERS[b][0](H0))}
        contents = {'field': CONTAINERS[a][1](CONTAINERS[b][1](values))}
        events, before = ['build:field', 'define:0'], []
        if how:
            events.append('derive:field')
            before = [('build:field', 'derive:field')]
    elif what == 'deep':
        a, b, c, d = case[1:]
        definition, values = DEFINITIONS[d]
        roots = {'field': CONTAINERS[a][0](CONTAINERS[b][0](CONTAINERS[c][0](H0)))}
        contents = {'field': CONTAINERS[a][1](CONTAINERS[b][1](CONTAINERS[c][1](values)))}
        events, before = ['build:field', 'define:0'], []
    elif what == 'pair':
        a, b, d, how = case[1:]
        definition, values = DEFINITIONS[d]
        roots = {'first': CONTAINERS[a][0](H0), 'second': CONTAINERS[b][0](H0)}
        contents = {'first': CONTAINERS[a][1](values), 'second': CONTAINERS[b][1](values)}
        events, before = ['build:first', 'build:second', 'define:0'], []
        if how:
            events.append('derive:first')
            before = [('build:first', 'derive:first')]
    elif what == 'wrap':
        wrapped, b, d = case[1:]
        definition, values = DEFINITIONS[d]
        inner = spec.with_params(CONTAINERS[b][0](H0), name='inner')
        roots = {'inner': inner, 'outer': CONTAINERS[wrapped][0](inner)}
        contents = {'inner': CONTAINERS[b][1](values),
            'outer': CONTAINERS[wrapped][1](CONTAINERS[b][1](values))}
        events = ['build:inner', 'build:outer', 'define:0']
        before = [('build:inner', 'build:outer')]
    system = System({0: definition}, contents)
    st.sample('%s: %r' % (' '.join(map(str, case)), roots))
    for order, uses, built, done in explore(system, roots, events, before, st, how, change,
            wrapped):
        if len(set(uses[:-1])) < 2:
            in_place(system, built, done, st)

def early(kind, d, st):
    """A placeholder holding its field from the start."""
    from scheme import Undefined
    definition, values = DEFINITIONS[d]
    system = System({0: definition}, {'field': CONTAINERS[kind][1](values)})
    spec.HOLES.clear()
    spec.HOLES[0] = Undefined(make(definition, 0))
    term = CONTAINERS[kind][0](H0)
    field = make(term)
    st.state(kind, d)
    system.use(['Undefined(field)'], 'field', field, term, {0: definition}, st)
    in_place(system, {'field': (field, term)}, ['Undefined(field)'], st)
    st.trace('history')

def two(case, st):
    """Two placeholders in one schema, defined in either order."""
    shape, a, b = case
    (first, u), (second, v) = DEFINITIONS[a], DEFINITIONS[b]
    if shape == 'tuple':
        term = ('tuple', {'values': [H0, H1]})
        values = [(x, y) for x in u[:3] for y in v[:3]]
    elif shape == 'structure':
        term = S(p=H0, q=H1)
        values = [{'p': x, 'q': y} for x in u[:2] for y in v[:2]] + [{'p': u[0]}, {'q': v[0]}, {}]
    elif shape == 'maps':
        term = S(p=('map', {'value': H0}), q=('sequence', {'item': H1}))
        values = [{'p': {'k': x}, 'q': [y]} for x in u[:2] for y in v[:2]] + [{'p': {}},
            {'q': []}, {'q': [v[0]], 'p': {}}]
    else:
        if second[0] == first[0]:
            return
        term = ('union', {'fields': [H0, H1]})
        values = u[:2] + v[:2]
    system = System({0: first, 1: second}, {'field': values})
    for order, uses, built, done in explore(system, {'field': term}, ['build:field',
            'define:0', 'define:1'], [], st):
        in_place(system, built, done, st)

def recursive(index, kind, st):
    name, definitions, root, values = RECURSIVE[index]
    if kind == 'root':
        contents = {'field': values}
    elif kind == 'structure':
        root, contents = S(r=root), {'field': [{'r': v} for v in values]}
    elif kind == 'map':
        root, contents = ('map', {'value': root}), {'field': [{'k': v} for v in values]}
    else:
        root = ('tuple', {'values': [INT, root]})
        contents = {'field': [(1, v) for v in values]}
    roots = {'field': root}
    if RECURSIVE[index][2] == H0:
        # the definition itself is the schema
        contents['make:0'] = values
    events = ['make:%d' % id for id in definitions] + ['define:%d' % id for id in definitions]
    if root[0] != 'hole':
        events.append('build:field')
    system = System(definitions, contents)
    before = [('make:%d' % id, 'define:%d' % id) for id in definitions]
    st.sample('%s: %r' % (name, definitions))
    for _ in explore(system, roots, events, before, st):
        pass
