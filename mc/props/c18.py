"""Every schema tree to depth three over the structural types x every subset of places carrying an
instantiator and extractor x every subset of places screened out x plain, null, partial, wrongly
shaped and object subjects: the value returned, the order-independent log of calls (place, value,
key) and the exceptions of instantiate() and extract() are compared with a model written over the
schema term.  Instances record the value they were built from, so that innermost-first is part of
the comparison; the field handed to every callable is identified by an aspect naming its place."""

import collections
import itertools

from mc import spec
from mc.core import Violation
from mc.domains import *
from mc.observe import snapshot

BOUNDS = {
    'quick': 'all trees structure/polymorphic/sequence/map/tuple/union over the same over leaves'
        ' (depth 3), every subset of marked places up to 6 places and every subset of up to three'
        ' (or all but one) beyond; one to three values each; screening by one and two parameters',
    'thorough': 'the same with every subset of marked places, depth 4 chains, and two-child'
        ' structural nodes',
}
ASSUMPTIONS = (
    'instantiate() of a union raises NotImplementedError in the code base and is not checked',
    'screening marks are not put on the alternatives of a union nor on a discriminator, where'
    ' leaving a field out is not defined',
)

INT, TEXT, ANY = ('integer', {}), ('text', {}), ('field', {})

class Instance(object):
    def __init__(self, path, value, key):
        self.path, self.value, self.key = path, value, key
    def __repr__(self):
        return 'Instance(%r, %r, %r)' % (self.path, self.value, self.key)
    def __deepcopy__(self, memo):
        return self

class Bag(object):
    """An object whose attributes are the keys of a dict."""
    def __init__(self, attributes):
        self.__dict__.update(attributes)
    def __repr__(self):
        return 'Bag(%r)' % (self.__dict__,)

class Excluded(Exception):
    pass

class Failed(Exception):
    pass

def equal(a, b):
    if isinstance(a, Instance) or isinstance(b, Instance):
        return isinstance(a, Instance) and isinstance(b, Instance) and a.path == b.path and \
            a.key == b.key and type(a.key) is type(b.key) and equal(a.value, b.value)
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    return a == b

# the model

def variant(term, value):
    """Fields of a structure as (name, path step, term); None without a recognized identity."""
    params = term[1]
    on = params.get('polymorphic_on')
    if not on:
        return [(name, (name,), field) for name, field in params['structure'].items()]
    name = on if isinstance(on, str) else on[1]['name']
    identity = value.get(name)
    if identity not in params['structure']:
        return None
    return [(n, (identity, n), field) for n, field in params['structure'][identity].items()] + \
        [(name, ('polymorphic_on',), ('text', {}) if isinstance(on, str) else on)]

class Model(object):
    def __init__(self, marks=(), screened=(), failing=()):
        self.marks, self.screened, self.failing = marks, screened, failing
        self.log = []

    def instantiate(self, term, value, key=None, path=()):
        kind, params = term
        if value is None:
            return None
        if kind == 'structure':
            steps = dict((name, (step, field)) for name, step, field in variant(term, value))
            value = dict((k, self.instantiate(steps[k][1], v, k, path + steps[k][0]))
                for k, v in value.items())
        elif kind == 'sequence':
            value = [self.instantiate(params['item'], v, None, path + ('item',)) for v in value]
        elif kind == 'map':
            value = dict((k, self.instantiate(params['value'], v, k, path + ('value',)))
                for k, v in value.items())
        elif kind == 'tuple':
            value = tuple(self.instantiate(params['values'][i], v, None, path + (i,))
                for i, v in enumerate(value))
        if path in self.marks:
            value = Instance(path, value, key)
            self.log.append(('instantiate', path, value.value, key))
        return value

    def extract(self, term, subject, strict=True, screening=False, path=()):
        kind, params = term
        if screening and path in self.screened:
            raise Excluded()
        if subject is None:
            return None
        if path in self.marks:
            self.log.append(('extract', path))
            if path in self.failing or not isinstance(subject, Instance):
                raise Failed()
            subject = subject.value
        below = lambda t, s, *steps: self.extract(t, s, strict, screening, path + steps)
        if kind == 'structure':
            on = params.get('polymorphic_on')
            if not isinstance(subject, dict):
                if strict:
                    raise Failed()
                # any other object is read through its attributes
                subject = getattr(subject, '__dict__', {})
            if on and path + ('polymorphic_on',) in self.marks:
                plain = dict(subject)
                name = on if isinstance(on, str) else on[1]['name']
                if isinstance(plain.get(name), Instance):
                    plain[name] = plain[name].value
                else:
                    raise Failed()
                fields = variant(term, plain)
            else:
                fields = variant(term, subject)
            if fields is None:
                raise Failed()
            result = {}
            for name, step, field in fields:
                if subject.get(name) is None:
                    continue
                try:
                    result[name] = below(field, subject[name], *step)
                except Excluded:
                    pass
            return result
        elif kind == 'sequence':
            if not isinstance(subject, (list, tuple)):
                raise Failed()
            result = []
            for item in subject:
                try:
                    result.append(below(params['item'], item, 'item'))
                except Excluded:
                    pass
            return result
        elif kind == 'map':
            if not isinstance(subject, dict):
                raise Failed()
            result = {}
            for key, item in subject.items():
                try:
                    result[key] = below(params['value'], item, 'value')
                except Excluded:
                    pass
            return result
        elif kind == 'tuple':
            if not isinstance(subject, (list, tuple)) or len(subject) < len(params['values']):
                raise Failed()
            result = []
            for i, field in enumerate(params['values']):
                try:
                    result.append(below(field, subject[i], i))
                except Excluded:
                    pass
            return tuple(result)
        elif kind == 'union':
            for i, field in enumerate(params['fields']):
                try:
                    return below(field, subject, i)
                except Failed:
                    pass
            raise Failed()
        return subject

# schemas

def places(term, path=(), under_union=False):
    """(path, term, may carry a screening mark) for every place."""
    yield path, term, not under_union
    on = term[1].get('polymorphic_on')
    if on:
        yield path + ('polymorphic_on',), on, False
    for step, child in spec.children(term):
        if step == ('key',):
            continue
        for found in places(child, path + step, term[0] == 'union'):
            yield found

def variants_of(inner, values):
    """Structural terms around one (term, values)."""
    v = values
    yield ('structure', {'structure': {'a': inner, 'b': TEXT}}), \
        [{'a': v[0], 'b': 'x'}, {'a': v[-1]}, {'a': None, 'b': 'y'}, {}]
    yield ('structure', {'polymorphic_on': 'kind', 'structure': {'x': {'a': inner},
        'y': {'b': INT}}}), [{'kind': 'x', 'a': v[0]}, {'kind': 'y', 'b': 1}, {'kind': 'x'}]
    yield ('sequence', {'item': inner}), [[v[0], v[-1]], [], [None, v[0]]]
    yield ('map', {'value': inner}), [{'k': v[0], '': v[-1]}, {}, {'k': None}]
    yield ('map', {'value': inner, 'key': INT}), [{1: v[0], 0: v[-1]}]
    yield ('tuple', {'values': [INT, inner]}), [(1, v[0]), (None, v[-1])]
    if inner[0] not in ('integer', 'text', 'field', 'union'):
        yield ('union', {'fields': [inner, TEXT]}), [v[0], 'x']
        yield ('union', {'fields': [('map', {'value': ('sequence', {'item': INT})}), inner]}), \
            [v[0]]

def pairs(inner, values, other, others):
    """Structural terms with two structural children."""
    yield ('structure', {'structure': {'a': inner, 'b': other}}), \
        [{'a': values[0], 'b': others[0]}, {'b': others[-1]}]
    yield ('tuple', {'values': [inner, other]}), [(values[0], others[0]), (values[-1], None)]

EXPLICIT = ('structure', {'polymorphic_on': ('text', {'name': 'kind'}), 'structure': {
    'x': {'a': INT}, 'y': {'a': ('sequence', {'item': TEXT})}}})
EXPLICIT_VALUES = [{'kind': 'x', 'a': 1}, {'kind': 'y', 'a': ['p', 'q']}, {'kind': 'y'}]
NUMBERED = ('structure', {'polymorphic_on': ('integer', {'name': 'n'}), 'structure': {
    0: {'a': INT}, 1: {'b': ('map', {'value': INT})}}})
NUMBERED_VALUES = [{'n': 0, 'a': 1}, {'n': 1, 'b': {'k': 2}}]

def trees(tier):
    first = [(INT, [1, 0]), (ANY, [{'p': [1]}, 'x'])]
    second = [found for inner in first for found in variants_of(*inner)] + [
        (EXPLICIT, EXPLICIT_VALUES), (NUMBERED, NUMBERED_VALUES)]
    third = [found for inner in second for found in variants_of(*inner)]
    found = first + second + third
    found += [p for a in second[::3] for b in second[1::4] for p in pairs(*(a + b))]
    if tier != 'quick':
        found += [f for inner in third for f in variants_of(*inner)]
        found += [p for a in second for b in second for p in pairs(*(a + b))]
    return found

SCALARS = [
    (('text', {}), 'x'), (('token', {}), 'a:b'), (('email', {}), 'a@b.co'),
    (('uuid', {}), UUIDS[1]), (('integer', {}), 0), (('float', {}), 0.0),
    (('decimal', {}), D('0')), (('boolean', {}), False), (('binary', {}), b''),
    (('date', {}), date(2000, 1, 2)), (('time', {}), time(0, 0)),
    (('datetime', {'utc': True}), dt(2000, 1, 1)), (('enumeration', {'enumeration': ['', 'b']}),
    ''), (('object', {}), Junk), (('field', {}), {}), (('definition', {}), Junk()),
    (('error', {}), Junk()), (('surrogate', {}), Junk()),
]

def cases(tier):
    for i in range(len(SCALARS)):
        yield ('scalar', i)
    for name in ('excluding', 'string', 'attributes', 'raising', 'aspects', 'order', 'identity', 'objects',
            'keys', 'null'):
        yield (name,)
    for term, values in trees(tier):
        yield ('tree', term, values, tier == 'quick')

def subsets(items, limited):
    items = list(items)
    sizes = range(len(items) + 1)
    if limited and len(items) > 6:
        sizes = [0, 1, 2, 3, len(items) - 1, len(items)]
        if len(items) > 9:
            sizes = [0, 1, 2, len(items) - 1, len(items)]
    for size in sizes:
        for chosen in itertools.combinations(items, size):
            yield frozenset(chosen)

class Recorder(object):
    def __init__(self):
        self.log, self.problems = [], []

    def check(self, field, path):
        if getattr(field, 'place', None) != path:
            self.problems.append('the callable of %r was given field %r of %r' % (path, field,
                getattr(field, 'place', None)))

    def params(self, marks=(), screened=(), failing=(), aspects=None):
        def extra(path, term):
            params = {'place': path, 'shown': path not in screened}
            if aspects:
                params.update(aspects(path))
            if path in marks:
                params.update(instantiator=self.instantiator(path),
                    extractor=self.extractor(path, path in failing))
            return params
        return extra

    def instantiator(self, path):
        def instantiator(field, value, key=None):
            self.check(field, path)
            self.log.append(('instantiate', path, value, key))
            return Instance(path, value, key)
        return instantiator

    def extractor(self, path, fails):
        def extractor(field, value):
            self.check(field, path)
            self.log.append(('extract', path))
            if fails or not isinstance(value, Instance):
                raise IndexError('failing')
            return value.value
        return extractor

    def take(self):
        log, self.log = self.log, []
        return log

def same_log(actual, expected):
    expected = list(expected)
    for call in actual:
        for i, candidate in enumerate(expected):
            if candidate[:2] == call[:2] and all(equal(a, b)
                    for a, b in zip(call[2:], candidate[2:])):
                del expected[i]
                break
        else:
            return False
    return not expected

def outcome(function, *args, **params):
    from scheme.exceptions import CannotExtractError, FieldExcludedError
    try:
        return function(*args, **params)
    except FieldExcludedError:
        return Excluded
    except CannotExtractError:
        return Failed

def expected_outcome(function, *args, **params):
    try:
        return function(*args, **params)
    except (Excluded, Failed) as exception:
        return type(exception)

def shared(a, b, term):
    """Whether a container at a described place is the same object in both."""
    kind, params = term
    if kind in ('structure', 'sequence', 'map', 'tuple') and a is b and a is not None \
            and a != ():
        return True
    if isinstance(b, (Instance, Bag)) or a is None or b is None:
        return False
    if kind == 'structure':
        fields = variant(term, b)
        return fields is not None and isinstance(b, dict) and any(
            shared(a.get(n), b.get(n), t) for n, s, t in fields)
    if kind in ('sequence', 'map'):
        if kind == 'map':
            return any(shared(a.get(k), b[k], params['value']) for k in b)
        return len(a) == len(b) and any(shared(x, y, params['item']) for x, y in zip(a, b))
    if kind == 'tuple':
        return len(a) == len(b) and any(shared(x, y, t)
            for x, y, t in zip(a, b, params['values']))
    return False

def compare(term, what, field, recorder, model, actual, expected, discriminators=()):
    if recorder.problems:
        raise Violation('%s: %s' % (what, recorder.problems[0]))
    if isinstance(expected, type) or isinstance(actual, type):
        if actual is not expected:
            raise Violation('%s: gave %r, expected %r' % (what, actual, expected))
    elif not equal(actual, expected):
        raise Violation('%s: gave %r, expected %r' % (what, actual, expected))
    log = recorder.take()
    if expected is Failed or expected is Excluded:
        return                  # how far it got is not part of the property
    # reading a discriminator may take the extractor once to choose the variant
    reduce = lambda calls: [call for call in calls if not (call[0] == 'extract'
        and call[1][-1:] == ('polymorphic_on',))]
    if not same_log(reduce(log), reduce(model.log)):
        raise Violation('%s: calls %r, expected %r' % (what, log, model.log))

def without_nulls(term, value):
    """The value with null keys of structures left out."""
    kind, params = term
    if value is None:
        return None
    if kind == 'structure':
        return dict((n, without_nulls(t, value[n])) for n, s, t in variant(term, value)
            if value.get(n) is not None)
    if kind == 'sequence':
        return [without_nulls(params['item'], v) for v in value]
    if kind == 'map':
        return dict((k, without_nulls(params['value'], v)) for k, v in value.items())
    if kind == 'tuple':
        return tuple(without_nulls(t, v) for t, v in zip(params['values'], value))
    return value

def has_union(term):
    return term[0] == 'union' or any(has_union(child) for step, child in spec.children(term))

def bagged(term, value, depth=99):
    """The value with the dicts of structures replaced by objects down to ``depth``."""
    kind, params = term
    if value is None or depth < 0:
        return value
    if kind == 'structure':
        return Bag(dict((n, bagged(t, value[n], depth - 1)) for n, s, t in variant(term, value)
            if n in value))
    if kind == 'sequence':
        return [bagged(params['item'], v, depth - 1) for v in value]
    if kind == 'map':
        return dict((k, bagged(params['value'], v, depth - 1)) for k, v in value.items())
    if kind == 'tuple':
        return tuple(bagged(t, v, depth - 1) for t, v in zip(params['values'], value))
    return value

def subjects(term, value):
    """Subjects derived from one valid value, with the strictness to use."""
    yield value, True
    yield value, False
    kind = term[0]
    if not has_union(term):
        for depth in (99, 0):
            yield bagged(term, value, depth), False
        yield bagged(term, value), True
    if kind in ('sequence', 'tuple'):
        yield tuple(value), True
        yield list(value), True
    if kind == 'tuple':
        yield value[:-1], True
        yield value + (1,), True
        yield [], True
    if kind == 'structure':
        yield dict(value, extra=1), True
        for name in value:
            yield dict((k, v) for k, v in value.items() if k != name), True
            yield dict(value, **{name: None}), True
        if term[1].get('polymorphic_on'):
            on = term[1]['polymorphic_on']
            name = on if isinstance(on, str) else on[1]['name']
            yield dict(value, **{name: 'zzz'}), True
            yield Bag({'a': 1}), False
            yield Bag({name: 'zzz'}), False
    for wrong in ('text', 5, [1], {'q': 1}, (), Bag({}), Bag({'a': 1, 'b': 'x'})):
        yield wrong, True
        if not isinstance(wrong, (str, int)):
            yield wrong, False

def run_tree(term, values, limited, st):
    nodes = [(path, t, may) for path, t, may in places(term)]
    union = has_union(term)
    # a generated discriminator cannot be given callables of its own
    markable = [path for path, t, may in nodes if not isinstance(t, str)]
    for marks in subsets(markable, limited):
        recorder = Recorder()
        field = spec.build(term, recorder.params(marks))
        for value in values:
            if not union:
                before = snapshot(value)
                for key in (None, 'key'):
                    model = Model(marks)
                    expected = model.instantiate(term, value, key)
                    actual = field.instantiate(value, key) if key else field.instantiate(value)
                    compare(term, '%r with instantiators at %r: instantiate(%r, %r)' % (term,
                        sorted(marks, key=repr), value, key), field, recorder, model, actual,
                        expected)
                    st.step()
                    st.trace('instantiated')
                if not equal(value, before):
                    raise Violation('%r: instantiate changed its argument from %r to %r' % (term,
                        before, value))
                instance, again = actual, snapshot(actual) if not marks else None
                model = Model(marks)
                expected = model.extract(term, instance)
                assert equal(expected, without_nulls(term, value)), (expected, value)
                actual = outcome(field.extract, instance)
                compare(term, '%r with callables at %r: extract(instantiate(%r))' % (term,
                    sorted(marks, key=repr), value), field, recorder, model, actual, expected)
                if shared(actual, instance, term):
                    raise Violation('%r: extract(%r) shares containers with its subject' % (
                        term, instance))
                if again is not None and not equal(instance, again):
                    raise Violation('%r: extract changed its subject' % (term,))
                st.step()
                st.trace('round trip')
        st.state(repr(term), marks)
    # extraction from anything
    for marks in itertools.chain([frozenset()], (frozenset([m]) for m in markable)):
        recorder = Recorder()
        field = spec.build(term, recorder.params(marks))
        for value in values:
            for subject, strict in subjects(term, value):
                model = Model(marks)
                expected = expected_outcome(model.extract, term, subject, strict)
                actual = outcome(field.extract, subject, strict=strict)
                compare(term, '%r with extractors at %r: extract(%r, strict=%r)' % (term,
                    sorted(marks, key=repr), subject, strict), field, recorder, model, actual,
                    expected)
                st.step()
                st.trace('failed' if expected is Failed else 'extracted')
    # failing extractors
    for failing in markable:
        recorder = Recorder()
        field = spec.build(term, recorder.params(markable, failing=[failing]))
        for value in values if not union else ():
            model = Model(markable, failing=[failing])
            instance = Model(markable).instantiate(term, value)
            expected = expected_outcome(model.extract, term, instance)
            if failing[-1:] == ('polymorphic_on',):
                continue
            actual = outcome(field.extract, instance)
            compare(term, '%r with a failing extractor at %r: extract(%r)' % (term, failing,
                instance), field, recorder, model, actual, expected)
            st.step()
            st.trace('failing extractor')
    # screening
    generated = frozenset(path for path, t, may in nodes if isinstance(t, str))
    screenable = [path for path, t, may in nodes if may]
    for screened in subsets(screenable, limited):
        recorder = Recorder()
        odd = lambda path: {'other': 'p' if len(path) % 2 else 'q'}
        field = spec.build(term, recorder.params((), screened, aspects=odd))
        for value in values:
            for params in ({'shown': True}, {'shown': None}, {'shown': None, 'missing': None},
                    {}):
                chooses = params.get('shown') is not None
                # a generated discriminator has no aspects: it never matches
                model = Model((), screened | generated)
                expected = expected_outcome(model.extract, term, value, True, chooses)
                actual = outcome(field.extract, value, **params)
                compare(term, '%r without %r: extract(%r, %r)' % (term, sorted(screened,
                    key=repr), value, params), field, recorder, model, actual, expected)
                st.step()
                st.trace('excluded' if expected is Excluded else 'screened')

def run_scalar(index, st):
    import scheme
    from scheme.exceptions import CannotExtractError, FieldExcludedError
    term, value = SCALARS[index]
    if term[0] == 'error':
        value = scheme.ValidationError({'token': 'x'})
    elif term[0] == 'surrogate':
        value = scheme.surrogate({'a': 1})
    elif term[0] == 'definition':
        value = scheme.Integer()
    recorder = Recorder()
    for marks in ((), ((),)):
        field = spec.build(term, recorder.params(marks))
        for key in (None, 'k', 0):
            made = field.instantiate(value, key)
            log = recorder.take()
            if marks:
                if not isinstance(made, Instance) or made.value is not value or \
                        made.key != key or len(log) != 1:
                    raise Violation('%r: instantiate(%r, %r) gave %r with calls %r' % (term,
                        value, key, made, log))
                if field.extract(made) is not value or len(recorder.take()) != 1:
                    raise Violation('%r: the value is not extracted from %r' % (term, made))
                if outcome(field.extract, value) is not Failed:
                    raise Violation('%r: the failure of its extractor does not surface' % (term,))
                recorder.take()
            elif made is not value or log or field.extract(value) is not value:
                raise Violation('%r: a field without callables changed %r' % (term, value))
            st.step(2)
            st.trace('scalar')
        if field.instantiate(None) is not None or field.extract(None) is not None or \
                recorder.take():
            raise Violation('%r: null is instantiated or extracted' % (term,))
        if outcome(field.extract, None, shown=False) is not Excluded or \
                outcome(field.extract, None, shown=True) is not None:
            raise Violation('%r: screening does not apply to null' % (term,))
        st.step(4)
    if recorder.problems:
        raise Violation(recorder.problems[0])

def run_special(name, st):
    import scheme
    from scheme import Integer, Map, Sequence, Structure, Text, Tuple
    log = []
    if name == 'string':
        for field in (Text, Integer):
            made = field(instantiator='collections.namedtuple', extractor='operator.eq')
            import collections, operator
            if made.instantiator is not collections.namedtuple or \
                    made.extractor is not operator.eq:
                raise Violation('callables given by name are not resolved')
    elif name == 'attributes':
        class Builder(object):
            @staticmethod
            def __instantiate__(field, value, key):
                return ('made', value, key)
            @staticmethod
            def __extract__(field, value):
                return value[1]
        for build in (lambda: Integer(instantiator=Builder, extractor=Builder),
                lambda: Integer(instantiator=Builder(), extractor=Builder())):
            field = Map(build())
            made = field.instantiate({'k': 0})
            if made != {'k': ('made', 0, 'k')} or field.extract(made) != {'k': 0}:
                raise Violation('__instantiate__ or __extract__ of the callable ignored: %r' %
                    (made,))
    elif name == 'raising':
        # an instantiator's own exception is not swallowed, nor taken for an undefined field
        for kind in (AttributeError, KeyError, IndexError, ValueError, TypeError):
            def fail(field, value, key=None):
                raise kind('mine')
            leaf = Integer(instantiator=fail)
            for field, value in ((Structure({'a': leaf}), {'a': 1}), (Sequence(leaf), [1]),
                    (Map(leaf), {'k': 1}), (Tuple([leaf]), (1,)), (leaf, 1)):
                try:
                    result = field.instantiate(value)
                except kind as exception:
                    if exception.args != ('mine',):
                        raise Violation('%r: the exception of its instantiator became %r' % (
                            field, exception))
                except Exception as exception:
                    raise Violation('%r: %s of its instantiator became %r' % (field,
                        kind.__name__, exception))
                else:
                    raise Violation('%r: %s of its instantiator was swallowed: %r' % (field,
                        kind.__name__, result))
                st.step()
                st.trace('raising')
    elif name == 'aspects':
        # screening compares every given parameter, including declared ones
        values = {'required': True, 'nonnull': False, 'title': 't', 'colour': 'red', 'n': 0}
        field = Integer(required=True, title='t', colour='red', n=0)
        for size in range(len(values) + 1):
            for chosen in itertools.combinations(sorted(values), size):
                for wrong in (None,) + chosen:
                    for params in (dict((k, values[k]) for k in chosen),):
                        if wrong:
                            params[wrong] = 'wrong'
                        expected = Excluded if wrong else 5
                        if outcome(field.extract, 5, **params) != expected:
                            raise Violation('extract(5, %r) gave %r' % (params,
                                outcome(field.extract, 5, **params)))
                        if field.screen(**params) != (not wrong):
                            raise Violation('screen(%r)' % (params,))
                        st.step(2)
                        st.trace('screened')
    elif name == 'order':
        field = Structure({'a': Integer(), 'b': Text(), 'c': Integer()}, key_order='c a b')
        value = {'b': 'x', 'a': 1, 'c': 2}
        if dict(field.extract(value)) != value or dict(field.instantiate(value)) != value:
            raise Violation('a structure with a key order loses keys')
    elif name == 'identity':
        # the discriminator's instance chooses the variant when extracting
        for identities in (('x', 'y'), (0, 1), (True, False)):
            kind = {str: Text, int: Integer, bool: scheme.Boolean}[type(identities[0])]
            field = Structure(dict((identity, {'a': Integer()}) for identity in identities),
                polymorphic_on=kind(name='k', instantiator=lambda f, v, key: Instance((), v, key),
                    extractor=lambda f, v: v.value))
            for identity in identities:
                value = {'k': identity, 'a': 1}
                made = field.instantiate(value)
                if not isinstance(made['k'], Instance) or made['k'].key != 'k':
                    raise Violation('the discriminator is not instantiated: %r' % (made,))
                if outcome(field.extract, made) != value:
                    raise Violation('extracting from %r gave %r' % (made, outcome(field.extract,
                        made)))
                st.step(2)
                st.trace('discriminator')
    elif name == 'objects':
        # attributes of any nature are read when not strict
        class Base(object):
            c = 3
        class Slots(object):
            __slots__ = ('a', 'b')
        class Properties(Base):
            @property
            def a(self):
                return 1
            @property
            def b(self):
                raise AttributeError('b')
        slots = Slots()
        slots.a = 1
        field = Structure({'a': Integer(), 'b': Text(), 'c': Integer()})
        for subject, expected in ((slots, {'a': 1}), (Properties(), {'a': 1, 'c': 3})):
            if outcome(field.extract, subject, strict=False) != expected:
                raise Violation('extracting from an object gave %r, expected %r' % (
                    outcome(field.extract, subject, strict=False), expected))
            for around, value, wanted in (
                    (Sequence(field), [subject], [expected]), (Map(field), {'k': subject},
                    {'k': expected}), (Tuple([field]), (subject,), (expected,)),
                    (Structure({'s': field}), {'s': subject}, {'s': expected})):
                if outcome(around.extract, value, strict=False) != wanted:
                    raise Violation('extracting from a nested object gave %r' % (outcome(
                        around.extract, value, strict=False),))
                if outcome(around.extract, value) is not Failed:
                    raise Violation('a strict extraction reads the attributes of objects')
                st.step(2)
                st.trace('objects')
    elif name == 'excluding':
        # a class of fields may exclude some values: these, and nothing else, are left out
        from scheme.exceptions import FieldExcludedError
        class Choosy(Integer):
            def extract(self, subject, strict=True, **params):
                if subject < 0:
                    raise FieldExcludedError(self)
                return subject
        kinds = [
            (lambda f: Sequence(f()), list), (lambda f: Tuple([f(), f(), f()]), tuple),
            (lambda f: Map(f()), lambda v: dict(zip('abc', v))),
            (lambda f: Structure({'a': f(), 'b': f(), 'c': f()}), lambda v: dict(zip('abc', v))),
            (lambda f: Structure({'x': {'a': f(), 'b': f(), 'c': f()}, 'y': {}}, polymorphic_on=
                't'), lambda v: dict(zip('abc', v), t='x')),
        ]
        def without(value):
            if isinstance(value, dict):
                return dict((k, without(v)) for k, v in value.items() if v != -1)
            if isinstance(value, (list, tuple)):
                return type(value)(without(v) for v in value if v != -1)
            return value
        for values in itertools.product((1, -1), repeat=3):
            for make, wrap in kinds:
                field, value = make(Choosy), wrap(values)
                st.step()
                if outcome(field.extract, value) != without(value):
                    raise Violation('%r: extracting %r, of which what is negative is excluded, '
                        'gave %r' % (field, value, outcome(field.extract, value)))
                for outer, around in kinds:
                    nested = outer(lambda: make(Choosy))
                    whole = around([value, wrap((1, 1, 1)), value])
                    st.step()
                    if outcome(nested.extract, whole) != without(whole):
                        raise Violation('%r: extracting %r, of which what is negative is '
                            'excluded, gave %r' % (nested, whole, outcome(nested.extract, whole)))
            st.state('excluding', values)
        # fields are extracted when they match every one of many parameters
        names = 'abcdef'
        for marks in itertools.product((True, False, None), repeat=len(names)):
            marked = dict((n, m) for n, m in zip(names, marks) if m is not None)
            for size in (2, 5, 6):
                query = dict((n, True) for n in names[-size:])
                matching = all(marked.get(n) for n in query)
                field = Structure({'x': Integer(**marked), 'y': Integer(**query)}, **query)
                st.step()
                found = outcome(field.extract, {'x': 1, 'y': 2}, **query)
                if found != ({'x': 1, 'y': 2} if matching else {'y': 2}):
                    raise Violation('extracting of a field marked %r by %r gave %r' % (marked,
                        query, found))
        st.trace('excluding')
    elif name == 'null':
        # an extractor may supply null, which is extracted as such
        from scheme.fields.union import Union
        supply = lambda field, value: None
        for field in (Integer(extractor=supply), Structure({'a': Integer()}, extractor=supply),
                Structure({'x': {}}, polymorphic_on='k', extractor=supply),
                Sequence(Integer(), extractor=supply), Map(Integer(), extractor=supply),
                Tuple([Integer()], extractor=supply), Union([Integer()], extractor=supply)):
            for around, value, expected in ((None, 5, None), (Sequence(field), [5, None], [None,
                    None]), (Map(field), {'k': {}}, {'k': None}), (Tuple([field]), ([],),
                    (None,)), (Structure({'s': field}), {'s': 'x'}, {'s': None})):
                found = outcome((around or field).extract, value)
                if not equal(found, expected):
                    raise Violation('%r: extracting null gave %r, expected %r' % (around or
                        field, found, expected))
                st.step()
                st.trace('null')
        # what an extractor supplies is what's extracted from, by every kind of container
        for given, make, expected in ((5, lambda **p: Union([Sequence(Integer()), Integer()], **p),
                5), ([1], lambda **p: Union([Sequence(Integer()), Integer()], **p), [1]), ([1],
                lambda **p: Sequence(Integer(), **p), [1]), ([], lambda **p: Sequence(Integer(),
                **p), []), ({}, lambda **p: Map(Integer(), **p), {}), ({'a': 1}, lambda **p:
                Structure({'a': Integer()}, **p), {'a': 1}), ({}, lambda **p: Structure({'a':
                Integer()}, **p), {}), ((1, ), lambda **p: Tuple([Integer()], **p), (1, )), (0,
                lambda **p: Integer(**p), 0)):
            for source in (0, '', [], {}, (), 'x', [1], {'a': 2}, False, 7):
                field = make(extractor=lambda f, v: given)
                for around, value, wanted in ((field, source, expected), (Sequence(field), [source,
                        None], [expected, None]), (Map(field), {'k': source}, {'k': expected}),
                        (Tuple([field]), (source, ), (expected, )), (Structure({'s': field}),
                        {'s': source}, {'s': expected})):
                    found = outcome(around.extract, value)
                    if not equal(found, wanted):
                        raise Violation('%r: extracting %r gave %r, expected %r' % (around, value,
                            found, wanted))
                    st.step()
        for short in ((), [], (1, )):
            if outcome(Tuple([Integer(), Integer()], extractor=lambda f, v: short).extract,
                    5) is not Failed:
                raise Violation('a tuple is extracted from %r' % (short, ))
        # values which aren't containers of the kind, empty or not, are refused
        poly = lambda: Structure({'x': {}}, polymorphic_on='k')
        for make, values in ((lambda: Tuple([Integer()]), ((), [], 0, '', {}, False, 'x', 5)),
                (lambda: Sequence(Integer()), (0, '', {}, False, 'ab', 5, b'')),
                (lambda: Map(Integer()), (0, '', [], (), False, 'x', 5, [('a', 1)])),
                (lambda: Structure({'a': Integer()}), (0, '', [], (), False, 'x', 5)),
                (poly, (0, '', [], {}, {'k': []}, {'k': {}}, {'k': 'y'}, {'k': 0}, {'j': 'x'})),
                (lambda: Union([Sequence(Integer()), poly()]), (0, '', {}, {'k': []}, 'x'))):
            for value, (around, wrapped) in itertools.product(values, ((None, lambda v: v),
                    (Sequence, lambda v: [v]), (Map, lambda v: {'k': v}), (lambda f: Tuple([f]),
                    lambda v: (v, )), (lambda f: Structure({'s': f}), lambda v: {'s': v}),
                    (lambda f: Union([f]), lambda v: v))):
                field = around(make()) if around else make()
                found = outcome(field.extract, wrapped(value))
                if found is not Failed:
                    raise Violation('%r: extracting %r gave %r, expected a refusal' % (field,
                        wrapped(value), found))
                st.step()
    elif name == 'keys':
        # keys reach instantiators of values directly under keyed containers only
        seen = []
        leaf = lambda: Integer(instantiator=lambda f, v, key=None: seen.append((v, key)) or v)
        for field, value, expected in (
                (Structure({'a': leaf(), 'b': leaf()}), {'a': 1, 'b': 2}, [(1, 'a'), (2, 'b')]),
                (Map(leaf()), {'k': 1, '': 2}, [(1, 'k'), (2, '')]),
                (Map(leaf(), key=Integer()), {0: 1}, [(1, 0)]),
                (Sequence(leaf()), [1, 2], [(1, None), (2, None)]),
                (Tuple([leaf(), leaf()]), (1, 2), [(1, None), (2, None)]),
                (Map(Sequence(leaf())), {'k': [1]}, [(1, None)]),
                (Sequence(Map(leaf())), [{'k': 1}], [(1, 'k')])):
            del seen[:]
            field.instantiate(value, 'outer')
            if sorted(seen, key=repr) != sorted(expected, key=repr):
                raise Violation('%r: instantiators called with %r' % (field, seen))
            st.step()
            st.trace('keys')

def run(case, st):
    st.state(repr(case)[:4000])
    if case[0] == 'tree':
        run_tree(case[1], case[2], case[3], st)
    elif case[0] == 'scalar':
        run_scalar(case[1], st)
    else:
        run_special(case[0], st)
        st.trace(case[0])
