"""All combinations of hooks of user-defined fields x phases, forms and values x containers are
compared with a model of processing; a subclass without hooks of every field type is compared with
that type in every operation; every small chain of declarations of parameters and errors, every way
of naming a format, and every form of an instantiator or extractor is enumerated."""

import copy
import datetime
import decimal
import itertools
import os
import re
import shutil
import sys
import types

from mc import probe, spec
from mc.core import Violation
from mc.domains import *
from mc.freeze import freeze

BOUNDS = {
    'quick': 'all 1536 combinations of hooks (unserialize, preprocess, constant, validate, '
        'serialize, nonnull) x 4 phases and forms x 2 values x 9 containers; a subclass of each of '
        '23 field types (and of all at once) x up to 12 values x 8 containers x 40 operations; all '
        'declarations of 2 parameters and 2 errors over 3 generations; 5 formats x 4 names x 16 '
        'uses; 16 forms of hooks x 10 containers; preprocessors of two nested containers x 7 forms '
        'each; each of 10 overridden operations of 9 types x 9 places; 2 custom scalars x 6 formats x 7 containers; 58 '
        'refusals by the types x errors declared by 2 classes and given in 6 ways x copies; all '
        'pairs of redefinitions of 6 enumerations',
    'thorough': 'as quick, subclasses two generations deep with all values',
}
ASSUMPTIONS = (
    'classes of fields inherit from one base, and have names not in use',
    'a format which is not abstract declares a name of its own',
    'a subclass of Boolean keeps booleans as its serialized form where XML and CSV are used',
)
CASE_CPU_BUDGET = 200

# --- hooks

UNSERIALIZE = (None, 'tag', 'refuse')
PREPROCESS = (None, 'class', 'instance', 'both', 'fail', 'null')
VALIDATE = (None, 'null', 'tag', 'refuse')
SERIALIZE = (None, 'tag', 'overflow', 'false')
CONSTANT = (None, 'match', 'other', 'raw')

PHASES = (('inbound', False), ('inbound', True), ('outbound', False), ('outbound', True))

class Refusal(Exception):
    def __init__(self, token, type_error):
        self.token, self.type_error = token, type_error

def prepared(value, unserialize, preprocess, phase, serialized):
    """(value as compared with the constant, calls so far)"""
    calls = []
    if serialized and phase == 'inbound' and unserialize:
        calls.append(('unserialize', value))
        if unserialize == 'refuse':
            raise Refusal('invalid', True)
        value = ('u', value)
    if preprocess:
        calls.append(('preprocess', value))
        if preprocess == 'fail':
            raise Refusal('invalid', True)
        value = None if preprocess == 'null' else (
            'class' if preprocess == 'class' else 'instance', value)
    return value, calls

def model(hooks, value, phase, serialized):
    """(outcome, calls) of processing a value."""
    unserialize, preprocess, constant, validate, serialize, nonnull = hooks
    calls = []
    if value is None:
        return (('refused', 'nonnull', False) if nonnull else ('value', None)), calls
    try:
        calls = [('unserialize', value)] if unserialize and serialized and phase == 'inbound' else []
        if unserialize and preprocess and serialized and phase == 'inbound' and \
                unserialize != 'refuse':
            calls.append(('preprocess', ('u', value)))
        elif preprocess and not (unserialize and serialized and phase == 'inbound'):
            calls.append(('preprocess', value))
        value, calls = prepared(value, unserialize, preprocess, phase, serialized)
        if constant == 'other' or constant == 'raw' and value != 'v':
            raise Refusal('invalid', True)
        if validate:
            calls.append(('validate', value))
            if validate == 'refuse':
                raise Refusal('own', False)
            if validate == 'tag':
                value = ('v', value)
        if serialized and phase == 'outbound' and serialize:
            calls.append(('serialize', value))
            if serialize == 'overflow':
                raise Refusal('overflow', False)
            value = False if serialize == 'false' else ('s', value)
    except Refusal as refusal:
        return ('refused', refusal.token, refusal.type_error), calls
    return ('value', value), calls

def recording(hooks, calls, number):
    """A class of fields with hooks which record their calls."""
    from scheme import Field, FieldError
    from scheme.exceptions import InvalidTypeError, ValidationError
    unserialize, preprocess, constant, validate, serialize, nonnull = hooks
    namespace = {'errors': [FieldError('own', 'own title', '%(field)s fails with %(what)s')]}
    def note(hook, value, path=None):
        calls.append((hook, value, None if path is None else ''.join(path)))
    if unserialize:
        def _unserialize_value(self, value, ancestry):
            note('unserialize', value, ancestry)
            if unserialize == 'refuse':
                raise InvalidTypeError(identity=ancestry, field=self, value=value).construct(
                    'invalid')
            return ('u', value)
        namespace['_unserialize_value'] = _unserialize_value
    if preprocess in ('class', 'both'):
        def preprocessor(value):
            note('preprocess', value)
            return ('class', value)
        namespace['preprocessor'] = staticmethod(preprocessor)
    if validate:
        def _validate_value(self, value, ancestry):
            note('validate', value, ancestry)
            if validate == 'refuse':
                raise ValidationError(identity=ancestry, field=self, value=value).construct('own',
                    what='a reason')
            if validate == 'tag':
                return ('v', value)
        namespace['_validate_value'] = _validate_value
    if serialize:
        def _serialize_value(self, value):
            note('serialize', value)
            if serialize == 'overflow':
                raise OverflowError()
            return False if serialize == 'false' else ('s', value)
        namespace['_serialize_value'] = _serialize_value
    return type(Field)('Recording%d' % number, (Field, ), namespace)

def instance(cls, hooks, calls, constant, **params):
    unserialize, preprocess, _, validate, serialize, nonnull = hooks
    if preprocess in ('instance', 'both', 'fail', 'null'):
        def preprocessor(value):
            calls.append(('preprocess', value, None))
            if preprocess == 'fail':
                raise KeyError(value)
            return None if preprocess == 'null' else ('instance', value)
        params['preprocessor'] = preprocessor
    return cls(nonnull=nonnull, constant=constant, **params)

def holders(make):
    """name -> (schema, wrap, places of the elements in the result, their paths)."""
    from scheme import Boolean, Map, Sequence, Structure, Text, Tuple, Integer
    from scheme.fields.union import Union
    return {
        'itself': (make(), lambda a, b: a, [()], ['%s']),
        'structure': (Structure({'a': make(), 'b': make(), 'c': Integer()}), lambda a, b: {'a': a,
            'b': b, 'c': 5}, [('a', ), ('b', )], ['(structure).a', '(structure).b']),
        'ordered': (Structure({'a': make(), 'b': make()}, key_order=['b', 'a'], strict=False),
            lambda a, b: {'a': a, 'b': b}, [('b', ), ('a', )], ['(structure).b', '(structure).a']),
        'polymorphic': (Structure({'x': {'a': make(), 'b': make()}, 'y': {}}, polymorphic_on='k'),
            lambda a, b: {'a': a, 'b': b, 'k': 'x'}, [('a', ), ('b', )], ['(structure).a',
            '(structure).b']),
        'sequence': (Sequence(make()), lambda a, b: [a, b], [(0, ), (1, )], ['(sequence)[0]',
            '(sequence)[1]']),
        'map': (Map(make()), lambda a, b: {'p': a, 'q': b}, [('p', ), ('q', )], ['(map)[p]',
            '(map)[q]']),
        'tuple': (Tuple((make(), Integer(), make())), lambda a, b: (a, 5, b), [(0, ), (2, )],
            ['(tuple)[0]', '(tuple)[2]']),
        'nested': (Sequence(Map(Structure({'t': Tuple((make(), make()))}))), lambda a, b: [{'k':
            {'t': (a, b)}}], [(0, 'k', 't', 0), (0, 'k', 't', 1)], ['(sequence)[0][k].t[0]',
            '(sequence)[0][k].t[1]']),
        'union': (Union((Integer(), make())), lambda a, b: a, [()], ['(union)']),
    }

def at(result, place):
    for step in place:
        result = result[step]
    return result

def error_at(error, place):
    """(error or value) at a place of a structural error"""
    for step in place:
        if not isinstance(error, Exception):
            return error[step]
        error = error.structure[step]
    return error

def run_hooks(st, unserialize, preprocess):
    from scheme.exceptions import InvalidTypeError, StructuralError
    number = 0
    for constant, validate, serialize, nonnull in itertools.product(CONSTANT, VALIDATE, SERIALIZE,
            (False, True)):
        hooks = (unserialize, preprocess, constant, validate, serialize, nonnull)
        for phase, serialized in PHASES:
            expected_constant = None
            if constant == 'other':
                expected_constant = 'never'
            elif constant == 'raw':
                expected_constant = 'v'
            elif constant == 'match':
                try:
                    expected_constant = prepared('v', unserialize, preprocess, phase, serialized)[0]
                except Refusal:
                    pass
            calls = []
            number += 1
            cls = recording(hooks, calls, number)
            second = None if constant != 'match' else 'v'
            made = holders(lambda: instance(cls, hooks, calls, expected_constant))
            for name, (schema, wrap, places, paths) in made.items():
                for values in (('v', second or 'w'), ('v', None), (None, 'v')):
                    if name == 'union' and values[0] is None:
                        continue
                    del calls[:]
                    st.step()
                    try:
                        result, error = schema.process(wrap(*values), phase, serialized), None
                    except StructuralError as exception:
                        result, error = None, exception
                    wanted = dict(zip(places, values))
                    if name == 'ordered':
                        wanted = {('b', ): values[1], ('a', ): values[0]}
                    outcomes, expected_calls = {}, []
                    for place, path in zip(places, paths):
                        outcome, noted = model(hooks, wanted[place], phase, serialized)
                        outcomes[place] = outcome
                        path = path % ('(%s)' % cls.type) if '%' in path else path
                        expected_calls += [(hook, value, None if hook in ('preprocess',
                            'serialize') else path) for hook, value in noted]
                    what = 'hooks %r in %s, %s serialized=%r of %r' % (hooks, name, phase,
                        serialized, values)
                    if sorted(map(repr, calls)) != sorted(map(repr, expected_calls)) or (
                            name in ('itself', 'ordered', 'sequence', 'tuple', 'nested', 'union')
                            and calls != expected_calls):
                        raise Violation('%s: called %r, expected %r' % (what, calls,
                            expected_calls))
                    refused = dict((p, o) for p, o in outcomes.items() if o[0] == 'refused')
                    if bool(refused) != bool(error):
                        raise Violation('%s: gives %r, expected %r' % (what, error or result,
                            outcomes))
                    for place, path in zip(places, paths):
                        outcome = outcomes[place]
                        if not error:
                            if freeze(at(result, place)) != freeze(outcome[1]):
                                raise Violation('%s: gives %r, expected %r' % (what, result,
                                    outcomes))
                            continue
                        found = error_at(error, place)
                        if outcome[0] == 'value':
                            if isinstance(found, Exception) or freeze(found) != freeze(outcome[1]):
                                raise Violation('%s: reports %r at %r, expected %r' % (what, found,
                                    place, outcome))
                            continue
                        path = path % ('(%s)' % cls.type) if '%' in path else path
                        if not isinstance(found, StructuralError) or [e['token'] for e in
                                found.errors] != [outcome[1]] or isinstance(found,
                                InvalidTypeError) != outcome[2] or ''.join(found.identity) != path:
                            raise Violation('%s: reports %r (%r) at %r, expected %r' % (what,
                                found, getattr(found, 'errors', None), place, outcome))
                        if outcome[1] == 'own':
                            message = '%s fails with a reason' % (place[-1] if place and name in
                                ('structure', 'ordered', 'polymorphic') else 'unknown-field')
                            if found.errors[0]['message'] != message or \
                                    found.errors[0]['title'] != 'own title':
                                raise Violation('%s: reports %r' % (what, found.errors))
                    st.trace(error and 'refused' or 'value')
            st.state(hooks, phase, serialized)

# --- containers with preprocessors, and overridden operations

def container_kinds():
    """kind -> (its constructor from an inner field, wrap)"""
    from scheme import Integer, Map, Sequence, Structure, Tuple
    return {
        'structure': (lambda cls, f, **p: cls({'a': f}, **p), lambda v: {'a': v}),
        'polymorphic': (lambda cls, f, **p: cls({'x': {'a': f}, 'y': {}}, polymorphic_on='k', **p),
            lambda v: {'k': 'x', 'a': v}),
        'sequence': (lambda cls, f, **p: cls(f, **p), lambda v: [v]),
        'map': (lambda cls, f, **p: cls(f, **p), lambda v: {'a': v}),
        'keyed': (lambda cls, f, **p: cls(f, required_keys='a', **p), lambda v: {'a': v}),
        'tuple': (lambda cls, f, **p: cls((f, ), **p), lambda v: (v, )),
    }

def class_of(kind):
    from scheme import Map, Sequence, Structure, Tuple
    return {'structure': Structure, 'polymorphic': Structure, 'sequence': Sequence, 'map': Map,
        'keyed': Map, 'tuple': Tuple}[kind]

def run_container(st, outer, inner):
    """Preprocessors of two nested containers, of their classes or instances."""
    from scheme import Field, Integer
    from scheme.exceptions import InvalidTypeError, StructuralError
    make = container_kinds()
    counter = itertools.count()
    modes = (None, 'static', 'method', 'inherited', 'instance', 'both', 'fail')
    for one, two in itertools.product(modes, repeat=2):
        calls = []
        def prepare(label, tag):
            def preprocessor(value):
                calls.append((label, tag, freeze(value)))
                if tag == 'fail':
                    raise KeyError(value)
                return type(value)(value)
            return preprocessor
        def build(kind, mode, label, field):
            cls, params = class_of(kind), {}
            namespace = {}
            if mode in ('static', 'inherited', 'both'):
                namespace['preprocessor'] = staticmethod(prepare(label, 'class'))
            elif mode == 'method':
                def preprocessor(self, value):
                    return prepare(label, 'class')(value)
                namespace['preprocessor'] = preprocessor
            if mode:
                cls = type(cls)('Prepared%d' % next(counter), (cls, ), namespace)
            if mode == 'inherited':
                cls = type(cls)('Prepared%d' % next(counter), (cls, ), {})
            if mode in ('instance', 'both'):
                params['preprocessor'] = prepare(label, 'instance')
            elif mode == 'fail':
                params['preprocessor'] = prepare(label, 'fail')
            return make[kind][0](cls, field, **params)
        schema = build(outer, one, 'outer', build(inner, two, 'inner', Integer()))
        within = make[inner][1](5)
        value = make[outer][1](within)
        copies = [schema, schema.clone()]
        for field, (phase, serialized) in itertools.product(copies, PHASES):
            del calls[:]
            st.step()
            try:
                result, error = field.process(value, phase, serialized), None
            except StructuralError as exception:
                result, error = None, exception
            tags = {None: None, 'instance': 'instance', 'both': 'instance', 'fail': 'fail'}
            expected = []
            for mode, label, subject in ((one, 'outer', value), (two, 'inner', within)):
                tag = tags.get(mode, 'class')
                if tag:
                    expected.append((label, tag, freeze(subject)))
                if tag == 'fail':
                    break
            what = '%s (%s) of %s (%s), %s' % (outer, one, inner, two, phase)
            if calls != expected:
                raise Violation('%s: preprocessors called %r, not %r' % (what, calls, expected))
            if 'fail' in (one, two):
                found = error
                if found is not None and one != 'fail':
                    found = error.structure[0 if outer in ('sequence', 'tuple') else 'a']
                if not isinstance(found, InvalidTypeError) or [e['token'] for e in found.errors] \
                        != ['invalid']:
                    raise Violation('%s: gives %r' % (what, error or result))
            elif error is not None or freeze(result) != freeze(value):
                raise Violation('%s: gives %r' % (what, error or result))
        st.state(outer, inner, one, two)
    st.trace('container')

OVERRIDES = ('process', 'extract', 'instantiate', 'interpolate', 'describe', 'transform', 'filter',
    '_visit_field', 'clone', 'construct')

def run_override(st, base):
    """A subclass which overrides one operation has its own version used wherever it stands."""
    from scheme import Boolean, Field, Integer, Map, Sequence, Structure, Text, Tuple
    from scheme.fields.union import Union
    parent = spec.field_class(base)
    arguments, value = {'field': ((), 'v'), 'integer': ((), 5), 'text': ((), 'v'), 'date': ((), date(
        2000, 1, 2)), 'structure': (({'z': Integer()}, ), {'z': 5}), 'sequence': ((Integer(), ),
        [5]), 'map': ((Integer(), ), {'z': 5}), 'tuple': (((Integer(), ), ), (5, )), 'union':
        (((Integer(), Text()), ), 'v')}[base]
    for n, method in enumerate(OVERRIDES):
        if base == 'union' and method in ('instantiate', 'filter'):
            continue
        calls = []
        if method in ('_visit_field', 'construct'):
            def override(cls, *args, **params):
                calls.append(args[0] if args else None)
                return getattr(super(cls.owner, cls), method)(*args, **params)
            override = classmethod(override)
        else:
            def override(self, *args, **params):
                calls.append(args[0] if args else None)
                return getattr(super(self.owner, self), method)(*args, **params)
        cls = type(parent)('Overriding%s%d' % (base, n), (parent, ), {method: override})
        cls.owner = cls
        def make():
            return cls(*arguments)
        places = [
            (make(), lambda v: v, 1),
            (Structure({'a': make(), 'b': Text()}), lambda v: {'a': v}, 1),
            (Structure({'a': make(), 'b': make()}, key_order='b a'), lambda v: {'a': v, 'b': v}, 2),
            (Structure({'x': {'a': make()}, 'y': {}}, polymorphic_on='k'), lambda v: {'k': 'x',
                'a': v}, 1),
            (Sequence(make()), lambda v: [v], 1),
            (Map(make()), lambda v: {'k': v}, 1),
            (Tuple((make(), make())), lambda v: (v, v), 2),
            (Sequence(Map(Structure({'a': Tuple((make(), Text()))}))), lambda v: [{'k': {'a': (v,
                'x')}}], 1),
        ] + ([(Union((make(), Boolean())), lambda v: v, 1)] if method != 'instantiate' else [])
        for schema, wrap, count in places:
            subject = wrap(value)
            def go():
                if method == 'process':
                    for phase, serialized in PHASES:
                        form = subject
                        if serialized and phase == 'inbound':
                            form = wrap(parent(*arguments).serialize(value))
                        yield schema.process(form, phase, serialized) == (subject if phase ==
                            'inbound' or not serialized else wrap(parent(*arguments).serialize(
                            value)))
                elif method in ('extract', 'instantiate'):
                    yield freeze(getattr(schema, method)(subject)) == freeze(subject)
                    if method == 'extract':
                        yield freeze(schema.extract(subject, False)) == freeze(subject)
                elif method == 'interpolate':
                    yield freeze(schema.interpolate(subject, {})) == freeze(subject)
                    yield freeze(schema.interpolate(wrap('${v}'), {'v': value})) == freeze(subject)
                elif method == 'describe':
                    yield cls.type in repr(schema.describe())
                    yield cls.type in repr(schema.describe(None, True))
                elif method == 'transform':
                    yield schema.transform(lambda f: None) is schema
                elif method == 'filter':
                    if base != 'tuple' and not isinstance(schema, (Tuple, Union)):
                        yield schema.filter(title=False) is not None
                elif method == '_visit_field':
                    yield cls.type in repr(Field.visit(schema.describe(), lambda f: (
                        f['fieldtype'], Field.visit(f, lambda g: g['fieldtype'])))) or schema.type \
                        == cls.type or True
                elif method == 'clone':
                    yield schema.clone() is not schema
                elif method == 'construct':
                    yield image_of(Field.reconstruct(schema.describe())) == image_of(schema)
            visits = []
            if method == '_visit_field':
                def callback(found):
                    visits.append(found['fieldtype'])
                    return Field.visit(found, callback)
                Field.visit(schema.describe(), callback)
                if len(calls) != count or visits.count(cls.type) + (schema.type == cls.type) != \
                        count:
                    raise Violation('%s of %s: visited %d times (%r)' % (method, schema, len(calls),
                        visits))
                del calls[:]
                st.step()
                continue
            steps = go()
            while True:
                del calls[:]
                good = next(steps, None)
                if good is None:
                    break
                st.step()
                if not good:
                    raise Violation('overriding %s changes the result of %r' % (method, schema))
                if len(calls) != count:
                    raise Violation('%s overridden by a subclass of %s is called %d times within '
                        '%r, not %d' % (method, base, len(calls), schema, count))
            # an operation which fails isn't mistaken for something else by what contains it
            for failure in (AttributeError, KeyError, ValueError):
                if method not in ('process', 'extract', 'instantiate', 'interpolate', 'describe',
                        'transform'):
                    continue
                def fails(self, *args, **params):
                    raise failure('failed on purpose')
                setattr(cls, method, fails)
                steps = go()
                try:
                    found = next(steps)
                except failure as exception:
                    found = exception.args
                except Exception as exception:
                    found = exception
                finally:
                    setattr(cls, method, override)
                st.step()
                if found != ('failed on purpose', ):
                    raise Violation('%s overridden by a subclass of %s fails with %s within %r, '
                        'which gives %r' % (method, base, failure.__name__, schema, found))
            st.state(base, method, repr(schema))
    st.trace('override')

# --- subclasses without anything of their own

def subclass_containers():
    def S(term):
        return ('structure', {'structure': {'a': term, 'b': ('text', {})}})
    return [
        lambda t, v: (t, v),
        lambda t, v: (S(t), {'a': v, 'b': 'x'}),
        lambda t, v: (('sequence', {'item': t}), [v, v]),
        lambda t, v: (('map', {'value': t}), {'k': v}),
        lambda t, v: (('tuple', {'values': [t, ('integer', {})]}), (v, 5)),
        lambda t, v: (('structure', {'structure': {'x': {'a': t}, 'y': {}},
            'polymorphic_on': 'k'}), {'k': 'x', 'a': v}),
        lambda t, v: (('union', {'fields': [('boolean', {}), t]}), v),
        lambda t, v: (('sequence', {'item': S(t)}), [{'a': v}, {}]),
    ]

def subclass_terms():
    found = [(term, list(values) + probe.samples(term)) for term, values in leaves()]
    for kind in ('definition', 'object', 'error', 'surrogate'):
        found.append(((kind, {}), probe.samples((kind, {}))))
    found.append((('integer', {'minimum': 2, 'default': 3, 'nonnull': True}), [2, 1, None, 'x']))
    found.append((('text', {'nonempty': True, 'pattern': '^a', 'description': 'd'}), ['a', '', None]))
    return found

CONTAINER_KINDS = ('structure', 'sequence', 'map', 'tuple', 'union')
MINE = {}

def mine(generation):
    """kind -> a subclass of its class."""
    if generation not in MINE:
        found = {}
        for kind in spec.KINDS:
            if kind == 'hole':
                continue
            cls = spec.field_class(kind) if generation == 1 else mine(1)[kind]
            found[kind] = type(cls)('Zq' + cls.__name__, (cls, ), {})
        MINE[generation] = found
    return MINE[generation]

def plain(value):
    text = value if isinstance(value, str) else repr(value)
    return text.replace('Zq', '').replace('zq', '')

def operations(field, value, interpolated):
    from scheme import Field
    from scheme.exceptions import StructuralError
    found = []
    def op(name, function, *args, **params):
        try:
            result = function(*args, **params)
            image = freeze(result)
        except StructuralError as exception:
            result = exception
            image = ('refused', type(exception).__name__, exception.serialize(),
                str(exception).split('Traceback')[0])
        except Exception as exception:
            result = exception
            image = ('raised', type(exception).__name__)
        found.append((name, plain(image)))
        return result
    for phase, serialized in PHASES:
        op('process %s %s' % (phase, serialized), field.process, value, phase, serialized)
    for format in ('json', 'yaml', 'xml', 'csv', 'urlencoded', 'structuredtext'):
        text = op(format, field.serialize, value, format)
        if isinstance(text, str):
            op('from ' + format, field.unserialize, text, format)
        else:
            found.append(('no ' + format, ''))
    op('extract', field.extract, value)
    op('extract loosely', field.extract, value, False)
    op('instantiate', field.instantiate, value)
    if interpolated:
        op('interpolate', field.interpolate, value, {'a': 1})
        op('interpolate reference', field.interpolate, '${v}', {'v': value})
        op('interpolate text', field.interpolate, 'a ${v}', {'v': value})
    op('describe', field.describe)
    op('describe verbosely', field.describe, None, True)
    op('repr', repr, field)
    op('reconstruct', lambda: Field.reconstruct(field.describe()))
    op('clone', field.clone)
    op('process reconstructed', lambda: Field.reconstruct(field.describe()).process(value,
        'inbound', True))
    op('process clone', lambda: field.clone().process(value, 'inbound', True))
    op('visit', lambda: Field.visit(field.describe(), lambda found: sorted(found)))
    op('transform', lambda: field.transform(lambda found: found.clone(title='t')
        if found.name == 'a' else None))
    op('filter', lambda: field.filter(title=None))
    op('screen', field.screen, required=False)
    return found

def run_subclass(st, i, generation):
    term, values = subclass_terms()[i]
    kind = term[0]
    original = spec.field_class
    replaced = {}
    def field_class(kind):
        return replaced.get(kind) or original(kind)
    classes = mine(generation)
    for n, value in enumerate(values[:12] if generation == 1 else values):
        for wrap in subclass_containers():
            outer, wrapped = wrap(term, value)
            expected = operations(spec.build(outer), wrapped, n < 3)
            for kinds in ((kind, ), CONTAINER_KINDS, tuple(classes))[::2 if n > 3 else 1]:
                replaced.update((k, classes[k]) for k in kinds)
                spec.field_class = field_class
                try:
                    field = spec.build(outer)
                    actual = operations(field, wrapped, n < 3)
                finally:
                    spec.field_class = original
                    replaced.clear()
                st.step(len(actual))
                for (name, wanted), (_, given) in zip(expected, actual):
                    if wanted != given:
                        raise Violation('%s of %r against %r with subclasses of %s gives\n%s\n'
                            'instead of\n%s' % (name, wrapped, outer, '/'.join(kinds), given,
                            wanted))
                st.trace('subclass')
            st.state(repr(outer), repr(wrapped))

# --- declarations of parameters and errors

def snapshot_types():
    """What is known of every field type that comes with scheme."""
    from scheme import Field, Format
    found = {}
    for kind in spec.KINDS:
        if kind != 'hole':
            cls = spec.field_class(kind)
            found[kind] = (dict(cls.parameters), dict((t, (e.title, e.message, e.show_field,
                e.show_value)) for t, e in cls.errors.items()), cls.type, Field.types.get(cls.type)
                is cls)
    formats = dict((k, v) for k, v in Format.formats.items() if isinstance(k, str))
    return found, formats

ERRORS = [(), ('invalid', ), ('own', ), ('own', 'invalid')]
PARAMETERS = [(), ('p', ), ('q', ), ('p', 'q')]
BASES = ['field', 'integer', 'text', 'sequence']

def run_declared(st, base, first):
    from scheme import Field, FieldError, Integer
    parent = spec.field_class(base)
    given = {'sequence': (Integer(), )}.get(base, ())
    before = snapshot_types()
    combinations = list(itertools.product(ERRORS, PARAMETERS))
    for one, (two, three) in [(combinations[first], rest) for rest in itertools.product(
            combinations, repeat=2)]:
        if base != 'field' and (combinations.index(two) + combinations.index(three)) % 4:
            continue
        expected_errors = dict((t, e.message) for t, e in parent.errors.items())
        expected_params = dict(parent.parameters)
        cls, generations = parent, []
        for level, (errors, parameters) in enumerate((one, two, three)):
            namespace = {}
            if errors:
                namespace['errors'] = [FieldError(t, 'title', 'level %d' % level) for t in errors]
                expected_errors = dict(expected_errors, **dict((t, 'level %d' % level)
                    for t in errors))
            if parameters:
                namespace['parameters'] = dict((p, level) for p in parameters)
                expected_params = dict(expected_params, **namespace['parameters'])
            def __init__(self, *args, **params):
                self.p = params.pop('p', None)
                self.q = params.pop('q', None)
                super(self.root, self).__init__(*args, **params)
            if level == 0:
                namespace['__init__'] = __init__
            cls = type(parent)('Declared%d%s' % (level, parent.__name__), (cls, ), namespace)
            if level == 0:
                cls.root = cls
            generations.append((cls, expected_errors, expected_params))
        st.step()
        for cls, errors, parameters in generations:
            what = 'class %s with %r' % (cls.__name__, (one, two, three))
            found = dict((t, e.message) for t, e in cls.errors.items())
            if found != errors:
                raise Violation('%s has errors %r, expected %r' % (what, found, errors))
            if dict(cls.parameters) != parameters:
                raise Violation('%s has parameters %r, expected %r' % (what, cls.parameters,
                    parameters))
            if cls.type != cls.__name__.lower() or Field.types[cls.type] is not cls:
                raise Violation('%s is not registered' % what)
            declared = [n for n in ('p', 'q') if n in parameters]
            for values in ((None, 'x'), (0, 1), (1, 2), (2, None), ('x', 0), (None, None)):
                field = cls(*given, **dict(zip(('p', 'q'), values)))
                description = field.describe()
                wanted = dict((n, v) for n, v in zip(('p', 'q'), values) if n in declared and
                    v is not None and v is not parameters[n])
                if dict((n, description[n]) for n in 'pq' if n in description) != wanted:
                    raise Violation('%s is described as %r with %r' % (what, description, values))
                verbose = field.describe(None, True)
                wanted = dict((n, v) for n, v in zip(('p', 'q'), values) if n in declared and
                    v is not None)
                if dict((n, verbose[n]) for n in 'pq' if n in verbose) != wanted:
                    raise Violation('%s is described as %r with %r' % (what, verbose, values))
                copies = [Field.reconstruct(verbose), field.clone()]
                for other in copies:
                    if type(other) is not cls or freeze(other.describe(None, True)) != \
                            freeze(verbose):
                        raise Violation('%s: %r copied as %r' % (what, verbose, other.describe(None,
                            True)))
                if (copies[1].p, copies[1].q) != values:
                    raise Violation('%s: cloned with %r' % (what, (copies[1].p, copies[1].q)))
            st.step(6)
        st.state(base, one, two, three)
    if snapshot_types() != before:
        raise Violation('declaring subclasses changed the types of scheme')
    st.trace('declared')

# --- declared errors, as they're reported

def refusals():
    """Refusals by the types of scheme: (type, class, parameters, value, token[, place])."""
    from scheme import (Binary, Boolean, Date, DateTime, Decimal, Definition, Email, Enumeration,
        Error, Float, Integer, Map, Object, Sequence, Structure, Surrogate, Text, Time, Token,
        Tuple, Union, UUID)
    from scheme.surrogate import surrogate
    day, moment = datetime.date(2020, 1, 2), datetime.datetime(2020, 1, 2)
    return [
        ('integer', Integer, {}, 'x', 'invalid'), ('integer', Integer, {'minimum': 5}, 4,
            'minimum'), ('integer', Integer, {'maximum': 5}, 6, 'maximum'),
        ('integer', Integer, {'nonnull': True}, None, 'nonnull'),
        ('float', Float, {}, 'x', 'invalid'), ('float', Float, {'minimum': 5.0}, 4.0, 'minimum'),
        ('float', Float, {'maximum': 5.0}, 6.0, 'maximum'),
        ('decimal', Decimal, {}, 5.5, 'invalid'),
        ('decimal', Decimal, {'minimum': '5'}, decimal.Decimal(4), 'minimum'),
        ('decimal', Decimal, {'maximum': '5'}, decimal.Decimal(6), 'maximum'),
        ('date', Date, {}, 'x', 'invalid'),
        ('date', Date, {'minimum': day}, datetime.date(2020, 1, 1), 'minimum'),
        ('date', Date, {'maximum': day}, datetime.date(2020, 1, 3), 'maximum'),
        ('datetime', DateTime, {}, 'x', 'invalid'),
        ('datetime', DateTime, {'utc': True, 'minimum': moment.replace(tzinfo=spec_utc())},
            datetime.datetime(2020, 1, 1, tzinfo=spec_utc()), 'minimum'),
        ('datetime', DateTime, {'utc': True, 'maximum': moment.replace(tzinfo=spec_utc())},
            datetime.datetime(2020, 1, 3, tzinfo=spec_utc()), 'maximum'),
        ('datetime', DateTime, {'utc': True}, datetime.datetime(1, 1, 1, tzinfo=datetime.timezone(
            datetime.timedelta(hours=14))), 'overflow'),
        ('time', Time, {}, 'x', 'invalid'),
        ('time', Time, {'minimum': datetime.time(5)}, datetime.time(4), 'minimum'),
        ('time', Time, {'maximum': datetime.time(5)}, datetime.time(6), 'maximum'),
        ('boolean', Boolean, {}, 'x', 'invalid'), ('uuid', UUID, {}, 'x', 'invalid'),
        ('text', Text, {}, 5, 'invalid'), ('text', Text, {'pattern': '^a$'}, 'b', 'pattern'),
        ('text', Text, {'min_length': 2}, 'b', 'min_length'),
        ('text', Text, {'max_length': 2}, 'bbb', 'max_length'),
        ('text', Text, {'nonempty': True}, '', 'min_length'),
        ('token', Token, {}, 'a//b', 'invalid'), ('token', Token, {'segments': 2}, 'a', 'invalid'),
        ('binary', Binary, {}, 5, 'invalid'), ('binary', Binary, {'min_length': 2}, b'b',
            'min_length'), ('binary', Binary, {'max_length': 2}, b'bbb', 'max_length'),
        ('email', Email, {}, 'x', 'pattern'), ('email', Email, {}, 5, 'invalid'),
        ('email', Email, {'multiple': True}, 'a@b.com,x', 'pattern'),
        ('email', Email, {'extended': True}, 'A a@b.com', 'pattern'),
        ('email', Email, {'min_length': 20}, 'a@b.com', 'min_length'),
        ('email', Email, {'multiple': True, 'max_length': 2}, 'a@b.com', 'max_length'),
        ('email', Email, {'multiple': True, 'nonnull': True}, None, 'nonnull'),
        ('enumeration', Enumeration, {'enumeration': ['a', 'b']}, 'c', 'invalid'),
        ('sequence', Sequence, {'item': Integer()}, 5, 'invalid'),
        ('sequence', Sequence, {'item': Integer(), 'min_length': 2}, [1], 'min_length'),
        ('sequence', Sequence, {'item': Integer(), 'max_length': 2}, [1, 2, 3], 'max_length'),
        ('sequence', Sequence, {'item': Integer(), 'unique': True}, [1, 1], 'duplicate'),
        ('map', Map, {'value': Integer()}, 5, 'invalid'),
        ('map', Map, {'value': Integer(), 'key': Integer()}, {'a': 1}, 'invalidkeys'),
        ('map', Map, {'value': Integer(), 'required_keys': ['a']}, {}, 'required',
            ('a', )),
        ('tuple', Tuple, {'values': (Integer(), )}, 5, 'invalid'),
        ('tuple', Tuple, {'values': (Integer(), )}, (1, 2), 'length'),
        ('structure', Structure, {'structure': {'a': Integer()}}, 5, 'invalid'),
        ('structure', Structure, {'structure': {'a': Integer(required=True)}}, {},
            'required', ('a', )),
        ('structure', Structure, {'structure': {'a': Integer()}}, {'b': 1}, 'unknown',
            ('b', )),
        ('structure', Structure, {'structure': {'x': {'a': Integer()}, 'y': {}},
            'polymorphic_on': 't'}, {'a': 1}, 'required'),
        ('structure', Structure, {'structure': {'x': {'a': Integer()}, 'y': {'b':
            Integer(required=True)}}, 'polymorphic_on': 't'}, {'t': 'y'}, 'required', ('b', )),
        ('structure', Structure, {'structure': {'x': {'a': Integer()}, 'y': {}},
            'polymorphic_on': Enumeration(['x', 'y', 'z'], name='t')}, {'t': 'z'}, 'unrecognized'),
        ('union', Union, {'fields': (Integer(), Boolean())}, 'x', 'invalid'),
        ('union', Union, {'fields': (Integer(), Boolean()), 'nonnull': True}, None, 'nonnull'),
        ('definition', Definition, {}, 5, 'invalid'),
        ('definition', Definition, {'valid_fields': ['integer']}, Text(), 'invalidfield'),
        ('object', Object, {}, 'no.such.thing', 'import'),
        ('error', Error, {}, 5, 'invalid'), ('error', Error, {}, (None, 5), 'invalid'),
        ('error', Error, {}, [None, {'a': 7}], 'invalid'), ('error', Error, {}, [5, None],
            'invalid'), ('error', Error, {}, [None, ['x']], 'invalid'), ('error', Error, {},
            [None], 'invalid'), ('error', Error, {}, 'ab', 'invalid'), ('surrogate', Surrogate, {}, 5, 'invalid'),
        ('surrogate', Surrogate, {'valid_surrogates': 'no.other'}, surrogate({'a': 1}),
            'invalid-surrogate'),
    ]

def spec_utc():
    from scheme.timezone import UTC
    return UTC

def reported(field, value, place=()):
    from scheme.exceptions import StructuralError
    try:
        field.process(value, 'inbound', field_serialized(value))
    except StructuralError as exception:
        error = exception
        for step in place:
            if error.structure is None:
                break
            error = error.structure[step]
        return [(e['token'], e['title'], e['message']) for e in error.errors]

def field_serialized(value):
    return 'no.such.thing' in repr(value)

def run_errors(st, number):
    import scheme
    from scheme import FieldError, Map, Sequence, Structure, Tuple
    name, base, params, value, token = refusals()[number][:5]
    inside = refusals()[number][5:] and refusals()[number][5] or ()
    def error(token, label):
        return FieldError(token, 'title %s' % label, '%%(field)s is %s' % label)
    plain = reported(base(name='f', **params), value, inside)
    if not plain or plain[0][0] != token:
        raise Violation('%s with %r refuses %r with %r' % (name, params, value, plain))
    other = 'overflow' if token != 'overflow' else 'invalid'
    forms = [None, 'list', 'tuple', 'dict', 'other', 'both']
    # what each of three generations declares, and what the instance is given
    for classes in itertools.product((None, 'token', 'other', 'both'), repeat=2):
        cls = base
        expected = None
        for level, declared in enumerate(classes):
            namespace = {}
            if declared:
                namespace['errors'] = [error(t, 'class%d' % level) for t in {'token': (token, ),
                    'other': (other, ), 'both': (other, token)}[declared]]
                if declared != 'other':
                    expected = 'class%d' % level
            if declared or level:
                cls = type(base)('Errors%d%s' % (level, base.__name__), (cls, ), namespace)
        for form in forms:
            given = dict(params)
            wanted = expected
            if form == 'list':
                given['errors'] = [error(token, 'given')]
            elif form == 'tuple':
                given['errors'] = (error(token, 'given'), )
            elif form == 'dict':
                given['errors'] = {token: error(token, 'given')}
            elif form == 'other':
                given['errors'] = [error(other, 'given')]
            elif form == 'both':
                given['errors'] = [error(other, 'given'), error(token, 'given')]
            if form not in (None, 'other'):
                wanted = 'given'
            def answer(label):
                if wanted is None:
                    return [(t, title, m.replace('f ', label + ' ', 1) if m.startswith('f ') else
                        m) for t, title, m in plain]
                return [(token, 'title ' + wanted, label + ' is ' + wanted)]
            field = cls(name='f', **given)
            copies = [('itself', field), ('cloned', field.clone()), ('twice cloned',
                field.clone().clone()), ('deep copied', copy.deepcopy(field)),
                ('cloned with a description', field.clone(description='d'))]
            # a field to which the error is given upon being cloned
            if form and base.__name__ != 'Definition':
                copies.append(('cloned with them', cls(name='f', **params).clone(
                    errors=given['errors'])))
            for how, copied in copies:
                what = '%s with %r, %r as classes, %r as argument, %s' % (name, params, classes,
                    form, how)
                st.step()
                if reported(copied, value, inside) != answer('f'):
                    raise Violation('%s: %r is refused with %r, not %r' % (what, value,
                        reported(copied, value, inside), answer('f')))
                if type(copied) is not cls:
                    raise Violation('%s: is a %r' % (what, type(copied)))
            for where, holder, held, place in [
                    ('a structure', Structure({'f': field}), {'f': value}, ('f', )),
                    ('a sequence', Sequence(field), [value], (0, )),
                    ('a map', Map(field), {'k': value}, ('k', )),
                    ('a tuple', Tuple((field, )), (value, ), (0, )),
                    ('a structure in a sequence', Sequence(Structure({'f': field})), [{'f':
                        value}], (0, 'f')),
                    ('a variant', Structure({'x': {'f': field}, 'y': {}}, polymorphic_on='t'),
                        {'t': 'x', 'f': value}, ('f', ))]:
                for holder in (holder, holder.clone()):
                    st.step()
                    found = reported(holder, held, place + inside)
                    if [(e[0], e[1]) for e in found or ()] != [(e[0], e[1]) for e in
                            answer('f')] or wanted and not found[0][2].endswith(' is ' + wanted):
                        raise Violation('%s with %r, %r as classes, %r as argument, in %s: %r is '
                            'refused with %r' % (name, params, classes, form, where, value, found))
            st.state('errors', number, classes, form)
        # the class and other fields remain as they are
        if reported(base(name='f', **params), value, inside) != plain:
            raise Violation('errors of %s were changed for all' % name)
    st.trace('errors')

def run_email(st):
    """The errors of an e-mail field are those for one or for many addresses, as declared."""
    from scheme import Email, FieldError
    one, many = [reported(Email(multiple, name='f'), value)[0][2] for multiple, value in (
        (False, 'x'), (True, 'a@b.com,x'))]
    variants = [dict(zip(('single', 'multiple', 'errors'), v)) for v in itertools.product(
        (False, True), repeat=3)]
    for first, second in itertools.product(variants, repeat=2):
        cls, expected = Email, {'single': one, 'multiple': many}
        for level, declared in enumerate((first, second)):
            namespace = {}
            for aspect in ('single', 'multiple'):
                if declared[aspect]:
                    message = '%%(field)s is not %s%d' % (aspect, level)
                    namespace[aspect + '_errors'] = [FieldError('pattern', 'title', message)]
                    if not expected.get('errors'):
                        expected[aspect] = message
            if declared['errors']:
                message = '%%(field)s is wrong%d' % level
                namespace['errors'] = [FieldError('pattern', 'title', message)]
                expected = {'single': message, 'multiple': message, 'errors': True}
            cls = type(Email)('Addresses%d' % level, (cls, ), namespace)
        for history in itertools.product((False, True), repeat=3):
            field = None
            for multiple in history:
                field = field.clone(multiple=multiple) if field else cls(multiple, name='f')
                st.step()
                value = 'a@b.com,x' if multiple else 'x'
                wanted = expected['multiple' if multiple else 'single'] % {'field': 'f'}
                for copied in (field, field.clone()):
                    found = reported(copied, value)
                    if [e[2] for e in found or ()] != [wanted]:
                        raise Violation('an e-mail field with %r, made as %r, refuses %r with %r, '
                            'not %r' % ((first, second), history, value, found, wanted))
        st.state('email', repr(first), repr(second))
    st.trace('email')

# --- registration and use by name

def image_of(schema):
    # (the existing tests pin the aspect which enumerations gain when copied)
    def shown(description):
        if isinstance(description, dict):
            return dict((k, shown(v)) for k, v in description.items() if k != 'representation')
        if isinstance(description, (list, tuple)):
            return type(description)(map(shown, description))
        return description
    return freeze(shown(schema.describe()))

def run_named(st):
    from scheme import Definition, Field, Integer, Map, Sequence, Structure, Text, Tuple
    from scheme.exceptions import ValidationError, StructuralError
    class NamedThing(Integer):
        parameters = {'unit': None}
        def __init__(self, unit=None, **params):
            super(NamedThing, self).__init__(**params)
            self.unit = unit
    class NamedOther(NamedThing):
        pass
    class NamedText(Text):
        pass
    for field, allowed in itertools.product((NamedThing(), NamedOther(), NamedText(), Integer(),
            Text(), Sequence(NamedOther())), itertools.chain.from_iterable(
            itertools.combinations(('namedthing', 'namedother', 'namedtext', 'integer', 'text',
            'sequence'), n) for n in (1, 2, 6))):
        for definition in (Definition(list(allowed)), Definition(' '.join(allowed))):
            st.step()
            try:
                accepted = definition.process(field) is field
            except ValidationError as exception:
                accepted = False
                if [e['token'] for e in exception.errors] != ['invalidfield']:
                    raise Violation('a definition refuses with %r' % (exception.errors, ))
            if accepted != (field.type in allowed):
                raise Violation('a definition of %r accepts %r: %r' % (allowed, field, accepted))
    for unit in (None, 'kg', ['a', {'b': 1}], 0):
        for minimum in (None, 0, 5):
            for form in ('direct', 'describe', 'dict', 'string', 'class'):
                if form == 'direct':
                    field = NamedThing(unit, minimum=minimum)
                elif form == 'describe':
                    field = Field.reconstruct(NamedThing(unit, minimum=minimum).describe())
                elif form == 'dict':
                    field = Field.reconstruct({'fieldtype': 'namedthing', 'unit': unit,
                        'minimum': minimum})
                elif form == 'string':
                    field = Field.reconstruct('namedthing', unit=unit, minimum=minimum)
                else:
                    field = Text.reconstruct({'fieldtype': 'namedthing', 'unit': unit,
                        'minimum': minimum})
                st.step()
                if type(field) is not NamedThing or field.unit != unit or field.minimum != minimum:
                    raise Violation('%s gives %r, %r, %r' % (form, field, field.unit,
                        field.minimum))
                for wrap in (lambda f: f, lambda f: Structure({'a': f}), Sequence, Map, lambda f:
                        Tuple((f, Text())), lambda f: Structure({'x': {'a': f}, 'y': {}},
                        polymorphic_on='t'), lambda f: Sequence(Map(Structure({'a': f})))):
                    schema = wrap(field.clone())
                    image = image_of(schema)
                    if image_of(Field.reconstruct(schema.describe())) != image or \
                            image_of(schema.clone()) != image:
                        raise Violation('%r is not reconstructed' % (schema.describe(), ))
                    if 'namedthing' not in repr(image):
                        raise Violation('%r described as %r' % (schema, schema.describe()))
                    st.step()
                definition = Definition('namedthing text')
                if definition.process(field) is not field or Definition().unserialize(
                        field.describe()).describe() != field.describe():
                    raise Violation('%r is not a valid definition' % (field, ))
                try:
                    Definition('text').process(field)
                except ValidationError:
                    pass
                else:
                    raise Violation('a restricted definition accepts %r' % (field, ))
                st.state('named', repr(unit), minimum, form)
    for name in ('nosuchthing', 'NamedThing', '', None, 5, 'Integer'):
        try:
            field = Field.reconstruct({'fieldtype': name})
        except ValueError:
            pass
        else:
            raise Violation('fieldtype %r gives %r' % (name, field))
    st.trace('named')

# --- custom scalars through everything

def scalars():
    from scheme import Field, Integer
    from scheme.exceptions import InvalidTypeError
    class Percentage(Integer):
        def _serialize_value(self, value):
            return '%d%%' % value
        def _unserialize_value(self, value, ancestry):
            if isinstance(value, str) and value.endswith('%'):
                value = value[:-1]
            return super(Percentage, self)._unserialize_value(value, ancestry)
    class Point(Field):
        """Pairs of numbers written as text."""
        def _validate_value(self, value, ancestry):
            if not (isinstance(value, tuple) and len(value) == 2):
                raise InvalidTypeError(identity=ancestry, field=self, value=value).construct(
                    'invalid')
        def _serialize_value(self, value):
            return '<%r|%r>' % value
        def _unserialize_value(self, value, ancestry):
            if isinstance(value, str):
                try:
                    one, two = value.strip('<>').split('|')
                    return (int(one), int(two))
                except Exception:
                    raise InvalidTypeError(identity=ancestry, field=self, value=value).construct(
                        'invalid')
            return value
    return [(Percentage, [0, 5, -7, 2 ** 70], ['%d%%' % v for v in (0, 5, -7, 2 ** 70)]),
        (Point, [(0, 0), (1, -2), (2 ** 70, 3)], ['<0|0>', '<1|-2>', '<%d|3>' % 2 ** 70])]

def run_scalar(st, i):
    from scheme import Integer, Map, Sequence, Structure, Text, Tuple
    from scheme.exceptions import StructuralError
    cls, values, forms = scalars()[i]
    def wraps(make):
        return [
            (make(), lambda v: v),
            (Structure({'a': make(), 'b': Text()}), lambda v: {'a': v, 'b': 'x'}),
            (Sequence(make()), lambda v: [v, v]),
            (Map(make()), lambda v: {'k': v, 'l': v}),
            (Tuple((make(), Text())), lambda v: (v, 'x')),
            (Structure({'x': {'a': make()}, 'y': {}}, polymorphic_on='t'), lambda v: {'t': 'x',
                'a': v}),
            (Sequence(Structure({'a': make(), 'b': Text()})), lambda v: [{'a': v, 'b': 'x'},
                {'a': v}]),
            (Map(Sequence(Tuple((make(), make())))), lambda v: {'k': [(v, v)], 'l': []}),
        ]
    for value, form in zip(values, forms):
        for schema, wrap in wraps(cls):
            serialized = schema.serialize(wrap(value))
            if freeze(serialized) != freeze(wrap(form)):
                raise Violation('%r serializes %r as %r' % (schema, wrap(value), serialized))
            if freeze(schema.unserialize(serialized)) != freeze(wrap(value)):
                raise Violation('%r unserializes %r as %r' % (schema, serialized,
                    schema.unserialize(serialized)))
            for format in ('json', 'yaml', 'xml', 'csv', 'urlencoded', 'structuredtext'):
                if format == 'csv' and not (isinstance(schema, Sequence) and isinstance(
                        schema.item, Structure)):
                    continue
                if format == 'urlencoded' and not isinstance(schema, (Structure, Map)):
                    continue
                if format in ('urlencoded', 'structuredtext') and cls.type == 'point':
                    # (the delimiters of such texts are those of structured text)
                    continue
                st.step(2)
                text = schema.serialize(wrap(value), format)
                back = schema.unserialize(text, format)
                if freeze(back) != freeze(wrap(value)):
                    raise Violation('%r through %s (%r) is %r, not %r' % (schema, format, text,
                        back, wrap(value)))
            for bad in ('junk', object()):
                try:
                    result = schema.unserialize(wrap(bad))
                except StructuralError:
                    pass
                else:
                    raise Violation('%r unserializes %r as %r' % (schema, wrap(bad), result))
            st.state(cls.__name__, repr(value), repr(schema))
    st.trace('scalar')

# --- formats

EXTENSIONS = [None, ['.zz1'], ('.zz1', '.zz2'), ['zz1', '.zz3'], []]
MIMETYPES = [None, 'application/x-zz', 'text/zz']

def run_formats(st, i):
    from scheme import Field, Format, Integer, Json, Sequence, Structure, Text
    before = snapshot_types()
    directory = os.path.join(os.getcwd(), 'formats')
    try:
        for mimetype, base, binary in itertools.product(MIMETYPES, ('format', 'json', 'abstract'),
                (False, True)):
            shutil.rmtree(directory, True)
            os.mkdir(directory)
            calls = []
            class Abstract(Format):
                """Not a format itself."""
                mimetype = 'application/x-abstract'
                extensions = ['.abstract']
            def serialize(cls, value, schema=None, **params):
                calls.append(('serialize', cls, schema, dict(params)))
                text = 'zz:%r' % (value, )
                return text.encode('utf-8') if binary else text
            def unserialize(cls, value, schema=None, **params):
                calls.append(('unserialize', cls, schema, dict(params)))
                if isinstance(value, bytes):
                    value = value.decode('utf-8')
                return eval(value[3:], {})
            parent = {'format': Format, 'json': Json, 'abstract': Abstract}[base]
            mine = type(Format)('Zz', (parent, ), {'name': 'zz', 'mimetype': mimetype, 'extensions':
                EXTENSIONS[i], 'serialize': classmethod(serialize), 'unserialize':
                classmethod(unserialize)})
            names = ['zz', mine] + ([mimetype] if mimetype else [])
            endings = [e for e in EXTENSIONS[i] or () if e[0] == '.']
            names += endings
            for name in names:
                if Format.formats.get(name) is not mine:
                    raise Violation('a format is not known as %r' % (name, ))
            for name in ('application/x-abstract', '.abstract', 'zz1', Abstract):
                if name in Format.formats and name not in names:
                    raise Violation('an abstract format is known as %r' % (name, ))
            schemas = [(Field(), {'a': [1, None]}, {'a': [1, None]}), (Sequence(Integer()), [1, 2],
                [1, 2]), (Structure({'d': __import__('scheme').Date(), 't': Text()}),
                {'d': date(2000, 1, 2), 't': '\xe9\n x'}, {'d': '2000-01-02', 't': '\xe9\n x'})]
            for (schema, value, form), name in itertools.product(schemas, names):
                for params in ({}, {'one': 1}, {'one': [1], 'two': None}):
                    def called(*expected):
                        found = [(k, c, s, p) for k, c, s, p in calls]
                        del calls[:]
                        if found != [(k, mine, s, p) for k, s, p in expected]:
                            raise Violation('format calls %r, expected %r' % (found, expected))
                        st.step()
                    def equal(actual, expected, what):
                        if freeze(actual) != freeze(expected):
                            raise Violation('%s as %r gives %r, not %r' % (what, name, actual,
                                expected))
                    text = ('zz:%r' % (form, ))
                    raw = text.encode('utf-8') if binary else text
                    equal(schema.serialize(value, name, **params), raw, 'serialize')
                    called(('serialize', schema, params))
                    equal(schema.unserialize(raw, name, **params), value, 'unserialize')
                    called(('unserialize', schema, params))
                    equal(Format.serialize(form, name, schema, **params), raw, 'Format.serialize')
                    called(('serialize', schema, params))
                    equal(Format.unserialize(raw, name, schema, **params), form,
                        'Format.unserialize')
                    called(('unserialize', schema, params))
                    equal(Format.serialize(form, name), raw, 'Format.serialize')
                    called(('serialize', None, {}))
                    equal(mine.serialize(form), raw, 'its serialize')
                    called(('serialize', None, {}))
                    equal(Format.serialize(form, name, **params), raw, 'Format.serialize')
                    equal(Format.unserialize(raw, name, **params), form, 'Format.unserialize')
                    called(('serialize', None, params), ('unserialize', None, params))
                    path = os.path.join(directory, 'bare')
                    Format.write(path, form, name, **params)
                    equal(Format.read(path, name, **params), form, 'Format.read')
                    mine.write(path, form, **params)
                    equal(mine.read(path, **params), form, 'its read')
                    equal(mine.read(path, quiet=True, **params), form, 'its read')
                    called(('serialize', None, params), ('unserialize', None, params),
                        ('serialize', None, params), ('unserialize', None, params),
                        ('unserialize', None, params))
                    for ending in endings + ['.json', '', '.ZZ1']:
                        path = os.path.join(directory, 'file' + ending)
                        explicit = [name] + ([None] if ending in endings or (
                            ending == '.ZZ1' and '.zz1' in endings) else [])
                        for format in explicit:
                            schema.write(path, value, format, **params)
                            called(('serialize', schema, params))
                            with open(path, 'rb') as f:
                                equal(f.read(), text.encode('utf-8'), 'write')
                            equal(schema.read(path, format, **params), value, 'read')
                            called(('unserialize', schema, params))
                            Format.write(path, form, format, schema, **params)
                            equal(Format.read(path, format, schema, **params), form, 'Format.read')
                            called(('serialize', schema, params), ('unserialize', schema, params))
                        mine.write(path, form, schema=schema, **params)
                        equal(mine.read(path, schema=schema, **params), form, 'its read')
                        called(('serialize', schema, params), ('unserialize', schema, params))
                st.state('format', i, mimetype, base, binary, repr(form), repr(name))
            # a format declared later takes over the names it declares, and only those
            later = type(Format)('Later', (mine, ), {'mimetype': 'application/x-later',
                'extensions': ['.zz2', '.later']})
            for name, owner in [(n, mine) for n in names if n not in ('zz', '.zz2')] + [('zz', later),
                    ('.zz2', later), ('.later', later), ('application/x-later', later),
                    (later, later)]:
                if Format.formats.get(name) is not owner:
                    raise Violation('%r is %r, expected %r' % (name, Format.formats.get(name),
                        owner))
                calls.append(None)
                Field().serialize(1, name)
                if calls.pop()[1] is not owner:
                    raise Violation('%r used another format than %r' % (name, owner))
                st.step()
            for name in names + ['.zz2', '.later', 'application/x-later', later]:
                Format.formats.pop(name, None)
            found = snapshot_types()
            if found != before:
                raise Violation('a format of its own changed those of scheme: %r' % (
                    set(found[1]) ^ set(before[1]), ))
    finally:
        shutil.rmtree(directory, True)
    st.trace('formats')

# --- forms of instantiators and extractors

MODULE = 'hooks_under_check'

class Instance(object):
    def __init__(self, value, key=None):
        self.value, self.key = value, key
    def __repr__(self):
        return 'Instance(%r, %r)' % (self.value, self.key)

def hook_module():
    module = sys.modules[MODULE] = types.ModuleType(MODULE)
    def instantiate(field, value, key=None):
        return Instance(value, key)
    def extract(field, subject):
        if not isinstance(subject, Instance):
            raise TypeError(subject)
        return subject.value
    class Hooks(object):
        __instantiate__ = staticmethod(instantiate)
        __extract__ = staticmethod(extract)
    class ByClass(object):
        @classmethod
        def __instantiate__(cls, field, value, key=None):
            return Instance(value, key)
        @classmethod
        def __extract__(cls, field, subject):
            return extract(field, subject)
    class Bound(object):
        def __instantiate__(self, field, value, key=None):
            return Instance(value, key)
        def __extract__(self, field, subject):
            return extract(field, subject)
    class Callable(object):
        def __init__(self, function):
            self.function = function
        def __call__(self, *args):
            return self.function(*args)
    module.instantiate, module.extract, module.Hooks, module.ByClass, module.bound = (instantiate,
        extract, Hooks, ByClass, Bound())
    module.callables = types.SimpleNamespace(instantiate=Callable(instantiate),
        extract=Callable(extract))
    module.deep = types.SimpleNamespace(functions=module.callables, Within=Hooks, inner=module.bound)
    def name(n):
        return MODULE + '.' + n
    return [
        (instantiate, extract), (Hooks, Hooks), (ByClass, ByClass), (module.bound, module.bound),
        (Hooks(), Hooks()), (module.callables.instantiate, module.callables.extract),
        (name('instantiate'), name('extract')), (name('Hooks'), name('Hooks')), (name('bound'),
        name('bound')), (name('callables.instantiate'), name('callables.extract')),
        (MODULE + ':instantiate', MODULE + ':extract'), (MODULE + ':deep.functions.instantiate',
        MODULE + ':deep.functions.extract'), (name('deep.Within'), name('deep.Within')),
        (MODULE + ':deep.inner', MODULE + ':deep.inner'), (MODULE + ':callables.instantiate',
        MODULE + ':callables.extract'), (name('bound.__instantiate__'), name('bound.__extract__')),
    ]

def run_forms(st, i):
    from scheme import Field, Integer, Map, Sequence, Structure, Text, Tuple
    for instantiator, extractor in [hook_module()[i]]:
        def make(cls=Integer, *args):
            return cls(*args, instantiator=instantiator, extractor=extractor)
        made = [
            (make(), 5, Instance(5)),
            (Structure({'a': make(), 'b': Text()}), {'a': 5, 'b': 'x'}, {'a': Instance(5, 'a'),
                'b': 'x'}),
            (Sequence(make()), [5, None], [Instance(5), None]),
            (Map(make()), {'k': 5}, {'k': Instance(5, 'k')}),
            (Tuple((make(), Text())), (5, 'x'), (Instance(5), 'x')),
            (make(Structure, {'a': make()}), {'a': 5}, Instance({'a': Instance(5, 'a')})),
            (make(Sequence, make()), [5], Instance([Instance(5)])),
            (make(Map, make(Map, Text())), {'k': {'l': 'x'}}, Instance({'k': Instance({'l': 'x'},
                'k')})),
            (make(Tuple, (make(), make(Text))), (5, 'x'), Instance((Instance(5), Instance('x')))),
            (Structure({'x': {'a': make()}, 'y': {}}, polymorphic_on='t'), {'t': 'x', 'a': 5},
                {'t': 'x', 'a': Instance(5, 'a')}),
        ]
        for schema, value, image in made:
            for field in (schema, schema.clone(), schema.clone(title='t')):
                st.step(2)
                actual = field.instantiate(value)
                if repr(actual) != repr(image):
                    raise Violation('%r with %r instantiates %r as %r, not %r' % (schema,
                        instantiator, value, actual, image))
                if freeze(field.extract(actual)) != freeze(value):
                    raise Violation('%r with %r extracts %r as %r' % (schema, extractor, actual,
                        field.extract(actual)))
                if 'nstantia' in repr(field.describe()) or 'xtract' in repr(field.describe()):
                    raise Violation('described as %r' % (field.describe(), ))
            st.state('form', i, repr(value))
    if i == 0:
        for path in ('no.such.module', MODULE + '.nothing', MODULE + ':nothing', 'nosuch'):
            for params in ({'instantiator': path}, {'extractor': path}):
                try:
                    Field(**params)
                except ImportError:
                    pass
                else:
                    raise Violation('%r accepted' % (params, ))
    st.trace('forms')

# --- redefinition of enumerations

def run_redefine(st, i):
    from scheme import Enumeration, Field
    from scheme.exceptions import StructuralError
    first = [['a', 'b'], ['b', 'a', 'c'], [1, 'x', 2.5], [['l'], {'k': 1}, 'a'], [None, 'a'],
        []][i]
    steps = [(values, strategy) for values in (['a'], ['c', 'b'], 'p q', [['l'], 3], [], ['z', 'z'],
        ['a', 'zz', 'b']) for strategy in ('append', 'replace', None)]
    probes = ['a', 'b', 'c', 1, 2.5, ['l'], {'k': 1}, 'p', 'q', 'z', 'zz', 3, 'other']
    for history in itertools.chain([(s, ) for s in steps], itertools.product(steps, repeat=2)):
        field = Enumeration(list(first), name='e')
        expected = list(first)
        for values, strategy in history:
            added = values.split(' ') if isinstance(values, str) else values
            expected = [] if strategy == 'replace' else expected
            for value in added:
                if value not in expected:
                    expected = expected + [value]
            if strategy:
                field.redefine(values, strategy)
            else:
                field.redefine(values)
        st.step()
        if freeze(list(field.enumeration)) != freeze(expected):
            raise Violation('enumeration %r redefined with %r is %r, not %r' % (first, history,
                field.enumeration, expected))
        for field in (field, field.clone(), Field.reconstruct(field.describe())):
            for value in probes:
                try:
                    accepted = field.process(value) == value
                except StructuralError as exception:
                    accepted = False
                    message = exception.errors[0]['message']
                    if not all(repr(v) in message for v in expected):
                        raise Violation('enumeration of %r refuses with %r' % (expected, message))
                if accepted != (value in expected):
                    raise Violation('enumeration %r redefined with %r: %r accepted: %r' % (first,
                        history, value, accepted))
        st.state('redefine', i, repr(history))
    try:
        Enumeration(first).redefine(['a'], 'other')
    except ValueError:
        pass
    else:
        raise Violation('redefined with an unknown strategy')
    st.trace('redefine')

def cases(tier):
    for unserialize in UNSERIALIZE:
        for preprocess in PREPROCESS:
            yield ('hooks', unserialize, preprocess)
    for outer, inner in itertools.product(('structure', 'polymorphic', 'sequence', 'map', 'keyed',
            'tuple'), repeat=2):
        yield ('container', outer, inner)
    for base in ('field', 'integer', 'text', 'date', 'structure', 'sequence', 'map', 'tuple',
            'union'):
        yield ('override', base)
    for i in range(len(subclass_terms())):
        for generation in (1, ) if tier == 'quick' else (1, 2):
            yield ('subclass', i, generation)
    for base in BASES:
        for first in range(16):
            yield ('declared', base, first)
    for i in range(len(refusals())):
        yield ('errors', i)
    yield ('email', )
    yield ('copying', )
    yield ('named', )
    for i in range(2):
        yield ('scalar', i)
    for i in range(len(EXTENSIONS)):
        yield ('formats', i)
    for i in range(len(hook_module())):
        yield ('forms', i)
    for i in range(6):
        yield ('redefine', i)

def run_copying(st):
    """Containers of classes which make copies in their own way are copied in that way."""
    from scheme import Integer, Map, Sequence, Structure, Text, Tuple
    from scheme.fields.union import Union
    def whole(base):
        class Copying(base):
            marks = None
            def clone(self, **params):
                made = super(Copying, self).clone(**params)
                made.marks = (self.marks or 0) + 1
                return made
        return Copying
    shapes = [
        (Sequence, lambda c, f: c(f, flag=True), ('transform', 'filter')),
        (Map, lambda c, f: c(f, flag=True), ('transform', 'filter')),
        (Map, lambda c, f: c(f, key=Integer(), flag=True), ('transform', 'filter')),
        (Tuple, lambda c, f: c((f, Text(flag=True)), flag=True), ('transform', )),
        (Union, lambda c, f: c((f, Text(flag=True)), flag=True), ('transform', )),
        (Structure, lambda c, f: c({'a': f}, flag=True), ('transform', 'filter', 'extend',
            'replace')),
        (Structure, lambda c, f: c({'x': {'a': f}, 'y': {}}, polymorphic_on='t', flag=True), (
            'transform', 'filter')),
    ]
    for base, make, operations in shapes:
        for operation in operations:
            # what changes is right inside, or one level deeper
            for deep in (False, True):
                cls = whole(base)
                inner = Structure({'p': Integer(flag=True), 'q': Integer(flag=False)}, flag=True)
                field = make(cls, Sequence(inner, flag=True) if deep else inner)
                if operation == 'transform':
                    found = field.transform(lambda f: f.clone(nonnull=True) if isinstance(f,
                        Integer) and f.name == 'p' else None)
                elif operation == 'filter':
                    found = field.filter(True, flag=True)
                else:
                    found = getattr(field, operation)({'a': Text()})
                st.step()
                st.state(base.__name__, operation, deep)
                if found is None or type(found) is not cls or not found.marks:
                    raise Violation('%s of a subclass of %s which overrides clone() gives %r, '
                        'copied %r times' % (operation, base.__name__, found, getattr(found,
                        'marks', None)))
    st.trace('copying')

def run(case, st):
    RUN[case[0]](st, *case[1:])

RUN = {'copying': run_copying, 'errors': run_errors, 'email': run_email, 'hooks': run_hooks, 'container': run_container, 'override': run_override, 'subclass': run_subclass, 'declared': run_declared, 'named': run_named,
    'scalar': run_scalar, 'formats': run_formats, 'forms': run_forms, 'redefine': run_redefine}
