"""Arguments left out of a call mean what they're documented to mean: calls of every operation,
without its optional arguments and with their documented defaults, are compared."""

import collections
import datetime
import os
import shutil
import tempfile

from mc.core import Violation
from mc.freeze import freeze, freeze_error

def answer(function):
    from scheme.exceptions import StructuralError
    try:
        return ('gives', freeze(function()))
    except StructuralError as exception:
        return ('refuses', freeze_error(exception))
    except Exception as exception:
        return ('raises', type(exception).__name__, str(exception))

def schemas():
    """(label, function giving a new schema)."""
    from scheme import (Boolean, Date, DateTime, Decimal, Email, Enumeration, Float, Integer, Map,
        Sequence, Structure, Text, Time, Token, Tuple, UUID, Binary, Definition, Object)
    from scheme.fields.union import Union
    leaves = [
        lambda: Text(name='f'), lambda: Text(name='f', nonempty=True, default='d', flag=True),
        lambda: Integer(name='f', minimum=1, default=2, notes='n'), lambda: Float(name='f'),
        lambda: Decimal(name='f', minimum='1.5'), lambda: Boolean(name='f', default=False),
        lambda: Date(name='f', minimum=datetime.date(2000, 1, 1), default=datetime.date(2001, 1, 1)),
        lambda: DateTime(name='f', utc=True), lambda: Time(name='f'), lambda: UUID(name='f'),
        lambda: Token(name='f', segments=2), lambda: Binary(name='f'),
        lambda: Enumeration(['a', 1], name='f', flag=True), lambda: Email(name='f', multiple=True),
        lambda: Definition(name='f'),
    ]
    inner = lambda: Structure({'a': Integer(required=True, flag=True, default=5), 'b': Date(),
        'c': Text(nonempty=True), 'd': Boolean(constant=True)}, flag=True)
    variants = lambda: Structure({'x': {'a': Date(required=True)}, 'y': {'b': Integer(default=3,
        flag=True)}}, polymorphic_on='t', flag=True)
    containers = [
        lambda: inner(), lambda: variants(), lambda: Sequence(inner(), name='s'),
        lambda: Map(inner(), name='m'), lambda: Tuple((inner(), Date()), name='t'),
        lambda: Sequence(Date(), name='s', flag=True), lambda: Map(Date(), name='m'),
        lambda: Map(Text(flag=True), Integer(), name='m', flag=True), lambda: Sequence(variants()),
        lambda: Sequence(Map(Tuple((inner(), variants())))), lambda: Structure({'i': inner(), 'v':
        variants()}, flag=True), lambda: Union((inner(), Integer())), lambda: Union((Sequence(
        inner()), Date())), lambda: Tuple((Sequence(Integer(flag=True), flag=True), Text()),
        flag=True), lambda: Map(Map(inner(), flag=True), flag=True),
        lambda: Structure({'a': Text()}, strict=False, key_order='a', default={'a': 'x'}),
    ]
    return leaves, containers

class Plain(object):
    def __init__(self, **params):
        self.__dict__.update(params)

def subjects():
    """Values of all kinds, and objects to extract from."""
    day = datetime.date(2005, 1, 2)
    moment = datetime.datetime(2005, 1, 2, 3, 4, 5)
    whole = {'a': 1, 'b': day, 'c': 'x', 'd': True}
    partial = {'b': day}
    text = {'a': 1, 'b': '2005-01-02', 'c': 'x', 'd': True}
    leaves = [None, 'x', ' x ', '', 5, 0, True, 1.5, '1', 'true', '2005-01-02', day, moment,
        '2005-01-02T03:04:05Z', datetime.time(1, 2), '01:02:03', 'a/b', 'a@b.com,c@d.com', b'x',
        'a', 1, '${p}', {'fieldtype': 'integer'}, 'datetime.date']
    def plain(value):
        return Plain(**value) if isinstance(value, dict) else value
    containers = []
    for one in (whole, partial, text, {}, {'t': 'x', 'a': day}, {'t': 'x', 'a': '2005-01-02'},
            {'t': 'y'}, {'t': 'x'}, {'t': 'z'}, {'c': '${p}'}, {'a': '${p}', 'c': 'x'}):
        containers.extend([one, plain(one), [one], [plain(one)], {'k': one}, {'k': plain(one)},
            (one, day), (plain(one), day), {'k': {'k': one}}, {'k': {'k': plain(one)}},
            [{'k': (one, {'t': 'y'})}], [{'k': (plain(one), plain({'t': 'y'}))}], {'i': one, 'v':
            {'t': 'x', 'a': day}}, {'i': plain(one), 'v': plain({'t': 'x', 'a': day})}])
    containers.extend([[day], ['2005-01-02'], {'k': day}, {'k': '2005-01-02'}, ([1], 'x'), {1: 'x'},
        {'1': 'x'}, None, 5, day, '2005-01-02', '${p}', {'k': '${p}'}, ['${p}'], {'a': 'x', 'z': 1}])
    return leaves, containers

def methods(property):
    """Names of the operations whose arguments are left out, with the documented defaults."""
    return {
        'C01': [('process', 1, {'phase': 'inbound', 'serialized': False, 'ancestry': None})],
        'C03': [('process', 1, {'phase': 'inbound', 'serialized': False, 'ancestry': None,
            'partial': False})],
        'C06': [('process', 1, {'phase': 'inbound', 'serialized': False, 'ancestry': None})],
        'C04': [('process', 1, {'phase': 'inbound', 'serialized': False, 'ancestry': None})],
        'C09': [('describe', 0, {'parameters': None, 'verbose': False})],
        'C02': [('serialize', 1, {'format': None, 'ancestry': None}),
            ('unserialize', 1, {'format': None, 'ancestry': None})],
        'C12': [('filter', 'flags', {'all': False})],
        'C17': [('interpolate', 'parameters', {'interpolator': None})],
        'C18': [('extract', 1, {'strict': True}), ('extract', 'flagged', {'strict': True}),
            ('instantiate', 1, {'key': None})],
        'C11': [('generate_defaults', 0, {'identity': None, 'sparse': True}),
            ('generate_defaults', 'identity', {'sparse': True}), ('get', 'keys', {'default': None}),
            ('insert', 'fields', {'overwrite': False}), ('merge', 'structures', {'prefer': False})],
    }[property]

def given(kind, values):
    """Arguments which aren't left out."""
    from scheme import Integer, Text
    if kind == 0:
        return [((), {})]
    elif kind == 1:
        return [((v, ), {}) for v in values]
    elif kind == 'flagged':
        return [((v, ), {'flag': f}) for v in values for f in (True, False)]
    elif kind == 'flags':
        return [((), p) for p in ({}, {'flag': True}, {'flag': False}, {'flag': True, 'title': 't'},
            {'flag': True, 'required': True}, {'flag': False, 'required': False},
            {'title': False, 'flag': True}, {'nonnull': True})]
    elif kind == 'parameters':
        return [((v, p), {}) for v in values for p in ({'p': 'x'}, {'p': {'a': 1}}, {'p': [1]}, {},
            {'p': 5})]
    elif kind == 'identity':
        return [((i, ), {}) for i in ('x', 'y', 'z', None)]
    elif kind == 'keys':
        return [((k, ), {}) for k in ('a', 'b', 'x', 'zz', None)]
    elif kind == 'fields':
        return [((Integer(name=n, title='new'), ), {}) for n in ('a', 'b', 'zz')]
    elif kind == 'structures':
        return [((dict((n, Integer(title='new')) for n in names), ), {}) for names in ('', 'a', 'z',
            'ab', 'az')]

def compare(st, what, one, other):
    one, other = answer(one), answer(other)
    st.step()
    if one != other:
        raise Violation('%s: %r without the argument, %r with its documented default' % (what, one,
            other))

def operate(schema, name, args, params):
    from scheme.interpolation import Interpolator
    result = getattr(schema, name)(*args, **params)
    if name in ('insert', 'merge'):
        return (result, schema)
    return result

def run(st, property):
    """Every operation of ``property``, with each subset of the optional arguments given."""
    leaves, containers = schemas()
    simple, nested = subjects()
    groups = {'C01': [(leaves, simple)], 'C03': [(containers, nested)], 'C04': [(containers,
        nested)], 'C06': [(containers, nested + simple)]}.get(property, [(leaves, simple), (containers, nested)])
    for makers, values in groups:
        for number, make in enumerate(makers):
            for name, kind, defaults in methods(property):
                schema = make()
                if name in ('generate_defaults', 'insert', 'merge') or 'partial' in defaults:
                    if schema.type != 'structure':
                        continue
                    if name in ('insert', 'merge') and schema.polymorphic:
                        continue
                if property == 'C04' and schema.type not in ('sequence', 'map', 'tuple'):
                    continue
                if property == 'C06' and schema.type != 'union':
                    continue
                for args, params in given(kind, values):
                    for left_out in subsets(defaults):
                        whole = dict(params, **defaults)
                        some = dict((k, v) for k, v in whole.items() if k not in left_out)
                        compare(st, '%s() of %r with %r, %r, without %s' % (name, schema, args,
                            params, ', '.join(left_out)),
                            lambda: operate(make(), name, args, some),
                            lambda: operate(make(), name, args, whole))
                st.state(property, number, name, kind)

def subsets(defaults):
    names = sorted(defaults)
    return [(n, ) for n in names] + ([tuple(names)] if len(names) > 1 else [])

# --- operations which aren't those of a schema

def run_calls(st, property, part):
    for what, one, other in CALLS[property](*part):
        compare(st, what, one, other)
        st.state(property, what)

def constructors(number):
    import scheme
    from scheme import (Binary, Boolean, Date, DateTime, Decimal, Definition, Email, Enumeration,
        Error, Field, FieldError, Float, Integer, Map, Object, Sequence, Structure, Surrogate,
        Text, Time, Token, Tuple, UUID)
    from scheme.fields.union import Union
    common = {'name': None, 'description': None, 'default': None, 'nonnull': False, 'ignore_null':
        False, 'required': False, 'constant': None, 'errors': None, 'title': None, 'notes': None,
        'instantiator': None, 'extractor': None, 'preprocessor': None}
    bounds = {'minimum': None, 'maximum': None}
    lengths = {'min_length': None, 'max_length': None}
    kinds = [(Field, (), {'nonempty': False}), (Integer, (), bounds), (Float, (), bounds), (Decimal,
        (), bounds), (Date, (), bounds), (Time, (), bounds), (DateTime, (), dict(bounds,
        utc=False)), (Boolean, (), {}), (UUID, (), {}), (Text, (), dict(lengths, pattern=None,
        strip=True, nonempty=False)), (Binary, (), dict(lengths, nonempty=False)), (Token, (),
        {'segments': None}), (Email, (), {'multiple': False, 'extended': False}), (Enumeration,
        (['a', 1], ), {}), (Definition, (), {'valid_fields': None}), (Error, (), {}), (Object, (),
        {}), (Surrogate, (), {'valid_surrogates': None}), (Sequence, (Integer(), ), dict(lengths,
        unique=False)), (Map, (Integer(), ), {'key': None, 'required_keys': None}), (Tuple, ((
        Integer(), ), ), {}), (Union, ((Integer(), ), ), {}), (Structure, ({'a': Integer(), 'b':
        Integer(default=4)}, ), {'strict': True, 'polymorphic_on': None, 'generate_default':
        False, 'key_order': None})]
    values = [None, '', ' ', ' x ', 'x', 'xy', b'', b'x', 0, -1, 5, 1.5, True, '1', 'a/b', 'a',
        'A <a@b.com>', 'a@b.com', 'a@b.com,c@d.com', [], [1, 1], {}, {'a': 1}, {'a': None}, {'z':
        1}, (1, ), datetime.date(2000, 1, 2), datetime.datetime(2000, 1, 2, 3, 4, 5), '2000-01-02',
        '2000-01-02T03:04:05Z', '2000-01-02T03:04:05', datetime.time(3, 4), 'datetime.date',
        {'fieldtype': 'text'}, {'_': 'surrogate'}]
    def facts(cls, args, params):
        field = cls(*args, **params)
        return [repr(field), field.describe(), field.describe(None, True)] + [answer(lambda:
            field.process(v, p, s)) for v in values for p in ('inbound', 'outbound') for s in (False,
            True)] + [answer(lambda: Structure({'f': cls(*args, **params)}).process(v)) for v in (
            {}, {'f': None}, {'f': 'x'})]
    for cls, args, own in kinds[number:number + 1]:
        whole = dict(common, **own)
        for name in sorted(whole):
            yield ('%s without %s' % (cls.__name__, name), lambda: facts(cls, args, dict((k, v) for
                k, v in whole.items() if k != name)), lambda: facts(cls, args, whole))
        yield '%s by itself' % cls.__name__, lambda: facts(cls, args, {}), lambda: facts(cls, args,
            whole)

    # what is shown of a value which is refused
    if number:
        return
    class Told(Integer):
        errors = [FieldError('invalid', 't', 'm')]
    class Fully(Integer):
        errors = [FieldError('invalid', 't', 'm', True, True)]
    def shown(cls):
        try:
            cls(name='f').process('value')
        except Exception as exception:
            return str(exception).replace('Told', '').replace('Fully', '')
    yield 'FieldError', lambda: shown(Told), lambda: shown(Fully)

def errors():
    from scheme import Integer, Structure
    from scheme.exceptions import StructuralError, ValidationError
    def error():
        try:
            Structure({'a': Integer(), 'b': Structure({'c': Integer(required=True)})}).process(
                {'a': 'x', 'b': {}})
        except ValidationError as exception:
            return exception
    def twice(*args):
        exception = error()
        first = exception.serialize()
        exception.structure = None
        return [first, exception.serialize(*args)]
    yield 'serialize() of an error', lambda: error().serialize(), lambda: error().serialize(False)
    yield 'serialize() of an error again', lambda: twice(), lambda: twice(False)

def utilities():
    from scheme import util
    nested = {'a': [1, {'b': 'x' * 80, 'c': ('y', )}], 'secret': 'z', 'd': {'e': {'f': None}}, 'g':
        list(range(40))}
    for what in (nested, [nested], 'x' * 100, 5, (nested, ), {}):
        for params in ({'abbreviate': False}, {'masks': None}, {'indent': 4}, {'level': 0},
                {'abbreviate': False, 'masks': None, 'indent': 4, 'level': 0}):
            yield 'format_structure() without %r of %r' % (sorted(params), what), lambda: \
                util.format_structure(what), lambda: util.format_structure(what, **params)
        for params in ({'abbreviate': False}, {'masks': None}, {'indent': 4}):
            yield 'StructureFormatter without %r of %r' % (sorted(params), what), lambda: \
                util.StructureFormatter().format(what), lambda: util.StructureFormatter(
                **params).format(what, 0)
        yield 'format() of %r' % (what, ), lambda: util.StructureFormatter(True, ['secret'],
            2).format(what), lambda: util.StructureFormatter(True, ['secret'], 2).format(what, 0)
    for text in ('', 'a', 'a\nb', '\na', 'a\n\nb'):
        for width in (2, '> '):
            yield 'indent() of %r' % text, lambda: util.indent(text, width), lambda: util.indent(
                text, width, True)
    for text in ('', 'a', 'abc', 'abcd', 'abcde', 'abcdefghij'):
        yield 'abbreviate_string() of %r' % text, lambda: util.abbreviate_string(text), lambda: \
            util.abbreviate_string(text, 0)
    for word in ('', 'item', 'box', 'wife', 'city', 'day'):
        yield 'pluralize() of %r' % word, lambda: util.pluralize(word), lambda: util.pluralize(word,
            None)

def formats():
    from scheme import (Boolean, Date, Format, Integer, Json, Map, Sequence, Structure, Text,
        Xml, Yaml, Csv, StructuredText, UrlEncoded)
    schema = Structure({'a': Integer(), 'b': Text(), 'c': Boolean()}, name='s')
    rows = Sequence(schema, name='rows')
    value = {'a': 5, 'b': '1', 'c': True}
    for format in (Xml, ):
        yield 'xml', lambda: format.serialize(value, schema), lambda: format.serialize(value,
            schema, True)
    for columns in ((), ):
        yield 'csv', lambda: Csv.serialize([value], rows), lambda: Csv.serialize([value], rows,
            None, None)
    yield 'csv columns', lambda: Csv.serialize([value], rows, 'b,a'), lambda: Csv.serialize([value],
        rows, 'b,a', None)

def texts():
    from scheme import Json, StructuredText, UrlEncoded, Yaml
    for text in ('5', '1.5', '{a:5,b:[1,x]}', '[1,[2.5]]', 'x', '', '{a:{b:{c:1}}}', '[]', 'true'):
        yield 'structuredtext of %r' % text, lambda: StructuredText.unserialize(text), lambda: \
            StructuredText.unserialize(text, None, False)
        yield 'structuredtext with a schema of %r' % text, lambda: StructuredText.unserialize(text,
            None), lambda: StructuredText.unserialize(text, None, parse_numbers=False)
        yield 'urlencoded of %r' % text, lambda: UrlEncoded.unserialize('p=' + text), lambda: \
            UrlEncoded.unserialize('p=' + text, None)
    for value in ({'a': 1}, {'a': [1, 'x'], 'b': {'c': None}}, {}):
        for format in (StructuredText, UrlEncoded):
            yield '%s of %r' % (format.name, value), lambda: format.serialize(value), lambda: \
                format.serialize(value, None)

def documents():
    from scheme import Json, Yaml
    for value in ({'a': 1}, [1, {'b': ['x', None]}], 'x', 5, None, True, {}, {'a': {'b': {'c': []}}}):
        for format in (Json, Yaml):
            yield '%s of %r' % (format.name, value), lambda: format.serialize(value), lambda: \
                format.serialize(value, None)
            written = format.serialize(value)
            yield 'reading %s of %r' % (format.name, value), lambda: format.unserialize(written), \
                lambda: format.unserialize(written, None)

def files():
    from scheme import Format, Integer, Json, Structure, Yaml
    base = tempfile.mkdtemp(dir=os.getcwd())
    try:
        path = os.path.join(base, 'f.json')
        schema = Structure({'a': Integer()}, name='s')
        missing = os.path.join(base, 'missing.json')
        def write(function):
            def go():
                function()
                with open(path) as openfile:
                    return openfile.read()
            return go
        value = {'a': 5}
        yield 'write() of a schema', write(lambda: schema.write(path, value)), write(lambda:
            schema.write(path, value, None))
        yield 'write() of a format', write(lambda: Format.write(path, value)), write(lambda:
            Format.write(path, value, None, None))
        yield 'write() of one format', write(lambda: Yaml.write(path, value)), write(lambda:
            Yaml.write(path, value, None, None))
        with open(path, 'w') as openfile:
            openfile.write('{"a": 5}')
        for where in (path, missing, '', None):
            for reader in (schema, Format, Json):
                args = () if reader is schema else (None, )
                yield 'read() of %r by %r' % (where, reader), lambda: reader.read(where), lambda: \
                    reader.read(where, None, *args, quiet=False)
                yield 'quiet read() of %r by %r' % (where, reader), lambda: reader.read(where,
                    quiet=True), lambda: reader.read(where, None, *args, quiet=True)
    finally:
        shutil.rmtree(base)

def interpolations():
    from scheme.interpolation import Interpolator, interpolate_parameters
    for text in ('', 'x', '${p}', ' ${p} ', 'a ${p} b', '${q}', '{% if p %}y{% endif %}', '{# c #}z'):
        for parameters in ({'p': 1}, {'p': [1]}, {}):
            yield 'interpolate_parameters() of %r' % text, lambda: interpolate_parameters(text,
                parameters), lambda: interpolate_parameters(text, parameters, False, None)
            yield 'simple interpolate_parameters() of %r' % text, lambda: interpolate_parameters(
                text, parameters, True), lambda: interpolate_parameters(text, parameters, True,
                None)
            yield 'Interpolator of %r' % text, lambda: Interpolator().interpolate(text,
                parameters), lambda: Interpolator(None, None).interpolate(text, parameters)

def elements():
    from scheme import Date, Element, Integer, Structure, Text
    class Omitting(Element):
        schema = Structure({'a': Integer(default=4), 'b': Date()}, name='s')
    class Simple(Element):
        schema = Date(name='d')
    day = datetime.date(2000, 1, 2)
    for make in (lambda: Omitting(a=1, b=day), lambda: Omitting(), lambda: Simple(d=day)):
        yield 'serialize() of an element', lambda: make().serialize(), lambda: make().serialize(
            None)
        data = make().serialize()
        cls = type(make())
        yield 'unserialize() of an element', lambda: vars(cls.unserialize(data)), lambda: vars(
            cls.unserialize(data, None))

def surrogates():
    from scheme import Integer, Structure, Surrogate, surrogate
    schema = lambda: Structure({'a': Integer()})
    for value in ({'a': 5}, {}, {'a': 5, 'b': 1}):
        yield 'surrogate of %r' % value, lambda: surrogate(value), lambda: surrogate(value, None,
            None)
        yield 'construct() with %r' % value, lambda: surrogate.construct(value=value), lambda: \
            surrogate.construct(None, value, None, None)
        yield 'construct() with %r and a schema' % value, lambda: surrogate.construct(value=value,
            schema=schema()), lambda: surrogate.construct(None, value, schema(), None)
        data = {'_': 'surrogate', 'a': 5}
        yield 'unserialize() of %r' % value, lambda: surrogate.unserialize(dict(data)), lambda: \
            surrogate.unserialize(dict(data), None)

CALLS = {'C05': errors, 'C13': documents, 'C14': formats, 'C15': texts, 'C16': files,
    'C17': interpolations, 'C19': elements, 'C23': surrogates, 'C25': constructors,
    'C26': utilities}
SCHEMAS = ('C01', 'C02', 'C03', 'C04', 'C06', 'C09', 'C11', 'C12', 'C17', 'C18')

def cases(property):
    if property not in SCHEMAS and property not in CALLS:
        return
    for number in range(23) if property == 'C25' else (None, ):
        yield ('omitted', property, number)

def run_omitted(st, property, number):
    if property in SCHEMAS:
        run(st, property)
    if property in CALLS:
        run_calls(st, property, () if number is None else (number, ))
    st.trace('omitted')
