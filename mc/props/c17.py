"""All small schema trees with all assignments of literals, references and nulls to their positions
are interpolated and compared with a model of hierarchical substitution; all short texts made of
pieces with references are compared with a model of text substitution."""

import itertools
import re
import sys
import types

from mc import spec
from mc.core import Violation
from mc.domains import *
from mc.freeze import freeze
from mc.spec import build

UUID_ = UUIDS[1]
PARAMS = {'i': 7, 'f': 2.5, 's': 'txt', 'd': D('1.50'), 'b': True, 'day': date(2000, 1, 2),
    'at': dt(2000, 1, 2, 3, 4, 5), 'clock': time(1, 2, 3), 'n': None, 'zero': 0, 'empty': '',
    'no': False, 'o': {'p': 5, 'q': {'r': 'deep'}}, 'l': [4, 'x'], 'digits': '12', 'bytes': b'x\xff',
    'u': UUID_, 'e': 'b', 'kind': 'x', 'tricky': '${i}', 'dec': '1.25', 'under_score1': 9}

BOUNDS = {
    'quick': 'every scalar kind x every literal and reference to %d parameters, alone and in 7 '
        'containers; all trees of 2 container levels over 3 leaf kinds x all assignments of {literal, '
        'reference, undefined, null} to leaves and of {literal, reference, undefined, null} to '
        'containers; all texts of up to 4 of %d pieces; '
        '400 surrogate subjects (versioned, dynamic, nested, given by reference, malformed) x 8 containers' % (len(PARAMS), 18),
    'thorough': 'as quick, all trees of 3 container levels, texts of up to 5 pieces',
}
ASSUMPTIONS = ['jinja2 renders text; template statements and comments count as references, line '
    'endings other than newline in a text that holds references are not compared',
    'a union is given text that its earlier alternatives cannot convert']
CASE_CPU_BUDGET = 300

class Undefined(Exception):
    pass

class Cannot(Exception):
    pass

REFERENCE = re.compile(r'\$\{\s*([^}]+?)\s*\}')

def lookup(expression, params):
    names = expression.split('.')
    if names[0] not in params:
        raise Undefined()
    value = params[names[0]]
    for name in names[1:]:
        if not isinstance(value, dict) or name not in value:
            raise Undefined()
        value = value[name]
    return value

def render(text, params):
    def replace(match):
        names = match.group(1).split('.')
        try:
            return str(lookup(match.group(1), params))
        except Undefined:
            # the attribute of a parameter which is itself missing, or of an attribute which is
            try:
                lookup('.'.join(names[:-1]), params) if len(names) > 1 else None
            except Undefined:
                raise
            return ''
    return REFERENCE.sub(replace, text)

def resolve(subject, params):
    """What a whole reference stands for; anything else stands for itself."""
    if isinstance(subject, str):
        match = REFERENCE.fullmatch(subject.strip())
        if match:
            return lookup(match.group(1), params)
    return subject

NATIVE = {'boolean': bool, 'date': date, 'datetime': datetime.datetime, 'time': time, 'binary': bytes}

def convert(kind, params, value):
    try:
        if kind == 'integer':
            return int(value)
        if kind == 'float':
            return float(value)
        if kind == 'decimal':
            return D(value)
    except Exception:
        raise Cannot()
    if kind == 'enumeration' and value not in params['enumeration']:
        raise Cannot()
    return value

def model(term, subject, params):
    kind, declared = term
    if subject is None:
        return None
    if kind == 'surrogate':
        return model_surrogate(resolve(subject, params), params)
    if kind in ('text', 'token', 'email'):
        if not isinstance(subject, str):
            raise Cannot()
        return render(subject, params)
    if kind in spec.SCALARS:
        if kind == 'enumeration' and subject in declared['enumeration']:
            return subject
        if isinstance(subject, str):
            value = resolve(subject, params)
            return None if value is None else convert(kind, declared, value)
        if kind in ('integer', 'float'):
            if isinstance(subject, bool) or not isinstance(subject, (int, float)) or \
                    (kind == 'integer' and subject % 1 != 0):
                raise Cannot()
        elif kind == 'decimal' and not isinstance(subject, D):
            raise Cannot()
        elif kind in NATIVE and not isinstance(subject, NATIVE[kind]):
            raise Cannot()
        elif kind == 'uuid':
            raise Cannot()
        return convert(kind, declared, subject)
    subject = resolve(subject, params)
    if subject is None:
        return None
    if kind == 'union':
        for field in declared['fields']:
            try:
                return model(field, subject, params)
            except Cannot:
                pass
        raise Cannot()
    if kind == 'structure':
        if not isinstance(subject, dict):
            raise Cannot()
        fields = declared['structure']
        on = declared.get('polymorphic_on')
        if on:
            identity = resolve(subject.get(on), params)
            if identity not in fields:
                raise Cannot()
            fields = dict(fields[identity])
            fields[on] = ('field', {})
        result = {}
        for name, field in fields.items():
            if name in subject:
                try:
                    result[name] = model(field, subject[name], params)
                except Undefined:
                    pass
        return result
    if kind == 'map':
        if not isinstance(subject, dict):
            raise Cannot()
        result = {}
        for key, value in subject.items():
            try:
                result[key] = model(declared['value'], value, params)
            except Undefined:
                pass
        return result
    if not isinstance(subject, (list, tuple)):
        raise Cannot()
    if kind == 'tuple' and len(subject) < len(declared['values']):
        raise Cannot()
    if kind == 'sequence':
        return [model(declared['item'], value, params) for value in subject]
    return tuple([model(field, value, params) for field, value in zip(declared['values'], subject)])

# --- surrogates

MODULE = 'interpolated_surrogates'
LEAF = ('structure', {'structure': {'id': ('text', {}), 'n': ('integer', {})}})
NESTED = ('structure', {'structure': {'id': ('text', {}), 'o': ('structure', {'structure': {
    'when': ('date', {}), 'l': ('sequence', {'item': ('integer', {})})}}),
    'inner': ('surrogate', {})}})
ADDED = ('structure', {'structure': {'id': ('text', {}), 'extra': ('integer', {})}})
SCHEMAS = {'One': [LEAF], 'Two': [LEAF, NESTED], 'Added': [ADDED], 'Plain': None}
DYNAMIC = [LEAF, NESTED, ('structure', {'polymorphic_on': 'kind', 'structure': {
    'x': {'a': ('decimal', {})}, 'y': {}}})]

def implementations():
    """The module that holds the implementations of surrogates."""
    if MODULE in sys.modules:
        return sys.modules[MODULE]
    from scheme.surrogate import surrogate
    module = types.ModuleType(MODULE)
    def contribute(cls, value, version):
        value['extra'] = 77
    for name, terms in SCHEMAS.items():
        namespace = {'__module__': MODULE}
        if terms:
            namespace['schemas'] = [build(term) for term in terms]
        if name == 'Added':
            namespace['contribute'] = classmethod(contribute)
        setattr(module, name, type(surrogate)(name, (surrogate,), namespace))
    module.described = [build(term).describe() for term in DYNAMIC]
    sys.modules[MODULE] = module
    return module

def model_surrogate(subject, params):
    from scheme.surrogate import surrogate
    if subject is None or isinstance(subject, surrogate):
        return subject
    if not isinstance(subject, dict):
        raise Cannot()
    module = implementations()
    subject = dict(subject)
    name = subject.pop('_', None)
    kind = surrogate
    if name is not None and name.startswith(MODULE) and hasattr(module, name.split('.')[1]):
        kind = getattr(module, name.split('.')[1])
    if '__schema__' in subject:
        described = subject.pop('__schema__')
        if described not in module.described:
            raise Cannot()
        term = DYNAMIC[module.described.index(described)]
        value = model(term, subject, params)
        if name == MODULE + '.Added':
            value['extra'] = 77
        return kind(value, build(term))
    if not kind.schemas:
        raise Cannot()
    terms = SCHEMAS[kind.__name__]
    version = subject.pop('__version__', len(terms))
    if not 1 <= version <= len(terms):
        raise Cannot()
    value = model(terms[version - 1], subject, params)
    if kind is module.Added:
        value['extra'] = 77
    return kind(value, version=version)

def surrogate_subjects():
    module = implementations()
    for id in ('plain', 'a ${s}', '${zz}', None, Ellipsis):
        for n in (3, '${i}', '${zz}', None, 'x', Ellipsis):
            content = dict((k, v) for k, v in (('id', id), ('n', n)) if v is not Ellipsis)
            yield dict(content, _=MODULE + '.One')
            yield dict(content, _=MODULE + '.One', __version__=1)
            yield dict(content, _=MODULE + '.Two', __version__=1)
            yield dict(content, _=MODULE + '.Plain', __schema__=module.described[0])
            yield dict(content, __schema__=module.described[0])
    for inner in (None, '${zz}', '${sur}', '${asdict}', {'_': MODULE + '.One', 'id': '${s}'},
            {'_': MODULE + '.Two', 'inner': {'_': MODULE + '.One', '__version__': 1, 'n': '${i}'}},
            {'_': MODULE + '.Two', 'inner': {'__schema__': module.described[1], 'id': '${s}'}},
            {'_': MODULE + '.One', '__version__': 2}, {'_': MODULE + '.Plain', 'a': 1}, Ellipsis):
        for o in ({}, {'when': '${day}', 'l': [1, '${i}']}, '${whole}', {'l': ['${zz}']}, None,
                Ellipsis):
            content = dict((k, v) for k, v in (('inner', inner), ('o', o)) if v is not Ellipsis)
            yield dict(content, _=MODULE + '.Two')
            yield dict(content, _=MODULE + '.Two', __version__=2, id='a ${i}')
            yield dict(content, _=MODULE + '.Plain', __schema__=module.described[1])
            yield dict(content, __schema__=module.described[1])
    for value in ({'_': MODULE + '.Added', 'id': '${s}'}, {'_': MODULE + '.Two', '__version__': 3},
            {'_': MODULE + '.Two', '__version__': 0}, {'_': MODULE + '.Added', '__schema__':
            module.described[0]}, {'_': MODULE + '.Plain'}, {}, {'id': 'x'}, {'_': 'no.such'},
            {'kind': 'x', 'a': '${dec}', '__schema__': module.described[2]},
            {'kind': '${kind}', 'a': '${d}', '__schema__': module.described[2]},
            {'kind': 'y', 'a': '${d}', '__schema__': module.described[2]},
            {'kind': 'z', '__schema__': module.described[2]},
            None, '${sur}', ' ${ sur } ', '${asdict}', '${zz}', '${n}', '${i}', '${o}', 'text',
            '', 5, [], module.One({'id': '${s}', 'n': 2})):
        yield value

def surrogates(st, which):
    module = implementations()
    params = dict(PARAMS, sur=module.One({'id': 'given ${s}'}), whole={'when': '${day}', 'l':
        '${l2}'}, l2=[4, '${i}'], asdict={'_': MODULE + '.Two', 'id': '${s}',
        'inner': {'_': MODULE + '.One', 'id': '${s}'}})
    for subject in surrogate_subjects():
        outer, wrapped = CONTAINERS[which](('surrogate', {}), subject)
        check(outer, wrapped, st, params)
        check(outer, '${given}', st, dict(params, given=wrapped))
        for fields in ([('surrogate', {}), ('integer', {}), ('text', {})], [('boolean', {}),
                ('surrogate', {}), ('field', {})], [('structure', {'structure': {'id': ('text',
                {})}}), ('surrogate', {})]):
            if fields[0][0] == 'structure' and subject == []:
                continue
            outer, wrapped = CONTAINERS[which](('union', {'fields': fields}), subject)
            check(outer, wrapped, st, params)
    st.trace('surrogates')

def check(term, subject, st, params=PARAMS, field=None, interpolator=None):
    from scheme.exceptions import CannotInterpolateError, UndefinedParameterError
    field = field or build(term)
    try:
        expected = ('value', freeze(model(term, subject, params)))
    except Undefined:
        expected = ('undefined', )
    except Cannot:
        expected = ('cannot', )
    before = (freeze(subject), freeze(params))
    st.step()
    try:
        value = field.interpolate(subject, params)
        actual = ('value', freeze(value))
    except UndefinedParameterError as exception:
        actual = ('undefined', )
        value = exception
    except CannotInterpolateError as exception:
        actual = ('cannot', )
        value = exception
        if expected[0] == 'value':
            raise Violation('%r.interpolate(%r) raised %r' % (term, subject, exception))
    if actual != expected:
        raise Violation('%r.interpolate(%r) with %r gives %r (%s), expected %r'
            % (term, subject, params, value, actual[0], expected))
    if (freeze(subject), freeze(params)) != before:
        raise Violation('%r.interpolate modified the subject or the parameters: %r, %r'
            % (term, subject, params))
    st.state(repr(term), repr(subject))
    st.trace(expected[0])

# --- scalars

SCALAR_TERMS = [('text', {}), ('token', {}), ('email', {}), ('uuid', {}), ('integer', {}),
    ('float', {}), ('decimal', {}), ('boolean', {}), ('binary', {}), ('date', {}), ('time', {}),
    ('datetime', {}), ('enumeration', {'enumeration': ['a', 'b', 7, 0, True, 2.5]}),
    ('enumeration', {'enumeration': ['${i}', '${zz}', ' ${s}', '']}), ('field', {}),
    ('object', {})]

def references():
    found = []
    for name in sorted(PARAMS) + ['o.p', 'o.q', 'o.q.r', 'zz', 'o.zz', 'zz.p', 'o.q.zz', 'o.zz.r']:
        found.append('${%s}' % name)
    found += ['${ i }', ' ${i}', '${i} ', '\t${  o.q.r  }\n', '${s}', '$i', '{i}', '$ {i}', '${i}${f}',
        'a ${s}', '${s} b', '${zz} b', '${i} ${zz} ${s}', '', ' ', 'plain', '5', '1.5', 'a:b']
    return found

LITERALS = [0, 1, -5, 2 ** 70, 1.5, 0.0, -2.0, float('inf'), D('1.5'), D('NaN'), True, False,
    date(999, 1, 1), time(0, 0), dt(2000, 1, 1, tzinfo=UTC), b'', b'${i}', UUID_, None, [], ['a'], (),
    {}, {'a': 1}, 'a', 'b', 'x@y.zz']

CONTAINERS = [
    lambda t, v: (t, v),
    lambda t, v: (('structure', {'structure': {'a': t, 'b': ('integer', {})}}), {'a': v, 'b': '${i}'}),
    lambda t, v: (('sequence', {'item': t}), [v, None, v]),
    lambda t, v: (('map', {'value': t}), {'a': v, '${i}': v, 'n': None}),
    lambda t, v: (('tuple', {'values': [t, ('text', {}), t]}), (v, 'a ${i}', v)),
    lambda t, v: (('structure', {'structure': {'x': {'a': t}, 'y': {}}, 'polymorphic_on': 'kind'}),
        {'kind': 'x', 'a': v}),
    lambda t, v: (('structure', {'structure': {'x': {'a': t}, 'y': {}}, 'polymorphic_on': 'kind'}),
        {'kind': '${kind}', 'a': v}),
    lambda t, v: (('sequence', {'item': ('map', {'value': ('tuple', {'values': [('structure',
        {'structure': {'a': t}})]})})}), [{'k': ({'a': v}, )}, {}, {'k': ({}, ), 'j': None}]),
]

def cases(tier):
    for i in range(len(SCALAR_TERMS)):
        yield ('scalar', i)
    for i in range(len(leaves())):
        yield ('native', i)
    first, second = trees(tier)
    for i in range(len(first)):
        yield ('tree', tier, 0, i)
    for i in range(len(second)):
        yield ('tree', tier, 1, i)
    for i in range(len(PIECES)):
        for j in range(len(PIECES)):
            yield ('text', i, j, 2 if tier == 'quick' else 3)
    for i in range(len(SCALAR_TERMS)):
        yield ('extremes', i)
    yield ('members', )
    for i in range(len(UNIONS)):
        yield ('union', i)
    for i in range(len(CONTAINERS)):
        yield ('surrogates', i)
    yield ('interpolator', )
    yield ('invalid', )

def run(case, st):
    RUN[case[0]](st, *case[1:])

def scalar(st, i):
    term = SCALAR_TERMS[i]
    for value in references() + LITERALS:
        if term[0] == 'float' and isinstance(value, int) and abs(value) > 2 ** 1000:
            continue
        if isinstance(value, str) and term[0] in ('text', 'token', 'email') and '\n' in value.strip('\n'):
            continue
        for wrap in CONTAINERS:
            outer, subject = wrap(term, value)
            check(outer, subject, st)
            if outer is not term:
                # the container itself, and everything in it, given by reference
                params = dict(PARAMS, whole=subject, half={'whole': subject})
                check(outer, '${whole}', st, params)
                check(outer, ' ${ half.whole } ', st, params)
    st.trace('scalar', 0)

EXTREMES = {'inf': float('inf'), 'minus': float('-inf'), 'nan': float('nan'), 'zero': -0.0,
    'huge': 10 ** 400, 'small': -10 ** 400, 'large': 1e308, 'dinf': D('Infinity'), 'dnan': D('NaN'),
    'dbig': D('1e999'), 'dhalf': D('0.5'), 'tinf': 'Infinity', 'tnan': 'nan',
    'tbig': '1' + '0' * 400, 'texp': '1e999', 'blank': '  ', 'padded': ' 5 ', 'under': '1_000',
    'wide': '\uff15', 'bdigits': b'5', 'bad': '5x', 'hex': '0x10', 'yes': True, 'none': None,
    'list': [5], 'pair': (0, (5, ), 1), 'dict': {}, 'first': dt(1, 1, 1), 'last': dt(9999, 12, 31, 23, 59, 59)}

def extremes(st, i):
    """Parameters at the limits of what a field can convert, and the same values given as they are."""
    term = SCALAR_TERMS[i]
    for name, value in sorted(EXTREMES.items()):
        for subject in ('${%s}' % name, value):
            if isinstance(subject, str) and subject[:1] != '$' and term[0] in ('text', 'token', 'email'):
                continue
            for wrap in CONTAINERS:
                outer, wrapped = wrap(term, subject)
                check(outer, wrapped, st, dict(EXTREMES, i=5, kind='x'))
    st.trace('extreme', 0)

def native(st, i):
    """Data without references is left alone."""
    term, values = leaves()[i]
    for value in values:
        for wrap in CONTAINERS:
            outer, subject = wrap(term, value)
            st.step()
            params = {'i': 1, 'kind': 'x'}
            for name in ('b', ):
                if isinstance(subject, dict) and subject.get(name) == '${i}':
                    subject[name] = 5
            if outer[0] == 'tuple':
                subject = (subject[0], 'x', subject[2])
            expected = subject
            if isinstance(subject, dict) and subject.get('kind') == '${kind}':
                expected = dict(subject, kind='x')
            actual = build(outer).interpolate(subject, params)
            if freeze(actual) != freeze(expected):
                raise Violation('%r.interpolate(%r) gives %r' % (outer, subject, actual))
            for empty in (None, ):
                if build(outer).interpolate(empty, params) is not None:
                    raise Violation('%r.interpolate(None) is not null' % (outer, ))
            st.state(repr(outer), repr(subject))
    st.trace('native')

def members(st):
    """Containers with many members: without references, and each of their members by reference."""
    def by_reference(value, params):
        params['m%d' % len(params)] = value
        return '${m%d}' % (len(params) - 1)
    for term, values, wrong in wide_pairs():
        if term[0] == 'union':
            continue
        for value in values:
            params = {'i': 1}
            if isinstance(value, dict):
                given = dict((k, v if k == 'type' else by_reference(v, params)) for k, v in value.items())
            elif isinstance(value, tuple):
                given = tuple(by_reference(v, params) for v in value)
            else:
                given = [by_reference(v, params) for v in value]
            if isinstance(value, dict):
                alternate = dict((k, given[k] if i % 2 else value[k]) for i, k in enumerate(value))
            else:
                alternate = type(value)(given[i] if i % 2 else v for i, v in enumerate(value))
            for subject in (value, given, alternate):
                check(term, subject, st, params)
            st.state(repr(term), repr(value))
    st.trace('members')

# --- trees

LEAVES = [('integer', {}), ('text', {}), ('date', {})]
LEAF_SUBJECTS = {
    'integer': [3, '${i}', '${zz}', None, '${n}'],
    'text': ['lit', 'a ${s}', '${zz}', None, '${zz.p}'],
    'date': [date(1, 1, 1), '${day}', '${zz}', None, '${n}'],
}

def S(**fields): return ('structure', {'structure': fields})
def P(**variants): return ('structure', {'structure': variants, 'polymorphic_on': 'kind'})
def Q(item): return ('sequence', {'item': item})
def M(value): return ('map', {'value': value})
def T(*values): return ('tuple', {'values': list(values)})

def over(first, second):
    return [S(a=first, b=second), Q(first), M(first), T(first, second), P(x={'a': first}, y={})]

def trees(tier):
    one = [tree for leaf in LEAVES for tree in over(leaf, LEAVES[0])]
    two = [tree for child in one for tree in over(child, LEAVES[1])]
    if tier == 'quick':
        return one + two, []
    return one + two, [tree for child in two for tree in over(child, LEAVES[0])]

class Names(object):
    """Parameters that hold containers given by reference."""
    def __init__(self):
        self.params = dict(PARAMS)
        self.ids = {}

    def reference(self, value):
        key = repr(value)
        if key not in self.ids:
            self.ids[key] = 'c%d' % len(self.ids)
            self.params[self.ids[key]] = value
        return '${%s}' % self.ids[key]

def subjects(term, names, limit):
    kind, declared = term
    if kind in LEAF_SUBJECTS:
        return LEAF_SUBJECTS[kind]
    literal = []
    if kind == 'structure':
        variants = [({}, declared['structure'])]
        if 'polymorphic_on' in declared:
            variants = [({'kind': i}, f) for i, f in sorted(declared['structure'].items())] + [
                ({'kind': '${kind}'}, declared['structure']['x'])]
        for base, fields in variants:
            options = [[Ellipsis] + subjects(fields[n], names, limit // 2) for n in sorted(fields)]
            for chosen in itertools.product(*options):
                literal.append(dict(base, **dict((n, v) for n, v in zip(sorted(fields), chosen)
                    if v is not Ellipsis)))
    elif kind in ('sequence', 'map'):
        inner = subjects(declared['item' if kind == 'sequence' else 'value'], names, limit // 2)
        literal = [()] + [(v, ) for v in inner] + list(itertools.product(inner, repeat=2))
        if kind == 'sequence':
            literal = [list(v) for v in literal]
        else:
            literal = [dict(zip(('k', '${i}'), v)) for v in literal]
    else:
        literal = list(itertools.product(*[subjects(v, names, limit // 2)
            for v in declared['values']]))
    if len(literal) > limit:
        step = len(literal) // limit + 1
        literal = literal[::step] + literal[-3:]
    return literal + [names.reference(v) for v in literal[:limit // 3]] + \
        [names.reference(v) for v in literal[-limit // 3:]] + ['${zz}', None, '${n}']

def tree(st, tier, which, i):
    term = trees(tier)[which][i]
    names = Names()
    field = build(term)
    for subject in subjects(term, names, 150 if tier == 'quick' else 200):
        check(term, subject, st, names.params, field)
    st.sample(term)

# --- text

PIECES = ['a', ' ', '\n', '\r\n', '${i}', '${zz}', '${s}', '${n}', '${o.p}', '${ s }', '$', '{', '}',
    '%', '#', '\xe9', '${tricky}', '${empty}']

def text(st, i, j, more):
    term = ('text', {'strip': False})
    field = build(term)
    nested = build(S(a=Q(term)))
    for count in range(more + 1):
        for rest in itertools.product(PIECES, repeat=count):
            chosen = (PIECES[i], PIECES[j]) + rest
            subject = ''.join(chosen)
            plain = REFERENCE.sub('', subject)
            if '${' in plain or '{%' in subject or '{#' in subject or '{#' in plain:
                continue
            if '\r' in subject and '${' in subject:
                continue
            if ''.join(c for c in chosen if not c.startswith('${')).count('${'):
                continue
            st.step()
            actual = field.interpolate(subject, PARAMS)
            expected = render(subject, PARAMS)
            if actual != expected or type(actual) is not str:
                raise Violation('text %r interpolates to %r, not %r' % (subject, actual, expected))
            if count < 2:
                actual = nested.interpolate({'a': [subject]}, PARAMS)
                if actual != {'a': [expected]}:
                    raise Violation('text %r interpolates to %r' % (subject, actual))
    st.state('text', i, j)
    st.trace('text')

# --- unions

UNIONS = [
    ([('integer', {}), ('text', {})], [5, 'abc', '${i}', '${s}', 'a b', '${zz}', None, '${n}', '-']),
    ([('text', {}), ('integer', {})], ['abc', 'a b', 5, '${i}', '${s}', '${zz}', None]),
    ([('structure', {'structure': {'a': ('integer', {})}}), ('sequence', {'item': ('text', {})})],
        [{'a': '${i}'}, ['${s}'], '${o}', '${l}', {}, [], None, {'a': '${zz}'}, ['${zz}', 'b']]),
    ([('date', {}), ('integer', {}), ('structure', {'structure': {'a': ('integer', {})}})],
        [date(1, 1, 1), 5, {'a': '${i}'}, '${day}', '${i}', None]),
    ([('enumeration', {'enumeration': ['a', 'b']}), ('boolean', {}), ('float', {})],
        ['a', '${e}', True, False, '${b}', 1.5, '${f}', None]),
    ([('integer', {}), ('float', {}), ('boolean', {}), ('decimal', {})],
        [5, 1.5, True, D('1.5'), '${i}', '${f}', '${b}', '${d}', False, 0, '${zero}', '${no}']),
    ([('map', {'value': ('integer', {})}), ('tuple', {'values': [('integer', {}), ('text', {})]}),
        ('text', {})], [{'k': '${i}'}, ('${i}', 'a ${s}'), 'a ${s}', '${s}', '${o.q}', {}, None]),
    ([('binary', {}), ('time', {}), ('datetime', {}), ('sequence', {'item': ('integer', {})})],
        [b'x', time(1, 2), dt(1, 1, 1), ['${i}'], '${bytes}', '${clock}', '${at}', [], None]),
    ([('uuid', {}), ('map', {'value': ('text', {})})], [UUID_, {'a': '${s}'}, '${u}', {}]),
    ([('token', {}), ('map', {'value': ('integer', {})})], ['a:b', {'a': '${i}'}, '${s}']),
]

def union(st, i):
    fields, values = UNIONS[i]
    for value in values:
        for wrap in CONTAINERS:
            check(*wrap(('union', {'fields': fields}), value), st=st)

def interpolator(st):
    """Filters and functions of a given interpolator apply at every depth, and only there."""
    from scheme.interpolation import Interpolator
    def double(v):
        return v * 2
    def twice(v):
        return v * 2
    def wrong(v):
        return 'wrong'
    misled = lambda name: type('f', (), {'__name__': name, '__call__': lambda self, v: 'wrong'})()
    class Standard(Interpolator):
        standard_filters = [double]
        standard_globals = [twice]
    class Derived(Standard):
        pass
    class Overridden(Interpolator):
        standard_filters = [misled('double')]
        standard_globals = [misled('twice')]
    given = {'filters': {'double': double}, 'globals': {'twice': twice}}
    customs = [Interpolator(**given), Standard(), Derived(), Overridden(**given),
        Standard(filters={'other': wrong}), Standard(globals={'other': wrong})]
    for custom, wrap in itertools.product(customs, CONTAINERS):
        for leaf, subject, expected in ((('integer', {}), '${i|double}', 14), (('integer', {}),
                '${twice(i)}', 14), (('text', {}), 'a ${s|double}', 'a txttxt'),
                (('float', {}), '${f|double}', 5.0), (('enumeration', {'enumeration': [14]}),
                '${i|double}', 14), (('date', {}), '${twice(i)}', 14), (('token', {}),
                '${twice(s)}', 'txttxt'), (('decimal', {}), '${i|double}', D(14)),
                (('uuid', {}), '${twice(s)}', 'txttxt'),
                (('union', {'fields': [('integer', {}), ('text', {})]}), '${i|double}', 14)):
            term, wrapped = wrap(leaf, subject)
            _, image = wrap(leaf, expected)
            if isinstance(image, dict) and image.get('b') == '${i}':
                image['b'] = 7
            if isinstance(image, dict) and image.get('kind'):
                image['kind'] = 'x'
            if isinstance(image, tuple):
                image = (image[0], 'a 7', image[2])
            st.step(2)
            st.state(repr(term), subject)
            actual = build(term).interpolate(wrapped, PARAMS, custom)
            if freeze(actual) != freeze(image):
                raise Violation('%r.interpolate(%r) with a custom interpolator gives %r, not %r'
                    % (term, wrapped, actual, image))
            try:
                actual = build(term).interpolate(wrapped, PARAMS)
            except Exception:
                continue
            if freeze(actual) == freeze(image):
                raise Violation('%r.interpolate(%r) uses functions of another interpolator'
                    % (term, wrapped))
    # whole containers, discriminators and surrogates given by expressions of the interpolator
    from scheme import (Binary, Boolean, Date, DateTime, Email, Enumeration, Field, Integer, Map,
        Object, Sequence, Structure, Surrogate, Text, Time, Tuple, Union)
    from scheme.surrogate import surrogate
    class Doubled(surrogate):
        schemas = [Structure({'a': Integer()}), Structure({'a': Integer(), 'b': Text()})]
    surrogate.cache['interpolated.Doubled'] = Doubled
    Doubled.surrogate = 'interpolated.Doubled'
    def keep(v):
        return v
    moment = datetime.datetime(2000, 1, 2, 3, 4)
    params = {'i': 7, 's': 'x', 'l': [1, 2], 't': (1, 'x'), 'm': {'k': 1}, 'v': {'kind': 'xx',
        'a': 1}, 'sur': Doubled({'a': 1}), 'day': datetime.date(2000, 1, 2), 'moment': moment,
        'time': datetime.time(3, 4), 'e': 'a@b.com', 'bin': b'x', 'yes': True, 'n': None}
    poly = lambda: Structure({'xx': {'a': Integer()}, 'y': {}}, polymorphic_on='kind')
    dynamic = Structure({'a': Integer()}).describe()
    works = [
        (poly, {'kind': '${s|twice}', 'a': '${i|twice}'}, {'kind': 'xx', 'a': 14}),
        (poly, '${keep(v)}', {'kind': 'xx', 'a': 1}),
        (lambda: Structure({7: {'a': Integer()}, 14: {'b': Integer()}}, polymorphic_on=Integer(
            name='kind')), {'kind': '${i|twice}', 'b': '${keep(i)}'}, {'kind': 14, 'b': 7}),
        (lambda: Sequence(Integer()), '${keep(l)}', [1, 2]),
        (lambda: Sequence(Integer()), '${l|twice}', [1, 2, 1, 2]),
        (lambda: Tuple((Integer(), Text())), '${keep(t)}', (1, 'x')),
        (lambda: Map(Integer()), '${m|keep}', {'k': 1}),
        (lambda: Map(Integer(), Text()), '${keep(m)}', {'k': 1}),
        (lambda: Structure({'k': Integer()}), '${keep(m)}', {'k': 1}),
        (lambda: Surrogate(), '${keep(sur)}', params['sur']),
        (lambda: Surrogate(), {'_': 'interpolated.Doubled', 'a': '${i|twice}', 'b':
            '${s|twice} ${i}'}, Doubled({'a': 14, 'b': 'xx 7'}, version=2)),
        (lambda: Surrogate(), {'_': 'interpolated.Doubled', '__version__': 1, 'a': '${i|twice}'},
            Doubled({'a': 14}, version=1)),
        (lambda: Surrogate(), {'_': 'scheme.surrogate.surrogate', '__schema__': dynamic, 'a':
            '${keep(i)}'}, surrogate({'a': 7}, Structure({'a': Integer()}))),
        (Date, '${keep(day)}', params['day']), (DateTime, '${moment|keep}', moment), (Time,
            '${keep(time)}', params['time']), (Email, '${keep(e)}', 'a@b.com'), (Binary,
            '${keep(bin)}', b'x'), (Boolean, '${keep(yes)}', True), (Field, '${l|keep}', [1, 2]),
        (lambda: Text(), 'a ${keep(s)} ${s|twice}', 'a x xx'), (Object, '${keep(l)}', [1, 2]),
        (lambda: Enumeration([14, 'z']), '${i|twice}', 14), (Integer, '${keep(n)}', None),
        (lambda: Sequence(Integer()), '${keep(n)}', None), (lambda: Map(Integer()), '${n|keep}',
            None), (poly, '${keep(n)}', None), (lambda: Tuple((Integer(), )), '${keep(n)}', None),
        (Surrogate, '${keep(n)}', None),
        (lambda: Union((Structure({'k': Integer()}), Integer())), '${i|twice}', 14),
    ]
    custom = Interpolator(filters={'twice': twice, 'keep': keep}, globals={'keep': keep})
    around = [(lambda f: f, lambda v: v), (Sequence, lambda v: [v]), (Map, lambda v: {'k': v}),
        (lambda f: Tuple((f, Text())), lambda v: (v, 'z')), (lambda f: Structure({'f': f}), lambda
        v: {'f': v}), (lambda f: Structure({'x': {'f': f}}, polymorphic_on='t'), lambda v: {'t':
        'x', 'f': v}), (lambda f: Union((f, )), lambda v: v)]
    for (make, subject, expected), outer, inner in itertools.product(works, around, around):
        field = outer[0](inner[0](make()))
        st.step()
        try:
            found = freeze(field.interpolate(outer[1](inner[1](subject)), params, custom))
        except Exception as exception:
            found = exception
        if found != freeze(outer[1](inner[1](expected))):
            raise Violation('%r: %r with a custom interpolator gives %r, expected %r' % (field,
                subject, found, outer[1](inner[1](expected))))
    st.state('expressions', len(works))
    st.trace('interpolator')

def invalid(st):
    """Subjects of the wrong shape are refused."""
    for term in ([S(a=LEAVES[0]), Q(LEAVES[0]), M(LEAVES[0]), T(LEAVES[0]), P(x={}, y={})]
            + [('integer', {}), ('text', {}), ('date', {}), ('uuid', {}), ('decimal', {})]):
        for value in ['plain', '${i}', '${s}', 5, 1.5, True, b'x', [], {}, ['a'], {'kind': 'zz'},
                {'kind': None}, {'kind': '${zz}'}, {'kind': '${s}'}, '${l}', '${o}', ('x', ),
                date(1, 1, 1)]:
            try:
                model(term, value, PARAMS)
            except Undefined:
                continue
            except Cannot:
                pass
            check(term, value, st)

RUN = {'members': members, 'scalar': scalar, 'extremes': extremes, 'native': native, 'tree': tree, 'text': text, 'union': union,
    'surrogates': surrogates, 'interpolator': interpolator, 'invalid': invalid}
