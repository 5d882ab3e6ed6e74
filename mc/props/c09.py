"""Every schema of the grids is described (plainly and verbosely), the description is checked to be
plain data and taken through JSON or not, and the schema reconstructed from it is compared with
the original: attributes of every node, description, and behaviour on probe values derived from
the schema in both phases and forms."""

import itertools
import json

from mc.core import Violation
from mc.domains import D, E_, UTC, date, dt, grid, time, wide_pairs
from mc.freeze import attributes, behaviour, freeze, tree
from mc.probe import samples
from mc.spec import build, with_params

BOUNDS = {
    'quick': 'every field type with parameter grids, alone and in 8 containers; container '
        'parameter grids over 3 leaves; containers of containers',
    'thorough': 'as quick, and parameter grids at depth 2 in pairs, containers to depth 3',
}
ASSUMPTIONS = ['parameters are natively serializable (as C09 says); text patterns, callables and '
    'error tables are documented not to be described']

COMMON = [{}, {'name': 'n\u00e9'}, {'required': True}, {'nonnull': True}, {'ignore_null': True},
    {'nonempty': True}, {'title': 'T', 'notes': 'N', 'description': 'D "x"\n'},
    {'aspects': {'mark': True, 'data': {'x': [1, None, {'y': 'z'}]}, 'zero': 0, 'empty': ''}},
    {'other': [], 'more': {'k': (1, 2)}, 'no': None, 'title': ''},
    {'required': True, 'nonnull': True, 'ignore_null': True, 'name': 'q', 'flag': False}]

def specifics(kind):
    """Type-specific natively serializable parameters."""
    if kind == 'field':
        return list(grid(default=[E_, 0, 'x', [], {'a': [1, None]}, False], constant=[E_, 0, 'x']))
    if kind == 'text':
        return list(grid(min_length=[E_, 0, 2], max_length=[E_, 0, 3], strip=[E_, True, False])) \
            + list(grid(default=[E_, '', 'b'], constant=[E_, '', 'b'], min_length=[E_, 1]))
    if kind == 'token':
        return list(grid(segments=[E_, 0, 1, 2], default=[E_, 'a:b'], constant=[E_, 'a:b']))
    if kind == 'email':
        return list(grid(multiple=[E_, True, False], default=[E_, 'a@b.co'], min_length=[E_, 7])) \
            + list(grid(extended=[E_, True, False], max_length=[E_, 6]))
    if kind == 'uuid':
        return [{}, {'default': 'abcdef01-2345-6789-abcd-ef0123456789'}]
    if kind == 'integer':
        return list(grid(minimum=[E_, 0, 2, -2 ** 70], maximum=[E_, 0, 3, 2 ** 70],
            default=[E_, 0, 2], constant=[E_, 0, 2]))
    if kind == 'float':
        return list(grid(minimum=[E_, 0.0, 1.5, -1e300], maximum=[E_, 0.0, 1.5], default=[E_, 0.0],
            constant=[E_, 0.0, 1.5]))
    if kind == 'decimal':
        return list(grid(minimum=[E_, '0', '1.50', '-1E+5'], maximum=[E_, '0', '1.5', '1E-7']))
    if kind == 'boolean':
        return list(grid(default=[E_, False, True], constant=[E_, False, True]))
    if kind == 'binary':
        return list(grid(min_length=[E_, 0, 2], max_length=[E_, 0, 3]))
    if kind == 'date':
        bounds = [E_, '2000-01-02', '0999-12-31', '0001-01-01', '9999-12-31']
        return list(grid(minimum=bounds, maximum=bounds))
    if kind == 'time':
        bounds = [E_, '12:30:15', '00:00:00', '23:59:59']
        return list(grid(minimum=bounds, maximum=bounds))
    if kind == 'datetime':
        bounds = [E_, '2000-01-01T12:00:00Z', '0999-12-31T23:59:59Z', '9999-12-31T23:59:59Z']
        return list(grid(minimum=bounds, maximum=bounds, utc=[E_, True, False]))
    if kind == 'enumeration':
        return list(grid(enumeration=['a b', ['a', 1], [1.5, True, ''], ('a', 'b'), []],
            ignored_values=[E_, 'b c', [''], [1]], default=[E_, 'a'], constant=[E_, 'a']))
    if kind == 'definition':
        return [{}, {'valid_fields': 'text integer'}, {'valid_fields': ['text']},
            {'default': None}]
    if kind == 'surrogate':
        return [{}, {'valid_surrogates': 'surrogate other'}, {'valid_surrogates': ['other']}]
    return [{}]

KINDS = ('field', 'text', 'token', 'email', 'uuid', 'integer', 'float', 'decimal', 'boolean',
    'binary', 'date', 'time', 'datetime', 'enumeration', 'definition', 'object', 'error',
    'surrogate')

def scalars():
    for kind in KINDS:
        needed = {'enumeration': ['a', 1]} if kind == 'enumeration' else {}
        for params in COMMON:
            yield (kind, dict(needed, **params))
        for params in specifics(kind):
            yield (kind, dict(needed, **params))
            if kind not in ('email', 'text', 'binary'):
                yield (kind, dict(needed, required=True, nonnull=True, **params))

def representative():
    """One constrained term of every scalar type."""
    return [
        ('field', {'default': [1], 'mark': True}),
        ('text', {'min_length': 1, 'max_length': 3, 'strip': False, 'title': 't'}),
        ('token', {'segments': 2}), ('email', {'multiple': True}), ('uuid', {'nonnull': True}),
        ('integer', {'minimum': 1, 'default': 5, 'required': True}),
        ('float', {'maximum': 1.5, 'ignore_null': True}), ('decimal', {'minimum': '1.5'}),
        ('boolean', {'constant': True}), ('binary', {'nonempty': True}),
        ('date', {'minimum': '2000-01-02'}), ('time', {'maximum': '12:30:15'}),
        ('datetime', {'utc': True, 'maximum': '2000-01-01T12:00:00Z'}),
        ('enumeration', {'enumeration': ['a', 1], 'ignored_values': ['']}),
        ('definition', {'valid_fields': ['integer']}), ('object', {}), ('error', {}),
        ('surrogate', {'valid_surrogates': ['surrogate']}),
    ]

def containers(term, other=('text', {'max_length': 3})):
    yield ('structure', {'structure': {'a': term}})
    yield ('structure', {'structure': {'a': term, 'b': other}, 'strict': False,
        'key_order': ('b', 'a')})
    yield ('structure', {'structure': {'x': {'a': term}, 'y': {'a': other, 'b': term}, 'z': {}},
        'polymorphic_on': 'kind'})
    yield ('structure', {'structure': {'x': {'a': term}, '*': {'c': other}}, 'polymorphic_on':
        ('text', {'name': 'type', 'nonnull': True, 'title': 'disc'})})
    yield ('sequence', {'item': term})
    yield ('map', {'value': term})
    if term[0] in ('text', 'token', 'email', 'uuid', 'integer', 'date', 'time', 'enumeration'):
        yield ('map', {'value': other, 'key': term})
    yield ('tuple', {'values': [term, other]})
    yield ('union', {'fields': [term, other]})

def parametrised(leaf, default):
    """Containers with grids of their own parameters."""
    for params in COMMON:
        for kind, nested in (('structure', {'structure': {'a': leaf}}), ('sequence', {'item':
                leaf}), ('map', {'value': leaf}), ('tuple', {'values': [leaf]}), ('union',
                {'fields': [leaf]}), ('structure', {'structure': {'x': {'a': leaf}},
                'polymorphic_on': 'kind'})):
            yield (kind, dict(nested, **params))
    for params in grid(min_length=[E_, 0, 1, 2], max_length=[E_, 0, 1, 2], unique=[E_, True, False],
            default=[E_, [], [default]]):
        yield ('sequence', dict({'item': leaf}, **params))
    for params in grid(required_keys=[E_, [], ['k'], 'j k', ('k', 'zz')], default=[E_, {},
            {'k': default}]):
        yield ('map', dict({'value': leaf}, **params))
    for params in grid(default=[E_, (default, 'x'), (default, None)]):
        yield ('tuple', dict({'values': [leaf, ('text', {})]}, **params))
    for params in grid(default=[E_, default]):
        yield ('union', dict({'fields': [('boolean', {}), leaf]}, **params))
    for params in grid(strict=[E_, True, False], key_order=[E_, 'a b', ('b', 'a')],
            default=[E_, {}, {'a': default}, {'b': None}], ):
        yield ('structure', dict({'structure': {'a': leaf, 'b': with_params(leaf, required=True,
            default=default)}}, **params))
    for params in grid(generate_default=[E_, True], nonnull=[E_, True]):
        yield ('structure', dict({'structure': {'a': with_params(leaf, default=default), 'b':
            leaf}}, **params))
    for params in grid(generate_default=[E_, 'x', 'y'], strict=[E_, False], key_order=[E_,
            'b kind a']):
        yield ('structure', dict({'structure': {'x': {'a': with_params(leaf, default=default)},
            'y': {'b': leaf}}, 'polymorphic_on': 'kind'}, **params))
    for params in grid(default=[E_, {'kind': 'y', 'b': default}, {'kind': 'x', 'a': None}]):
        yield ('structure', dict({'structure': {'x': {'a': leaf}, 'y': {'b': leaf}},
            'polymorphic_on': 'kind'}, **params))

def discriminated(leaf, default):
    """Structures told apart by every kind of field whose values are no text."""
    for kind, x, y in (('date', date(1, 1, 1), date(2000, 1, 2)), ('time', time(0), time(1, 2, 3)),
            ('decimal', D('1.5'), D('0')), ('integer', 0, 7), ('uuid',
            '12345678-1234-5678-1234-567812345678', '00000000-0000-0000-0000-000000000000'), (
            'datetime', dt(2000, 1, 1, tzinfo=UTC), dt(1999, 1, 1, tzinfo=UTC))):
        on = (kind, {'name': 'kind', 'utc': True} if kind == 'datetime' else {'name': 'kind'})
        for params in grid(default=[E_, {'kind': y, 'b': default}, {'kind': x, 'a': None}],
                strict=[E_, False]):
            if params.get('default') and kind not in ('integer', 'uuid'):
                # the defaults of containers are described in serialized form
                continue
            for fields in ({x: {'a': leaf}, y: {'b': leaf}}, {x: {'a': leaf}, '*': {'b': leaf},
                    y: {}}):
                yield ('structure', dict({'structure': fields, 'polymorphic_on': on}, **params))

def nested(depth):
    terms = [('integer', {'minimum': 1, 'default': 2}), ('date', {'maximum': '2000-01-02'})]
    for _ in range(depth):
        terms = [c for t in terms for c in containers(t)]
    return terms

def cases(tier):
    for term in scalars():
        yield ('scalar', term)
    for term in representative():
        for container in containers(term):
            yield ('in', container)
    for leaf, default in ((('integer', {'maximum': 5}), 0), (('text', {}), ''),
            (('field', {}), {'q': [1]})):
        for term in itertools.chain(parametrised(leaf, default), discriminated(leaf, default)):
            yield ('params', term)
    for term in nested(2):
        yield ('nested', term)
    for i in range(len(NATIVES)):
        yield ('defaults', i)
    yield ('aspects', )
    for term, good, bad in wide_pairs():
        yield ('wide', term)
    if tier != 'quick':
        for term in scalars():
            for container in containers(term):
                yield ('grid in', container)
        for term in nested(3):
            yield ('nested', term)

def plain(value):
    if isinstance(value, dict):
        return all(isinstance(k, (str, int)) and plain(v) for k, v in value.items())
    if isinstance(value, (list, tuple)):
        return all(plain(v) for v in value)
    return value is None or type(value) in (str, int, float, bool)

def listed(value):
    """Data as JSON gives it back."""
    if isinstance(value, dict):
        return dict((k, listed(v)) for k, v in value.items())
    if isinstance(value, (list, tuple)):
        return [listed(v) for v in value]
    return value

def image(field, tuples=True):
    found = []
    for path, node in tree(field):
        attrs = dict((name, freeze(getattr(node, name) if tuples else listed(getattr(node, name))))
            for name in ('name', 'description', 'title', 'notes', 'required', 'nonnull',
            'ignore_null', 'default', 'constant'))
        found.append((path, type(node).__name__, attrs))
    return found

def described(field, description):
    """Every field together with its own description."""
    from scheme import Map, Sequence, Structure, Tuple, Union
    yield field, description
    pairs = []
    if isinstance(field, Structure):
        if field.polymorphic_on:
            write = lambda identity: field.polymorphic_on.process(identity, 'outbound', True)
            pairs.append((field.polymorphic_on, description['polymorphic_on']))
            for identity, fields in field.structure.items():
                nested = description['structure'][write(identity)]
                pairs.extend((child, nested[name]) for name, child in fields.items())
        else:
            pairs.extend((child, description['structure'][name]) for name, child in
                field.structure.items())
    elif isinstance(field, Sequence):
        pairs.append((field.item, description['item']))
    elif isinstance(field, Map):
        pairs.append((field.value, description['value']))
        if field.key:
            pairs.append((field.key, description['key']))
    elif isinstance(field, (Tuple, Union)):
        nested = 'values' if isinstance(field, Tuple) else 'fields'
        pairs.extend(zip(getattr(field, nested), description[nested]))
    for child, nested in pairs:
        yield from described(child, nested)

def check_contents(field, term, st):
    """Verbose descriptions hold all parameters which have values, and additional parameters asked
    for are included, at every depth; whatever a plain description holds is in them as well."""
    verbose, short = field.describe(None, True), field.describe()
    more = field.describe({'basetype': None})
    for (node, full), (_, brief), (_, asked) in zip(described(field, verbose), described(field, short),
            described(field, more)):
        st.step()
        for name in node.parameters:
            value = getattr(node, name)
            if value is not None and name not in full and plain(value):
                raise Violation('%r: the verbose description of %r lacks %s' % (term, node, name))
        for name in brief:
            if name not in full:
                raise Violation('%r: the verbose description of %r lacks %s' % (term, node, name))
        if asked.get('basetype') != node.basetype:
            raise Violation('%r: asked for, the base type of %r is described as %r' % (term, node,
                asked.get('basetype')))
    st.trace('contents')

NATIVES = [('date', {}, date(2000, 1, 2)), ('decimal', {}, D('1.50')), ('time', {}, time(1, 2, 3)),
    ('datetime', {'utc': True}, dt(2000, 1, 2, 3, 4, 5, tzinfo=UTC)), ('integer', {}, 0)]

def run_defaults(st, i):
    """Defaults of containers holding values which aren't natively serializable are described in
    serialized form, and apply to data alike once reconstructed."""
    from scheme import Field
    kind, params, value = NATIVES[i]
    leaf = (kind, params)
    grounds = [
        (('sequence', {'item': leaf}), [[value], [], [value, value]]),
        (('map', {'value': leaf}), [{'a': value}, {}]),
        (('tuple', {'values': [leaf, ('text', {})]}), [(value, 'x'), (value, None)]),
        (('structure', {'structure': {'a': leaf, 'b': ('text', {})}}), [{'a': value}, {'b': 'x',
            'a': value}]),
        (('structure', {'structure': {'x': {'a': leaf}, 'y': {'b': leaf}}, 'polymorphic_on': 't'}),
            [{'t': 'x', 'a': value}, {'t': 'y', 'b': value}, {'t': 'y'}]),
    ]
    wraps = [lambda t, v: (t, v), lambda t, v: (('sequence', {'item': t}), [v, v]),
        lambda t, v: (('map', {'value': t}), {'k': v}),
        lambda t, v: (('structure', {'structure': {'k': t}}), {'k': v})]
    for ground, defaults in grounds:
        for wrap in wraps:
            for default in defaults:
                term, whole = wrap(ground, default)
                term = with_params(term, default=whole)
                for name in (None, 'f'):
                    field = build(with_params(term, name=name) if name else term)
                    wanted = build(with_params(term, default=None)).process(whole, 'outbound', True)
                    for verbose in (False, True):
                        description = field.describe(None, verbose)
                        if not plain(description):
                            raise Violation('description of %r is not plain data: %r' % (term,
                                description))
                        if freeze(description['default']) != freeze(wanted):
                            raise Violation('%r: the default is described as %r, expected %r' % (
                                term, description['default'], wanted))
                        other = Field.reconstruct(description)
                        for candidate in (field, other):
                            around = build(('structure', {'structure': {}}))
                            around.insert(candidate.clone(name='f'))
                            st.step()
                            if freeze(around.unserialize({})) != freeze({'f': whole}):
                                if candidate is field:
                                    break
                                raise Violation('%r reconstructed from %r gives %r by default' % (
                                    term, description, around.unserialize({})))
                        st.trace('default')
                st.state(repr(term))


ASPECTS = [('zz', 1), ('flag', True), ('off', False), ('hidden', object()), ('words', ['a', 'b']),
    ('call', len), ('table', {'k': [1, 2]}), ('last', 'x')]

def run_aspects(st):
    """Whatever else a field or a call of describe() is given, aspects which are plain data are
    described, and reconstructed, in any order."""
    from scheme import Field, Integer, Sequence, Structure, Text
    for size in range(len(ASPECTS) + 1):
        for chosen in itertools.combinations(ASPECTS, size):
            for items in (chosen, chosen[::-1], chosen[1:] + chosen[:1]):
                given = dict(items)
                wanted = dict((k, v) for k, v in items if k not in ('hidden', 'call'))
                for make in (lambda **p: Integer(minimum=1, **p), lambda **p: Sequence(Text(), **p),
                        lambda **p: Structure({'a': Text()}, **p)):
                    field = make(**given)
                    plain_one = make()
                    for verbose in (False, True):
                        usual = dict(plain_one.describe(None, verbose))
                        for description in (field.describe(None, verbose),
                                plain_one.describe(None, verbose, **given)
                                if type(field) is Integer else field.describe(None, verbose),
                                plain_one.describe(dict((k, None) for k in given), verbose)
                                if not given else field.describe(None, verbose)):
                            st.step()
                            if freeze(dict(description)) != freeze(dict(usual, **wanted)):
                                raise Violation('%r with aspects %r is described as %r, expected '
                                    '%r' % (field, items, description, dict(usual, **wanted)))
                            again = Field.reconstruct(description)
                            for name, value in wanted.items():
                                if freeze(getattr(again, name, 'missing')) != freeze(value):
                                    raise Violation('aspect %s of %r is reconstructed as %r' % (
                                        name, description, getattr(again, name, 'missing')))
                    st.state('aspects', tuple(k for k, v in items))
    st.trace('aspects')

def run(case, st):
    from scheme import Definition, Field
    if case[0] == 'aspects':
        return run_aspects(st)
    if case[0] == 'defaults':
        return run_defaults(st, case[1])
    term = case[1]
    field = build(term)
    values = samples(term)
    original = behaviour(field, values)
    verbatim = {}
    for verbose in (False, True):
        description = field.describe(None, verbose)
        if not plain(description):
            raise Violation('description of %r is not plain data: %r' % (term, description))
        verbatim[verbose] = description
        for through in ('direct', 'json', 'definition'):
            if through == 'json':
                specification = json.loads(json.dumps(description))
            else:
                specification = description
            what = '%r reconstructed from %r' % (term, specification)
            before = freeze(specification)
            if through == 'definition':
                if verbose:
                    continue
                specification = Definition().serialize(field)
                if freeze(specification) != before:
                    raise Violation('serialized definition %r differs from description %r' % (
                        specification, description))
                other = Definition().unserialize(specification)
            else:
                other = Field.reconstruct(specification)
            st.step()
            if freeze(specification) != before:
                raise Violation('reconstructing modified the description of %r' % (term,))
            if type(other) is not type(field):
                raise Violation('%s is a %s' % (what, type(other).__name__))
            exact = through != 'json'
            if image(other, exact) != image(field, exact):
                raise Violation('%s has other attributes:\n%r\nrather than\n%r' % (what,
                    image(other, exact), image(field, exact)))
            again = other.describe(None, verbose)
            if freeze(again if exact else listed(again)) != freeze(description if exact
                    else listed(description)):
                raise Violation('%s is described as\n%r\nrather than\n%r' % (what, again,
                    description))
            outcomes = behaviour(other, values)
            st.step(len(outcomes))
            if outcomes != original and not exact:
                # tuples in defaults have become lists
                pairs = [(a, b) for a, b in zip(outcomes, original) if a != b]
                if all(unlist(a) == unlist(b) for a, b in pairs):
                    outcomes = original
            if outcomes != original:
                for i, (new, old) in enumerate(zip(outcomes, original)):
                    if new != old:
                        raise Violation('%s: %r (phase %d) gives %r rather than %r' % (what,
                            values[i // 4], i % 4, new, old))
            st.trace('%s %s' % (through, 'verbose' if verbose else 'plain'))
    check_contents(field, term, st)
    more = field.describe({'zz': 5, 'mark': None, 'title': 'dt'}, False)
    expected = dict(verbatim[False])
    for name in ('mark', 'title'):
        value = getattr(field, name)
        if value is not None:
            expected[name] = value
    top = dict((k, more.get(k)) for k in expected)
    if freeze(listed({k: v for k, v in top.items() if not isinstance(v, dict)
            and k not in ('fields', 'values')})) != freeze(listed({k: v for k, v in
            expected.items() if not isinstance(v, dict) and k not in ('fields', 'values')})):
        raise Violation('%r described with more parameters gives %r' % (term, more))
    st.state(term[0], repr(verbatim[False]))
    st.state(repr(sorted(set(repr(o[:1]) for o in original))), repr(term))

def unlist(image):
    if isinstance(image, tuple):
        return tuple(unlist(i) for i in image)
    if isinstance(image, list):
        return [unlist(i) for i in image]
    return 'list' if image == 'tuple' else image
