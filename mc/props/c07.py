"""Every field type with grids of constraints, alone and inside every container, x all shapes of
hostile data to a bounded depth: inbound processing, native and serialized, must return or raise a
validation error that can be rendered and serialized; it must never leak another exception."""

import itertools

from mc import spec
from mc.core import Violation
from mc.domains import *

BOUNDS = {
    'quick': 'about 150 field configurations alone over all data to depth 2 over 60 atoms, and in 9'
        ' container configurations over data to depth 2 over 25 atoms',
    'thorough': 'data to depth 3, containers nested twice',
}

ATOMS = POOL + ['a' * 4096, '9' * 400, '1' * 4400, '1e999999999', '-', '1e', '0b1', '+', b'a' * 5,
    b'====', b'\n', b'YQ', 'YWJj', '\ud800', '\x85', '\u2028', '%s', '{}', '%(field)s', ':', '::',
    'a:', '@', 'a@', '"', '"@', 'a@b', 'a@b.c', '=', '<>', '<a@b.co>', 10 ** 400, -10 ** 400,
    D('NaN'), D('Infinity'), D('-Infinity'), D('1E+3000'), D('1E-3000'),
    dt(1, 1, 1, tzinfo=Fixed(60)), dt(9999, 12, 31, 23, 59, tzinfo=Fixed(-60)),
    '0000-00-00', '99999-01-01', '2000-01-01T99:99:99Z', '-1:2:3',
    '24:00:60', 'Field', 'text', '_', b'\x00', '\u0660\u0661', 1 + 1e-9, 2.0 ** 70, -0.0,
    frozenset([1]), {1, 2}, 1j, object, range(3), Ellipsis, bytearray(b'a'), {'fieldtype': 'text'},
    {'fieldtype': 'nope'}, {'fieldtype': []}, {'fieldtype': 'text', 'bogus': 1},
    {'fieldtype': 'integer', 'minimum': 'x'}, {'fieldtype': 'structure'}, {'fieldtype':
    'structure', 'structure': 5}, {'fieldtype': 'structure', 'structure': {'a': 5}},
    {'fieldtype': 'sequence'}, {'fieldtype': 'sequence', 'item': {}}, {'fieldtype': 'map',
    'value': {'fieldtype': 'text'}, 1: 2}, {'fieldtype': 'union', 'fields': []},
    {'fieldtype': 'enumeration'}, {'fieldtype': 'text', 'pattern': '('}, {'fieldtype': 'text',
    'name': 5}, {'fieldtype': 'datetime', 'minimum': 'x'}, {'fieldtype': 'field', 'errors': 5},
    {'fieldtype': 'field', 'instantiator': 'no.such:thing'}, {'fieldtype': 'object'},
    {'_': 'x'}, {'_': 5}, {'_': []}, {'_': 'scheme.surrogate'}, {'_': 'os:system'},
    {'_': 'os.path'}, {'__schema__': 5}, {'__schema__': {}}, {'__schema__': {'fieldtype':
    'structure', 'structure': {}}}, {'__schema__': {'fieldtype': 'text'}}, {'__version__': 'x'},
    {'__version__': 5, '_': 'scheme.surrogate.surrogate'}, {'_': None}, {'_': ''}, {'_': '.'},
    {'_': ':'}, {'_': 'a:b:c'}, {'_': 'scheme:nope'}, {'_': {}, 'a': 1}, {'_': 'json:dumps'},
    'os.path', 'os:path', 'os.path:join', 'no.such', 'no:such', ':', '.', '..', 'os:', ':os',
    'os..path', 'json.nope', 'a b', '\x00.a',
    (None, None), ([], {}), ([{}], None), ([{'token': 5}], None), (None, {'a': 5}), (None, [5]),
    [None, [[{'token': 'x'}]]], [[1], [2]], (1, 2, 3), ('a', 'b'), [[], []], [None], [None, None],
    {'kind': 'x'}, {'kind': []}, {'kind': {}}, {'kind': 'nope'}, {'kind': 5}, {'kind': None},
    {'kind': 'x', 'a': []}, {None: 1}, {(): 1}, {1.5: 1, 'a': 2}, {True: 1}, {b'a': 1}]

FEW = [None, True, 5, -1, 10 ** 30, 1.5, float('nan'), float('inf'), '', 'a', '\ud800', 'x' * 300,
    b'', b'YQ=', D('NaN'), date(2000, 1, 1), dt(1, 1, 1, tzinfo=Fixed(60)),
    dt(2000, 1, 1), time(1, 2), '2000-01-01', [], {}, (), ['a', 1], {'a': 1}, {1: []}, Junk(),
    {'kind': []}, {1, 2}]

def grids():
    days = [date(2000, 1, 1), E_]
    lengths = dict(min_length=[E_, 1], max_length=[E_, 2])
    for p in grid(nonnull=[E_, True], constant=[E_, 'a', [], 0], preprocessor=[E_, 'fail']):
        yield ('field', p)
    for p in grid(pattern=[E_, '^a+$'], strip=[E_, False], constant=[E_, 'a'],
            nonempty=[E_, True], **lengths):
        yield ('text', p)
    for p in grid(extended=[E_, True], multiple=[E_, True], **lengths):
        if len(p) < 2 or not ('extended' in p and 'multiple' in p):
            yield ('email', p)
    for p in grid(segments=[E_, 1], constant=[E_, 'a']):
        yield ('token', p)
    yield ('uuid', {})
    for p in grid(minimum=[E_, 0], maximum=[E_, 5], constant=[E_, 5]):
        yield ('integer', p)
    for p in grid(minimum=[E_, 0.0], maximum=[E_, 5.0], constant=[E_, 5.0]):
        yield ('float', p)
    for p in grid(minimum=[E_, D(0)], maximum=[E_, D(5)], constant=[E_, D(5)]):
        yield ('decimal', p)
    yield ('boolean', {})
    yield ('boolean', {'constant': True})
    for p in grid(nonempty=[E_, True], **lengths):
        yield ('binary', p)
    for p in grid(minimum=days, maximum=[date(2001, 1, 1), E_], constant=days):
        yield ('date', p)
    for p in grid(minimum=[time(1, 0), E_], maximum=[time(2, 0), E_], constant=[time(1, 0), E_]):
        yield ('time', p)
    for p in grid(minimum=[dt(2000, 1, 1), E_], maximum=[dt(2001, 1, 1, tzinfo=UTC), E_],
            utc=[True, E_], constant=[E_, dt(2000, 1, 1)]):
        yield ('datetime', p)
    for p in grid(enumeration=['a b', ['a', 1, 1.5, True], []], constant=[E_, 'a'],
            ignored_values=[E_, 'b', ['', 5]]):
        if p['enumeration'] or 'constant' not in p:
            yield ('enumeration', p)
    for p in grid(valid_fields=[E_, 'text integer']):
        yield ('definition', p)
    yield ('object', {})
    yield ('error', {})
    for p in grid(valid_surrogates=[E_, 'a.b']):
        yield ('surrogate', p)

def containers(term):
    """Containers around a field, each with everything that can go wrong in it."""
    yield ('structure', {'structure': {'a': term, 'b': spec.with_params(term, nonnull=True)}})
    yield ('structure', {'structure': {'a': term, '': term}, 'strict': False, 'key_order':
        ('', 'a'), 'preprocessor': 'upper'})
    yield ('structure', {'polymorphic_on': 'kind', 'structure': {'x': {'a': term}, 'y': {}}})
    yield ('structure', {'polymorphic_on': ('field', {'name': 'kind'}), 'structure': {'x':
        {'a': term}, 1: {}}})
    yield ('sequence', {'item': term, 'min_length': 1, 'max_length': 2, 'unique': True})
    yield ('sequence', {'item': term, 'preprocessor': 'upper'})
    yield ('map', {'value': term, 'required_keys': ['a']})
    yield ('map', {'value': term, 'key': term})
    yield ('map', {'value': term, 'preprocessor': 'upper'})
    yield ('tuple', {'values': [term, term]})
    yield ('tuple', {'values': [term], 'preprocessor': 'fail'})
    yield ('union', {'fields': [term, ('text', {'min_length': 2}), term]})

def plain(value):
    """The rendered form must stay a rendering, whatever the value."""
    return isinstance(value, str)

def hostile(atoms, depth, quick):
    for atom in atoms:
        yield atom
    if depth > 1:
        for atom in atoms:
            yield [atom]
            yield (atom, )
            yield {'a': atom}
            yield {'kind': 'x', 'a': atom}
            try:
                yield {atom: atom}
            except TypeError:
                pass
        fewer = atoms[::7 if quick else 3] if len(atoms) > 60 else atoms
        for one, two in itertools.product(fewer, fewer[::2 if quick else 1]):
            yield [one, two]
            yield {'a': one, 'b': two}
    if depth > 2:
        for atom in atoms:
            for outer in (lambda v: [v], lambda v: {'a': v}, lambda v: (v, v), lambda v: {'kind':
                    'x', 'a': v}):
                for inner in (lambda v: [v], lambda v: {'a': v}, lambda v: (v, v), lambda v: {
                        'kind': 'x', 'a': v}, lambda v: [v, v, None]):
                    yield outer(inner(atom))

def cases(tier):
    found = list(grids())
    for i in range(len(found)):
        yield ('alone', i, 2 if tier == 'quick' else 3)
    chosen = sorted(dict((kind, i) for i, (kind, p) in enumerate(found)).values())
    chosen += sorted(dict((kind, len(found) - 1 - i)
        for i, (kind, p) in enumerate(reversed(found))).values())
    for i in sorted(set(chosen)):
        for w in range(12):
            yield ('inside', i, (w, ), 2 if tier == 'quick' else 3)
    if tier != 'quick':
        for i in sorted(set(chosen)):
            for ws in itertools.product(range(12), repeat=2):
                yield ('inside', i, ws, 3)
    else:
        for ws in itertools.product(range(12), repeat=2):
            yield ('inside', chosen[sum(ws) % len(chosen)], ws, 2)

def run(case, st):
    import scheme
    term = list(grids())[case[1]]
    atoms = ATOMS
    if case[0] == 'inside':
        atoms = FEW
        for w in case[2]:
            term = list(containers(term))[w]
    field = spec.build(term)
    quick = case[-1] == 2
    for value in hostile(atoms, case[-1], quick):
        for serialized in (False, True):
            what = '%r.process(%.300r, inbound, serialized=%r)' % (term, value, serialized)
            check(field, value, serialized, what, st)
        st.state(repr(term), repr(value))

def check(field, value, serialized, what, st):
    from scheme.exceptions import ValidationError
    st.step()
    try:
        field.process(value, 'inbound', serialized)
    except ValidationError as exception:
        try:
            text = str(exception)
            found = exception.serialize()
            repr(found)
            repr(exception)
        except Exception as error:
            raise Violation('%s: the error cannot be rendered or serialized: %s: %s' % (what,
                type(error).__name__, error))
        if not isinstance(text, str) or not isinstance(found, tuple) or not (found[0] or found[1]):
            raise Violation('%s: rendered as %r, serialized as %r' % (what, text, found))
        st.trace('refused')
    except Exception as error:
        raise Violation('%s: leaked %s: %s' % (what, type(error).__name__, str(error)[:300]))
    else:
        st.trace('accepted')
