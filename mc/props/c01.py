"""Every scalar field type x grid of constraints x pool of values of all types x phase x form,
compared with the reference model; grammars over all strings up to a bounded length."""

import itertools

from mc import ref, spec
from mc.core import Violation
from mc.domains import *
from mc.observe import PHASES, check_process

BOUNDS = {
    'quick': 'all grids; grammar strings to length 4 (token), 3 + mutations (e-mail)',
    'thorough': 'all grids; grammar strings to length 6 (token), 4 (text), e-mail templates with'
        ' two mutations',
}


def grids():
    common = dict(nonnull=[E_, True])
    lengths = [E_, 0, 1, 2, 3]
    for p in grid(min_length=lengths, max_length=lengths, strip=[E_, False], **common):
        yield 'text', p, ()
    for p in grid(min_length=[E_, 0, 2], nonempty=[True], strip=[E_, True, False]):
        yield 'text', p, ()
    for p in grid(pattern=['a', '^a$', r'^[ab]{2,3}$', '^$', r'.*b\s'], strip=[E_, False],
            min_length=[E_, 2], max_length=[E_, 2], **common):
        yield 'text', p, ()
    for p in grid(constant=['a', 'abc'], strip=[E_, False], min_length=[E_, 2], **common):
        yield 'text', p, ('abd',)
    for p in grid(preprocessor=['upper', 'twice', 'fail'], constant=[E_, 'ABC'],
            max_length=[E_, 3, 4], strip=[E_, False]):
        yield 'text', p, ()
    for p in grid(segments=[E_, 1, 2, 3], constant=[E_, 'a:b'], **common):
        yield 'token', p, ('a:b', 'a:b:c', 'a-b', 'a+b.c', '-a', 'a-', 'a:', ':a', 'a::b', 'a b',
            '\u00e9:b', 'a_', '_', 'a:b\n', 'a\n:b', 'a/b')
    for p in grid(constant=[E_, UUIDS[0]], **common):
        yield 'uuid', p, tuple(UUIDS + BAD_UUIDS)
    bounds = [E_, -1, 0, 1, 2, 10, 2 ** 63]
    for p in grid(minimum=bounds, maximum=bounds, constant=[E_, 1, 0], **common):
        yield 'integer', p, (3, 9, 11, 2 ** 63 - 1, 2 ** 63 + 1, -2, 1.9, -0.5, 2.0)
    bounds = [E_, -1.0, 0.0, 1.0, 1.5, 10.0, float('inf')]
    for p in grid(minimum=bounds, maximum=bounds, constant=[E_, 1.0], **common):
        yield 'float', p, (1.4999999, 1.5, 1.5000001, -1.0, 10.0, 10.5)
    bounds = [E_, D('-1'), D('0'), '1.0', D('1.50'), '1E+2']
    for p in grid(minimum=bounds, maximum=bounds, constant=[E_, D('1')], **common):
        yield 'decimal', p, ('1.0', D('1.49'), D('1.51'), D('100'), D('100.01'), 'Infinity',
            'sNaN', '-nan', '1,5', 1.5, D('NaN'), D('Infinity'), (0, (1, 2), -1), [0, [1, 2], -1])
    for p in grid(constant=[E_, True, False], **common):
        yield 'boolean', p, ()
    for p in grid(min_length=lengths, max_length=lengths, nonempty=[E_, True], nonnull=[E_]):
        yield 'binary', p, (b'ab', b'abcd', b'YWI=', b'YWJjZA==', b'\x00\x01')
    for p in grid(constant=[b'abc', b'a'], **common):
        yield 'binary', p, ()
    bounds = [E_, date(2000, 1, 1), '2000-01-02', date(2000, 2, 29), date(1, 1, 1),
        dt(2000, 1, 2, 5, 6)]
    for p in grid(minimum=bounds, maximum=bounds, **common):
        yield 'date', p, (date(2000, 1, 3), date(2000, 2, 28), date(2000, 3, 1),
            dt(2000, 1, 2, 23, 59), dt(2000, 1, 2), '2000-01-02', '2000-01-03')
    for p in grid(constant=[date(2000, 1, 1)], **common):
        yield 'date', p, ()
    bounds = [E_, time(12, 30, 15), '12:30:16', time(0, 0), time(23, 59, 59)]
    for p in grid(minimum=bounds, maximum=bounds, **common):
        yield 'time', p, (time(12, 30, 14), time(12, 30, 17), time(0, 0, 1), time(23, 59, 58),
            time(12, 30, 15, 1))
    bounds = [E_, time(12, 30, 15, 500000), time(12, 30, 15, 1), time(12, 30, 15)]
    for p in grid(minimum=bounds, maximum=bounds):
        yield 'time', p, (time(12, 30, 15, 250000), time(12, 30, 15, 750000),
            time(12, 30, 15, 500000), time(12, 30, 15, 2), time(12, 30, 16), '12:30:15')
    for p in grid(constant=[time(12, 30, 15), time(12, 30, 15, 5)], **common):
        yield 'time', p, (time(12, 30, 15, 5), time(12, 30, 15, 4))
    bounds = [E_, dt(2000, 1, 1, 12, 30, 15), '2000-01-01T12:30:16Z',
        dt(2000, 1, 1, 14, 0, 15, tzinfo=Fixed(90)), dt(2000, 1, 1, 12, 30, 17, tzinfo=UTC)]
    for p in grid(minimum=bounds, maximum=bounds, utc=[E_, True], **common):
        yield 'datetime', p, (dt(2000, 1, 1, 12, 30, 14), dt(2000, 1, 1, 12, 30, 17),
            dt(2000, 1, 1, 14, 0, 15, tzinfo=Fixed(90)),
            dt(2000, 1, 1, 14, 0, 16, tzinfo=Fixed(90)), '2000-01-01T12:30:17Z',
            dt(2000, 1, 1, 10, 30, 15, tzinfo=Fixed(-120)))
    for p in grid(enumeration=['a b', ['a', 'abc', ''], [1, 2, 'a'], [True, None], ['a'], [0, 1.5],
            [b'a', 'a'], [-1, '-1']],
            ignored_values=[E_, ['b'], 'b abc', [0, ''], [None]], **common):
        if any(isinstance(v, bytes) for v in p['enumeration']):
            continue
        yield 'enumeration', p, ('c', 'a b', 'ab')
    for p in grid(enumeration=[['a', 'b']], constant=['a'], ignored_values=[E_, ['a'], ['']],
            **common):
        yield 'enumeration', p, ()
    for p in grid(constant=[E_, 1, 'a', 0, False, ''], preprocessor=[E_, 'upper', 'fail'],
            **common):
        yield 'field', p, ()
    for p in grid(min_length=[E_, 3, 5], max_length=[E_, 7, 20], multiple=[E_, True], **common):
        yield 'email', p, ()
    for p in grid(extended=[True], **common):
        yield 'email', p, ()
    for kind in ('text', 'integer', 'float', 'boolean', 'date', 'binary', 'decimal', 'token',
            'uuid', 'time', 'datetime', 'field', 'email'):
        yield kind, {'name': 'named', 'required': True, 'description': 'd', 'title': 't'}, ()
        yield kind, {'nonempty': True, 'preprocessor': 'same'} if kind != 'email' else \
            {'nonempty': True}, ()
        yield kind, {'errors': [('invalid', 'custom', '%(field)s custom message'),
            ('nonnull', 'custom', '%(field)s nothing there')]} if kind != 'email' else {}, ()

ADDRESSES = ['a@b.co', 'a.b@c-d.example.com', '"a b"@b.com', '"a\\"b"@b.com', "o'x+y@b.info",
    'a@b.c.de', '0@0.aa', 'A@B.Co']

def mutations(text, alphabet):
    for i in range(len(text) + 1):
        for c in alphabet:
            yield text[:i] + c + text[i:]
        if i < len(text):
            yield text[:i] + text[i + 1:]
            for c in alphabet:
                yield text[:i] + c + text[i + 1:]

def cases(tier):
    seen = set()
    for kind, params, extra in grids():
        key = repr((kind, sorted(params.items(), key=lambda i: i[0])))
        if key in seen:
            continue
        seen.add(key)
        yield ('grid', (kind, params), extra)
    depth = 4 if tier == 'quick' else 6
    for first in itertools.product('a-:', repeat=2):
        yield ('token', ''.join(first), depth - 2)
    yield ('token', '', 2)
    for first in 'a@. "':
        yield ('email', first, 3 if tier == 'quick' else 4)
    for address in ADDRESSES + [a + ',' + b for a in ADDRESSES[:3] for b in ADDRESSES[2:5]] + [
            'n <%s>' % a for a in ADDRESSES[:3]] + ['"n m"  <%s>' % a for a in ADDRESSES[:3]]:
        yield ('mutate', address, 1)
        if tier != 'quick':
            yield ('mutate', address, 2)
    for strip in (True, False):
        for low in range(3):
            yield ('texts', strip, low, 3 if tier == 'quick' else 4)
    for x in 'af0g-':
        yield ('uuids', x)
    yield ('opaque', )
    yield ('definition', )

def run(case, st):
    kind = case[0]
    if kind == 'grid':
        term, extra = case[1], case[2]
        field = spec.build(term)
        kinds = set()
        for value in POOL + list(extra):
            if term[0] in ('token', 'email') and isinstance(value, str) and '\n' in value:
                pass
            for phase, serialized in PHASES:
                expected = check_process(field, term, value, phase, serialized, st)
                st.state(repr(term), repr(value), phase, serialized)
            # the convenience wrappers are the same operations
            if value is not None:
                expected = check_alias(field, term, value, st)
    elif kind == 'token':
        fields = [(spec.build(t), t) for t in (('token', {}), ('token', {'segments': 2}))]
        for length in range(case[2] + 1):
            for rest in itertools.product('a0-+.:_ \n\u00e9', repeat=length):
                value = case[1] + ''.join(rest)
                st.state('token', value)
                for field, term in fields:
                    check_process(field, term, value, 'inbound', True, st)
    elif kind in ('email', 'mutate'):
        fields = [(spec.build(t), t) for t in (('email', {}), ('email', {'multiple': True}),
            ('email', {'extended': True}), ('email', {'max_length': 6}))]
        alphabet = 'aZ0@. "\\<>,;:-_+\n\x00(\u00e9'
        if kind == 'email':
            values = (case[1] + ''.join(rest) for length in range(case[2])
                for rest in itertools.product(alphabet, repeat=length))
        elif case[2] == 1:
            values = mutations(case[1], alphabet)
        else:
            values = (second for first in mutations(case[1], '@. "<>,a')
                for second in mutations(first, '@. "<>,a'))
        for value in values:
            st.state('email', value)
            for field, term in fields:
                check_process(field, term, value, 'inbound', True, st)
    elif kind == 'texts':
        strip, low, depth = case[1:]
        fields = []
        for high in range(low, 4):
            term = ('text', {'min_length': low, 'max_length': high, 'strip': strip})
            fields.append((spec.build(term), term))
        for length in range(depth + 1):
            for chars in itertools.product('ab \t\n\u00a0\u200b\x1f', repeat=length):
                value = ''.join(chars)
                st.state('text', value)
                for field, term in fields:
                    check_process(field, term, value, 'inbound', False, st)
                    check_process(field, term, value, 'outbound', True, st)
    elif kind == 'uuids':
        field, term = spec.build(('uuid', {})), ('uuid', {})
        for base in UUIDS:
            for i in range(len(base) + 1):
                for value in (base[:i] + case[1] + base[i + 1:], base[:i] + case[1] + base[i:],
                        base[:i] + base[i + 1:], base[:i] + base[i:].upper(),
                        base[:i] + '\n' + base[i + 1:]):
                    st.state('uuid', value)
                    check_process(field, term, value, 'inbound', True, st)
    elif kind == 'opaque':
        run_objects(st)
    elif kind == 'definition':
        run_definitions(st)

def check_alias(field, term, value, st):
    from mc.observe import attempt, compare, expect
    for name, phase in (('serialize', 'outbound'), ('unserialize', 'inbound')):
        expected = expect(ref.process, term, value, phase, True)
        compare(attempt(getattr(field, name), value), expected, '%r.%s(%r)' % (term, name, value))
        st.step()
    expected = expect(ref.process, term, value, 'inbound', False)
    compare(attempt(field.process, value), expected, '%r.process(%r)' % (term, value))
    st.step()
    st.trace('aliases')
    return expected

def refused(st, call, token, type_error, what):
    from mc.observe import Raised, attempt
    from scheme.exceptions import InvalidTypeError, ValidationError
    result = attempt(call)
    st.step()
    st.trace('refused: ' + token)
    if not isinstance(result, Raised) or not isinstance(result.exception, ValidationError):
        raise Violation('%s: %r, expected refusal %r' % (what, result, token))
    if [e['token'] for e in result.exception.errors] != [token] or (type_error is not None and
            isinstance(result.exception, InvalidTypeError) != type_error):
        raise Violation('%s: %r, expected refusal %r' % (what, result, token))

def run_objects(st):
    import collections
    import json
    import os.path
    from scheme import Object
    import scheme.fields
    known = {'json': json, 'collections.OrderedDict': collections.OrderedDict,
        'scheme.fields.text.Text': scheme.fields.text.Text, 'json.loads': json.loads,
        'json': json}
    field = Object()
    for name, value in known.items():
        st.state('object', name)
        for given, expected in ((name, value), (value, value)):
            if field.process(given, 'inbound', True) is not expected:
                raise Violation('Object: %r not resolved to %r' % (given, expected))
            st.step()
        if isinstance(value, type) or name == 'json':
            found = field.process(field.process(value, 'outbound', True), 'inbound', True)
            if found is not value:
                raise Violation('Object: %r does not round trip: %r' % (value, found))
            st.step(2)
        if field.process(value, 'inbound', False) is not value:
            raise Violation('Object: native %r changed' % value)
        st.step()
        st.trace('object resolved', 4)
    for bad in ('no.such.module', 'json.nope', 'json.loads.nope', '', '.', ':', 'a:b', 'json:',
            'json:nope', ' ', 'a b', '..', 'json..loads'):
        st.state('object', bad)
        refused(st, lambda: field.process(bad, 'inbound', True), 'import', False,
            'Object %r' % bad)
    refused(st, lambda: field.process(spec.Junk(), 'outbound', True), 'invalid', True,
        'Object of unidentifiable value')
    if field.process(None) is not None:
        raise Violation('Object: null changed')
    refused(st, lambda: Object(nonnull=True).process(None), 'nonnull', False, 'null object')

def run_definitions(st):
    import scheme
    from scheme import Definition, Field
    candidates = [('text', {}), ('integer', {'minimum': 1}), ('sequence', {'item': ('text', {})}),
        ('structure', {'structure': {'a': ('text', {'required': True})}})]
    for valid in (None, 'text', 'text integer', ['sequence'], ('structure', 'text')):
        names = valid.split(' ') if isinstance(valid, str) else valid
        field = Definition(valid_fields=valid)
        for term in candidates:
            built = spec.build(term)
            described = built.describe()
            st.state('definition', repr(valid), repr(term))
            for phase, serialized in PHASES:
                value = described if phase == 'inbound' and serialized else built
                if names is None or term[0] in names:
                    result = field.process(value, phase, serialized)
                    st.step()
                    st.trace('definition accepted')
                    if serialized:
                        wanted = result if phase == 'outbound' else result.describe()
                        if wanted != described:
                            raise Violation('Definition: %r became %r' % (described, wanted))
                    elif result is not built:
                        raise Violation('Definition: field replaced')
                else:
                    refused(st, lambda: field.process(value, phase, serialized), 'invalidfield',
                        False, 'Definition(%r) of %r' % (valid, term))
        for bad in (1, True, [], {}, {'fieldtype': 'nope'}, {'a': 1}, (), 1.5, b'x', 'nope',
                {'fieldtype': 'integer', 'minimum': 'x'}, {'fieldtype': ['text']}):
            st.state('definition', repr(bad))
            for phase, serialized in PHASES:
                refused(st, lambda: field.process(bad, phase, serialized), 'invalid',
                    None if phase == 'inbound' and serialized else True,
                    'Definition of %r' % (bad,))
