"""All short texts at every position of all small list and dict shapes are written as structured
text and as forms and read back, with and without number parsing; values of schemas are written and
read through them."""

import itertools
from urllib.parse import parse_qsl, quote_plus

from mc import spec
from mc.core import Violation
from mc.domains import *
from mc.freeze import freeze, outcome
from mc.probe import samples
from mc.spec import build

CHARS = 'a1{}[]\\:| %&=+";\'\n\te.-_/#?\xe9\u2028'
CORE = 'a1{}[]\\:|&= '
WORDS = ['', 'a', '||0||', '||1||', '||0', '0||', '{}', '[]', '{a:b}', '[a]', '[[', '}}', '\\{', '\\\\{',
    '\\a', '\\\\a', 'a\\b', 'a:b', ':', '::', 'True1', 'nul', 'null ', ' null', 'truetrue', 'nan',
    '\\]a', '[\\', 'a b', ' a ', '%7B', '%', '+', '&amp;', 'a=b&c=d', '\n', '\r\n', '\xe9', '\u2028',
    '\U0001f600', '\0', '#a', '?', '[[[a]]]', '{[{', 'a' * 500, '{' * 60, '\\' * 9 + 'a', '||1||\\]x']
ATOMS = [None, True, False, 'a', '', '{', '\\]a', '||0||', ':', [], {}]
KEYS = ['', 'a', 'b c', '||0||', '"', 'true', 'null', '1', ' ', '\xe9', '%', '&', 'a=b', '|', '+', '.',
    '-', 'A', 'aa']
NUMBERS = ['1', '-1', '+1', '1.5', '-1.5', '1e5', '1.5e3', '.5', '5.', '1_0', ' 1', '1 ', '1.2.3', '.',
    'nan', 'inf', '1.x', '0x1', '00', '\u0661', '1:2', 'a1', '1a', '{1', '1}', '\\[1.5', '..', '-.',
    '1\\]', 'e.e']

BOUNDS = {
    'quick': 'all strings up to 3 over %d characters and up to 4 over %d, at 9 kinds of position in '
        'structured text and forms; all pairs and triples of %d words; all lists and dicts of up to '
        '2 of %d atoms nested 3 deep; %d kinds of keys; number texts; every scalar kind through '
        'forms' % (len(CHARS), len(CORE), len(WORDS), len(ATOMS), len(KEYS)),
    'thorough': 'as quick, strings up to 5 over %d characters' % len(CORE),
}
ASSUMPTIONS = ['urllib implements form encoding']
CASE_CPU_BUDGET = 300

LITERALS = ('true', 'false', 'null')

def fits(text, inside):
    return ',' not in text and text.lower() not in LITERALS and not (inside and text[-1:] == '\\')

def key_fits(text):
    return not set(text) & set(',:[]{}\\')

def cases(tier):
    thorough = tier != 'quick'
    for first in CHARS:
        for length in (1, 2, 3):
            yield ('strings', first, length, CHARS)
    for first in CORE:
        for second in CORE:
            yield ('strings', first + second, 4, CORE)
            if thorough:
                yield ('strings', first + second, 5, CORE)
    for i in range(len(WORDS)):
        yield ('words', i)
    for part in range(24):
        yield ('shapes', part, 24)
    for i in range(len(KEYS)):
        yield ('keys', i)
    yield ('numbers', )
    yield ('literals', )
    for i in range(len(leaves())):
        yield ('schema', i)
    yield ('foreign', )
    yield ('members', )
    yield ('malformed', )

def structured(value, st, expected=None, **params):
    import scheme
    text = None
    st.step(2)
    try:
        text = scheme.StructuredText.serialize(value)
        actual = scheme.StructuredText.unserialize(text, **params)
    except Exception as exception:
        raise Violation('structured text of %r: %r raised %r' % (value, text, exception))
    if freeze(actual) != freeze(value if expected is None else expected):
        raise Violation('structured text %r of %r reads as %r' % (text, value, actual))
    return text

def form(value, st):
    import scheme
    text = None
    st.step(2)
    try:
        text = scheme.UrlEncoded.serialize(value)
        actual = scheme.UrlEncoded.unserialize(text)
    except Exception as exception:
        raise Violation('form of %r: %r raised %r' % (value, text, exception))
    if freeze(actual) != freeze(value):
        raise Violation('form %r of %r reads as %r' % (text, value, actual))
    names = [name for name, content in parse_qsl(text, keep_blank_values=True)]
    if sorted(names) != sorted(value):
        raise Violation('form %r of %r names %r' % (text, value, names))

def lone(value):
    """Whether the value holds a list of a single empty text."""
    if isinstance(value, list):
        return value == [''] or any(map(lone, value))
    return isinstance(value, dict) and any(map(lone, value.values()))

def tupled(value):
    if isinstance(value, list):
        return tuple(map(tupled, value))
    if isinstance(value, dict):
        return dict((k, tupled(v)) for k, v in value.items())
    return value

def both(value, st):
    if lone(value):
        return
    given = tupled(value)
    if given != value:
        # tuples are written as lists are
        structured(given, st, value)
    structured(value, st)
    if isinstance(value, dict):
        form(value, st)
    else:
        form({'q': value, 'p': 'x'}, st)

def everywhere(s, st):
    st.state(s)
    if fits(s, False):
        both(s, st)
    if fits(s, True):
        for value in ([s], [s, s], ['x', s], [s, {}], {'k': s}, {'k': s, 'j': [s, s]}, [[], s],
                {'k': {'j': s}, 'l': [s, None]}, [[s, 1 == 1], {'k': [s, s]}, s]):
            both(value, st)
    if key_fits(s):
        both({s: 'x', 'other': [True]}, st)
        both([{s: {s: 'x'}}], st)

def run(case, st):
    RUN[case[0]](st, *case[1:])

def strings(st, prefix, length, alphabet):
    if length < len(prefix):
        return
    for rest in itertools.product(alphabet, repeat=length - len(prefix)):
        everywhere(prefix + ''.join(rest), st)
    st.trace('strings')
    st.sample('all strings %r + %d characters' % (prefix, length - len(prefix)))

def words(st, i):
    first = WORDS[i]
    everywhere(first, st)
    for second in WORDS:
        everywhere(first + second, st)
        if not (fits(first, True) and fits(second, True)):
            continue
        for value in ([first, second], {'a': first, 'b': second}, [[first], [second, 'x']],
                {'a': [first, second], 'b': {'c': second}}, [{'a': first}, second, {'b': [[], second]}]):
            both(value, st)
        if len(first) + len(second) < 12:
            for third in WORDS:
                if fits(third, True):
                    both([first, [second, third], {'k': third}], st)
    st.trace('words')

def combine(atoms, width=2):
    for count in range(width + 1):
        for chosen in itertools.product(atoms, repeat=count):
            yield list(chosen)
            yield dict(zip('ab', chosen))

def shapes(st, part, parts):
    one = ATOMS + list(combine(ATOMS[:9], 1)) + [['a', ''], ['', ''], {'a': '', 'b': None}]
    for value in itertools.islice(combine(one), part, None, parts):
        both(value, st)
    few = [None, 'a', '||1||', '\\}']
    two = list(combine(few + list(combine(few, 1))))
    for value in itertools.islice(two, part, None, parts):
        for outer in ([value], [value, 'a'], ['||0||', value], {'a': value}, {'a': value, 'b': value},
                {'a': True, 'b': [value]}, [[value], {'z': value}]):
            both(outer, st)
    value = 'x'
    for depth in range(60):
        value = [value, '\\{'] if depth % 3 == 0 else {'k': value} if depth % 3 == 1 else [value]
        both(value, st)
    st.state('shapes', part)
    st.trace('shapes')

def keys(st, i):
    first = KEYS[i]
    for second in KEYS:
        for inner in ('x', '', None, [], {}, ['a', ''], {'': ''}, {second: first and 'y'}):
            both({first: inner, second: 'z'}, st)
            both([{first: {second: inner}}, inner], st)
            both({first: {second: inner, first + 'b': True}}, st)
    # keys at the top of a form may be any text at all
    for s in WORDS + ['true', 'a,b', 'a:b', '[', '\\', '{a:b}']:
        form({first + s: 'x', 'zz' + s: {'k': ''}}, st)
    st.trace('keys')

def read_number(text):
    """What number parsing makes of a text: the number Python reads, or the text itself."""
    try:
        return float(text) if '.' in text else int(text)
    except ValueError:
        return text

def numbers(st):
    plain = [0, 1, -1, 10, 2 ** 70, -2 ** 70, 1.5, -0.5, 0.0, -0.0, 1e-3, 123456.789, 1.5e300, 2.5e-300,
        0.1, 100.25]
    for n in plain:
        for value in (n, [n], [n, 'x', n], {'a': n}, {'a': {'b': [n, {}]}, 'c': n}, [[n], n, True]):
            structured(value, st, parse_numbers=True)
    for a, b in itertools.product(plain, repeat=2):
        structured([a, {'k': b}], st, parse_numbers=True)
    for s in NUMBERS + WORDS:
        n = read_number(s)
        if fits(s, True):
            for wrap in (lambda v: v, lambda v: ['x', v], lambda v: {'a': v}, lambda v: [{'k': [v, v]}]):
                structured(wrap(s), st, wrap(n), parse_numbers=True)
                if wrap(s) != s:
                    structured(wrap(s), st)
        st.state(s)
    st.trace('numbers')

def literals(st):
    import scheme
    read = scheme.StructuredText.unserialize
    for literal, value in zip(LITERALS, (True, False, None)):
        for flips in itertools.product((0, 1), repeat=len(literal)):
            text = ''.join(c.upper() if f else c for c, f in zip(literal, flips))
            for document, expected in ((text, value), ('[%s]' % text, [value]),
                    ('{a:%s}' % text, {'a': value}), ('[%s,x,[%s]]' % (text, text), [value, 'x', [value]])):
                for params in ({}, {'parse_numbers': True}):
                    st.step()
                    actual = read(document, **params)
                    if freeze(actual) != freeze(expected):
                        raise Violation('%r reads as %r' % (document, actual))
                if scheme.UrlEncoded.unserialize('a=' + quote_plus(document)) != {'a': expected}:
                    raise Violation('form with %r' % document)
    st.trace('literals')

def schema(st, i):
    """Values whose serialized form uses only null, booleans and text, or numbers that fields parse."""
    import scheme
    term, good = leaves()[i]
    for value in list(good) + samples(term):
        if isinstance(value, spec.Junk):
            continue
        try:
            plain = build(term).serialize(value)
        except Exception:
            continue
        if not isinstance(plain, (str, bool, int, float, type(None))) or (isinstance(plain, str)
                and (not fits(plain, True) or plain == '')):
            continue
        if isinstance(plain, str) and '\ud800' <= plain[-1:] <= '\udfff':
            continue
        if term[0] in ('field', 'enumeration') and not isinstance(plain, (str, bool, type(None))):
            continue
        for outer, wrapped in (
                (('structure', {'structure': {'v': term, 'w': ('text', {})}}), {'v': value, 'w': '5'}),
                (('structure', {'structure': {'v': ('sequence', {'item': term})}}), {'v': [value, value]}),
                (('map', {'value': term}), {'a': value, 'b c': value}),
                (('structure', {'structure': {'v': ('map', {'value': ('tuple', {'values': [term,
                    ('integer', {})]})})}}), {'v': {'k': (value, 5)}}),
                (('structure', {'structure': {'x': {'v': term}, 'y': {}}, 'polymorphic_on': 'k'}),
                    {'k': 'x', 'v': value})):
            through(st, outer, wrapped)
    st.trace('schema')

def through(st, outer, wrapped):
    field = build(outer)
    st.state(repr(outer), repr(wrapped))
    st.step(2)
    expected = outcome(field.unserialize, field.serialize(wrapped))
    for name in ('urlencoded', 'structuredtext', 'application/x-www-form-urlencoded'):
        text = None
        try:
            text = field.serialize(wrapped, name)
            actual = outcome(field.unserialize, text, name)
        except Exception as exception:
            raise Violation('%r: %s of %r: %r raised %r'
                % (outer, name, wrapped, text, exception))
        if actual != expected:
            raise Violation('%r: %s %r of %r reads as %r, not as %r'
                % (outer, name, text, wrapped, actual, expected))

def members(st):
    for term, values, wrong in wide_pairs():
        if term[0] == 'union':
            continue
        for value in values:
            for outer, wrapped in ((('structure', {'structure': {'v': term, 'w': ('text', {})}}),
                    {'v': value, 'w': '5'}), (('map', {'value': term}), {'a': value, 'b c': value})):
                through(st, outer, wrapped)
    st.trace('members')

def foreign(st):
    """Forms written by others."""
    import scheme
    for text, value in (('a=&b=', {'a': '', 'b': ''}), ('a=1&b=%5B%5D', {'a': '1', 'b': []}), ('', {}),
            ('a=%7B%7D', {'a': {}}), ('a=x+y&b=x%20y', {'a': 'x y', 'b': 'x y'}),
            ('a=[x,y]', {'a': ['x', 'y']}), ('a={b:c,d:[e]}', {'a': {'b': 'c', 'd': ['e']}}),
            ('a=%E9%A3%9F', {'a': '\u98df'}), ('a=b=c', {'a': 'b=c'}), ('a=TRUE', {'a': True})):
        st.step()
        st.state(text)
        actual = scheme.UrlEncoded.unserialize(text)
        if freeze(actual) != freeze(value):
            raise Violation('form %r reads as %r, not as %r' % (text, actual, value))
    st.trace('foreign')

def malformed(st):
    """Unbalanced documents are refused as values, by forms and structured text alike."""
    import scheme
    for length in range(1, 6):
        for chosen in itertools.product('{}[],:a', repeat=length):
            text = ''.join(chosen)
            if text[0] not in '{[':
                continue
            st.step()
            st.state(text)
            try:
                value = scheme.StructuredText.unserialize(text)
            except (ValueError, KeyError):
                continue
            if not balanced(text):
                raise Violation('%r reads as %r' % (text, value))
    for value in (None, 5, b'a', [], {}):
        for format in (scheme.StructuredText, scheme.UrlEncoded):
            try:
                actual = format.unserialize(value)
            except ValueError:
                continue
            raise Violation('%s reads %r as %r' % (format.name, value, actual))
    for value in (None, 5, 'a', [], True):
        try:
            actual = scheme.UrlEncoded.serialize(value)
        except ValueError:
            continue
        raise Violation('form of %r is %r' % (value, actual))
    st.trace('malformed')

def balanced(text):
    pending = []
    for i, c in enumerate(text):
        if c in '{[':
            pending.append(c)
        elif c in '}]':
            if not pending or pending.pop() + c not in ('{}', '[]'):
                return False
    return not pending

RUN = {'members': members, 'strings': strings, 'words': words, 'shapes': shapes, 'keys': keys, 'numbers': numbers,
    'literals': literals, 'schema': schema, 'foreign': foreign, 'malformed': malformed}
