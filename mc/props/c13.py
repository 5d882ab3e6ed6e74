"""All short strings over a hostile alphabet, hostile words, long texts and all small data shapes are
written as JSON and YAML at every kind of position and read back; valid values of schemas are
written and read through them and compared with the round trip without a format."""

import itertools

from mc import spec
from mc.core import Violation
from mc.domains import *
from mc.freeze import freeze, outcome
from mc.probe import samples
from mc.spec import build

CHARS = 'a1n-+?:,[]{}#&*!|>\'"%@`=~._\\/ \t\n\r\0\x07\x1b\x7f\x80\x85\xa0\u2003\u2028\u3000\ufeff\ufffe\ud800\xe9\U0001f600'
CORE = 'a1-:#\'"\n |\\.,~[?'
WORDS = ['null', 'Null', 'NULL', 'nULL', '~', 'true', 'True', 'TRUE', 'tRUE', 'false', 'False',
    'yes', 'Yes', 'YES', 'no', 'No', 'NO', 'on', 'On', 'ON', 'off', 'Off', 'OFF', 'y', 'Y', 'n',
    'N', '0', '1', '-1', '+1', '007', '0x1f', '0b1', '0o7', '1_000', '1:30', '1:30:59', '190:20',
    '1.5', '-1.5', '.5', '1.', '1e3', '1.0e3', '1.0e+3', '1.5E-3', '.inf', '-.inf', '+.INF', '.nan',
    '.NaN', 'inf', 'nan', '2000-01-01', '2000-1-1', '2000-01-01 00:00:00', '2000-01-01T00:00:00Z',
    '2000-01-01 00:00:00.5 +1:30', '---', '--- a', '...', '<<', '=', '- a', '-', '--', '? a', '?',
    'a: b', 'a:', ':a', ': a', 'a:b', 'a :b', 'a #b', '#a', 'a#b', '!!str a', '!a', '&a', '*a', '|',
    '>', '|-', '%YAML 1.1', '@a', '`a', '{a', '{a: 1}', '[a', '[1, 2]', ', a', 'a, b', "'", "''",
    "'a'", "a'b", '"', '"a"', 'a"b', '\\n', 'a\\', '\\', '\\u0041', '\\x41', 'a\tb', '\ta', 'a\t',
    ' a', 'a ', '  ', ' ', '\n', '\n\n', 'a\n', '\na', 'a\n\n', 'a\nb', 'a\n b', ' a\nb', 'a \nb',
    'a\n\nb', 'a\n ', 'a\n  \nb', 'a\r\nb', '\r', 'a\n---\nb', 'a\n...\n', 'a\n# b', 'a\n- b',
    'a\nb: c', 'a\tb\nc', '</script>', '\u2029', 'e\u0301', '\x00', '\ud83d', 'Infinity', 'NaN']
FILLERS = ['a', 'a ', 'ab ', "it's ", 'a: ', '- ', '# ', 'a  b ', 'a, b. ', '--- ', '... ', '" ',
    "' ", '\xe9 ', 'a\t', 'word\\ ', ' ', 'a\n', 'abc def ghi jkl mno\n', '1 ', 'true ', 'a\xa0',
    '\u2028 ', 'longer-words-than-before ', '? ', ': ', '{ ', "''' "]
PAIRS = ['a', 'a ', "it's ", '# ', '--- ', 'a: ']
ATOMS = [None, True, False, 0, -7, 1.5, 1e300, 'x', '', 'a\nb\n', ' #', '5', [], {}]
DATED = [date(1, 1, 1), date(2000, 2, 29), dt(999, 1, 2, 3, 4, 5), dt(2000, 1, 1, 0, 0, 0, 120)]
FEW = [None, 'x\n', 5]

BOUNDS = {
    'quick': 'all strings up to 2 over %d characters and up to 3 over %d at 10 kinds of position; '
        '%d words and all pairs joined by 6 separators; %d fillers at all lengths up to 230, keys to '
        '1100; all lists and dicts of up to 2 of %d atoms, nested 2 deep, 3 deep over 3 atoms; '
        'numbers, dates and datetimes on grids; every field kind in 7 containers x 2 formats'
        % (len(CHARS), len(CORE) + 8, len(WORDS), len(FILLERS), len(ATOMS)),
    'thorough': 'as quick, strings up to 3 over all characters, up to 4 over %d and up to 6 over 7'
        % len(CORE),
}
ASSUMPTIONS = ['PyYAML 5.4.1 and the json module of the interpreter read what scheme writes']
CASE_CPU_BUDGET = 300

def shapes(atoms, width=2):
    """All lists and dicts of up to ``width`` of the atoms."""
    for count in range(width + 1):
        for chosen in itertools.product(atoms, repeat=count):
            yield list(chosen)
            yield dict(zip('ab', chosen))

def cases(tier):
    thorough = tier != 'quick'
    for first in CHARS:
        for length in ((1, 2, 3) if thorough else (1, 2)):
            yield ('strings', first, length, CHARS)
    deeper = CORE + '\ttue\x85!0e'
    for first in deeper:
        yield ('strings', first, 3, deeper)
    if thorough:
        for first in CORE:
            for second in CORE:
                yield ('strings', first + second, 4, CORE)
        for first in 'a -:#\n\'':
            for second in 'a -:#\n\'':
                yield ('strings', first + second, 5, 'a -:#\n\'')
                yield ('strings', first + second, 6, 'a -:#\n\'')
    for i in range(len(WORDS)):
        yield ('words', i)
    for i in range(len(FILLERS)):
        yield ('long', i)
        yield ('keys', i)
    for i in range(len(PAIRS)):
        yield ('seams', i)
    yield ('numbers', )
    yield ('dates', )
    for part in range(40):
        yield ('shapes', part, 40)
    for part in range(8):
        yield ('deep', part, 8)
    for i in range(len(leaves())):
        yield ('schema', i)
    yield ('flags', )
    yield ('members', )

def same(actual, expected):
    if type(actual) is not type(expected):
        return False
    if isinstance(expected, dict):
        return len(actual) == len(expected) and all(k in actual and same(actual[k], v)
            for k, v in expected.items()) and all(type(k) is str for k in actual)
    if isinstance(expected, list):
        return len(actual) == len(expected) and all(map(same, actual, expected))
    if isinstance(expected, float):
        return repr(actual) == repr(expected)
    if isinstance(expected, datetime.datetime):
        return (actual.tzinfo is None) == (expected.tzinfo is None) and actual == expected
    return actual == expected

def formats(dated=False):
    import scheme
    return (scheme.Yaml, ) if dated else (scheme.Yaml, scheme.Json)

def check(value, st, dated=False):
    for format in formats(dated):
        st.step(2)
        text = None
        try:
            text = format.serialize(value)
            actual = format.unserialize(text)
        except Exception as exception:
            raise Violation('%s round trip of %r raised %r (document %r)'
                % (format.name, value, exception, text))
        if type(text) is not str:
            raise Violation('%s document of %r is %r' % (format.name, value, text))
        if not same(actual, value):
            raise Violation('%s document %r of %r reads as %r'
                % (format.name, text, value, actual))

def everywhere(s, st):
    st.state(s)
    for value in (s, [s], {s: 1}, {'k': s}, {'k': {s: s}, 'z': 1}, [[s, 1], s], {'k': [s, {'a': s}]},
            [{s: s, 'zz': s}, 1], [{s: 1}, {s: 's'}], [[{s: [{s: {s: s}}]}]]):
        check(value, st)

def run(case, st):
    RUN[case[0]](st, *case[1:])

def strings(st, prefix, length, alphabet):
    count = length - len(prefix)
    if count < 0:
        return
    for rest in itertools.product(alphabet, repeat=count):
        everywhere(prefix + ''.join(rest), st)
    st.trace('strings')
    st.sample('all strings %r + %d characters' % (prefix, count))

def words(st, i):
    word = WORDS[i]
    everywhere(word, st)
    for other in WORDS:
        for separator in ('', ' ', '\n', ': ', ' #', '\n\n'):
            text = word + separator + other
            st.state(text)
            for value in (text, {'k': text}, [{text: text}]):
                check(value, st)
    st.trace('words')

def long(st, i):
    filler = FILLERS[i]
    for length in range(1, 231):
        text = (filler * length)[:length]
        st.state(text)
        for value in (text, {'k': text}, [text, 1], {'k': {'q': [text, {'s': text}]}, 'z': 1}):
            check(value, st)
    for length in (900, 1021, 1022, 1023, 1024, 1025, 1026, 2000, 5000):
        everywhere((filler * length)[:length], st)
    st.trace('long')

def keys(st, i):
    filler = FILLERS[i]
    for length in list(range(80, 120)) + list(range(470, 530)) + list(range(990, 1030)) + [1100]:
        text = (filler * length)[:length]
        st.state(text)
        for value in ({text: 1}, [{text: [text], 'z': {}}], {'k': {text: {text: None}}}):
            check(value, st)
    st.trace('keys')

def seams(st, i):
    """Texts that change character around the line width."""
    for other in FILLERS:
        for length in range(90, 106):
            text = ((PAIRS[i] * length)[:length] + other) * 2
            st.state(text)
            for value in (text, {'k': text}, [[text, 'x'], text]):
                check(value, st)
    st.trace('seams')

def numbers(st):
    for power in range(0, 130):
        for delta in (-1, 0, 1):
            for sign in (1, -1):
                n = sign * (2 ** power + delta)
                for value in (n, [n], {'k': n}):
                    check(value, st)
    for mantissa in (1.0, 1.5, -2.25, 9.999999999999998, 1.0 / 3, -1.0):
        for exponent in range(-323, 309):
            n = float('%re%d' % (mantissa, exponent))
            for value in (n, [n, 1], {'k': n}):
                check(value, st)
    for n in (0.0, -0.0, float('inf'), float('-inf'), float('nan'), 5e-324, 2.2250738585072014e-308,
            1.7976931348623157e308, 1e15, 1e16, 1e17, 123456789.123456789, 0.1, 100.0):
        for value in (n, [n, None], [n, 'x'], {'k': n}):
            check(value, st)
    st.trace('numbers')

def dates(st):
    for year in (1, 9, 10, 99, 100, 999, 1000, 1999, 2000, 9999):
        for month, day in ((1, 1), (2, 28), (9, 10), (10, 9), (12, 31)):
            d = date(year, month, day)
            for value in (d, [d], {'k': d}, [d, [d, {'a': d}]]):
                check(value, st, True)
            for clock in ((0, 0, 0), (1, 2, 3), (23, 59, 59), (12, 0, 0)):
                for micro in (0, 1, 120, 100000, 999999, 123456):
                    for minutes in (None, 0, 1, 60, -60, 90, -330, 845, -719):
                        zone = None if minutes is None else datetime.timezone(
                            datetime.timedelta(minutes=minutes))
                        t = dt(year, month, day, *(clock + (micro, zone)))
                        try:
                            hash(t)
                        except OverflowError:
                            continue
                        for value in (t, [t, 'x'], {'k': t}):
                            check(value, st, True)
    for seconds in (1, 3208, -3208, 59, -61, 86399):
        zone = datetime.timezone(datetime.timedelta(seconds=seconds))
        for micro in (0, 5):
            check([dt(1890, 1, 1, 12, 0, 0, micro, zone)], st, True)
    st.trace('dates')

def share(values, part, parts):
    return itertools.islice(values, part, None, parts)

def shapes_(st, part, parts):
    flat = ATOMS + list(shapes(ATOMS[:8], 1)) + list(shapes(FEW)) + [[1, [2]], {'a': [1, 'x']}]
    for value in share(shapes(flat), part, parts):
        check(value, st)
    for value in share(shapes(ATOMS + list(shapes(ATOMS))), part, parts):
        if len(value) < 2:
            check(value, st)
    dated = DATED + [1, 'x', [], None]
    for value in share(shapes(dated + list(shapes(dated, 1))), part, parts):
        check(value, st, True)
    st.state('shapes', part)
    st.trace('shapes')

def deep(st, part, parts):
    one = FEW + list(shapes(FEW))
    two = list(shapes(one))
    for value in share(two, part, parts):
        for atom in FEW + [[], {}]:
            for outer in ([value], {'a': value}, [value, atom], [atom, value],
                    {'a': value, 'b': atom}, {'a': atom, 'b': value}):
                check(outer, st)
    value = 'x'
    for depth in range(30):
        value = [value, {'a': value}] if depth % 7 == 3 else [value] if depth % 2 else {'k': value}
        check(value, st)
    st.state('deep', part)
    st.trace('deep')

def portable(value, json):
    if isinstance(value, dict):
        return all(type(k) is str for k in value) and all(portable(v, json)
            for v in value.values())
    if isinstance(value, (list, tuple)):
        return all(portable(v, json) for v in value)
    return value is None or type(value) in (bool, int, float, str)

WRAP = {
    'itself': lambda t, v: (t, v),
    'structure': lambda t, v: (('structure', {'structure': {'a': t, 'b': ('text', {})}}),
        {'a': v, 'b': '5'}),
    'ordered': lambda t, v: (('structure', {'structure': {'b': t, 'a': t},
        'key_order': ('b', 'a')}), {'a': v, 'b': v}),
    'sequence': lambda t, v: (('sequence', {'item': t}), [v, v]),
    'map': lambda t, v: (('map', {'value': t}), {'true': v, 'x y': v, '': v}),
    'tuple': lambda t, v: (('tuple', {'values': [t, ('integer', {})]}), (v, 5)),
    'nested': lambda t, v: (('sequence', {'item': ('map', {'value': ('tuple', {'values': [
        ('structure', {'structure': {'a': t}})]})})}), [{'k': ({'a': v}, )}, {}]),
}

def through(st, term, value):
    field = build(term)
    st.step()
    try:
        serialized = field.serialize(value)
    except Exception:
        return
    for name in ('json', 'yaml'):
        if not portable(serialized, name):
            continue
        st.step(2)
        expected = outcome(build(term).unserialize, build(term).serialize(value))
        text = field.serialize(value, name)
        try:
            actual = outcome(field.unserialize, text, name)
        except Exception as exception:
            raise Violation('%r: unserializing %s document %r raised %r'
                % (term, name, text, exception))
        st.state(repr(term), repr(value), name)
        if actual != expected:
            raise Violation('%r: %s document %r of %r reads as %r, not as %r'
                % (term, name, text, value, actual, expected))

def schema(st, i):
    term, values = leaves()[i]
    for value in list(values) + samples(term):
        if isinstance(value, (spec.Junk, tuple)) and term[0] in ('field', 'text'):
            continue
        for wrap in WRAP.values():
            through(st, *wrap(term, value))
    st.trace('schema')

def flags(st):
    for word in WORDS + ['a' * 150, 'a b ' * 60]:
        for term in (('text', {'strip': False}), ('field', {}), ('text', {})):
            for wrap in WRAP.values():
                through(st, *wrap(term, word))
        through(st, ('map', {'value': ('text', {'strip': False}), 'key': ('text',
            {'strip': False})}), {word: word})
        through(st, ('enumeration', {'enumeration': [word, 'x']}), word)
        through(st, ('structure', {'structure': {word: ('text', {'strip': False})}}),
            {word: word})
        through(st, ('structure', {'structure': {word: {'a': ('text', {})}},
            'polymorphic_on': 'type'}), {'type': word, 'a': 'q'})
    st.trace('flags')

def members(st):
    for term, values, wrong in wide_pairs():
        for value in values:
            through(st, term, value)
    st.trace('members')

RUN = {'members': members, 'strings': strings, 'words': words, 'long': long, 'keys': keys, 'seams': seams,
    'numbers': numbers, 'dates': dates, 'shapes': shapes_, 'deep': deep, 'schema': schema,
    'flags': flags}
