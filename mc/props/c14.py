"""All small schema trees with all small values, all short texts and all scalar kinds are written as
XML and CSV and read back; the values must come back as they were (CSV: null and empty text as
absent), with nothing written to the standard streams."""

import itertools

from mc import spec
from mc.core import Violation
from mc.domains import *
from mc.freeze import freeze, outcome
from mc.probe import samples
from mc.spec import build

BARE = ('text', {'strip': False})
MARKUP = 'a<>&"\' \t\n\r]/;#=!-\x85\xa0\u2028\xe9\ufffd\U0001f600'
INEXPRESSIBLE = '\0\x01\x08\x0b\x0c\x1f\ud800\udfff\ufffe\uffff'
CELLS = 'a",\r\n \t\';\x0b\x0c\x1c\x85\u2028\xe9'
NAMES = ['a', 'b1', '_x', 'a-b', 'a.b', 'A', 'item', 'value', 'root', 'null', 'true', '\xe9', 'xx']
DOCUMENTS = ['<', '<a', '</a>', '<a/>', '<!--', '-->', ']]>', '<![CDATA[x]]>', '&amp;', '&#13;',
    '&lt', '<?x?>', 'null', 'true', 'a\r\nb', '\r\n', '\r', ' a ', '<root null="true"/>', 'a' * 3000]

BOUNDS = {
    'quick': 'XML: all schema trees of depth 2 and chains of depth 3 over 6 container kinds x all '
        'values of up to 2 items; all texts up to 3 over %d characters in 6 positions, every scalar '
        'kind in 8 containers; CSV: all cells up to 3 over %d characters, all row sets up to 3 rows '
        'over 5 cells x all column orders x 2 line endings' % (len(MARKUP), len(CELLS)),
    'thorough': 'as quick, XML texts up to 4, CSV cells up to 4, all trees of depth 3',
}
ASSUMPTIONS = ['map keys, structure keys and field names are XML names without colons',
    'text contains no NUL in CSV; text outside the XML character range must be refused']
CASE_CPU_BUDGET = 300

# --- XML trees: shapes are terms, values are enumerated from them

def S(**fields): return ('structure', {'structure': fields})
def P(**variants): return ('structure', {'structure': variants, 'polymorphic_on': 'type'})
def Q(item): return ('sequence', {'item': item})
def M(value): return ('map', {'value': value})
def T(*values): return ('tuple', {'values': list(values)})

def combine(*terms):
    first, last = terms[0], terms[-1]
    return [S(a=first, b=last), Q(first), M(first), T(first, last), P(x={'a': first}, y={'b': last}),
        S(a=first)]

NUMBER = ('integer', {})
FLAG = ('boolean', {})

def trees(tier):
    one = combine(BARE) + combine(NUMBER, BARE) + combine(BARE, FLAG) + [S(), P(x={}, y={'a': BARE})]
    two = [tree for child in one for tree in combine(child, BARE)] + \
        [tree for child in one for tree in combine(BARE, child)]
    three = [tree for child in (two if tier != 'quick' else two[::4])
        for tree in combine(child)[(1 if tier == 'quick' else 0):]]
    return [BARE, NUMBER, FLAG] + one + two, three

ATOMS = {'text': ['x', '', None], 'integer': [5, 0, None], 'boolean': [True, False, None]}

def values(term, limit, top=True):
    """Up to ``limit`` values of a term: every kind of emptiness first."""
    kind, params = term
    if kind in ATOMS:
        return ATOMS[kind]
    found = [] if top else [None]
    if kind == 'structure':
        variants = [({}, params['structure'])]
        if params.get('polymorphic_on'):
            variants = [({'type': i}, fields) for i, fields in sorted(params['structure'].items())]
        for base, fields in variants:
            names = sorted(fields)
            options = [[Ellipsis] + values(fields[n], limit // 3, False) for n in names]
            for chosen in itertools.product(*options):
                found.append(dict(base, **dict((n, v) for n, v in zip(names, chosen)
                    if v is not Ellipsis)))
    elif kind == 'sequence':
        inner = values(params['item'], limit // 3, False)
        found += [[]] + [[v] for v in inner] + [[v, w] for v in inner for w in inner]
    elif kind == 'map':
        inner = values(params['value'], limit // 3, False)
        found += [{}] + [{'k': v} for v in inner] + [{'k': v, 'j': w} for v in inner for w in inner]
    else:
        options = [values(v, limit // 3, False) for v in params['values']]
        found += list(itertools.product(*options))
    if len(found) > limit and not top:
        step = len(found) // limit + 1
        found = found[:limit // 2] + found[limit // 2::step]
    return found

def cases(tier):
    thorough = tier != 'quick'
    small, large = trees(tier)
    for i in range(len(small)):
        yield ('xml', tier, 'small', i, 40)
    for i in range(0, len(large), 4):
        yield ('xml', tier, 'large', i, 12)
    for first in MARKUP:
        yield ('text', first, 3 if not thorough else 4)
    yield ('refused', )
    yield ('documents', )
    yield ('names', )
    for i in range(len(leaves())):
        yield ('scalars', i)
    yield ('numbers', )
    yield ('identities', )
    for i in range(len(list(wide_pairs()))):
        yield ('members', i)
    for first in CELLS:
        yield ('cells', first, 3 if not thorough else 4)
    for i in range(len(COLUMNS)):
        yield ('rows', i)
    yield ('csvschemas', )
    yield ('headers', )
    yield ('paths', )

def silent(st):
    text = st.output.take()
    if text:
        raise Violation('reading or writing printed %r' % text[:200])

def back(field, name, value, st, expected=None, **params):
    """Writes and reads one value."""
    text = None
    st.step(2)
    try:
        text = field.serialize(value, name, **params)
        actual = field.unserialize(text, name)
    except Exception as exception:
        raise Violation('%s round trip of %r through %r raised %r (document %r)'
            % (name, value, field, exception, text))
    if freeze(actual) != freeze(value if expected is None else expected):
        raise Violation('%s document %r of %r through %r reads as %r, not as %r'
            % (name, text, value, field, actual, value if expected is None else expected))
    return text

def run(case, st):
    RUN[case[0]](st, *case[1:])
    silent(st)

def xml(st, tier, which, i, limit):
    small, large = trees(tier)
    chosen = [small[i]] if which == 'small' else large[i:i + 4]
    for term in chosen:
        for field in (build(term), build(term, lambda path, t: {} if path else {'name': 'doc'})):
            for value in values(term, limit):
                if value is None:
                    continue
                st.state(repr(term), repr(value))
                back(field, 'xml', value, st)
                if which == 'small':
                    back(field, 'xml', value, st, preamble=False)
    st.trace('xml')
    st.sample(chosen[0])

def holders():
    return [
        (build(BARE), lambda s: s),
        (build(S(a=BARE, b=BARE)), lambda s: {'a': s, 'b': s}),
        (build(Q(BARE)), lambda s: [s, '', s]),
        (build(M(S(a=Q(BARE)))), lambda s: {'k': {'a': [s]}}),
        (build(T(BARE, BARE)), lambda s: (s, s)),
        (build(P(x={'a': BARE})), lambda s: {'type': 'x', 'a': s}),
    ]

def text(st, first, length):
    pairs = holders()
    for n in range(length):
        for rest in itertools.product(MARKUP, repeat=n):
            s = first + ''.join(rest)
            st.state(s)
            for field, wrap in pairs:
                back(field, 'xml', wrap(s), st)
    st.trace('text')

def refused(st):
    """Text XML cannot express is refused, not written as a document that does not read back."""
    for c in INEXPRESSIBLE:
        for s in (c, 'a' + c, c + 'a', 'a' + c + 'a', c * 2, ' ' + c):
            for field, wrap in holders():
                st.step()
                st.state(s)
                try:
                    document = field.serialize(wrap(s), 'xml')
                except ValueError:
                    continue
                try:
                    actual = field.unserialize(document, 'xml')
                except Exception as exception:
                    raise Violation('XML document %r of %r reads as %r' % (document, s, exception))
                if freeze(actual) != freeze(wrap(s)):
                    raise Violation('XML document %r of %r reads as %r' % (document, s, actual))
    st.trace('refused')

def documents(st):
    for a in DOCUMENTS:
        for b in DOCUMENTS:
            for field, wrap in holders():
                back(field, 'xml', wrap(a + b), st)
    st.trace('documents')

def names(st):
    for a, b, c in itertools.product(NAMES, repeat=3):
        if a == b:
            continue
        st.state(a, b, c)
        term = ('structure', {'name': c, 'structure': {
            a: ('sequence', {'item': ('structure', {'structure': {c: BARE}, 'name': b})}),
            b: ('tuple', {'values': [('text', {'name': c}), ('integer', {'name': a}), NUMBER]})}})
        back(build(term), 'xml', {a: [{c: ''}, None, {}], b: ('x', None, 3)}, st)
        term = ('map', {'value': ('map', {'value': BARE, 'name': a}), 'name': b})
        back(build(term), 'xml', {a: {b: 'x', c: None}, b: None, c + '_': {}}, st)
        if b == c:
            continue
        term = ('structure', {'polymorphic_on': ('enumeration', {'name': a,
            'enumeration': [b, c]}), 'structure': {b: {b + '_': BARE}, c: {b + '_': NUMBER}}})
        back(build(term), 'xml', {a: c, b + '_': 5}, st)
    st.trace('names')

CONTAINERS = [
    lambda t, v: (t, v),
    lambda t, v: (S(a=t, b=BARE), {'a': v, 'b': '5'}),
    lambda t, v: (S(a=t), {'a': None}),
    lambda t, v: (Q(t), [v, None, v]),
    lambda t, v: (M(t), {'k': v, 'j': v}),
    lambda t, v: (T(t, NUMBER, t), (v, 5, v)),
    lambda t, v: (P(x={'a': t}, y={'a': BARE}), {'type': 'x', 'a': v}),
    lambda t, v: (S(a=Q(M(T(t)))), {'a': [{'k': (v, )}, {}]}),
]
PLAIN = (str, int, float, bool)

def scalars(st, i):
    term, good = leaves()[i]
    for value in list(good) + samples(term):
        try:
            plain = build(term).serialize(value)
        except Exception:
            continue
        if plain is None or not isinstance(plain, PLAIN) or (term[0] == 'field'
                and not isinstance(plain, str)) or isinstance(value, spec.Junk):
            continue
        if '\0' in str(plain):
            continue
        for wrap in CONTAINERS:
            outer, wrapped = wrap(term, value)
            field = build(outer)
            expected = field.unserialize(field.serialize(wrapped))
            back(field, 'xml', wrapped, st, expected)
            st.state(repr(outer), repr(wrapped))
        rows = build(Q(S(a=term, b=BARE, c=FLAG)))
        expected = build(term).unserialize(plain)
        row = {} if plain == '' or expected is None else {'a': expected}
        back(rows, 'csv', [{'a': value}, {'b': 'x'}, {'a': value, 'b': '', 'c': False}], st,
            [row, {'b': 'x'}, dict(row, c=False)])
    st.trace('scalars')

INTEGERS = sorted(set(sign * (2 ** n + d) for n in (1, 8, 31, 32, 53, 54, 63, 64, 100, 1000)
    for d in (-1, 0, 1) for sign in (1, -1)) | set([0, 10 ** 15, 10 ** 16, 10 ** 17 + 1, 10 ** 22,
    10 ** 23 + 1, 123456789012345678901234567890, 10 ** 300 + 7, 10 ** 400]))
FLOATS = [0.0, -0.0, 0.1, 0.1 + 0.2, 1.0 / 3, 2.0 / 3, 1e16, 1e22, 1e23, 123456789.123456789, 5e-324,
    2.2250738585072014e-308, 1.7976931348623157e308, 1e-7, 1.5, 100.0, 4503599627370497.5,
    9007199254740993.0, 1.0000000000000002, float('inf')]

def numbers(st):
    """Numbers keep all of their digits."""
    for kind, pool in (('integer', INTEGERS), ('float', FLOATS + [-f for f in FLOATS])):
        term = (kind, {})
        rows = build(Q(S(a=term, b=term)))
        holders = [(build(wrap(term, 0)[0]), wrap) for wrap in CONTAINERS]
        for value in pool:
            st.state(kind, repr(value))
            for field, wrap in holders:
                back(field, 'xml', wrap(term, value)[1], st)
            for other in pool[:3]:
                back(rows, 'csv', [{'a': value, 'b': other}, {'b': value}], st)
    decimal = ('decimal', {})
    for text in ('0.1', '1.10', '123456789012345678901234567890.123456789', '1E+3', '0E-30',
            '1e-400'):
        for wrap in CONTAINERS:
            back(build(wrap(decimal, 0)[0]), 'xml', wrap(decimal, D(text))[1], st)
        back(build(Q(S(a=decimal))), 'csv', [{'a': D(text)}], st)
    st.trace('numbers')

def identities(st):
    """Discriminators of every kind, and documents whose discriminator is missing or unknown."""
    from scheme import ValidationError
    for on, pair in ((('integer', {'name': 'k'}), (0, 1)), (('date', {'name': 'k'}),
            (date(2000, 1, 1), date(999, 1, 1))), (('boolean', {'name': 'k'}), (False, True)),
            (('text', {'name': 'k'}), ('', 'x')), (('enumeration', {'name': 'k',
            'enumeration': [1, 'two']}), (1, 'two'))):
        term = ('structure', {'polymorphic_on': on, 'structure': {
            pair[0]: {'a': NUMBER, 'z': BARE}, pair[1]: {'a': BARE}}})
        for outer, wrap in ((term, lambda v: v), (Q(term), lambda v: [v]), (S(q=term),
                lambda v: {'q': v}), (P(x={'q': term}), lambda v: {'type': 'x', 'q': v})):
            field = build(outer)
            for value in ({'k': pair[0], 'a': 5, 'z': ''}, {'k': pair[1], 'a': '5'},
                    {'k': pair[0]}, {'k': pair[1], 'a': None}):
                back(field, 'xml', wrap(value), st)
        for document in ('<root><a>5</a></root>', '<root><k>nope</k><a>5</a></root>', '<root />',
                '<root><k null="true" /></root>', '<root><a>5</a><k>17</k></root>'):
            st.step()
            try:
                actual = build(term).unserialize(document, 'xml')
            except (ValidationError, ValueError):
                continue
            if pair[1] is True and '<k>' in document:
                continue
            raise Violation('XML document %r reads as %r' % (document, actual))
    st.trace('identities')

def members(st, i):
    """Containers with many members, each different from its neighbours, and deep ones."""
    term, values, wrong = list(wide_pairs())[i]
    if term[0] == 'union':
        return
    for outer, wrap in ((term, lambda v: v), (S(q=term), lambda v: {'q': v}), (Q(term),
            lambda v: [v, v])):
        field = build(outer)
        for value in values:
            back(field, 'xml', wrap(value), st, field.unserialize(field.serialize(wrap(value))))
            st.state(repr(outer), repr(value))
    if term[0] == 'structure' and 'polymorphic_on' not in term[1]:
        plain = dict((n, f) for n, f in term[1]['structure'].items() if f[0] not in ('sequence',
            'map', 'structure', 'tuple'))
        for params in ({}, {'key_order': tuple(sorted(plain, key=lambda n: n[::-1]))}):
            rows = build(Q(('structure', dict(params, structure=plain))))
            data = [absent(dict((n, v) for n, v in value.items() if n in plain)) for value in values]
            data = [row for row in data if row]
            for part in (data, data[1:], data[::-1], data[:1]):
                back(rows, 'csv', part, st, rows.unserialize(rows.serialize(part)))
    st.trace('members')

# --- CSV

def absent(row):
    return dict((k, v) for k, v in row.items() if v is not None and v != '')

def cells(st, first, length):
    two = build(Q(S(a=BARE, b=BARE)))
    one = build(Q(S(a=BARE)))
    for n in range(length):
        for rest in itertools.product(CELLS, repeat=n):
            s = first + ''.join(rest)
            st.state(s)
            back(one, 'csv', [{'a': s}, {'a': s}], st)
            rows = [{'a': s, 'b': s}, {'b': s}, {'a': s, 'b': None}, {'a': 'x'}]
            back(two, 'csv', rows, st, list(map(absent, rows)))
            document = foreign([['a', 'b'], [s, ''], ['', s]], '\n', n % 2)
            read(two, document, [{'a': s}, {'b': s}], st)
    st.trace('cells')

def foreign(rows, ending, last):
    """A CSV document written independently."""
    text = ending.join(','.join('"%s"' % cell.replace('"', '""') for cell in row) for row in rows)
    return text + (ending if last else '')

def read(field, document, expected, st):
    st.step()
    try:
        actual = field.unserialize(document, 'csv')
    except Exception as exception:
        raise Violation('reading %r raised %r' % (document, exception))
    if freeze(actual) != freeze(expected):
        raise Violation('CSV document %r reads as %r, not as %r' % (document, actual, expected))

COLUMNS = [None] + [list(p) for n in (1, 2, 3) for p in itertools.permutations('abc', n)] + \
    ['a', 'b,a', 'c,a,b', ['a', 'd'], ['a', 'zz', 'b']]
VALUES = {'a': [None, '', 'x\r\ny', 'true', Ellipsis], 'b': [5, 0, Ellipsis],
    'c': [True, False, Ellipsis]}

def rows(st, i):
    columns = COLUMNS[i]
    term = Q(S(a=BARE, b=NUMBER, c=FLAG, d=Q(NUMBER)))
    field = build(term)
    single = [dict((k, v) for k, v in zip('abc', chosen) if v is not Ellipsis)
        for chosen in itertools.product(VALUES['a'], VALUES['b'], VALUES['c'])]
    few = single[::4] + [dict(single[0], d=[1, 2])]
    named = columns.split(',') if isinstance(columns, str) else columns or ['a', 'b', 'c']
    params = {'columns': columns} if columns else {}
    for count in range(4):
        for chosen in itertools.product(single if count < 2 else few if count < 3 else few[::2],
                repeat=count):
            value = list(chosen)
            st.state(i, repr(value))
            expected = [absent(dict((k, row[k]) for k in named if k in row and k != 'd'))
                for row in value]
            text = back(field, 'csv', value, st, expected, **params)
            if count < 3:
                show = {True: 'true', False: 'false', None: ''}
                grid = [[n for n in named if n in 'abc']] + [['%s' % show.get(row.get(n), row.get(n))
                    if isinstance(row.get(n), (bool, type(None))) else '%s' % row[n]
                    for n in named if n in 'abc'] for row in value]
                if text != foreign(grid, '\r\n', True):
                    raise Violation('CSV of %r with columns %r is %r' % (value, columns, text))
                for ending in ('\n', '\r\n'):
                    for last in (True, False):
                        read(field, foreign(grid, ending, last), expected, st)
    st.trace('rows')

def csvschemas(st):
    """Values and schemas CSV does not express are refused."""
    import scheme
    for term, value in ((S(a=BARE), {'a': 'x'}), (Q(BARE), ['x']), (M(BARE), {'a': 'x'}),
            (Q(Q(BARE)), [['x']]), (BARE, 'x')):
        st.step(2)
        for call in (lambda: build(term).serialize(value, 'csv'),
                lambda: build(term).unserialize('"a"\r\n"x"\r\n', 'csv')):
            try:
                actual = call()
            except (ValueError, TypeError):
                continue
            raise Violation('CSV with schema %r gives %r' % (term, actual))
    field = build(Q(S(a=BARE, d=Q(NUMBER))))
    for document in ('"zz"\r\n"x"\r\n', '"a","d"\r\n"x","1"\r\n'):
        try:
            actual = field.unserialize(document, 'csv')
        except ValueError:
            continue
        raise Violation('CSV document %r reads as %r' % (document, actual))
    for value in ({'a': 'x'}, 'x', 5, None):
        try:
            actual = scheme.Csv.serialize(value, field)
        except ValueError:
            continue
        raise Violation('CSV of %r is %r' % (value, actual))
    st.trace('csvschemas')

def headers(st):
    words = ['a', 'a b', 'a,b', '"', 'a"b', '\xe9', ' a', 'a ', 'a\nb', 'a\r\nb', '\r', '0', "'", '']
    for pair in itertools.permutations(words, 2):
        field = build(Q(S(**dict.fromkeys(pair, BARE))))
        st.state(pair)
        for columns in (None, list(pair), [pair[1]]):
            value = [dict.fromkeys(pair, 'x'), {pair[0]: 'y'}, {}]
            expected = [dict((k, v) for k, v in row.items() if k in (columns or pair))
                for row in value]
            if columns is not None and columns == ['']:
                continue
            back(field, 'csv', value, st, expected, columns=columns)
    st.trace('headers')

def paths(st):
    """Rows found under a path of keys."""
    inner = Q(S(a=BARE, b=NUMBER))
    value = [{'a': 'x', 'b': 1}, {'b': 2}]
    import scheme
    for keys in (('p', ), ('p', 'q'), ('p', 'q', 'r'), ('a', 'a')):
        term, outer = inner, value
        for key in reversed(keys):
            term = ('structure', {'structure': {key: term, 'other': BARE}})
            outer = {key: outer, 'other': 'x'}
        st.step(2)
        text = build(term).serialize(outer, 'csv', path='.'.join(keys))
        if text != build(inner).serialize(value, 'csv'):
            raise Violation('CSV under path %r is %r' % (keys, text))
        for wrong in ('zz', '.'.join(keys) + '.zz', 'other'):
            try:
                text = scheme.Csv.serialize(outer, build(term), path=wrong)
            except Exception:
                continue
            raise Violation('CSV under path %r is %r' % (wrong, text))
    st.trace('paths')

RUN = {'members': members, 'xml': xml, 'text': text, 'refused': refused, 'documents': documents, 'names': names,
    'scalars': scalars, 'numbers': numbers, 'identities': identities, 'cells': cells, 'rows': rows,
    'csvschemas': csvschemas, 'headers': headers, 'paths': paths}
