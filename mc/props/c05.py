"""All combinations of valid, wrongly typed, constraint-breaking, null, absent and undeclared
elements over schemas mixing every container to depth 3: the raised error, its path at every
position, its serialized form, its text and its round trip as data are compared with the reference
model's error tree."""

import collections
import itertools
import json
import re

from mc import ref, spec
from mc.core import Violation
from mc.domains import *
from mc.freeze import freeze
from mc.observe import (PHASES, Raised, attempt, error_problem, expect, serialized_problem)
from mc.props.c24 import refusals
from mc.ref import Refused

BOUNDS = {
    'quick': 'every container around every container around 3 kinds of leaf, 2 positions each, up'
        ' to 32 values per schema and depth 3 (enumerated in order of subsets of faulty positions); '
        'chains of one or two kinds of container alternating to depth 7; all histories of up to 4 '
        'operations building an error',
    'thorough': 'as quick with up to 600 values per schema, and depth 4; chains to depth 20',
}

# (term, [valid, wrong type, broken constraint, null...]); every value is refused in the same way in
# all phases and forms
LEAVES = [
    (('integer', {'minimum': 3, 'nonnull': True}), [5, 'x', 1, None]),
    (('text', {'max_length': 2, 'pattern': '^a'}), ['a', 5, 'aaa', 'b']),
    (('token', {'segments': 2, 'required': True, 'name': 'tok'}), ['a:b', ':', 'a']),
    (('decimal', {'maximum': D(3)}), [D(2), [], D(4)]),
    (('date', {'minimum': date(2000, 1, 1), 'title': 'some title'}), [date(2001, 1, 1), '9',
        date(1999, 1, 1)]),
    (('enumeration', {'enumeration': ['a', 'b'], 'constant': 'a'}), ['a', 'b', 'c']),
    (('boolean', {'errors': [('invalid', 'my title', '%(field)s is my message', False, False)]}),
        [True, 1]),
    (('binary', {'errors': [('min_length', 'short', '%(field)s is 100%% short', True, True)],
        'min_length': 2}), [b'YWJj', 'x', b'']),
    (('integer', {'name': 'n1', 'constant': 5}), [5, 4, 'five\nlines']),
]

def limited(iterable, limit):
    return list(itertools.islice(iterable, limit))

def by_faults(choices, limit):
    """Combinations of choices, those with the fewest non-first choices first."""
    found = sorted(itertools.islice(itertools.product(*[range(len(c)) for c in choices]), 40000),
        key=lambda picked: (sum(1 for p in picked if p), picked))
    return [tuple(c[p] for c, p in zip(choices, picked)) for picked in found[:limit]]

ABSENT = object()

def dicts(names, choices, limit, extra=()):
    for picked in by_faults(choices, limit):
        made = dict((n, v) for n, v in zip(names, picked) if v is not ABSENT)
        made.update(extra)
        yield made

OTHER = (('integer', {'minimum': 3}), [5, None, 1, 'x'])

def w_structure(term, values, limit):
    fields = {'a': spec.with_params(term, required=True), 'b': OTHER[0], 'cc': OTHER[0]}
    choices = [values + [ABSENT], OTHER[1][:1] + OTHER[1][2:3], OTHER[1][:1] + OTHER[1][3:]]
    made = list(dicts('a b cc'.split(), choices, limit))
    made += list(dicts('a b'.split(), choices[:2], limit // 4, {'zz': 1, 'y': None}))
    return ('structure', {'structure': fields, 'name': 'st'}), made + [5, None]

def w_plain(term, values, limit):
    """A structure without a name of its own, fields kept in order, undeclared keys dropped."""
    return ('structure', {'structure': {'a': term, 'b': term}, 'strict': False, 'key_order':
        ('b', 'a')}), list(dicts('ab', [values, values], limit, {'zz': 1})) + [[]]

def w_poly(term, values, limit):
    made = list(dicts(['kind', 'a'], [['x', 'y', 'w', None, ABSENT, 5], values + [ABSENT]], limit))
    return ('structure', {'polymorphic_on': 'kind', 'structure': {'x': {'a': spec.with_params(term,
        required=True)}, 'y': {'a': OTHER[0]}}, 'name': 'poly'}), made

def w_sequence(term, values, limit):
    made = [[v] for v in values] + [list(v) for v in by_faults([values] * 2, limit // 2)]
    made += [list(v) for v in by_faults([values] * 3, limit - limit // 2)]
    return ('sequence', {'item': term, 'min_length': 1}), made + [[], 'x', (1, )]

def w_map(term, values, limit):
    made = list(dicts(['k', 'r', 'x.y'], [values + [ABSENT], values + [ABSENT], values[:2]],
        limit))
    return ('map', {'value': term, 'required_keys': ['r', 'k'], 'name': 'mm'}), made + [{1: 1}, 5]

def w_keyed(term, values, limit):
    made = list(dicts([1, 2], [values, values], limit))
    return ('map', {'value': term, 'key': ('integer', {'maximum': 5})}), made + [{9: values[0]},
        {'x': 1}]

def w_tuple(term, values, limit):
    made = by_faults([OTHER[1], values, values], limit)
    return ('tuple', {'values': [OTHER[0], term, term]}), made + [list(v) for v in made[:3]] + [
        (), (1, 2), 'abc']

def w_union(term, values, limit):
    if term[0] in ('structure', 'map', 'union'):
        first = ('boolean', {})
    else:
        first = ('structure', {'structure': {'u': OTHER[0]}})
    extra = [{'u': 1}, {'u': 5}, {}, {'v': 1}] if first[0] == 'structure' else [True]
    return ('union', {'fields': [first, term]}), values[:limit] + extra + [Junk()]

WRAP = [w_structure, w_plain, w_poly, w_sequence, w_map, w_keyed, w_tuple, w_union]

def cases(tier):
    quick = tier == 'quick'
    limit = 32 if quick else 600
    for i in range(len(LEAVES)):
        yield ('leaf', i)
        for w in range(len(WRAP)):
            yield ('wrap', i, (w, ), 400)
        for ws in itertools.product(range(len(WRAP)), repeat=2):
            yield ('wrap', i, ws, limit)
    for ws in itertools.chain(itertools.product(range(len(WRAP)), repeat=2), itertools.product(
            range(len(WRAP)), repeat=1)):
        for depth in ((7, ) if quick else (6, 7, 12, 20)):
            yield ('wrap', 0, (ws * depth)[:depth], 6)
    for ws in itertools.product(range(len(WRAP)), repeat=3):
        for i in ((0, ) if quick else range(0, 7, 2)):
            yield ('wrap', i, ws, limit)
    if not quick:
        for ws in itertools.product(range(len(WRAP)), repeat=4):
            yield ('wrap', 0, ws, 60)
    yield ('data', )
    for first in range(len(STEPS)):
        yield ('building', first, 5 if tier != 'quick' else 4)
    yield ('several', )
    yield ('causes', )
    yield ('placed', )
    for i in range(len(refusals())):
        yield ('kinds', i)
    for i in range(len(list(wide_pairs()))):
        yield ('wide', i)
    yield ('bounds', )

def leaves_of(refused):
    """All reported elements: (path, model error)."""
    if refused.structure is None:
        return [refused]
    items = refused.structure.values() if isinstance(refused.structure, dict) \
        else refused.structure
    return [leaf for item in items if isinstance(item, Refused) for leaf in leaves_of(item)]

def reported(exception):
    """(path, message, what else its entry shows) of all errors of an implementation error."""
    from scheme.exceptions import StructuralError
    if exception.structure is None:
        found = []
        for error in exception.errors:
            definition = exception.field.errors[error['token']]
            shows = []
            if definition.show_field:
                shows.append('Field: %r' % (exception.field,))
            if definition.show_value and exception.value is not None:
                shows.append('Value: %r' % (exception.value,))
            found.append((''.join(exception.identity), error['message'], ' '.join(
                ' '.join(shows).split())))
        return found
    items = exception.structure.values() if isinstance(exception.structure, dict) \
        else exception.structure
    return [m for item in items if isinstance(item, StructuralError) for m in reported(item)]

def check_text(exception, refused, what):
    text = str(exception)
    entries = re.findall(r'(?m)^\[(\d+)\] (.*)$', text)
    wanted = leaves_of(refused)
    if [int(number) for number, line in entries] != list(range(1, len(wanted) + 1)):
        raise Violation('%s: text has entries %r for %d reported elements:\n%s' % (what,
            [number for number, line in entries], len(wanted), text))
    lines = [(line, ' '.join(content.split())) for (number, line), content in zip(entries,
        re.split(r'(?m)^\[\d+\] ', text)[1:])]
    pending = collections.Counter((path, message.split('\n')[0], shows)
        for path, message, shows in reported(exception))
    for (path, message, shows), count in sorted(pending.items(), key=lambda p: (-len(p[0][0]),
            -len(p[0][1]))):
        expr = r'(?<![\w.\[])' + re.escape(path) + r'(?![\w.\[])'
        for i in range(count):
            for line, content in lines:
                if re.search(expr, line) and message in line and (content.endswith(shows) if shows
                        else 'Field: ' not in content and 'Value: ' not in content):
                    lines.remove((line, content))
                    break
            else:
                raise Violation('%s: no entry for %s (%s; %s) in:\n%s' % (what, path, message,
                    shows, text))
    if str(exception) != text:
        raise Violation('%s: text differs the second time' % what)

def string_keys(value):
    if isinstance(value, dict):
        return all(isinstance(k, str) and string_keys(v) for k, v in value.items())
    if isinstance(value, (list, tuple)):
        return all(string_keys(v) for v in value)
    return True

def shape(error):
    """What an error is: the errors of one value, or those of the elements of a value."""
    from scheme.exceptions import StructuralError
    if not isinstance(error, StructuralError) or not (error.errors or error.structure):
        return None
    if isinstance(error.structure, dict):
        return dict((k, shape(v)) for k, v in error.structure.items()
            if isinstance(v, StructuralError))
    if error.structure:
        return [shape(v) for v in error.structure]
    return ('errors', [e if isinstance(e, dict) else {'message': e} for e in error.errors])

def check_data(exception, refused, what, st):
    from scheme.exceptions import StructuralError
    serialized = exception.serialize()
    problem = serialized_problem(serialized, refused)
    if problem:
        raise Violation('%s: %s' % (what, problem))
    if exception.serialize() != serialized or exception.serialize(force=True) != serialized:
        raise Violation('%s: serialized differently the second time' % what)
    forms = [serialized]
    if string_keys(serialized):
        text = json.dumps(serialized)
        forms.append(json.loads(text))
    for form in forms:
        kept = repr(form)
        back = StructuralError.unserialize(form)
        if repr(form) != kept:
            raise Violation('%s: unserialize altered its argument' % what)
        problem = serialized_problem(back.serialize(), refused)
        if problem or back.serialize() != serialized:
            raise Violation('%s: serialized as %r, which reads back as %r' % (what, serialized,
                back.serialize()))
        if string_keys(serialized) and shape(back) != shape(exception):
            raise Violation('%s: the error %r reads back as %r' % (what, shape(exception),
                shape(back)))
        str(back)
        st.step(2)

def overridden(term):
    return 'errors' in repr(term)

def check_value(field, term, value, st):
    for phase, serialized in PHASES:
        expected = expect(ref.process, term, value, phase, serialized)
        actual = attempt(field.process, value, phase, serialized)
        what = '%r.process(%r, %s, serialized=%r)' % (term, value, phase, serialized)
        st.step()
        if not isinstance(expected, Refused):
            if isinstance(actual, Raised):
                raise Violation('%s: %r, expected %r' % (what, actual, expected))
            st.trace('accepted')
            continue
        if not isinstance(actual, Raised):
            raise Violation('%s: accepted, expected refusal %r' % (what, expected.tree()))
        exception = actual.exception
        problem = error_problem(exception, expected)
        if problem:
            raise Violation('%s: %s' % (what, problem))
        check_text(exception, expected, what)
        check_data(exception, expected, what, st)
        st.trace('%d reported' % len(leaves_of(expected)))
    st.state(repr(term), repr(value))

def run(case, st):
    if case[0] in ('data', 'building', 'several', 'causes', 'placed', 'kinds', 'wide', 'bounds'):
        return globals()['run_' + case[0]](st, *case[1:])
    term, values = LEAVES[case[1]]
    if case[0] == 'leaf':
        for value in values + POOL:
            check_value(spec.build(term), term, value, st)
            check_value(spec.build(spec.with_params(term, name='given')), spec.with_params(term,
                name='given'), value, st)
        for token, title, message, show_field, show_value in term[1].get('errors', ()):
            for value in values:
                for exception in [attempt(spec.build(term).process, value)]:
                    if isinstance(exception, Raised) and \
                            exception.exception.errors[0]['token'] == token:
                        error = exception.exception.errors[0]
                        if error['title'] != title or error['message'] != message % {'field':
                                'unknown-field'}:
                            raise Violation('%r: declared error %r reported as %r' % (term,
                                message, error))
        return
    for w in case[2]:
        term, values = WRAP[w](term, values, case[3])
        values = values[:case[3]]
    field = spec.build(term)
    for value in values:
        check_value(field, term, value, st)

def run_data(st):
    """Hand-made errors, flat and structural, to depth 3."""
    from scheme.exceptions import StructuralError
    flats = [[{'token': 'x', 'title': 't', 'message': 'm'}], [{'token': 'x', 'title': 't',
        'message': 'm'}, {'token': 'y', 'message': 'n', 'extra': [1, {'a': None}]}],
        [{'token': 'z'}], [{'message': 'only'}]]
    level = [None] + [('flat', errors) for errors in flats]
    deeper = list(level)
    for depth in range(2):
        made = []
        for one, two in itertools.product(deeper, deeper[:7]):
            made.append(('list', [one, two]))
            if one and two:
                made.append(('dict', {'a': one, 'b': two}))
        deeper = level + made
    for node in deeper[1:]:
        def build(node):
            if node is None:
                return 'valid'
            kind, content = node
            if kind == 'flat':
                return StructuralError(*content)
            if kind == 'list':
                return StructuralError(structure=[build(n) for n in content])
            return StructuralError(structure=dict((k, build(n)) for k, n in content.items()))
        def plain(node):
            if node is None:
                return None
            kind, content = node
            if kind == 'flat':
                return content
            if kind == 'list':
                return [plain(n) for n in content]
            return dict((k, plain(n)) for k, n in content.items())
        wanted = (plain(node), None) if node[0] == 'flat' else (None, plain(node))
        error = build(node)
        serialized = error.serialize()
        if serialized != wanted:
            raise Violation('%r serialized as %r' % (node, serialized))
        for form in (serialized, json.loads(json.dumps(serialized))):
            read = StructuralError.unserialize(form)
            back = read.serialize()
            if back != wanted or shape(read) != shape(error):
                raise Violation('%r read back as %r, %r' % (wanted, back, shape(read)))
        str(error)
        st.step(3)
        st.trace('data')
        st.state(repr(node))

STEPS = ('append', 'append text', 'attach', 'attach list', 'detach', 'merge', 'merge many',
    'merge empty', 'serialize', 'force', 'text')

def run_building(st, first, depth):
    """All histories of building an error: what was appended, merged and attached is what is
    serialized, as of the first time unless forced."""
    from scheme.exceptions import StructuralError, ValidationError
    starts = [lambda: (StructuralError(), []),
        lambda: (ValidationError({'token': 's', 'message': 'start'}, 'text'),
            [{'token': 's', 'message': 'start'}, 'text']),
        lambda: (StructuralError(token='p', title='params', message='as params'),
            [{'token': 'p', 'title': 'params', 'message': 'as params'}]),
        lambda: (StructuralError(title='no token'), [])]
    for length in range(1, depth + 1):
        for steps in itertools.product(STEPS, repeat=length - 1):
            steps = (STEPS[first],) + steps
            for start in starts:
                error, errors = start()
                structure, wanted, cached = None, None, None
                other = StructuralError({'token': 'o', 'message': 'other'}, 'more')
                for number, step in enumerate(steps):
                    st.step()
                    result = error
                    if step == 'append':
                        added = {'token': 'a%d' % number, 'message': 'm'}
                        errors = errors + [added]
                        result = error.append(added)
                    elif step == 'append text':
                        errors = errors + ['plain %d' % number]
                        result = error.append('plain %d' % number)
                    elif step == 'attach':
                        structure = {'a': StructuralError('inner'), 'b': 5}
                        wanted = {'a': [{'message': 'inner'}]}
                        result = error.attach(structure)
                    elif step == 'attach list':
                        structure = [1, StructuralError(structure=[None, StructuralError(token=5)])]
                        wanted = [None, [None, [{'token': 5}]]]
                        result = error.attach(structure)
                    elif step == 'detach':
                        structure = wanted = None
                        result = error.attach(None)
                    elif step == 'merge':
                        errors = errors + other.errors
                        result = error.merge(other)
                    elif step == 'merge many':
                        errors = errors + ['x', {'token': 'y'}]
                        result = error.merge(ValidationError('x', {'token': 'y'}))
                    elif step == 'merge empty':
                        result = error.merge(StructuralError(structure={'a': StructuralError('z')}))
                    elif step == 'text':
                        if not str(error).startswith('validation failed'):
                            raise Violation('%r: text is %r' % (steps, str(error)))
                    else:
                        now = ([e if isinstance(e, dict) else {'message': e} for e in errors]
                            or None, wanted)
                        if cached is None or step == 'force':
                            cached = now
                        found = error.serialize(force=True) if step == 'force' \
                            else error.serialize()
                        if found != cached:
                            raise Violation('%r: serialized as %r, expected %r' % (steps, found,
                                cached))
                    if result is not error:
                        raise Violation('%r: step %s returns %r' % (steps, step, result))
                    if error.errors != errors or error.structure is not structure or \
                            bool(error.substantive) != bool(errors or structure):
                        raise Violation('%r: the error holds %r and %r (substantive: %r), expected '
                            '%r and %r' % (steps, error.errors, error.structure,
                                error.substantive, errors, structure))
                    if other.errors != [{'token': 'o', 'message': 'other'}, 'more']:
                        raise Violation('%r: the merged error became %r' % (steps, other.errors))
                st.trace('built')
        st.state(first, length)

def run_several(st):
    """Elements for which a field reports several errors at once, at every depth."""
    from scheme import Field, FieldError, Map, Sequence, Structure, Text, Tuple
    from scheme.exceptions import ValidationError
    try:
        class Several(Text):
            errors = [FieldError('one', 'first', '%(field)s is one: %(what)s'),
                FieldError('two', 'second', '%(field)s is two', False),
                FieldError('three', 'third', '%(field)s is three', True, False)]
            def _validate_value(self, value, ancestry):
                error = ValidationError(identity=ancestry, field=self, value=value)
                for token in value.split():
                    error.construct(token, **({'what': 'w'} if token == 'one' else {}))
                if error.substantive:
                    raise error
        messages = {'one': ('first', '%s is one: w'), 'two': ('second', '%s is two'),
            'three': ('third', '%s is three')}
        for count in range(4):
            for tokens in itertools.product(('one', 'two', 'three'), repeat=count):
                for name in (None, 'named'):
                    leaf = Several(name=name)
                    value = ' '.join(tokens)
                    entries = lambda shown: [{'token': t, 'title': messages[t][0],
                        'message': messages[t][1] % shown} for t in tokens]
                    shown = name or 'unknown-field'
                    keyed = name or 'k'
                    for field, given, wanted, depth in (
                            (leaf, value, (entries(shown), None), 0),
                            (Sequence(leaf), ['', value], (None, [None, entries(shown)]), 1),
                            (Map(leaf), {'m': value, 'n': ''}, (None, {'m': entries(shown)}), 1),
                            (Tuple([leaf, Text()]), (value, ''), (None, [entries(shown), None]), 1),
                            (Structure({'k': Several(name=name), 'l': Text()}),
                                {'k': value, 'l': ''}, (None, {'k': entries(keyed)}), 1),
                            (Sequence(Map(Tuple([leaf]))), [{'m': (value,)}],
                                (None, [{'m': [entries(shown)]}]), 3)):
                        st.step()
                        st.state(tokens, name, depth)
                        try:
                            field.process(given)
                        except ValidationError as exception:
                            error = exception
                        else:
                            error = None
                        if error is None:
                            if tokens:
                                raise Violation('%r accepts %r' % (field, given))
                            continue
                        if not tokens or error.serialize() != wanted:
                            raise Violation('%r: %r is refused as %r, expected %r' % (field, given,
                                error.serialize(), wanted))
                        text = str(error)
                        found = re.findall(r'(?m)^\[(\d+)\] (\w+) error at (\S+): (.*)$', text)
                        path = {'structure': '.'}
                        lines = [(messages[t][0].capitalize(), messages[t][1] % (keyed if
                            isinstance(field, Structure) else shown)) for t in tokens]
                        if [(t, m) for n, t, p, m in found] != lines or \
                                [int(n) for n, t, p, m in found] != list(range(1, count + 1)):
                            raise Violation('%r: the text of %r is %r' % (field, given, text))
                        if text.count('Field: ') != sum(1 for t in tokens if t != 'two') or \
                                text.count('Value: ') != sum(1 for t in tokens if t != 'three'):
                            raise Violation('%r: the text of %r shows %r' % (field, given, text))
                        st.trace('several')
    finally:
        Field.types.pop('several', None)

def run_causes(st):
    """What a failing preprocessor or import raised is shown with the error it led to, at every
    depth."""
    from scheme import Integer, Map, Object, Sequence, Structure, Text, Token, Tuple
    class Cause(Exception):
        pass
    def fail(value):
        raise Cause('because of %s' % (type(value).__name__,))
    made = [(Text, {}, 'x'), (Integer, {}, 5), (Token, {}, 't'), (Sequence, {'item': Text()}, []),
        (Map, {'value': Text()}, {}), (Tuple, {'values': [Text()]}, ('a',)),
        (Structure, {'structure': {'a': Text()}}, {})]
    wraps = [(lambda field: field, lambda value: value, 1),
        (lambda field: Sequence(field), lambda value: [value, value], 2),
        (lambda field: Map(field), lambda value: {'k': value}, 1),
        (lambda field: Tuple([field, Text()]), lambda value: (value, 'x'), 1),
        (lambda field: Structure({'k': field, 'l': Integer()}), lambda value: {'k': value, 'l': 5},
            1)]
    leaves = [(cls(preprocessor=fail, **params), value, 'because of %s' % type(value).__name__)
        for cls, params, value in made]
    leaves.append((Object(), 'no_such_module.here', 'no_such_module'))
    for leaf, value, cause in leaves:
        for outer, inner in itertools.product(wraps, repeat=2):
            field = outer[0](inner[0](leaf))
            given = outer[1](inner[1](value))
            for serialized in (False, True):
                if isinstance(leaf, Object) and not serialized:
                    continue
                actual = attempt(field.process, given, 'inbound', serialized)
                st.step()
                if not isinstance(actual, Raised):
                    raise Violation('%r accepts %r' % (field, given))
                text = str(actual.exception)
                count = outer[2] * inner[2]
                if text.count('Captured tracebacks:') != count or text.count(cause) < count or \
                        len(re.findall(r'(?m)^\[(\d+)\] ', text)) != count:
                    raise Violation('%r: the text of the refusal of %r does not show its %d '
                        'causes (%s):\n%s' % (field, given, count, cause, text))
                if text.count('\n     Field: %r' % leaf) < count or \
                        text.count('\n     Value: %r' % (value,)) < count:
                    raise Violation('%r: the text of the refusal of %r does not show the field and '
                        'the value refused:\n%s' % (field, given, text))
                st.trace('cause')
            st.state(repr(field))
    error = attempt(Integer().process, 'x').exception
    if 'Captured' in str(error):
        raise Violation('%s' % error)

def run_kinds(st, number):
    """Refusals by every type of field, wherever it stands, are placed, and show field and value."""
    from scheme import Integer, Map, Sequence, Structure, Text, Tuple
    from scheme.exceptions import StructuralError, ValidationError
    name, cls, params, value, token = refusals()[number][:5]
    inside = len(refusals()[number]) > 5
    wraps = [
        (lambda field: field, lambda value: value, '', ()),
        (lambda field: Sequence(field), lambda value: [value], '[0]', (0, )),
        (lambda field: Map(field), lambda value: {'k': value}, '[k]', ('k', )),
        (lambda field: Tuple([Integer(), field]), lambda value: (1, value), '[1]', (1, )),
        (lambda field: Structure({'k': field, 'l': Integer()}), lambda value: {'k': value, 'l': 5},
            '.k', ('k', )),
        (lambda field: Structure({'x': {'k': field}, 'y': {}}, polymorphic_on='t'), lambda value:
            {'k': value, 't': 'x'}, '.k', ('k', )),
    ]
    usual = ('inbound', value == 'no.such.thing')
    for outer, inner, (phase, serialized) in itertools.product(wraps, wraps, PHASES):
        leaf = cls(**params)
        field = outer[0](inner[0](leaf))
        field.name = 'root'
        given = outer[1](inner[1](value))
        st.step()
        try:
            field.process(given, phase, serialized)
        except ValidationError as exception:
            error = exception
        else:
            if (phase, serialized) != usual and not (name == 'error' and phase == 'inbound'):
                continue
            raise Violation('%r accepts %r' % (field, given))
        text = str(error)
        wanted = 'root' + outer[2] + inner[2]
        found = re.findall(r'(?m)^\[\d+\] .*? error at (\S+): ', text)
        if found != [wanted]:
            raise Violation('%r: the error of %r is placed at %r, expected %s' % (field, given,
                found, wanted))
        for step in outer[3] + inner[3]:
            error = error.structure[step]
        if inside:
            error = list(error.structure.values())[0]
        if [e['token'] for e in error.errors] != [token] and (phase, serialized) == usual or ''.join(error.identity) != wanted:
            raise Violation('%r: %r is refused with %r at %r' % (field, given, error.errors,
                error.identity))
        if error.field is not leaf:
            raise Violation('%r: the error of %r is that of %r' % (field, given, error.field))
        absent = value is None or inside or token in ('required', 'unrecognized')
        if not absent and ((phase, serialized) == usual or error.value is None) and (error.value
                is not value and freeze(error.value) != freeze(value)):
            raise Violation('%r: the error of %r has value %r' % (field, given, error.value))
        if 'Field: %r' % leaf not in text:
            raise Violation('%r: the error of %r does not show its field:\n%s' % (field, given,
                text))
        if not absent and 'Value: %r' % (error.value, ) not in text:
            raise Violation('%r: the error of %r does not show its value:\n%s' % (field, given,
                text))
        st.state(number, wanted)
    st.trace('kinds')

def run_placed(st):
    """Values refused by the hooks which write them, and by the schemas of surrogates, are reported
    at their full paths too, as values refused when they're read are."""
    from scheme import (Field, Integer, Map, Object, Sequence, Structure, Surrogate, Text, Tuple,
        Union)
    from scheme.exceptions import ValidationError
    from scheme.surrogate import surrogate

    class Delegating(Field):
        """Written and read by another field."""
        inner = Structure({'p': Integer(maximum=3), 'q': Sequence(Text(max_length=1))}, name='own')
        def _serialize_value(self, value):
            return self.inner.process(value, 'outbound', True)

    class Numbered(surrogate):
        schemas = [Structure({'p': Integer()}, name='one'),
            Structure({'p': Integer(maximum=3), 'q': Sequence(Text(max_length=1))})]
    surrogate.cache['placed.Numbered'] = Numbered
    Numbered.surrogate = 'placed.Numbered'
    dynamic = Structure({'p': Integer(maximum=3), 'q': Sequence(Text(max_length=1))}, name='dyn')

    contents = [({'p': 4}, ['.p']), ({'p': 1, 'q': ['a', 'bb']}, ['.q[1]']), ({'p': 'x', 'q': ['aa',
        'b', 5]}, ['.p', '.q[0]', '.q[2]']), ({'q': 5}, ['.q'])]
    leaves = [(Object(name='o'), object(), [''], None), (Object(), 5, [''], None)]
    for content, paths in contents:
        leaves.append((Delegating(), content, paths, None))
        leaves.append((Surrogate(), Numbered(content, version=2), paths,
            dict(content, _='placed.Numbered', __version__=2)))
        leaves.append((Surrogate(name='s'), surrogate(content, dynamic), paths,
            dict(content, _='scheme.surrogate.surrogate', __schema__=dynamic.describe())))
    leaves.append((Surrogate(), Numbered({'p': 'x'}, version=1), ['.p'],
        dict({'p': 'x'}, _='placed.Numbered')))
    leaves.append((Surrogate(valid_surrogates='a.B'), Numbered({'p': 1}, version=1), [''],
        dict({'p': 1}, _='placed.Numbered')))
    leaves.append((Surrogate(), {'_': 'os.path'}, [''], {'_': 'os.path'}))
    leaves.append((Surrogate(), 5, [''], 5))
    wraps = [
        (lambda field: field, lambda value: value, ['']),
        (lambda field: Sequence(field), lambda value: [value, value], ['[0]', '[1]']),
        (lambda field: Map(field), lambda value: {'k': value}, ['[k]']),
        (lambda field: Tuple([field, Text()]), lambda value: (value, 'x'), ['[0]']),
        (lambda field: Structure({'k': field, 'l': Integer()}), lambda value: {'k': value, 'l': 5},
            ['.k']),
        (lambda field: Structure({'x': {'k': field}, 'y': {}}, polymorphic_on='t'), lambda value:
            {'k': value, 't': 'x'}, ['.k']),
    ]
    try:
        for leaf, value, paths, written in leaves:
            for outer, inner in itertools.product(wraps, repeat=2):
                for name in ('root', None):
                    field = outer[0](inner[0](leaf))
                    if name or not field.name:
                        field.name = name
                    root = field.name or '(%s)' % field.type
                    wanted = sorted(root + a + b + c for a in outer[2] for b in inner[2]
                        for c in paths)
                    for phase, given in (('outbound', value), ('inbound', written)):
                        if given is None:
                            continue
                        actual = attempt(field.process, outer[1](inner[1](given)), phase, True)
                        st.step()
                        if not (isinstance(actual, Raised) and
                                isinstance(actual.exception, ValidationError)):
                            raise Violation('%r gives %r for %r %s' % (field, actual, given, phase))
                        text = str(actual.exception)
                        found = sorted(re.findall(r'(?m)^\[\d+\] .*? error at (\S+): ',
                            text))
                        if found != wanted:
                            raise Violation('%r: errors of %r, %s, are placed at %r, expected %r' %
                                (field, given, phase, found, wanted))
                        if paths == [''] and text.count('Value: %s' % (value if phase ==
                                'outbound' or isinstance(given, int) else '',)) != len(wanted):
                            raise Violation('%r: %r is not shown by the text of its refusal, %s:'
                                '\n%s' % (field, given, phase, text))
                        st.trace('placed')
                st.state(repr(field))
    finally:
        surrogate.cache.pop('placed.Numbered', None)
        Field.types.pop('delegating', None)

def run_wide(st, i):
    """Errors at every position of containers with many members, and of deep ones."""
    term, values, wrong = list(wide_pairs())[i]
    for value in wrong:
        check_value(spec.build(term), term, value, st)

BOUNDED = [
    ('integer', 'minimum maximum', [(2, 7), (0, 0), (-5, 3)], [-9, 1, 8, 100]),
    ('float', 'minimum maximum', [(2.5, 7.0), (0.0, 0.0), (-5.5, 3.25)], [-9.5, 1.0, 8.0]),
    ('decimal', 'minimum maximum', [(D('2.5'), D(7)), (D(0), D(0))], [D(-9), D('8.25')]),
    ('date', 'minimum maximum', [(date(2000, 1, 2), date(2000, 3, 4))], [date(1999, 5, 6),
        date(2001, 7, 8)]),
    ('time', 'minimum maximum', [(time(1, 2, 3), time(4, 5, 6))], [time(0, 0), time(23, 0)]),
    ('datetime', 'minimum maximum', [(dt(2000, 1, 2), dt(2000, 3, 4))], [dt(1999, 5, 6),
        dt(2001, 7, 8)]),
    ('text', 'min_length max_length', [(2, 3), (1, 1), (3, 3)], ['', 'a', 'abcd', 'abcdefgh']),
    ('binary', 'min_length max_length', [(2, 3), (1, 1)], [b'', b'a', b'abcd', b'abcdefgh']),
    ('email', 'min_length max_length', [(8, 9)], ['a@bcd.co', 'a@b.co', 'abcd@efgh.com']),
    ('sequence', 'min_length max_length', [(2, 3), (1, 1)], [[], [1], [1] * 4, [1] * 9]),
]

def run_bounds(st):
    """Fields with both bounds, one of them, and a name or none: the refusal names the bound that
    was violated."""
    for kind, names, limits, values in BOUNDED:
        lower, upper = names.split()
        for low, high in limits:
            for params in ({lower: low, upper: high}, {lower: low}, {upper: high}):
                for more in ({}, {'name': 'own'}, {'nonnull': True, 'required': True}):
                    term = (kind, dict(params, **more))
                    if kind == 'sequence':
                        term[1]['item'] = ('integer', {})
                    for outer, wrap in ((term, lambda v: v), (('sequence', {'item': term}), lambda v:
                            [v]), (('structure', {'structure': {'k': term, 'l': term}}), lambda v:
                            {'k': v, 'l': v}), (('map', {'value': term}), lambda v: {'m': v})):
                        field = spec.build(outer)
                        for value in values:
                            check_value(field, outer, wrap(value), st)
