"""Every small nested structure x every path is followed and set, every pair of small structures
merged, every small structure rendered in every style and read back, and every short text
minimized, indented and abbreviated, all compared with models; every public object is imported by
its identity."""

import ast
import itertools
import re

from mc.core import Violation
from mc.freeze import freeze

BOUNDS = {
    'quick': 'mappings up to 3 deep over 3 keys x all paths of up to 4 segments; all pairs and '
        'triples of mappings up to 2 deep; structures up to 3 deep of mappings, lists, tuples and '
        'scalars, short and wide, x indents, levels, masks and abbreviation; texts of up to 6 '
        'characters to minimize and indent, up to 12 to abbreviate',
    'thorough': 'as quick, with mappings up to 4 deep and texts of one more character',
}
ASSUMPTIONS = (
    'objects are identified by the names they have in the module which defines them',
    'keys which differ have texts which differ',
)

def mappings(depth, keys, leaves):
    """All mappings over ``keys`` up to ``depth`` deep."""
    if not depth:
        return list(leaves)
    inner = mappings(depth - 1, keys, leaves)
    found = list(leaves) if depth < 5 else []
    for values in itertools.product([Ellipsis] + inner, repeat=len(keys)):
        found.append(dict((k, v) for k, v in zip(keys, values) if v is not Ellipsis))
    return found

def cases(tier):
    thorough = tier != 'quick'
    for i in range(16):
        yield ('path', i, 16, thorough)
    for i in range(16):
        yield ('merge', i, 16, thorough)
    for indent, level, masks, abbreviate in itertools.product((4, 2, 0, 1), (0, 1, 3),
            (None, (), ('a',), ('a', '5', 'None')), (False, True)):
        yield ('format', indent, level, masks, abbreviate)
    for size in range(8 if thorough else 7):
        yield ('text', size)
    for size in range(14 if thorough else 13):
        yield ('abbreviate', size)
    yield ('objects',)
    yield ('plural',)

def run(case, st):
    globals()['run_' + case[0]](st, *case[1:])

# --- paths

def fresh(value):
    """A copy none of whose parts are shared."""
    if isinstance(value, dict):
        return dict((k, fresh(v)) for k, v in value.items())
    return [fresh(v) for v in value] if isinstance(value, list) else value

def follow(value, path):
    for key in path.split('.'):
        if not isinstance(value, dict):
            return TypeError
        if key not in value:
            return KeyError
        value = value[key]
    return [value]

def attempt(function, *args):
    try:
        return [function(*args)]
    except (KeyError, TypeError) as exception:
        return type(exception)

def run_path(st, part, parts, thorough):
    from scheme.util import set_nested_value, traverse_to_key
    # a leaf which is no mapping, null, and one which is a list
    first = mappings(1, ('a', 'b'), [1, None, ['a']])
    structures = [dict((k, v) for k, v in zip(('a', 'b'), pair) if v is not Ellipsis)
        for pair in itertools.product([Ellipsis] + first, repeat=2)]
    structures += [{'a': s} for s in structures[::3]] + [{'': 1, 'a': {'': {'b': 2}}}, {}]
    if thorough:
        structures += [{'b': {'a': s}} for s in structures[::5]]
    segments = ('a', 'b', 'c', '')
    paths = ['.'.join(path) for count in range(1, 5) for path in
        itertools.product(segments, repeat=count)]
    for structure in structures[part::parts]:
        st.state(repr(structure))
        for path in paths:
            st.step(2)
            image = freeze(structure)
            expected, found = follow(structure, path), attempt(traverse_to_key, structure, path)
            same = found is expected if isinstance(expected, type) else \
                isinstance(found, list) and found[0] is expected[0]
            if not same or freeze(structure) != image:
                st.violate('traverse_to_key(%r, %r) gives %r, expected %r' % (structure, path,
                    found, expected))
            st.trace('path')
            changed, model = fresh(structure), fresh(structure)
            value = object()
            front, last = path.rpartition('.')[::2]
            parent = follow(model, front) if '.' in path else [model]
            expected = parent
            if isinstance(parent, list):
                if isinstance(parent[0], dict):
                    parent[0][last] = value
                    expected = [None]
                else:
                    expected = TypeError
            found = attempt(set_nested_value, changed, path, value)
            if found != expected or changed != model:
                st.violate('set_nested_value(%r, %r) gives %r and %r, expected %r and %r' % (
                    structure, path, found, changed, expected, model))
    for value in (None, 1, 'a', ['a'], ('a',)):
        for path in ('a', 'a.b', '0'):
            if attempt(traverse_to_key, value, path) is not TypeError or \
                    attempt(set_nested_value, value, path, 1) is not TypeError:
                st.violate('%r is followed along %r' % (value, path))

# --- merging

def merged(original, addition):
    result = dict(original)
    for key, value in addition.items():
        if isinstance(result.get(key), dict) and isinstance(value, dict):
            value = merged(result[key], value)
        result[key] = value
    return result

def run_merge(st, part, parts, thorough):
    from scheme.util import recursive_merge
    leaves = [1, None, [1]]
    first = mappings(1, ('a', 'b'), leaves)
    structures = [dict((k, v) for k, v in zip(('a', 'b'), pair) if v is not Ellipsis)
        for pair in itertools.product([Ellipsis] + first, repeat=2)]
    structures = structures[::1 if thorough else 2]
    structures += [{'a': {'a': {'a': 1}}}, {'a': {'a': {'b': 2}}}, {'a': {'a': {}}}, {1: {2: 3}},
        {1: {2: {}}}]
    for one in structures[part::parts]:
        for two in structures:
            st.step()
            original, addition = fresh(one), fresh(two)
            nested = [v for v in original.values() if isinstance(v, dict)]
            result = recursive_merge(original, addition)
            if result is not original or freeze(result) != freeze(merged(one, two)):
                st.violate('recursive_merge(%r, %r) gives %r, expected %r' % (one, two, result,
                    merged(one, two)))
            if freeze(addition) != freeze(two):
                st.violate('recursive_merge(%r, %r) changes the addition to %r' % (one, two,
                    addition))
            for value in nested:
                if not any(value is v for v in original.values()) and all(isinstance(two.get(k),
                        dict) for k, v in one.items() if k in two):
                    st.violate('recursive_merge(%r, %r) replaces the mappings merged into' % (
                        one, two))
            st.state(repr((one, two)))
            st.trace('merged')

# --- rendering

SECRET = 'secretvalue'
MASK = '***MASKED***'

def scalars():
    return [None, True, 5, -1.5, '', 'a', 'a,', ' b ', "it's", 'line\nbreak', '[1]', 'x' * 70,
        'one two, three-four', '\u00e9\\']

def trees():
    """Structures to render; every mapping may hold a secret under a masked key."""
    leaves = scalars()
    wide = ['item number %d' % i for i in range(8)]
    small = [1, 'a,', None, [], (), {}, (1,), [1], [1, 2], {'b': 1}, {'a': SECRET}, wide,
        tuple(wide), ('w' * 80,), ['w' * 80], dict((w, i) for i, w in enumerate(wide))]
    middle = list(small)
    for pair in itertools.product(small, repeat=2):
        middle += [list(pair), tuple(pair), {'b': pair[0], 'c': pair[1]}, {'a': [SECRET],
            'd': pair[0]}]
    for value in middle[::3]:
        yield [value]
        yield (value,)
        yield {'k': value, 'a': {'x': SECRET}}
        yield {5: value, None: 1} if value != 1 else {'5': [1]}
        yield {(1, 2): value}
    for value in leaves + middle:
        yield value
    for one, two in itertools.product(leaves, repeat=2):
        yield [one, two]
        yield {'b': one, 'c': (two,)}
    for count in range(1, 12):
        # around the width at which lists are broken
        yield ['12345'] * count
        yield tuple(['1234567'] * count)
        yield [{'b': 1}] * count
    yield {1: 'a', 'b': 2, None: 3, (1,): 4, 2.5: [5]}
    yield {10: 1, 9: 2, 1: 3}

def shortened(text):
    """As abbreviated to the shortest length."""
    return text if len(text) <= 4 else '...'

def normal(value, masks, abbreviate):
    if isinstance(value, dict):
        return dict((str(k), MASK if str(k) in masks else normal(v, masks, abbreviate))
            for k, v in value.items())
    elif isinstance(value, (list, tuple)):
        return type(value)([normal(v, masks, abbreviate) for v in value])
    elif isinstance(value, str) and abbreviate:
        return shortened(value)
    return value

def shuffled(value):
    """An equal structure whose mappings were made in another order."""
    if isinstance(value, dict):
        return dict((k, shuffled(v)) for k, v in reversed(list(value.items())))
    elif isinstance(value, (list, tuple)):
        return type(value)([shuffled(v) for v in value])
    return value

def run_format(st, indent, level, masks, abbreviate):
    from scheme.util import format_structure
    for i, value in enumerate(trees()):
        st.step()
        st.state(i, indent, level, masks, abbreviate)
        params = {'indent': indent, 'level': level, 'masks': list(masks) if masks is not None
            else None, 'abbreviate': abbreviate}
        image = freeze(value)
        text = format_structure(value, **params)
        what = 'format_structure(%r, **%r)' % (value, params)
        if freeze(value) != image:
            st.violate('%s changes it to %r' % (what, value))
        if not isinstance(text, str):
            st.violate('%s gives %r' % (what, text))
        readable = text.replace(": %s," % MASK, ": %r," % MASK)
        try:
            read = ast.literal_eval(readable)
        except (SyntaxError, ValueError) as exception:
            st.violate('%s gives %r, which cannot be read: %r' % (what, text, exception))
        expected = normal(value, masks or (), abbreviate)
        if freeze(read) != freeze(expected):
            st.violate('%s gives %r, which reads as %r' % (what, text, read))
        if 'a' in (masks or ()) and SECRET in text:
            st.violate('%s shows what it should mask: %r' % (what, text))
        lines = text.split('\n')
        depth = level
        for number, line in enumerate(lines):
            bare = line.strip(' ')
            if bare[0] in '])}':
                depth -= 1
            wanted = 0 if number == 0 else depth * indent
            if number == len(lines) - 1 and len(lines) > 1:
                wanted = 0
            if len(line) - len(line.lstrip(' ')) != wanted and depth > level:
                st.violate('%s: line %d of %r is indented by %d, expected %d' % (what, number,
                    text, len(line) - len(line.lstrip(' ')), wanted))
            if bare[-1] in '[({':
                depth += 1
        if format_structure(shuffled(value), **params) != text:
            st.violate('%s depends on the order in which mappings were made' % what)
        st.trace('rendered')

# --- texts

def run_text(st, size):
    from scheme.util import indent, minimize_string
    for characters in itertools.product('a \n\t', repeat=size):
        text = ''.join(characters)
        st.step()
        found = minimize_string(text)
        if found != ' '.join(text.split()):
            st.violate('minimize_string(%r) gives %r' % (text, found))
        st.trace('minimized')
    for characters in itertools.product('a \n', repeat=size):
        text = ''.join(characters)
        for by, prefix in ((0, ''), (1, ' '), (4, '    '), ('', ''), ('> ', '> ')):
            for first in (True, False):
                st.step()
                lines = text.split('\n')
                expected = '\n'.join((prefix if first or number else '') + line
                    for number, line in enumerate(lines))
                if indent(text, by, first) != expected:
                    st.violate('indent(%r, %r, %r) gives %r, expected %r' % (text, by, first,
                        indent(text, by, first), expected))
                st.state(text, by, first)
        st.trace('indented')

def run_abbreviate(st, size):
    from scheme.util import abbreviate_string
    for characters in itertools.product('a-', repeat=size):
        text = ''.join(c if c == '-' else 'abcdefghijklmnop'[i] for i, c in enumerate(characters))
        for limit in range(16):
            st.step()
            effective = max(limit, 4)
            found = abbreviate_string(text, limit)
            half = (effective - 3) // 2
            expected = text
            if len(text) > effective:
                expected = '%s...%s' % (text[:half].rstrip('-'),
                    text[len(text) - half:].lstrip('-'))
            if found != expected:
                st.violate('abbreviate_string(%r, %d) gives %r, expected %r' % (text, limit, found,
                    expected))
            st.trace('abbreviated' if found != text else 'kept')
        st.state(text)

# --- objects

def run_objects(st):
    import importlib
    import pkgutil
    import types
    import scheme
    from scheme.util import identify_object, import_object
    for info in [None] + list(pkgutil.walk_packages(scheme.__path__, 'scheme.')):
        name = info.name if info else 'scheme'
        if name.startswith('scheme.doc') or name == 'scheme.supplemental':
            continue
        try:
            module = importlib.import_module(name)
        except ImportError:
            continue
        for path in (name,):
            st.step()
            if import_object(path) is not module or identify_object(module) != name:
                st.violate('the module %s is identified as %r and imported as %r' % (name,
                    identify_object(module), import_object(path)))
        for attr, value in sorted(vars(module).items()):
            if not isinstance(value, (type, types.FunctionType)) or \
                    getattr(value, '__module__', None) != name or \
                    getattr(value, '__name__', None) != attr:
                continue
            for repeat in range(2):
                st.step()
                identity = identify_object(value)
                if identity != '%s.%s' % (name, attr):
                    st.violate('%r is identified as %r' % (value, identity))
            for path in (identity, '%s:%s' % (name, attr)):
                if import_object(path) is not value:
                    st.violate('%r is imported as %r' % (path, import_object(path)))
            if isinstance(value, type):
                for member in sorted(vars(value)):
                    if member.startswith('__') or not isinstance(vars(value)[member],
                            types.FunctionType):
                        continue
                    for path in ('%s.%s' % (identity, member), '%s:%s.%s' % (name, attr, member)):
                        if import_object(path) is not vars(value)[member]:
                            st.violate('%r is imported as %r' % (path, import_object(path)))
            st.state(identity)
            st.trace('object')
        for path in (name + '.nosuch', name + ':nosuch', name + '.nosuch.deeper'):
            try:
                found = import_object(path)
            except ImportError:
                st.trace('refused')
            else:
                st.violate('%r is imported as %r' % (path, found))
    for value in (5, 'scheme', None, [], {}, 1.5, object()):
        try:
            found = identify_object(value)
        except TypeError:
            st.trace('refused')
        else:
            st.violate('%r is identified as %r' % (value, found))

PLURALS = (('item', 'items'), ('life', 'lives'), ('knife', 'knives'), ('plateau', 'plateaux'),
    ('half', 'halves'), ('class', 'classes'), ('box', 'boxes'), ('quiz', 'quizes'),
    ('church', 'churches'), ('dish', 'dishes'), ('query', 'queries'), ('soliloquy', 'soliloquies'),
    ('day', 'days'), ('key', 'keys'), ('graph', 'graphs'), ('month', 'months'), ('value', 'values'),
    ('path', 'paths'), ('structure', 'structures'), ('a', 'as'))

def run_plural(st):
    from scheme.util import pluralize
    for word, plural in PLURALS:
        for quantity in (None, 0, 1, 2, -1, 10 ** 20, 1.0, True, 1.5):
            st.step()
            st.state(word, quantity)
            found = pluralize(word, quantity)
            if found != (word if quantity == 1 else plural):
                st.violate('pluralize(%r, %r) gives %r' % (word, quantity, found))
            st.trace('plural')
