"""The representation of a schema, read back as the expression it is: over all subsets of the
parameters of every field type, every container around every container around every leaf, and all
small schemas with placeholders defined to be parts of the schema itself, the expression holds the
types, the names and the constraints which were declared, at their places, and nothing else; after
histories of cloning, describing and restructuring it is that of the schema made directly."""

import collections
import copy
import datetime
import itertools
import pickle

from mc import spec
from mc.core import Violation
from mc.domains import *
from mc.spec import build, with_params

BOUNDS = {
    'quick': 'all subsets of up to 8 parameters of each of 20 field types, with ordinary and falsy '
        'values; every container around every container around 18 leaves; all cycles through up to '
        '3 containers; all histories of up to 2 of 7 ways of deriving a schema',
    'thorough': 'as quick with a third container, cycles through 4 containers, histories of up to 4',
}

class Node(object):
    """One field of a representation: its type and what it is shown with."""
    def __init__(self, kind, shown):
        self.kind = kind
        self.shown = shown
    def __repr__(self):
        return '%s(%s)' % (self.kind, ', '.join('%s=%r' % pair for pair in sorted(
            self.shown.items())))
    def __eq__(self, other):
        return isinstance(other, Node) and self.kind == other.kind and \
            sorted(self.shown) == sorted(other.shown) and \
            all(equal(self.shown[k], other.shown[k]) for k in self.shown)
    def __ne__(self, other):
        return not self == other

def equal(one, other):
    if isinstance(one, dict) and isinstance(other, dict):
        return set(one) == set(other) and all(equal(one[k], other[k]) for k in one)
    if isinstance(one, (list, tuple)) and isinstance(other, (list, tuple)):
        return len(one) == len(other) and all(equal(a, b) for a, b in zip(one, other))
    return type(one) is type(other) and one == other

def maker(kind):
    return lambda **shown: Node(kind, shown)

NAMES = dict((spec.KINDS[kind], maker(spec.KINDS[kind])) for kind in spec.KINDS)
# fields and values of one name: only values are made of an argument
NAMES.update(Decimal=lambda *value, **shown: D(*value) if value else Node('Decimal', shown),
    datetime=datetime, OrderedDict=collections.OrderedDict, __builtins__={},
    Fixed=spec.Fixed, Junk=spec.Junk)

COMMON = [('name', ['n', 'two words']), ('constant', [True]), ('default', []),
    ('nonnull', [True]), ('required', [True]), ('ignore_null', [True]), ('title', ['A "title"'])]

def shown_bound(kind, params, which):
    from mc import ref
    value = ref.bound(kind, params, which)
    if kind == 'date':
        return ref.show_date(value)
    if kind == 'datetime':
        return ref.show_instant(value)
    return value

def expected(term, name=None):
    """The node a term is represented as."""
    kind, params = term
    shown = {}
    name = params.get('name') or name
    if name:
        shown['name'] = name
    if params.get('constant') is not None:
        shown['constant'] = True
    if params.get('default') is not None:
        shown['default'] = params['default']
    for flag in ('nonnull', 'required'):
        if params.get(flag) or params.get('nonempty'):
            shown[flag] = True
    if params.get('ignore_null'):
        shown['ignore_null'] = True
    if params.get('title'):
        shown['title'] = params['title']
    if kind in ('integer', 'float', 'decimal', 'date', 'time', 'datetime'):
        for which in ('minimum', 'maximum'):
            if params.get(which) is not None:
                shown[which] = shown_bound(kind, params, which)
        if params.get('utc'):
            shown['utc'] = True
    elif kind in ('text', 'email', 'binary', 'sequence'):
        for which in ('min_length', 'max_length'):
            if params.get(which) is not None:
                shown[which] = params[which]
        if kind in ('text', 'email', 'binary') and params.get('nonempty') and \
                'min_length' not in shown:
            shown['min_length'] = 1
        if kind == 'email' or not params.get('strip', True):
            shown['strip'] = False
        for which in ('multiple', 'extended', 'unique'):
            if params.get(which):
                shown[which] = True
    elif kind == 'token':
        if params.get('segments') is not None:
            shown['segments'] = params['segments']
    elif kind == 'enumeration':
        values = params['enumeration']
        shown['enumeration'] = values.split(' ') if isinstance(values, str) else list(values)
    if kind == 'sequence':
        shown['item'] = expected(params['item'])
    elif kind == 'map':
        shown['value'] = expected(params['value'])
        if params.get('key'):
            shown['key'] = expected(params['key'])
        if params.get('required_keys'):
            keys = params['required_keys']
            shown['required_keys'] = sorted(keys.split(' ') if isinstance(keys, str) else keys)
    elif kind == 'tuple':
        shown['values'] = [expected(value) for value in params['values']]
    elif kind == 'union':
        shown['fields'] = [expected(value) for value in params['fields']]
    elif kind == 'structure':
        on = params.get('polymorphic_on')
        if on:
            shown['polymorphic_on'] = on if isinstance(on, str) else on[1]['name']
            common = params['structure'].get('*', {})
            shown['structure'] = {}
            for identity, fields in params['structure'].items():
                if identity == '*':
                    continue
                fields = dict(fields, **common)
                made = dict((k, expected(v, k)) for k, v in fields.items())
                made[shown['polymorphic_on']] = None    # of the structure's making
                shown['structure'][identity] = made
        else:
            shown['structure'] = dict((k, expected(v, k)) for k, v in params['structure'].items())
        if not params.get('strict', True):
            shown['strict'] = False
        order = params.get('key_order')
        if order:
            shown['key_order'] = order.split(' ') if isinstance(order, str) else list(order)
    elif kind == 'surrogate' and params.get('valid_surrogates'):
        found = params['valid_surrogates']
        shown['valid_surrogates'] = sorted(found.split(' ') if isinstance(found, str) else found)
    return Node(spec.KINDS[kind], shown)

def settle(found, wanted):
    """Leaves out the discriminators, for which ``wanted`` holds None."""
    if isinstance(found, Node) and isinstance(wanted, Node):
        for key in wanted.shown:
            if key in found.shown:
                settle(found.shown[key], wanted.shown[key])
    elif isinstance(found, dict) and isinstance(wanted, dict):
        for key in list(wanted):
            if wanted[key] is None and isinstance(found.get(key), Node):
                if found[key].shown.get('name') != key or not found[key].shown.get('constant'):
                    raise Violation('discriminator %r shown as %r' % (key, found[key]))
                found[key] = None
            elif key in found:
                settle(found[key], wanted[key])
    elif isinstance(found, (list, tuple)) and isinstance(wanted, (list, tuple)):
        for one, other in zip(found, wanted):
            settle(one, other)

def read(text, what):
    try:
        return eval(text, dict(NAMES))
    except Exception as exception:
        raise Violation('%s: represented as %s, which does not read as an expression: %r' % (what,
            text[:600], exception))

def check(field, term, what=None):
    what = what or repr(term)
    text = repr(field)
    if not isinstance(text, str):
        raise Violation('%s: represented as %r' % (what, text))
    found, wanted = read(text, what), expected(term)
    settle(found, wanted)
    if found != wanted:
        raise Violation('%s: represented as %s, expected %r' % (what, text, wanted))
    if repr(field) != text:
        raise Violation('%s: represented differently the second time' % what)

# (required parameters, [(parameter, values)])
T, F = True, False
LENGTHS = [('min_length', [0, 3]), ('max_length', [0, 5])]
BOUNDED = lambda low, high, zero=None: [('minimum', [low] + ([zero] if zero is not None else [])),
    ('maximum', [high] + ([zero] if zero is not None else []))]
GRIDS = [
    ('field', {}, [], ['x', 0, {'a': [1, None]}]),
    ('text', {}, LENGTHS + [('strip', [F]), ('nonempty', [T])], ['x', '', "quote'd\n"]),
    ('token', {}, [('segments', [1, 2]), ('nonempty', [T])], ['a:b']),
    ('email', {}, [('multiple', [T]), ('nonempty', [T])] + LENGTHS, ['a@b.co']),
    ('email', {'extended': True}, [('nonempty', [T])], ['a@b.co']),
    ('uuid', {}, [('nonempty', [T])], [UUIDS[0]]),
    ('integer', {}, BOUNDED(-3, 10, 0) + [('nonempty', [T])], [0, 5]),
    ('float', {}, BOUNDED(-3.5, 10.25, 0.0), [0.0, 1.5]),
    ('decimal', {}, BOUNDED(D('-1.50'), D('1E+5'), D('0')), [D('0'), D('1.0')]),
    ('boolean', {}, [('nonempty', [T])], [False, True]),
    ('binary', {}, LENGTHS + [('nonempty', [T])], [b'', b'a\xff']),
    ('date', {}, BOUNDED('2000-01-01', date(9999, 12, 31)) + [('nonempty', [T])],
        [date(999, 1, 2)]),
    ('time', {}, BOUNDED('00:00:00', time(23, 59, 59)), [time(0, 0)]),
    ('datetime', {}, BOUNDED('2000-01-01T00:00:00Z', dt(999, 12, 31, 23, 59, 59)) + [('utc', [T])],
        [dt(2000, 1, 1)]),
    ('enumeration', {'enumeration': ['a', 1, None, 1.5, '']}, [('nonempty', [T])], ['a', 1, '']),
    ('enumeration', {'enumeration': 'a b cc'}, [('ignored_values', [['z']])], ['a']),
    ('definition', {}, [('nonempty', [T])], []),
    ('object', {}, [('nonempty', [T])], []),
    ('error', {}, [('nonempty', [T])], []),
    ('surrogate', {}, [('valid_surrogates', ['b.x a.y', ['c.z']])], []),
    ('sequence', {'item': ('integer', {'minimum': 0})}, LENGTHS + [('unique', [T]),
        ('nonempty', [T])], [[], [5]]),
    ('map', {'value': ('text', {'name': 'v'})}, [('key', [('token', {})]), ('required_keys',
        ['b a', ['k'], []])], [{}, {'k': 'v'}]),
    ('tuple', {'values': [('text', {}), ('integer', {'required': True})]}, [('nonempty', [T])],
        [('x', 1)]),
    ('union', {'fields': (('text', {}), ('sequence', {'item': ('date', {})}))}, [('nonempty',
        [T])], ['x']),
    ('structure', {'structure': {'b': ('text', {}), 'a': ('integer', {'maximum': 3})}},
        [('strict', [F]), ('key_order', ['b a', ['a', 'b']]), ('nonempty', [T])],
        [{}, {'a': 1}]),
    ('structure', {'polymorphic_on': 'kind', 'structure': {'x': {'a': ('date', {})}, 'y': {}, '*': {
        'c': ('text', {'name': 'other'})}}}, [('strict', [F])], [{'kind': 'y'}]),
]
# never shown
HIDDEN = [('description', 'text'), ('notes', 'text'), ('aspect', 'x'), ('id', 'k'),
    ('preprocessor', 'same')]

LEAVES = [with_params((kind, required), **dict((name, values[-1]) for name, values in params
    if name not in ('nonempty',))) for kind, required, params, defaults in GRIDS[:20]]
WRAP = [
    lambda a, b: ('structure', {'structure': {'a': a, 'it': b}, 'name': 'st'}),
    lambda a, b: ('structure', {'structure': {'x': {'a': a}, 'y': {'b': b}},
        'polymorphic_on': 'kind'}),
    lambda a, b: ('sequence', {'item': a, 'unique': True, 'min_length': 0}),
    lambda a, b: ('map', {'value': a, 'key': ('text', {'max_length': 3}), 'required_keys': 'x'}),
    lambda a, b: ('tuple', {'values': [b, a, a], 'required': True}),
    lambda a, b: ('union', {'fields': [a, b], 'title': 'u'}),
]

def subsets(grid):
    kind, required, params, defaults = grid
    axes = []
    for name, values in params + [(n, defaults if n == 'default' else v) for n, v in COMMON]:
        if name == 'constant':
            values = [v for v in defaults if not isinstance(v, (dict, list, tuple))][:2]
        axes.append([(name, value) for value in values] + [None])
    if kind in ('structure', 'sequence', 'map', 'tuple', 'union', 'email'):
        # flags shared by all types are tried on fewer
        axes = [axis if axis[0] is None or axis[0][0] not in ('ignore_null', 'constant')
            else [None] for axis in axes]
    for picked in itertools.product(*axes):
        yield dict(pair for pair in picked if pair)

def cases(tier):
    quick = tier == 'quick'
    for i in range(len(GRIDS)):
        yield ('subsets', i)
        yield ('hidden', i)
    for i in range(len(LEAVES)):
        for ws in itertools.product(range(len(WRAP)), repeat=2 if quick else 3):
            yield ('wrapped', i, ws)
    for length in range(1, 4 if quick else 5):
        yield ('cycles', length)
    for i in range(len(GRIDS)):
        yield ('histories', i, 2 if quick else 4)
    yield ('undefined', )
    yield ('elements', )
    yield ('surrogates', )

def run(case, st):
    return globals()['run_' + case[0]](st, *case[1:])

def run_subsets(st, index):
    kind, required = GRIDS[index][:2]
    for params in subsets(GRIDS[index]):
        term = with_params((kind, required), **params)
        check(build(term), term)
        st.step()
        st.trace('declared')
        st.state(index, repr(sorted(params.items(), key=lambda p: p[0])))

def run_hidden(st, index):
    """Parameters of no concern to validation, and passing None or false for a parameter, leave the
    representation as it is."""
    kind, required, params, defaults = GRIDS[index]
    term = (kind, required)
    plain = repr(build(term))
    for name, value in HIDDEN:
        if name == 'preprocessor' and kind == 'email':
            continue
        found = repr(build(with_params(term, **{name: value})))
        if found != plain:
            raise Violation('%r with %s=%r: represented as %s instead of %s' % (term, name, value,
                found, plain))
        st.step()
    for name in ['name', 'title', 'default', 'constant', 'description', 'minimum', 'maximum',
            'min_length', 'max_length', 'segments', 'required', 'nonnull', 'ignore_null', 'unique',
            'nonempty']:
        if name in ('minimum', 'maximum', 'min_length', 'max_length', 'segments', 'unique') and \
                name not in [n for n, v in params]:
            continue
        value = False if name in ('required', 'nonnull', 'ignore_null', 'unique', 'nonempty') \
            else None
        found = repr(build(with_params(term, **{name: value})))
        if found != plain:
            raise Violation('%r with %s=%r: represented as %s instead of %s' % (term, name, value,
                found, plain))
        st.step()
        st.trace('not shown')
    st.state(index)

def run_wrapped(st, index, ws):
    term, other = LEAVES[index], LEAVES[(index * 7 + 3) % len(LEAVES)]
    for w in ws:
        term, other = WRAP[w](term, other), other
    check(build(term), term)
    st.step()
    st.trace('nested')
    st.state(index, ws)

def run_cycles(st, length):
    """Placeholders defined to be a field around them, at every depth of the cycle."""
    import scheme
    makers = {
        'Structure': lambda inner: scheme.Structure({'a': inner, 'b': scheme.Integer(minimum=0)}),
        'Structure*': lambda inner: scheme.Structure({'x': {'a': inner}, 'y': {}},
            polymorphic_on='kind'),
        'Sequence': lambda inner: scheme.Sequence(inner, max_length=9),
        'Map': lambda inner: scheme.Map(inner, required_keys='rk'),
        'Tuple': lambda inner: scheme.Tuple([inner, scheme.Text(name='leaf')]),
        'Union': lambda inner: spec.field_class('union')([inner, scheme.Date()]),
    }
    for kinds in itertools.product(sorted(makers), repeat=length):
        for twice in (False, True):
            hole = scheme.Undefined()
            field = hole
            made = []
            for kind in kinds:
                field = makers[kind](field)
                made.append(field)
            if twice:
                field = scheme.Tuple([field, makers[kinds[0]](hole)], name='top')
                made.append(field)
            hole.define(field)
            for start in made:
                st.step()
                what = '%r around itself, from %s' % (kinds, type(start).__name__)
                try:
                    text = repr(start)
                except RecursionError:
                    raise Violation('%s: no end of the representation' % what)
                if len(text) > 2000 * 4 ** len(made):
                    raise Violation('%s: a representation of %d characters' % (what, len(text)))
                found = read(text, what)
                if found.kind != type(start).__name__:
                    raise Violation('%s: represented as %s' % (what, text[:600]))
                # down to where it comes back
                shown = set()
                pending = [found]
                while pending:
                    node = pending.pop()
                    if isinstance(node, Node):
                        shown.add(node.kind)
                        pending.extend(node.shown.values())
                    elif isinstance(node, dict):
                        pending.extend(node.values())
                    elif isinstance(node, (list, tuple)):
                        pending.extend(node)
                missing = set(type(m).__name__ for m in made) - shown
                if missing:
                    raise Violation('%s: represented as %s, without %s' % (what, text[:600],
                        sorted(missing)))
                try:
                    start.process(5.5)
                except RecursionError:
                    pass        # a union of itself
                except scheme.ValidationError as exception:
                    if 'Field: ' + repr(exception.field) not in str(exception):
                        raise Violation('%s: the text of its error lacks it:\n%s' % (what,
                            exception))
                if repr(start) != text:
                    raise Violation('%s: represented differently the second time' % what)
                st.trace('recursive')
        st.state(kinds)

STEPS = ('clone', 'rename', 'copy', 'deepcopy', 'described', 'pickled', 'processed', 'default')

def derive(step, field, term):
    """The field and the term after a step; None if the step is not for the field."""
    import scheme
    if step == 'clone':
        return field.clone(), term
    if step == 'rename':
        if term[0] == 'field':
            return None
        return field.clone(name='renamed', required=True), with_params(term, name='renamed',
            required=True)
    if step == 'copy':
        return copy.copy(field), term
    if step == 'deepcopy':
        return copy.deepcopy(field), term
    if step == 'described':
        if term[0] in ('definition', 'object', 'error') or \
                isinstance(term[1].get('enumeration'), list):
            return None
        return scheme.Field.reconstruct(field.describe()), term
    if step == 'pickled':
        if term[0] in ('email', 'token', 'text', 'uuid'):
            return None
        try:
            return pickle.loads(pickle.dumps(field)), term
        except Exception:
            return None
    if step == 'default':
        if term[0] != 'integer':
            return None
        return field.clone(minimum=-77, default=3), with_params(term, minimum=-77, default=3)
    if step == 'processed':
        for value in (None, 5, 'x', [], {}):
            for phase in ('inbound', 'outbound'):
                try:
                    field.process(value, phase, True)
                except Exception:
                    pass
        return field, term

def run_histories(st, index, depth):
    kind, required, params, defaults = GRIDS[index]
    term = with_params((kind, required), **dict((name, values[0]) for name, values in params
        if name != 'key_order'))
    for length in range(1, depth + 1):
        for steps in itertools.product(STEPS, repeat=length):
            field, now = build(term), term
            for step in steps:
                found = derive(step, field, now)
                if found is None:
                    break
                before, was = repr(field), now
                previous, (field, now) = field, found
                if repr(previous) != before:
                    raise Violation('%r: %s altered it to %r' % (was, step, previous))
                st.step()
            check(field, now, '%r after %r' % (term, steps))
            st.trace('derived')
            st.state(index, steps)

def run_undefined(st):
    """Schemas of which a part is still undefined are represented, and are what they are once it is
    defined."""
    import scheme
    target = ('integer', {'minimum': 3})
    for w in range(len(WRAP)):
        for v in [None] + list(range(len(WRAP))):
            hole = scheme.Undefined()
            spec.HOLES[1] = hole
            inner = ('hole', {'id': 1})
            make = lambda leaf: WRAP[w](WRAP[v](leaf, ('text', {})) if v is not None else leaf,
                ('text', {}))
            field = build(make(inner))
            text = repr(field)
            if not text.startswith(type(field).__name__ + '('):
                raise Violation('%r: represented as %s' % (make(inner), text))
            hole.define(build(target))
            check(field, make(target), '%r once defined' % (make(inner), ))
            st.step(2)
            st.trace('undefined')
            st.state(w, v)

def run_elements(st):
    """Elements are represented by their class and whichever of id, name and title they have."""
    import scheme
    values = [None, 'x', 0, '', "it's"]
    for attrs in itertools.product((True, False), repeat=3):
        declared = [a for a, given in zip(('id', 'name', 'title'), attrs) if given]
        structure = dict((a, scheme.Field()) for a in declared)
        structure['other'] = scheme.Text()
        cls = type(scheme.Element)('Some', (scheme.Element, ), {
            'schema': scheme.Structure(structure, name='some'), '__module__': __name__})
        for picked in itertools.product(values, repeat=len(declared)):
            given = dict(zip(declared, picked))
            instance = cls(other='unseen', **given)
            wanted = dict((k, v) for k, v in given.items() if v is not None)
            text = repr(instance)
            found = eval(text, {'Some': lambda **shown: shown})
            if found != wanted or 'unseen' in text:
                raise Violation('element with %r represented as %s' % (given, text))
            st.step()
            st.trace('element')
        st.state(tuple(declared))

def run_surrogates(st):
    """Surrogates are represented by what they implement and hold."""
    from scheme.surrogate import surrogate
    class Impl(surrogate):
        schemas = None
    for cls in (surrogate, Impl):
        for value in ({}, {'a': 1}, {'a': {'b': [None]}, 'c': 'x'}):
            text = repr(cls(value))
            head, _, rest = text.partition('(')
            if head != cls.surrogate or eval(rest[:-1]) != value or rest[-1:] != ')':
                raise Violation('surrogate %s of %r represented as %s' % (cls.surrogate, value,
                    text))
            st.step()
            st.trace('surrogate')
            st.state(cls.__name__, repr(value))
