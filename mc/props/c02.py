"""All schemas of bounded nesting x combinations of representative valid values: the serialized
form is compared with the model and with native serializability, then read back and re-serialized."""

import datetime
import itertools

from mc import ref, spec
from mc.core import Violation
from mc.domains import *
from mc.observe import attempt, compare, expect, Raised
from mc.ref import Aware, same

BOUNDS = {'quick': 'nesting depth 2 over all leaves, all ordered pairs of leaves, depth 3 over'
    ' representative leaves',
    'thorough': 'nesting depth 3 over all leaves, all ordered triples of leaf types, depth 4 over'
    ' representative leaves'}

def cases(tier):
    all_leaves = leaves()
    for i in range(len(all_leaves)):
        yield ('leaf', i)
        yield ('told', i)
    for i in range(len(all_leaves)):
        for j in range(len(all_leaves)):
            yield ('pair', i, j)
    for i, w in itertools.product(range(len(all_leaves)), range(len(WRAPPERS))):
        yield ('nest', i, w)
    for w in itertools.product(range(len(WRAPPERS)), repeat=2):
        yield ('deep', w)
    for w in itertools.product(range(len(WRAPPERS)), repeat=3):
        yield ('few', w)
    if tier != 'quick':
        for i in range(len(all_leaves)):
            for j in range(len(all_leaves)):
                yield ('triple', i, j)
        for w in itertools.product(range(len(WRAPPERS)), repeat=3):
            yield ('deep', w)
        for w in itertools.product(range(len(WRAPPERS)), repeat=4):
            yield ('few', w)
    yield ('special', )
    yield ('wide', )

def nest(pairs, wrappers):
    for term, values in pairs:
        for w in wrappers:
            found = WRAPPERS[w](term, values)
            if not found:
                break
            term, values = found
        else:
            yield term, values

def is_native(value, binary=False):
    if value is None or isinstance(value, (bool, int, float, str)):
        return True
    if isinstance(value, bytes):
        return binary
    if isinstance(value, (list, tuple)):
        return all(is_native(v, binary) for v in value)
    if isinstance(value, dict):
        return all(is_native(k, binary) and is_native(v, binary) for k, v in value.items())
    return False

def canonical(term, value):
    """The native value expected back: instants to the second, times to the second."""
    kind, params = term
    if value is None:
        return None
    if kind == 'datetime':
        moment = ref.instant(value, params.get('utc', False))
        return Aware(moment.replace(microsecond=0), params.get('utc', False))
    if kind == 'time':
        return value.replace(microsecond=0)
    if kind == 'structure':
        fields = params['structure']
        if params.get('polymorphic_on'):
            on, told = params['polymorphic_on'], ('text', {})
            if not isinstance(on, str):
                on, told = on[1]['name'], on
            fields = dict(fields[value[on]])
            fields[on] = told
        return type(value)((k, canonical(fields[k], v)) for k, v in value.items())
    if kind == 'sequence':
        return [canonical(params['item'], v) for v in value]
    if kind == 'map':
        return dict((k, canonical(params['value'], v)) for k, v in value.items())
    if kind == 'tuple':
        return tuple(canonical(t, v) for t, v in zip(params['values'], value))
    if kind == 'union':
        return canonical(params['fields'][0 if isinstance(value, bool) else 1], value)
    return value

def roundtrip(field, term, value, st):
    wanted = canonical(term, value)
    what = '%r value %r' % (term, value)
    serialized = attempt(field.serialize, value)
    if isinstance(serialized, Raised):
        raise Violation('%s: serialize %r' % (what, serialized))
    if not is_native(serialized, 'binary' in repr(term)):
        raise Violation('%s: serialized to non-native %r' % (what, serialized))
    compare(serialized, expect(ref.process, term, value, 'outbound', True), what + ' serialize')
    back = attempt(field.unserialize, serialized)
    if isinstance(back, Raised) or not same(back, wanted):
        raise Violation('%s: serialized as %r, read back as %r, expected %r' % (what, serialized,
            back, wanted))
    again = attempt(field.serialize, back)
    if isinstance(again, Raised) or not same(again, serialized):
        raise Violation('%s: serialized as %r, then as %r' % (what, serialized, again))
    native = attempt(field.process, back, 'inbound', False)
    if isinstance(native, Raised) or not same(native, wanted):
        raise Violation('%s: read back as %r, which is processed as %r' % (what, back, native))
    st.step(4)
    st.trace('depth %d' % repr(term).count("', {"))
    st.state(repr(term), repr(value))

def told(leaf):
    """Structures told apart by fields of every kind whose values aren't text when native."""
    term, values = leaf
    for on, x, y in ((('date', {}), date(1, 1, 1), date(9999, 12, 31)), (('time', {}), time(0),
            time(23, 59, 59)), (('decimal', {}), D('1.50'), D('-0.1')), (('integer', {}), 0, -7),
            (('float', {}), 0.0, 1.5), (('boolean', {}), False, True), (('enumeration',
            {'enumeration': ['', 0, 1.5]}), '', 0)):
        on = (on[0], dict(on[1], name='kind'))
        outer = ('structure', {'structure': {x: {'a': term, 'b': ('text', {})}, y: {}},
            'polymorphic_on': on})
        found = [{'kind': y}, {'kind': x}] + [{'kind': x, 'a': v, 'b': 't'} for v in values[:4]]
        yield outer, found
        yield ('sequence', {'item': outer}), [[a, b] for a in found[:3] for b in found]
        yield ('structure', {'structure': {y: {'p': outer}, x: {}}, 'polymorphic_on': on}), [
            {'kind': y, 'p': v} for v in found]

def run(case, st):
    all_leaves = leaves()
    kind = case[0]
    if kind == 'leaf':
        term, values = all_leaves[case[1]]
        work = [(term, values + [None])]
    elif kind == 'pair':
        (first, ones), (second, others) = all_leaves[case[1]], all_leaves[case[2]]
        ones, others = ones[:4] + [None], others[:4] + [None]
        product = list(itertools.product(ones, others))
        work = [(('structure', {'structure': {'a': first, 'b': second}}),
            [{'a': a, 'b': b} for a, b in product]),
            (('tuple', {'values': [first, second]}), product)]
    elif kind == 'triple':
        (first, ones), (second, others) = all_leaves[case[1]], all_leaves[case[2]]
        work = []
        for third, more in all_leaves:
            product = list(itertools.product(ones[:2], others[:2], more[:2]))
            work.append((('tuple', {'values': [first, second, third]}), product))
            work.append((('structure', {'structure': {'a': first, 'b': ('sequence',
                {'item': second}), 'c': third}}),
                [{'a': a, 'b': [b, b], 'c': c} for a, b, c in product]))
    elif kind == 'nest':
        work = nest([all_leaves[case[1]]], case[2:])
    elif kind == 'deep':
        work = nest(all_leaves, case[1])
    elif kind == 'few':
        work = nest(few_leaves(), case[1])
    elif kind == 'wide':
        work = [(term, values) for term, values, wrong in wide_pairs()]
    elif kind == 'told':
        work = told(all_leaves[case[1]])
    elif kind == 'special':
        return special(st)
    for term, values in work:
        field = spec.build(term)
        for value in values:
            roundtrip(field, term, value, st)

def special(st):
    """Fields whose native values are objects."""
    import collections
    import scheme
    from scheme import Definition, Error, Object, Sequence, Structure, Map, Tuple
    from scheme.exceptions import StructuralError, ValidationError

    terms = [term for term, values in leaves() if term[0] not in ('binary', )]
    terms += [term for term, values in wrapped(few_leaves())]
    def show(field):
        return field.describe()
    fields = [spec.build(term) for term in terms]
    errors = [StructuralError({'token': 'x', 'title': 't', 'message': 'm'}),
        StructuralError({'token': 'x', 'title': 't', 'message': 'm'}, {'token': 'y', 'title': 't',
            'message': 'n'}), StructuralError(token='z', title='t', message='m')]
    for bad in ({'a': 'x', 'b': [1, 'x', 2]}, {'c': 1}, {'b': []}, 5):
        try:
            Structure({'a': scheme.Integer(), 'b': Sequence(scheme.Integer(), min_length=1)},
                name='s').process(bad)
        except ValidationError as exception:
            errors.append(exception)
    objects = [collections.OrderedDict, datetime.date, scheme.Text]

    def show_error(error):
        return error.serialize()

    for leaf, values, shown, native in (
            (Definition, fields, show, is_native),
            (Object, objects, lambda v: v, is_native),
            (Error, errors, show_error, is_native)):
        for wrap, pack, unpack in (
                (lambda f: f, lambda v: v, lambda v: v),
                (lambda f: Sequence(f), lambda v: [v, v], lambda v: v[1]),
                (lambda f: Structure({'a': f}), lambda v: {'a': v}, lambda v: v['a']),
                (lambda f: Map(f), lambda v: {'k': v}, lambda v: v['k']),
                (lambda f: Tuple([f, f]), lambda v: (None, v), lambda v: v[1])):
            field = wrap(leaf())
            for value in values:
                before = repr(shown(value))
                serialized = field.serialize(pack(value))
                if not native(serialized):
                    raise Violation('%r serialized to non-native %r' % (value, serialized))
                kept = repr(serialized)
                back = field.unserialize(serialized)
                if repr(serialized) != kept:
                    raise Violation('unserializing %s altered it' % kept)
                if repr(shown(unpack(back))) != before:
                    raise Violation('%s %s read back as %s' % (leaf.__name__, before,
                        repr(shown(unpack(back)))))
                if repr(field.serialize(back)) != kept:
                    raise Violation('%s serialized as %s then differently' % (leaf.__name__, kept))
                st.step(3)
                st.trace(leaf.__name__)
                st.state(leaf.__name__, before, repr(type(field)))
