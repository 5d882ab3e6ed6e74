"""All sequences of structure edits up to a bounded length, on shared field objects, from several
initial structures; after every step every structure that the history produced is compared with a
dict model, with a freshly declared structure on probe data, and the fields handed in with what
they were."""

import itertools

from mc.core import Violation
from mc.freeze import behaviour, freeze

BOUNDS = {
    'quick': 'every sequence of up to 2 of 157 edits over 3 names and 2 field types from 4 '
        'initial structures with various other parameters; the history continues on copies too',
    'thorough': 'as quick, and every sequence of 3 of about 80 of the edits',
}
ASSUMPTIONS = ['structures are not polymorphic']

NAMES = ('a', 'b', 'c')
TYPES = ('n', 't')          # Integer(required), Text(default)

def make(kind, name=None):
    from scheme import Integer, Text
    if kind == 'n':
        return Integer(name=name, required=True, minimum=1)
    if kind == 's':
        from scheme import Sequence
        return Sequence(Text(), name=name)
    return Text(name=name, default='d', nonnull=True)

class Pool(dict):
    """The field objects of one history, shared by all its edits."""
    def __missing__(self, key):
        field = self[key] = make(*key)
        return field

# an edit: (kind, [(key, type, declared name)], flag)
def groups():
    for name in NAMES:
        for kind in TYPES:
            for declared in (None, name, 'b' if name != 'b' else 'c'):
                yield ((name, kind, declared), )
    for first, second in itertools.permutations(NAMES, 2):
        yield ((first, 'n', None), (second, 't', second))
        yield ((first, 't', 'q'), (second, 't', 'q'))
    yield tuple((n, 'n', 'c') for n in NAMES)
    yield (('c', 't', None), ('a', 'n', 'a'), ('b', 't', None))

def edits(small=False):
    for name in NAMES:
        for kind in TYPES:
            for overwrite in (False, True):
                yield ('insert', ((name, kind, name), ), overwrite)
    for name in NAMES:
        yield ('insert', ((name, 's', name), ), False)
    yield ('insert', (('q', 'n', None), ), True)
    yield ('insert', (('q', None, None), ), True)
    for pairs in groups():
        for prefer in (False, True):
            yield ('merge', pairs, prefer)
        yield ('extend', pairs, None)
        yield ('replace', pairs, None)
    for size in (0, 1, 2, 3):
        for names in itertools.combinations(NAMES, size):
            yield ('remove', names, None)
    yield ('remove', ('zz', 'a', 'a'), None)
    for kind in ('merge', 'extend', 'replace'):
        yield (kind, (), None)

EDITS = list(edits())
SOME = [i for i, e in enumerate(EDITS) if e[0] in ('insert', 'remove') or i % 3 == 0]
PHASES = (('inbound', False), ('outbound', True))
INITIAL = [{}, {'a': 'n'}, {'a': 't', 'b': 'n'}, {'c': 's', 'b': 't', 'a': 'n'}]

VALUES = [{}, {'a': 1}, {'b': 1}, {'c': 1}, {'a': 'x', 'b': 'y', 'c': 'z'}, {'a': 1, 'b': 2, 'c': 3},
    {'a': 1, 'b': 'y'}, {'b': 2, 'c': 'z'}, {'a': ['x'], 'b': ['y'], 'c': ['z']}, {'a': None, 'b':
    None, 'c': None}, {'a': 0, 'b': 0, 'c': 0}, {'q': 1, 'a': 1}, {'a': 'x', 'c': 2}]

def before(value):
    return dict((k, v) for k, v in value.items() if v != 5)

def instantiator(field, value, key=None):
    return [sorted(value), key]

def extractor(field, value):
    return dict(value)

# the other parameters of the initial structures
PARAMS = [
    {'strict': True},
    {'strict': True, 'key_order': ['q', 'b', 'a'], 'description': 'text', 'nonnull': True,
        'mark': [1], 'default': {}},
    {'strict': False, 'required': True, 'title': 'titled', 'notes': 'noted', 'ignore_null': True,
        'aspects': {'deep': {'x': 1}}, 'key_order': ['c', 'a']},
    {'strict': True, 'preprocessor': before, 'instantiator': instantiator, 'extractor': extractor,
        'errors': 'mine'},
]
KEPT = ('name', 'strict', 'key_order', 'description', 'nonnull', 'required', 'title', 'notes',
    'ignore_null', 'aspects', 'preprocessor', 'instantiator', 'extractor', 'polymorphic_on',
    'constant', 'default')

def declare(content, number, name='s'):
    from scheme import FieldError, Structure
    params = dict(PARAMS[number], name=name)
    if params.get('errors'):
        params['errors'] = [FieldError(token, 'mine', '%(field)s is mine') for token in ('invalid',
            'unknown')]
    return Structure(content, **params)

EXPECTED = {}

def texts(structure):
    """How refusals are worded."""
    found = []
    for value in (5, {'zz': 1}, {'a': [], 'zz': 1}):
        try:
            found.append(freeze(structure.process(value)))
        except Exception as exception:
            found.append(freeze(exception.serialize()))
    return found

def answer(function, *args):
    try:
        return freeze(function(*args))
    except Exception as exception:
        return type(exception).__name__

def views(structure):
    found = [structure.has_required_fields, freeze(structure.describe()), texts(structure)]
    for value in VALUES[:4]:
        found.append(answer(structure.extract, value))
        if structure.instantiator:
            found.append(answer(structure.instantiate, value, 'k'))
    return found

def expected(model, number):
    """Behaviour of a structure declared with this content from the start."""
    key = (tuple(sorted(model.items())), number)
    if key not in EXPECTED:
        fresh = declare(dict((n, make(k)) for n, k in model.items()), number)
        EXPECTED[key] = (behaviour(fresh, VALUES, PHASES), views(fresh), dict((name,
            getattr(fresh, name)) for name in KEPT))
    return EXPECTED[key]

def audit(found, pool, history):
    for number, (structure, model, strict) in enumerate(found):
        content = structure.structure
        if set(content) != set(model):
            raise Violation('%r: structure %d has fields %r, expected %r' % (history, number,
                sorted(content), sorted(model)))
        for name, kind in model.items():
            field = content[name]
            if field.name != name:
                raise Violation('%r: field of structure %d stored as %r is named %r' % (history,
                    number, name, field.name))
            if structure.get(name) is not field:
                raise Violation('%r: get(%r) gives %r' % (history, name, structure.get(name)))
        if structure.get('zz', 5) != 5:
            raise Violation('%r: get() of an absent name gives %r' % (history, structure.get('zz')))
        outcomes, views_of, kept = expected(model, strict)
        actual = behaviour(structure, VALUES, PHASES)
        if actual != outcomes:
            for i, (new, old) in enumerate(zip(actual, outcomes)):
                if new != old:
                    raise Violation('%r: structure %d with %r: %r (phase %d) gives %r rather than'
                        ' %r' % (history, number, model, VALUES[i // 2], i % 2, new, old))
        for name, value in kept.items():
            if getattr(structure, name) != value:
                raise Violation('%r: %s of structure %d is %r, from %r' % (history, name, number,
                    getattr(structure, name), value))
        actual = views(structure)
        if actual != views_of:
            for new, old in zip(actual, views_of):
                if new != old:
                    raise Violation('%r: structure %d: %r rather than %r (description, extraction,'
                        ' instantiation or wording)' % (history, number, new, old))
    for (kind, declared), field in pool.items():
        if declared is not None and field.name != declared:
            raise Violation('%r: a field passed in as %r was renamed to %r' % (history, declared,
                field.name))

def apply(edit, target, found, pool, history):
    """One edit of found[target]; the model follows the documentation."""
    kind, items, flag = edit
    structure, model, strict = found[target]
    if kind == 'remove':
        structure.remove(*items)
        for name in items:
            model.pop(name, None)
        return
    if kind == 'insert':
        (name, fieldtype, declared), = items
        if fieldtype is None or declared is None:
            try:
                structure.insert('text' if fieldtype is None else make(fieldtype), flag)
            except (TypeError, ValueError):
                return
            raise Violation('%r: insert of an unnamed field or another object did not raise' % (
                history, ))
        structure.insert(pool[fieldtype, declared], flag)
        if flag or name not in model:
            model[name] = fieldtype
        return
    given = dict((name, pool[fieldtype, declared]) for name, fieldtype, declared in items)
    passed = dict(given)
    if kind == 'merge':
        structure.merge(given, **({} if flag is None else {'prefer': flag}))
        for name, fieldtype, declared in items:
            if flag or name not in model:
                model[name] = fieldtype
    else:
        copied = dict(model)
        result = getattr(structure, kind)(given)
        for name, fieldtype, declared in items:
            if kind == 'extend' or name in model:
                copied[name] = fieldtype
        if kind == 'extend' or set(model) & set(given):
            if result is structure:
                raise Violation('%r: %s gave the structure itself' % (history, kind))
            found.append((result, copied, strict))
        elif result is not structure:
            raise Violation('%r: replacing nothing gave another structure' % (history, ))
    if given != passed:
        raise Violation('%r: the mapping passed in was modified' % (history, ))

def placeholders(st):
    """All sequences of up to three edits around placeholders, which are defined in any order."""
    from scheme import Field, Integer, Structure, Text
    from scheme.field import Undefined
    edits = [(kind, name) for kind in ('insert', 'overwrite', 'merge', 'prefer', 'remove', 'extend',
        'replace') for name in ('a', 'z')]
    for length in (0, 1, 2):
        for history in itertools.product(edits, repeat=length):
            for order in ((0, 1), (1, 0)):
                later = [Undefined(), Undefined()]
                structure = Structure({'a': later[0], 'b': later[1], 'c': Text()})
                model = {'a': 'later', 'b': 'other', 'c': 'text'}
                all = [(structure, model)]
                for kind, name in history:
                    structure, model = all[-1]
                    field = Integer(name=name)
                    if kind in ('insert', 'overwrite'):
                        structure.insert(field, kind == 'overwrite')
                    elif kind in ('merge', 'prefer'):
                        structure.merge({name: field}, kind == 'prefer')
                    elif kind == 'remove':
                        structure.remove(name)
                        model.pop(name, None)
                        continue
                    else:
                        made = getattr(structure, kind)({name: field})
                        if made is not structure:
                            model = dict(model)
                            all.append((made, model))
                    present = name in model
                    if present and kind not in ('insert', 'merge') or not present and \
                            kind != 'replace':
                        model[name] = 'integer'
                if any(isinstance(structure.structure.get(name), Field) for structure, model in all
                        for name, kind in model.items() if kind in ('later', 'other')):
                    raise Violation('%r: a placeholder was replaced' % (history, ))
                for n in order:
                    later[n].define((Integer(minimum=9), Text(nonempty=True))[n])
                for structure, model in all:
                    found = dict((k, 'later' if getattr(v, 'minimum', None) == 9 else 'other' if
                        getattr(v, 'nonnull', None) else getattr(v, 'type', repr(v))) for k, v in
                        structure.structure.items())
                    if found != model:
                        raise Violation('after %r of a structure with placeholders it has %r, '
                            'expected %r' % (history, found, model))
                    st.step()
                st.state('placeholders', history, order)
    st.trace('placeholders')

def cases(tier):
    yield ('placeholders', )
    for initial in range(len(INITIAL)):
        for first in range(len(EDITS)):
            yield (initial, (first, ), 2)
    if tier != 'quick':
        for first in SOME:
            for second in SOME:
                for initial in range(len(INITIAL)):
                    yield (initial, (first, second), 3)

def run(case, st):
    if case[0] == 'placeholders':
        return placeholders(st)
    initial, prefix, depth = case
    strict = initial
    for rest in itertools.product(SOME if depth > 2 else range(len(EDITS)), repeat=depth - len(prefix)):
        sequence = prefix + rest
        # edits after a copying one are made on the original or on the copy
        for side in (0, -1):
            history = [EDITS[i] for i in sequence]
            if side and not any(e[0] in ('extend', 'replace') for e in history[:-1]):
                continue
            pool = Pool()
            model = dict(INITIAL[initial])
            found = [(declare(dict((n, make(k)) for n, k in model.items()), initial), model,
                initial)]
            for edit in history:
                apply(edit, side if side == 0 else len(found) - 1, found, pool, history)
                st.step()
                st.state(*[tuple(sorted(m.items())) for _, m, _ in found])
            audit(found, pool, (INITIAL[initial], side, history))
            st.trace('structures: %d' % len(found))
