"""All markings of all nodes of a set of schema trees are filtered by all queries, all assignments
of transformer answers to all nodes are applied, and every tree is visited; the resulting trees,
the transformer's and visitor's calls, and the identity of unchanged schemas are compared with a
tree model, and the original with what it was."""

import itertools

from mc.core import Violation
from mc.freeze import freeze, tree
from mc.spec import build, children

L = ('leaf', ())

def S(**fields): return ('structure', tuple(sorted(fields.items())))
def P(**variants):
    return ('poly', tuple((i, tuple(sorted(f.items()))) for i, f in sorted(variants.items())))
def Q(item): return ('sequence', (('item', item), ))
def M(value): return ('map', (('value', value), ))
def T(*values): return ('tuple', tuple(enumerate(values)))
def U(*fields): return ('union', tuple(enumerate(fields)))

SMALL = [L, S(), S(a=L), S(a=L, b=L), Q(L), M(L), T(L, L), U(L, L), P(x={'a': L}, y={'b': L}),
    S(a=S(b=L)), S(a=Q(L)), Q(S(a=L)), M(S(a=L)), T(S(a=L)), U(S(a=L)), S(a=M(L)), S(a=T(L)),
    S(a=U(L)), Q(Q(L)), M(Q(L)), P(x={'a': S(b=L)}), P(x={}, y={'a': L}), Q(P(x={'a': L}))]
LARGE = [S(a=L, b=L, c=L), S(a=Q(L), b=L), Q(S(a=L, b=L)), M(S(a=L, b=L)), T(S(a=L), L, L),
    U(S(a=L, b=L), L), P(x={'a': S(q=L, r=L)}, y={'a': L, 'b': L}), S(a=T(L, L), b=L),
    S(a=U(L, L), b=L), S(a=P(x={'q': L}, y={}), b=L), S(a=S(b=S(c=L)), d=L), M(Q(M(L))),
    S(a=M(L), b=Q(S(c=L))), P(x={'a': Q(L)}, y={'b': M(S(q=L))}), T(P(x={'a': L}, y={'a': L}), L),
    P(x={'a': P(y={'b': L, 'c': L})}), Q(T(L, S(a=L), Q(L))), U(Q(L), M(S(a=L)), T(L))]

BOUNDS = {
    'quick': '%d trees with all markings of two attributes with three values for 9 queries, %d '
        'larger trees with all markings of one attribute; all transformer answers of 4 kinds on '
        'all nodes in 3 styles of other parameters, which have to survive; keys and discriminators included' % (len(SMALL), len(LARGE)),
    'thorough': 'as quick, larger trees with all markings of two attributes (two values each)',
}

def nodes(shape, path=()):
    yield path, shape[0]
    for place, child in below(shape):
        for found in nodes(child, path + (place, )):
            yield found

def below(shape):
    kind, nested = shape
    if kind == 'poly':
        return [((identity, name), child) for identity, fields in nested
            for name, child in fields]
    return list(nested)

def trimmings(uid, kind, style):
    """The parameters, besides the queried ones, that a node has in one of three styles."""
    if style == 0:
        return {}
    if style == 1:
        found = dict(required=True, nonnull=True, description='about ' + uid)
    else:
        found = dict(title='title ' + uid, notes=uid, required=len(uid) % 2 == 0, extra=[uid])
    if kind in ('sequence', 'map') and style == 1:
        found.update(min_length=1, max_length=len(uid))
    elif kind == 'sequence':
        found.update(unique=True)
    elif kind in ('structure', 'poly') and style == 1:
        found.update(strict=False)
    elif kind in ('structure', 'poly'):
        found.update(key_order=['b', 'kind', 'a', 'c'])
    elif kind == 'map':
        found.update(required_keys=['a'])
    elif kind == 'leaf':
        found.update({'minimum': len(uid)} if style == 1 else {'default': len(uid)})
    return found

STYLES = {}     # uid -> trimmings of the schema last constructed

def construct(shape, marks, path=(), style=0):
    """The real schema; each node carries its path as the aspect uid."""
    from scheme import Integer, Map, Sequence, Structure, Text, Tuple
    from scheme.fields.union import Union
    kind, nested = shape
    params = dict(marks.get(path, {}), uid='/'.join(map(repr, path)) or 'root')
    sub = lambda place, child: construct(child, marks, path + (place, ), style)
    if not path:
        STYLES.clear()
    STYLES[params['uid']] = trimmings(params['uid'], kind, style)
    params.update(STYLES[params['uid']])
    if kind == 'leaf':
        return Integer(**params)
    if kind == 'structure':
        return Structure(dict((n, sub(n, c)) for n, c in nested), **params)
    if kind == 'poly':
        return Structure(dict((i, dict((n, sub((i, n), c)) for n, c in fields))
            for i, fields in nested), polymorphic_on='kind', **params)
    if kind == 'sequence':
        return Sequence(sub('item', nested[0][1]), **params)
    if kind == 'map':
        return Map(sub('value', nested[0][1]), key=Text(uid='key', **dict.fromkeys('ab')),
            **params)
    if kind == 'tuple':
        return Tuple([sub(n, c) for n, c in nested], **params)
    return Union([sub(n, c) for n, c in nested], **params)

def shown(field):
    """The tree of a real schema: type, uid, name and children by place."""
    from scheme import Map, Sequence, Structure, Tuple
    from scheme.fields.union import Union
    head = (type(field).__name__, field.uid)
    for name, value in STYLES.get(field.uid, {}).items():
        if getattr(field, name) != value:
            raise Violation('%s of %s became %r, from %r' % (name, field.uid,
                getattr(field, name), value))
    if isinstance(field, Structure) and field.polymorphic_on:
        for identity, fields in field.structure.items():
            disc = fields.get('kind')
            if disc is None or disc.constant != identity or disc.name != 'kind':
                raise Violation('variant %r lost its discriminator: %r' % (identity, fields))
        found = [((i, n), shown(c)) for i, fields in field.structure.items()
            for n, c in fields.items() if n != 'kind']
        found += [((i, ), None) for i in field.structure]
        named(field.structure.values())
    elif isinstance(field, Structure):
        found = [(n, shown(c)) for n, c in field.structure.items()]
        named([field.structure])
    elif isinstance(field, Sequence):
        found = [('item', shown(field.item))]
    elif isinstance(field, Map):
        if field.key is None or field.key.uid != 'key':
            raise Violation('key field of a map became %r' % (field.key,))
        found = [('value', shown(field.value))]
    elif isinstance(field, Tuple):
        found = [(i, shown(c)) for i, c in enumerate(field.values)]
    elif isinstance(field, Union):
        found = [(i, shown(c)) for i, c in enumerate(field.fields)]
    else:
        found = []
    return head + (sorted(found, key=lambda f: repr(f[0])), )

def works(tree, field, what):
    """A schema that was derived accepts a value with everything that its tree has."""
    value = sample(tree)
    for phase in ('inbound', 'outbound'):
        try:
            found = field.process(value, phase, True)
        except Exception as exception:
            found = exception
        if found != value:
            raise Violation('%s: the result turns %r into %r' % (what, value, found))

def sample(tree):
    kind, _, places = tree
    if kind == 'Integer':
        return 50
    if kind == 'Text':
        return 'x'
    if kind == 'Structure':
        if any(child is None for _, child in places):
            identity = [place for place, child in places if child is None][0][0]
            return dict([('kind', identity)] + [(place[1], sample(child)) for place, child in places
                if place[0] == identity and child is not None])
        return dict((place, sample(child)) for place, child in places)
    nested = dict(places)
    if kind == 'Sequence':
        return [sample(nested['item'])]
    if kind == 'Map':
        return {'a': sample(nested['value'])}
    if kind == 'Tuple':
        return tuple(sample(child) for _, child in sorted(places))
    return sample(nested[0])

def named(structures):
    for structure in structures:
        for name, field in structure.items():
            if field.name != name:
                raise Violation('field stored as %r is named %r' % (name, field.name))

TYPES = {'leaf': 'Integer', 'structure': 'Structure', 'poly': 'Structure', 'sequence': 'Sequence',
    'map': 'Map', 'tuple': 'Tuple', 'union': 'Union'}

def picture(shape, keep, path=()):
    """Expected tree; ``keep(path)`` gives a replacement tree, None to remove, or True."""
    answer = keep(path)
    if answer is not True:
        return answer
    found = []
    for place, child in below(shape):
        sub = picture(child, keep, path + (place, ))
        if sub is not None:
            found.append((place, sub))
    if shape[0] == 'poly':
        found += [((i, ), None) for i, _ in shape[1]]
    return (TYPES[shape[0]], '/'.join(map(repr, path)) or 'root', sorted(found,
        key=lambda f: repr(f[0])))

# attributes are compared by value: what is asked for is never the object that a field has
VALUE, ASKED = ('v', (1, 'x')), ('v', (1, 'x' * int('1')))
assert VALUE == ASKED and VALUE is not ASKED

QUERIES = [{'a': True}, {'a': False}, {'b': True}, {'a': True, 'b': True}, {'a': True, 'b': False},
    {'a': False, 'b': False}, {'b': ASKED, 'a': True}, {'b': ASKED}, {}]

def matches(mark, query, all):
    if not query:
        return True
    results = [(mark.get(name) or False) == value for name, value in query.items()]
    return (min if all else max)(results)

class Broken(Exception):
    pass

def filtered(shape, marks, query, all):
    """(tree or None, changed)"""
    state = {'changed': False}
    def walk(shape, path):
        if not matches(marks.get(path, {}), query, all):
            return None
        found = []
        if not query:
            return picture(shape, lambda p: True, path) if not path else None
        if shape[0] == 'union':
            return whole(shape, path)
        for place, child in below(shape):
            sub = walk(child, path + (place, ))
            if sub is None:
                state['changed'] = True
                if shape[0] in ('sequence', 'map', 'tuple'):
                    raise Broken()
            else:
                found.append((place, sub))
        if shape[0] == 'poly':
            found += [((i, ), None) for i, _ in shape[1]]
        return (TYPES[shape[0]], '/'.join(map(repr, path)) or 'root', sorted(found,
            key=lambda f: repr(f[0])))
    def whole(shape, path):
        found = [(place, whole(child, path + (place, ))) for place, child in below(shape)]
        if shape[0] == 'poly':
            found += [((i, ), None) for i, _ in shape[1]]
        return (TYPES[shape[0]], '/'.join(map(repr, path)) or 'root', sorted(found,
            key=lambda f: repr(f[0])))
    return walk(shape, ()), state['changed']

def cases(tier):
    yield ('marks', )
    for number, shape in enumerate(SMALL):
        for part in range(8):
            yield ('filter', 'small', number, 9, part)
        yield ('transform', 'small', number)
        yield ('visit', 'small', number)
    for number, shape in enumerate(LARGE):
        for part in range(8):
            yield ('filter', 'large', number, 2 if tier == 'quick' else 4, part)
        yield ('transform', 'large', number)
        yield ('visit', 'large', number)

MARKS = {
    9: [dict((n, v) for n, v in (('a', a), ('b', b)) if v is not None) for a in (None, True, False)
        for b in (None, True, VALUE)],
    2: [{}, {'a': True}],
    4: [{}, {'a': True}, {'a': True, 'b': True}, {'b': True}],
}

def run_marks(st):
    """Queries by many parameters, of which any may match: fields alone, and inside containers."""
    from scheme import Integer, Map, Sequence, Structure, Tuple, Text
    names = 'abcdef'
    for marks in itertools.product((True, False), repeat=len(names)):
        marked = dict(zip(names, marks))
        for size in (1, 2, 5, 6):
            query = dict((n, True) for n in names[-size:])
            met = [marked[n] for n in query]
            for every in (False, True):
                kept = all(met) if every else any(met)
                leaf = Integer(**marked)
                found = leaf.filter(every, **query)
                st.step()
                if (found is leaf) != kept or not kept and found is not None:
                    raise Violation('%r marked %r filtered by %r, all=%r, gives %r' % (leaf, marked,
                        query, every, found))
                whole = Structure({'x': leaf, 'y': Text(**query)}, **query)
                names_left = sorted(whole.filter(every, **query).structure)
                if names_left != (['x', 'y'] if kept else ['y']):
                    raise Violation('%r, x marked %r, filtered by %r, all=%r, has %r' % (whole,
                        marked, query, every, names_left))
        st.state('marks', marks)
    st.trace('marks')

def run(case, st):
    if case[0] == 'marks':
        return run_marks(st)
    shape = (SMALL if case[1] == 'small' else LARGE)[case[2]]
    places = list(nodes(shape))
    paths = [path for path, _ in places]
    if case[0] == 'filter':
        run_filter(shape, paths, MARKS[case[3]], case[4], st)
    elif case[0] == 'transform':
        run_transform(shape, paths, st)
    else:
        run_visit(shape, st)

def run_filter(shape, paths, marks, part, st):
    from scheme.exceptions import CannotFilterError
    for number, assignment in enumerate(itertools.product(marks, repeat=len(paths))):
        if number % 8 != part:
            continue
        marking = dict(zip(paths, assignment))
        field = construct(shape, marking, (), number // 8 % 3)
        before = shown(field)
        for query in QUERIES:
            for all in (False, True):
                what = '%r marked %r filtered by %r, all=%r' % (shape, marking, query, all)
                try:
                    wanted, changed = filtered(shape, marking, query, all)
                except Broken:
                    wanted = Broken
                try:
                    result = field.filter(all, **query)
                except CannotFilterError:
                    result = Broken
                st.step()
                if wanted is Broken or result is Broken:
                    if wanted is not result:
                        raise Violation('%s: %r rather than %r' % (what, result, wanted))
                    st.trace('error')
                    continue
                if wanted is None:
                    if result is not None:
                        raise Violation('%s: %r rather than nothing' % (what, shown(result)))
                    st.trace('removed')
                    continue
                if result is None:
                    raise Violation('%s: nothing rather than %r' % (what, wanted))
                if shown(result) != wanted:
                    raise Violation('%s:\n%r rather than\n%r' % (what, shown(result), wanted))
                if (result is field) == changed:
                    raise Violation('%s: the schema itself is%s returned' % (what, '' if changed
                        else ' not'))
                if changed:
                    works(wanted, result, what)
                st.trace('changed' if changed else 'same')
        if shown(field) != before:
            raise Violation('%r marked %r was modified by filtering: %r' % (shape, marking,
                shown(field)))
        st.state(shape, repr(assignment))

REPLACED = ('Text', 'new', [])

def run_transform(shape, paths, st):
    from scheme import Text
    answers = (None, 'stop', 'new', 'same') if len(paths) < 7 else (None, 'stop', 'new')
    for style, assignment in itertools.product(range(3), itertools.product(answers,
            repeat=len(paths))):
        plan = dict(('/'.join(map(repr, p)) or 'root', a) for p, a in zip(paths, assignment))
        field = construct(shape, {}, (), style)
        before = shown(field)
        calls = []
        def transformer(candidate):
            calls.append(candidate.uid)
            answer = plan.get(candidate.uid)
            if answer == 'new':
                return Text(uid='new')
            if answer == 'same':
                return candidate
            if answer == 'stop':
                return False
            return (None, True, 0, 'text')[len(calls) % 2 and 1 or 0]
        what = '%r (style %d) transformed by %r' % (shape, style, plan)
        result = field.transform(transformer)
        expected = []
        def keep(path):
            uid = '/'.join(map(repr, path)) or 'root'
            expected.append(uid)
            if plan[uid] == 'new':
                return REPLACED
            if plan[uid] in ('stop', 'same'):
                silent = len(expected)
                value = picture(subshape(shape, path), lambda p: True)
                return relocate(value, path)
            return True
        wanted = picture(shape, keep)
        if shown(result) != wanted:
            raise Violation('%s:\n%r rather than\n%r' % (what, shown(result), wanted))
        if sorted(calls) != sorted(expected):
            raise Violation('%s: transformer called for %r rather than %r' % (what, calls,
                expected))
        for i, uid in enumerate(calls):
            if uid != 'root' and parent(uid, paths) not in calls[:i]:
                raise Violation('%s: transformer called for %r before its parent' % (what, uid))
        changed = any(plan[uid] == 'new' for uid in calls)
        if (result is field) == changed:
            raise Violation('%s: the schema itself is%s returned' % (what, '' if changed
                else ' not'))
        if shown(field) != before:
            raise Violation('%s: the original became %r' % (what, shown(field)))
        if changed:
            works(wanted, result, what)
        st.step(len(calls))
        st.trace('changed' if changed else 'same')
        st.state(shape, assignment)

def parent(uid, paths):
    for path in paths:
        if '/'.join(map(repr, path)) == uid:
            return '/'.join(map(repr, path[:-1])) or 'root'

def subshape(shape, path):
    for place in path:
        shape = dict(below(shape))[place]
    return shape

def relocate(picture, path):
    """The picture of a subtree, with uids as within the whole tree."""
    prefix = '/'.join(map(repr, path))
    kind, uid, found = picture
    joined = prefix if uid == 'root' else (prefix + '/' + uid if prefix else uid)
    return (kind, joined or 'root', [(place, child if child is None else relocate(child, path))
        for place, child in found])

def run_visit(shape, st):
    from scheme import Field
    field = construct(shape, {})
    for verbose in (False, True):
        description = field.describe(None, verbose)
        before = freeze(description)
        def check(specification, shape, path):
            calls = []
            def callback(nested):
                calls.append(nested.get('uid', nested.get('name')))
                return ('seen', nested.get('uid', nested.get('name')))
            result = Field.visit(specification, callback)
            if freeze(description) != before:
                raise Violation('visiting %r modified the description' % (shape,))
            direct = [('/'.join(map(repr, path + (place, ))), place) for place, _ in below(shape)]
            seen = lambda uid: ('seen', uid)
            if shape[0] == 'leaf':
                wanted = {}
            elif shape[0] == 'structure':
                wanted = {'structure': dict((place, seen(uid)) for uid, place in direct)}
            elif shape[0] == 'poly':
                variants = dict((i, {'kind': seen('kind')}) for i, _ in shape[1])
                for uid, (identity, name) in direct:
                    variants[identity][name] = seen(uid)
                wanted = {'structure': variants}
                direct = direct + [('kind', None)] * len(shape[1])
            elif shape[0] == 'sequence':
                wanted = {'item': seen(direct[0][0])}
            elif shape[0] == 'map':
                wanted = {'value': seen(direct[0][0]), 'key': seen('key')}
                direct = direct + [('key', None)]
            elif shape[0] == 'tuple':
                wanted = {'values': tuple(seen(uid) for uid, _ in direct)}
            else:
                wanted = {'fields': tuple(seen(uid) for uid, _ in direct)}
            if result != wanted:
                raise Violation('visiting %r gives\n%r rather than\n%r' % (shape, result, wanted))
            if sorted(calls) != sorted(uid for uid, _ in direct):
                raise Violation('visiting %r called back for %r rather than %r' % (shape, calls,
                    direct))
            st.step(len(calls))
            st.trace('visited')
            st.state('visit', shape)
            for place, child in below(shape):
                if shape[0] == 'poly':
                    nested = specification['structure'][place[0]][place[1]]
                elif shape[0] == 'structure':
                    nested = specification['structure'][place]
                elif shape[0] in ('sequence', 'map'):
                    nested = specification[place]
                else:
                    nested = specification['values' if shape[0] == 'tuple' else 'fields'][place]
                check(nested, child, path + (place, ))
        check(description, shape, ())
