"""Every parameter of every field type x every value of a menu of values of all types, alone, in
pairs, and through every way of declaring a field; every small list, structure and set of variants
with a malformed member; every edit of a schema with a malformed argument; and declarations of
elements.  Each is accepted or refused as a table of what parameters may be requires, a refusal
changes nothing, and an accepted field only ever gives values or validation errors."""

import datetime
import decimal
import itertools
import re

from mc.core import Violation
from mc.domains import UTC
from mc.freeze import freeze
from mc.spec import Junk

BOUNDS = {
    'quick': '32 parameters of 17 field types x 60 values x 5 ways of declaring, every accepted '
        'field processing 60 values in 4 ways; all pairs of values for each pair of bounds; lists '
        'of up to 3 and structures of up to 3 members with one malformed, with placeholders; '
        'edits with up to 3 members; declarations of elements and hooks',
    'thorough': 'as quick, with all pairs of values for every two parameters of a type',
}
ASSUMPTIONS = (
    'errors, aspects, names and hooks which are objects are not validated where they are declared',
    'booleans may stand for integers',
)
CASE_CPU_BUDGET = 200

REFUSALS = (TypeError, ValueError, ImportError, re.error)
PHASES = (('inbound', False), ('inbound', True), ('outbound', False), ('outbound', True))

class Sample(object):
    pass

def menu():
    """Fresh values of every type, by name."""
    from scheme import Enumeration, Integer, Sequence, Structure, Text, Undefined
    defined = Undefined(Text(name='given'))
    later = Undefined()
    return [
        ('None', None), ('True', True), ('False', False), ('0', 0), ('1', 1), ('-1', -1),
        ('big', 10 ** 30), ('1.0', 1.0), ('2.5', 2.5), ('-0.5', -0.5), ('nan', float('nan')),
        ('inf', float('inf')), ('complex', 1j), ("''", ''), ("'a'", 'a'), ("'5'", '5'),
        ("'-1.5'", '-1.5'), ("'a b'", 'a b'), ("'('", '('), ("'[a-'", '[a-'),
        ("'date'", '2000-01-02'), ("'no date'", '2000-13-01'), ("'long date'", '2000-01-02x'),
        ("'datetime'", '2000-01-02T03:04:05Z'), ("'local'", '2000-01-02T03:04:05'),
        ("'time'", '03:04:05'), ("'no time'", '25:04:05'), ("'NaN'", 'NaN'), ("'sNaN'", 'sNaN'),
        ("'Infinity'", 'Infinity'), ("'1e3'", '1e3'), ("'text integer'", 'text integer'),
        ("b''", b''), ("b'a'", b'a'), ("b'date'", b'2000-01-02'), ('bytearray', bytearray(b'a')),
        ('date', datetime.date(2000, 1, 2)), ('datetime', datetime.datetime(2000, 1, 2, 3)),
        ('aware', datetime.datetime(2000, 1, 2, 3, tzinfo=UTC)), ('time', datetime.time(1)),
        ('timedelta', datetime.timedelta(1)), ('Decimal', decimal.Decimal('1.5')),
        ('Decimal NaN', decimal.Decimal('NaN')), ('Decimal inf', decimal.Decimal('Infinity')),
        ('[]', []), ("['a']", ['a']), ('[5]', [5]), ("['text']", ['text']),
        ("('text', 'integer')", ('text', 'integer')), ("[[]]", [[]]), ('()', ()),
        ("('a',)", ('a',)), ('{}', {}), ("{'a': 1}", {'a': 1}), ('{5: 5}', {5: 5}),
        ('set', set(['a'])), ('object', Junk()), ('class', Sample), ('function', str.upper),
        ('regex', re.compile('a')), ('bytes regex', re.compile(b'a')),
        ('Field', Integer()), ('named Field', Integer(name='n')), ('field type', Integer),
        ('[Field]', [Integer()]), ("{'a': Field}", {'a': Integer()}),
        ('structure', Structure({'a': Integer()})), ('sequence', Sequence(Text())),
        ('enumeration', Enumeration('a b')), ('placeholder', later), ('defined', defined),
    ]

def is_int(value):
    return isinstance(value, int)

def length(value):
    return value is None or is_int(value) and value >= 0

def parsed(kind, form):
    """A rule for bounds which are of a kind or a text of it."""
    def rule(value):
        if value is None or isinstance(value, kind):
            return True
        if isinstance(value, str):
            try:
                datetime.datetime.strptime(value, form)
            except ValueError:
                return False
            return True
        return False
    return rule

def decimal_bound(value):
    if isinstance(value, str):
        try:
            value = decimal.Decimal(value)
        except decimal.InvalidOperation:
            return False
    return value is None or isinstance(value, decimal.Decimal) and not value.is_nan()

def pattern(value):
    if isinstance(value, str):
        try:
            re.compile(value)
        except re.error:
            return False
        return True
    return value is None or isinstance(value, type(re.compile('a'))) and \
        isinstance(value.pattern, str)

def native(value):
    return value is None or isinstance(value, (str, bool, int, float, dict, list, tuple))

def enumerated(value):
    if isinstance(value, str):
        return True
    if isinstance(value, (bytes, bytearray)):
        return None
    try:
        value = list(value)
    except TypeError:
        return False
    return all(native(item) for item in value)

def ignored(value):
    if value is None or isinstance(value, str):
        return True
    return isinstance(value, list) and all(native(item) for item in value)

def types(value):
    from scheme.field import Field
    if isinstance(value, str):
        value = value.split(' ')
    if not value:
        return True if value is None else None
    if not isinstance(value, (list, tuple)):
        return False
    return all(isinstance(item, str) and item in Field.types for item in value)

def is_field(value):
    from scheme import Field, Undefined
    return isinstance(value, (Field, Undefined))

def only_field(value):
    from scheme import Field
    return isinstance(value, Field)

def key(value):
    return value is None or only_field(value)

def keys(value):
    if value is None or isinstance(value, str):
        return True
    if not isinstance(value, (list, tuple)):
        return False
    return True if all(isinstance(item, str) for item in value) else None

def key_order(value):
    if isinstance(value, str):
        return True
    if not value:
        return True if value is None else None
    if isinstance(value, list):
        return True if all(isinstance(item, str) for item in value) else None
    return False

def fields(value):
    return isinstance(value, (list, tuple)) and bool(value) and all(map(is_field, value))

def structure(value):
    return isinstance(value, dict) and all(map(is_field, value.values()))

def bounds(name, rule, **base):
    return [(name, 'minimum', rule, base), (name, 'maximum', rule, base)]

def parameters():
    """(type, parameter, rule, other arguments); a rule gives None where either would do."""
    from scheme import Integer, Text
    table = [
        ('Text', 'pattern', pattern, {}), ('Text', 'min_length', length, {}),
        ('Text', 'max_length', length, {}), ('Binary', 'min_length', length, {}),
        ('Binary', 'max_length', length, {}), ('Token', 'segments', length, {}),
        ('Email', 'min_length', length, {}), ('Email', 'max_length', length, {}),
        ('Sequence', 'min_length', length, {'item': Integer()}),
        ('Sequence', 'max_length', length, {'item': Integer()}),
        ('Sequence', 'item', is_field, {}), ('Map', 'value', is_field, {}),
        ('Map', 'key', key, {'value': Integer()}),
        ('Map', 'required_keys', keys, {'value': Integer()}),
        ('Enumeration', 'enumeration', enumerated, {}),
        ('Enumeration', 'ignored_values', ignored, {'enumeration': 'a b'}),
        ('Definition', 'valid_fields', types, {}), ('Definition', 'field', types, {}),
        ('Tuple', 'values', fields, {}), ('Union', 'fields', fields, {}),
        ('Structure', 'structure', structure, {}),
        ('Structure', 'key_order', key_order, {'structure': {'a': Integer(), 'b': Text()}}),
        ('Structure', 'key_order', key_order, {'structure': {'x': {'a': Integer()}},
            'polymorphic_on': 'k'}),
    ]
    del table[17]
    integer = lambda v: v is None or is_int(v)
    floating = lambda v: v is None or isinstance(v, float)
    table += bounds('Integer', integer) + bounds('Float', floating)
    table += bounds('Decimal', decimal_bound)
    table += bounds('Date', parsed(datetime.date, '%Y-%m-%d'))
    table += bounds('DateTime', parsed(datetime.datetime, '%Y-%m-%dT%H:%M:%SZ'))
    table += bounds('DateTime', parsed(datetime.datetime, '%Y-%m-%dT%H:%M:%SZ'), utc=True)
    table += bounds('Time', parsed(datetime.time, '%H:%M:%S'))
    return table

def field_type(name):
    import scheme
    from scheme.fields.union import Union
    return Union if name == 'Union' else getattr(scheme, name)

ROUTES = ('call', 'positional', 'nonempty', 'clone', 'subclass', 'reconstruct', 'construct')

# a valid value of each required parameter, for the field that is cloned
def valid(name, parameter):
    from scheme import Integer
    return {'item': Integer(), 'value': Integer(), 'enumeration': 'c d', 'values': [Integer()],
        'fields': [Integer()], 'structure': {'z': Integer()}}.get(parameter)

def declare(route, name, arguments, parameter=None):
    cls = field_type(name)
    if route == 'call':
        return cls(**arguments)
    elif route == 'positional':
        rest = dict(arguments)
        return cls(rest.pop(parameter), **rest)
    elif route == 'nonempty':
        return cls(nonempty=True, name='declared', **arguments)
    elif route == 'clone':
        base = dict(arguments)
        base[parameter] = valid(name, parameter)
        if base[parameter] is None:
            del base[parameter]
        return cls(**base).clone(**arguments)
    elif route == 'subclass':
        from scheme.field import Field
        try:
            return type('Declared' + name, (cls,), {})(**arguments)
        finally:
            Field.types.pop('declared' + name.lower(), None)
    elif route == 'reconstruct':
        from scheme.field import Field
        return Field.reconstruct(dict(arguments, fieldtype=cls.type))
    else:
        return cls.construct(**arguments)

# parameters which take several values, in containers of various kinds
LISTED = {'Enumeration': ('enumeration', 'ignored_values'), 'Definition': ('valid_fields',),
    'Tuple': ('values',), 'Union': ('fields',), 'Map': ('required_keys',),
    'Structure': ('key_order',)}
CONTAINERS = {'list': list, 'tuple': tuple, 'dict': lambda items: dict((i, 1) for i in items),
    'generator': lambda items: (i for i in items)}

FIRST = {'item', 'value', 'enumeration', 'values', 'fields', 'structure', 'segments'}

def cases(tier):
    from scheme import Integer
    table = parameters()
    for i in range(len(table)):
        yield ('parameter', i)
    for i, j in itertools.combinations(range(len(table)), 2):
        if table[i][0] == table[j][0] and table[i][3] == table[j][3] and \
                table[i][1] != table[j][1] and not table[i][3]:
            if tier != 'quick' or table[i][1] == 'minimum' or 'length' in table[i][1]:
                yield ('pair', i, j)
    for name in ('Tuple', 'Union'):
        for kinds in itertools.product(range(4), repeat=3):
            yield ('members', name, kinds)
    for kinds in itertools.product(range(4), repeat=2):
        yield ('structure', kinds)
    for i in range(4):
        yield ('discriminator', i)
    for operation in ('extend', 'merge', 'prefer', 'replace', 'insert', 'overwrite'):
        for position in range(3):
            yield ('edit', operation, position)
    for name in sorted(LISTED):
        for parameter in LISTED[name]:
            for container in CONTAINERS:
                yield ('listed', name, parameter, container)
    yield ('defaults',)
    yield ('email',)
    yield ('element',)
    yield ('hooks',)
    yield ('specification',)
    yield ('redefine',)
    yield ('surrogate',)
    yield ('formats',)

def check_field(st, field, label):
    """A field which was accepted gives values or validation errors, and nothing else."""
    from scheme.exceptions import StructuralError, UndefinedFieldError
    for name, value in menu():
        for phase, serialized in PHASES:
            st.step()
            try:
                field.process(value, phase, serialized)
            except (StructuralError, UndefinedFieldError):
                pass
            except Exception as exception:
                st.violate('%s is accepted, yet process(%s, %r, %r) raises %r' % (label, name,
                    phase, serialized, exception))
    repr(field)

def attempt(st, label, function, *args, **params):
    """(field or None when refused)"""
    st.step()
    try:
        return function(*args, **params)
    except REFUSALS:
        return None
    except Exception as exception:
        st.violate('%s raises %r' % (label, exception))

def judge(st, label, expected, result, accepted=None):
    if expected is True and result is None:
        st.violate('%s is refused' % label)
    if expected is False and result is not None:
        st.violate('%s is accepted as %r' % (label, result))
    st.trace('accepted' if result is not None else 'refused')
    st.state(label, result is not None)

def normal(name, parameter, value, field):
    """What the field holds for an accepted value."""
    if parameter in ('key_order', 'required_keys', 'ignored_values', 'enumeration') and \
            isinstance(value, str):
        if not value and parameter == 'key_order':
            return None
        return value.split(' ')
    if parameter == 'valid_fields' and isinstance(value, str):
        return tuple(value.split(' ')) if value else None
    if parameter == 'pattern' and isinstance(value, str):
        return re.compile(value)
    if parameter in ('minimum', 'maximum') and isinstance(value, str):
        if name == 'Decimal':
            return decimal.Decimal(value)
        form = {'Date': '%Y-%m-%d', 'DateTime': '%Y-%m-%dT%H:%M:%SZ', 'Time': '%H:%M:%S'}[name]
        moment = datetime.datetime.strptime(value, form)
        return {'Date': moment.date(), 'DateTime': moment.replace(tzinfo=UTC),
            'Time': moment.time()}[name]
    return Ellipsis

def run(case, st):
    globals()['run_' + case[0]](st, *case[1:])

def run_parameter(st, index):
    name, parameter, rule, base = parameters()[index]
    cls = field_type(name)
    for position in range(len(menu())):
        for route in ROUTES:
            if route == 'positional' and parameter not in FIRST:
                continue
            label, value = menu()[position]
            arguments = dict(parameters()[index][3])
            arguments[parameter] = value
            expected = rule(value)
            if route in ('reconstruct', 'construct') and isinstance(value, (dict, list, tuple)):
                value = arguments[parameter]
            label = '%s(%s) with %s=%s by %s' % (name, ', '.join(sorted(base)), parameter, label,
                route)
            field = attempt(st, label, declare, route, name, arguments, parameter)
            judge(st, label, expected, field)
            if field is None:
                continue
            held = normal(name, parameter, value, field)
            if held is not Ellipsis:
                found = getattr(field, parameter)
                if isinstance(found, tuple):
                    found, held = tuple(found), tuple(held)
                if found != held:
                    st.violate('%s: the field holds %r, expected %r' % (label, found, held))
            elif parameter in ('minimum', 'maximum', 'min_length', 'max_length', 'segments') and \
                    value is not None and name != 'DateTime' and value == value:
                native_value = value.date() if isinstance(value, datetime.datetime) else value
                if freeze(getattr(field, parameter)) != freeze(native_value):
                    st.violate('%s: the field holds %r' % (label, getattr(field, parameter)))
            if value is not None and expected is not None and route in ('call', 'clone'):
                check_field(st, field, label)

def listed_items(parameter):
    from scheme import Integer, Text, Undefined
    if parameter in ('values', 'fields'):
        return [Text(), Integer(nonnull=True), Undefined(Text()), None, 'a', Text, Sample()]
    return ['text', 'integer', 'nope', 'a', 5, True, None, 2.5, b'a', 1j, Sample(),
        datetime.date(2000, 1, 2), frozenset(['a']), Text()]

def run_listed(st, name, parameter, container):
    rule, base = [(r, b) for n, p, r, b in parameters() if (n, p) == (name, parameter)][0]
    count = len(listed_items(parameter))
    for size in range(4):
        for positions in itertools.product(range(count), repeat=size):
            items = [listed_items(parameter)[i] for i in positions]
            expected = rule(CONTAINERS[container](items))
            if parameter == 'enumeration':
                expected = all(native(item) for item in items)
            if parameter == 'key_order' and container == 'list' and not all(
                    item in ('a', 'b') for item in items):
                expected = expected and None
            label = '%s(%s) with %s=%s%r' % (name, ', '.join(sorted(base)), parameter, container,
                tuple(items))
            arguments = dict(base)
            arguments[parameter] = CONTAINERS[container](items)
            field = attempt(st, label, declare, 'call', name, arguments, parameter)
            judge(st, label, expected, field)
            if field is not None and expected and parameter == 'enumeration':
                if list(field.enumeration) != list(CONTAINERS[container](items)):
                    st.violate('%s: the field holds %r' % (label, field.enumeration))

def run_pair(st, i, j):
    table = parameters()
    name, base = table[i][0], table[i][3]
    values = menu()
    for (first, one), (second, two) in itertools.product(values, values):
        expected = [table[i][2](one), table[j][2](two)]
        expected = None if None in expected else all(expected)
        label = '%s(%s=%s, %s=%s)' % (name, table[i][1], first, table[j][1], second)
        arguments = {table[i][1]: one, table[j][1]: two}
        field = attempt(st, label, declare, 'call', name, arguments)
        judge(st, label, expected, field)

def member(kind, bad):
    """(member, whether it's a field)"""
    from scheme import Text, Undefined
    if kind == 0:
        return Text(), True
    elif kind == 1:
        return Undefined(), True
    elif kind == 2:
        return Undefined(Text()), True
    else:
        return bad, is_field(bad)

def define(st, label, members):
    """Placeholders stay usable whatever became of the declaration."""
    from scheme import Integer, Sequence, Undefined
    for placeholder in members:
        if isinstance(placeholder, Undefined) and placeholder.field is None:
            other = Sequence(placeholder)
            try:
                placeholder.define(Integer())
            except Exception as exception:
                st.violate('after %s, define() of its placeholder raises %r' % (label, exception))
            if not isinstance(other.item, Integer) or other.process([1]) != [1]:
                st.violate('after %s, its placeholder isn\'t defined elsewhere' % label)

def run_members(st, name, kinds):
    for count in (1, 2, 3):
        for position in range(len(menu()) if 3 in kinds[:count] else 1):
            for form in (list, tuple):
                label, bad = menu()[position]
                pairs = [member(kind, bad) for kind in kinds[:count]]
                members = form([value for value, fine in pairs])
                label = '%s of %r (%s)' % (name, kinds[:count], label)
                field = attempt(st, label, field_type(name), members)
                judge(st, label, all(fine for value, fine in pairs), field)
                define(st, label, members)
                if field is not None:
                    held = field.values if name == 'Tuple' else field.fields
                    if len(held) != count or not all(map(only_field, held)):
                        st.violate('%s: the field holds %r' % (label, held))
                    if position % 9 == 0:
                        check_field(st, field, label)
                    children(st, field, label)

def children(st, field, label):
    """The keyed children of a field."""
    from scheme import Tuple
    for key in (0, 1, 2, 3, 50):
        st.step()
        try:
            found = field.get(key), field.get(key, 'other')
        except TypeError:
            found = None
        expected = None
        if isinstance(field, Tuple):
            expected = (field.values[key], ) * 2 if key < len(field.values) else (None, 'other')
        if found != expected:
            st.violate('%s: get(%d) gives %r, expected %r' % (label, key, found, expected))

def run_structure(st, kinds):
    from scheme import Integer, Structure
    for shape in range(8):
        for position in range(len(menu()) if 3 in kinds or shape > 4 else 1):
            label, bad = menu()[position]
            pairs = [member(kind, bad) for kind in kinds]
            members = [value for value, fine in pairs]
            fine = all(good for value, good in pairs)
            one = {'a': members[0]}
            two = {'b': members[1]}
            params = {}
            if shape == 0:
                given = {'a': members[0], 'b': members[1]}
            elif shape == 1:
                given, params = {'x': dict(one, **two), 'y': {}}, {'polymorphic_on': 'k'}
            elif shape == 2:
                given, params = {'x': one, 'y': two}, {'polymorphic_on': 'k'}
            elif shape == 3:
                given, params = {'x': one, '*': two}, {'polymorphic_on': 'k'}
            elif shape == 4:
                given, params = {'*': one, 'y': two}, {'polymorphic_on': Integer(name='k')}
                if isinstance(bad, dict):
                    continue
            else:
                # a malformed variant
                one = {'c': members[0]}
                well = isinstance(bad, dict) and all(map(is_field, bad.values()))
                fine = fine and well
                given = [{'x': one, 'y': bad}, {'x': bad, '*': two}, {'x': one, '*': bad}][shape - 5]
                params = {'polymorphic_on': 'k'}
                used = [members[:1], members[1:], members[:1]][shape - 5]
                fine = well and all(map(is_field, used))
            label = 'Structure %d of %r (%s)' % (shape, kinds, label)
            before = dict((k, dict(v) if isinstance(v, dict) else v) for k, v in given.items())
            field = attempt(st, label, Structure, given, **params)
            judge(st, label, fine, field)
            if dict((k, dict(v) if isinstance(v, dict) else v) for k, v in given.items()) != before:
                if shape or field is None or 2 not in kinds:
                    st.violate('%s: the argument was changed to %r' % (label, given))
            define(st, label, members)
            if field is not None:
                check_field(st, field, label)

def run_discriminator(st, shape):
    """What polymorphic structures are discriminated by, and key orders."""
    from scheme import Field, Integer, Structure, Text
    for label, value in menu():
        given = [{'x': {'a': Integer()}}, {'x': {}}, {5: {'a': Text()}, 6: {}}, {}][shape]
        falsy = not value
        if falsy:
            expected = None if given and shape else (None if not shape else True)
        elif isinstance(value, str):
            expected = True if shape != 2 else None
        elif isinstance(value, Field):
            expected = True if value.name else None
        else:
            expected = False
        label = 'Structure %d with polymorphic_on=%s' % (shape, label)
        field = attempt(st, label, Structure, given, polymorphic_on=value)
        judge(st, label, expected, field)
        if field is not None and expected:
            check_field(st, field, label)
            name = value if isinstance(value, str) else getattr(value, 'name', None)
            if not falsy and field.polymorphic_on.name != name:
                st.violate('%s: the discriminator is %r' % (label, field.polymorphic_on))

def image(field):
    return freeze(field.describe()), [(name, id(f)) for name, f in field.structure.items()]

def run_edit(st, operation, position):
    from scheme import Integer, Structure, Text
    for label, bad in menu():
        for size in range(1, 4):
            for present in itertools.product((True, False), repeat=size):
                if position >= size:
                    continue
                subject = Structure({'a': Integer(), 'b': Text(default='x'), 'c': Integer()},
                    name='subject', key_order='c b a')
                names = [('abc'[i] if there else 'def'[i]) for i, there in enumerate(present)]
                members = [Text(nonnull=True) for name in names]
                members[position] = bad
                addition = dict(zip(names, members))
                what = '%s of %r with %s at %d' % (operation, names, label, position)
                before = image(subject)
                if operation in ('insert', 'overwrite'):
                    if size > 1 or not present[0]:
                        continue
                    name = getattr(bad, 'name', None) if only_field(bad) else None
                    expected = only_field(bad) and bool(name)
                    call = lambda: (subject.insert(bad, overwrite=operation == 'overwrite'),)
                elif operation == 'replace':
                    expected = only_field(bad)
                    if not any(present):
                        expected = None
                    call = lambda: subject.replace(addition)
                elif operation == 'extend':
                    expected, call = only_field(bad), lambda: subject.extend(addition)
                else:
                    expected = only_field(bad)
                    call = lambda: (subject.merge(addition, prefer=operation == 'prefer'),)
                result = attempt(st, what, call)
                judge(st, what, expected, result)
                changed = image(subject) != before
                if result is None or operation in ('replace', 'extend'):
                    if changed:
                        st.violate('%s was %s, yet the field is changed from %r to %r' % (what,
                            'refused' if result is None else 'made', before[0],
                            image(subject)[0]))
                else:
                    check = sorted(name for name in names if operation not in ('insert',
                        'overwrite'))
                    if any(name not in subject.structure for name in check):
                        st.violate('%s left %r' % (what, subject))
        for argument in (bad,):
            # the whole argument is malformed
            if isinstance(bad, dict) or operation in ('insert', 'overwrite') or position:
                continue
            subject = Structure({'a': Integer(), 'b': Text()}, name='subject')
            before = image(subject)
            function = getattr(subject, 'merge' if operation == 'prefer' else operation)
            st.step()
            try:
                result = function(bad)
            except Exception:
                result = None
            if image(subject) != before:
                st.violate('%s(%s) changes the field' % (operation, label))
            st.trace('malformed edit')

def run_defaults(st):
    from scheme import Integer, Structure
    for label, value in menu():
        for polymorphic in (False, True):
            if polymorphic:
                given = {'a': {'n': Integer(default=1)}, 'text': {'m': Integer(default=2)}}
                expected = not value or isinstance(value, str) and value in given
                params = {'polymorphic_on': 'k'}
            else:
                given, params = {'n': Integer(default=1)}, {}
                expected = not value or value is True or (None if value == 1 else False)
            label2 = 'Structure (polymorphic=%r) with generate_default=%s' % (polymorphic, label)
            field = attempt(st, label2, Structure, given, generate_default=value, **params)
            if not isinstance(value, (str, bool, type(None))) and not value:
                expected = None
            judge(st, label2, expected, field)
            if field is not None and value:
                wanted = {'n': 1}
                if polymorphic:
                    wanted = {'n': 1, 'k': 'a'} if value == 'a' else {'m': 2, 'k': 'text'}
                if field.default != wanted:
                    st.violate('%s: the default is %r' % (label2, field.default))
    for label, value in menu():
        # what generate_defaults() is asked for
        for polymorphic in (False, True):
            if polymorphic:
                field = Structure({'a': {'n': Integer(default=1)}, 'b': {}}, polymorphic_on='k')
                expected = value is None or isinstance(value, str) and value in ('a', 'b')
            else:
                field, expected = Structure({'n': Integer(default=1)}), value is None
            what = 'generate_defaults(%s)' % label
            if expected is False and not isinstance(value, (str, int, float)):
                expected = None
                try:
                    hash(value)
                except TypeError:
                    continue
            result = attempt(st, what, field.generate_defaults, value)
            judge(st, what, expected, result)

def run_email(st):
    from scheme import Email
    for multiple, extended in itertools.product((False, True), repeat=2):
        label = 'Email(multiple=%r, extended=%r)' % (multiple, extended)
        field = attempt(st, label, Email, multiple=multiple, extended=extended)
        judge(st, label, not (multiple and extended), field)
        if field is not None:
            check_field(st, field, label)

def run_element(st):
    from scheme import Element, Field, Structure, Integer
    for label, value in menu():
        for inherited in (False, True):
            class Base(Element):
                schema = Structure({'a': Integer()}) if inherited else None
            expected = value is None or isinstance(value, Structure) or \
                isinstance(value, Field) and bool(value.name)
            what = 'an Element with the schema %s' % label
            element = attempt(st, what, lambda: type(Element)('Declared', (Base,),
                {'schema': value}))
            judge(st, what, expected, element)
    for identity, base in itertools.product(('x', 5, '', 0, True), (None, 'plain', 'scalar',
            'polymorphic', 'variant')):
        class Base(Element):
            schema = {None: None, 'plain': Structure({'a': Integer()}),
                'scalar': Integer(name='n')}.get(base, Structure({'x': {}, 'y': {}},
                    polymorphic_on='k'))
        if base == 'variant':
            class Base(Base):
                polymorphic_identity = 'y'
        what = 'an Element with identity %r of a %s base' % (identity, base)
        element = attempt(st, what, lambda: type(Element)('Declared', (Base,),
            {'polymorphic_identity': identity}))
        judge(st, what, base in ('polymorphic', 'variant'), element)
        if element is not None and Base.__polymorphic_impl__.get(identity) is not element:
            st.violate('%s isn\'t registered' % what)
        if element is None and getattr(Base, '__polymorphic_impl__', None):
            st.violate('%s was refused, yet is registered' % what)

PATHS = ['nosuchmodule', 'nosuchmodule.sub', 'nosuchmodule:attr', 'os.nosuch', 'os:nosuch',
    'os.path.nosuch.deeper', 'os:path.nosuch', '.', ':', 'os:', '..os', 'os..path', ' os', 'os.',
    'mc.nosuch', 'mc.props.c25.nosuch', 'mc.props.c25:nosuch', 'mc.props.c25:make.nosuch']

def make(field, value, key=None):
    return value

def run_hooks(st):
    from scheme import Integer, Sequence, Structure, Text
    makers = [
        lambda **p: Integer(**p), lambda **p: Text(nonempty=True, **p),
        lambda **p: Sequence(Integer(), **p), lambda **p: Structure({'a': Integer()}, **p),
    ]
    good = ['mc.props.c25.make', 'mc.props.c25:make', 'os.path.join', 'os:path.join']
    for hook, path, maker in itertools.product(('instantiator', 'extractor'), PATHS + good,
            range(len(makers))):
        what = '%s=%r' % (hook, path)
        for route in ('call', 'clone'):
            st.step()
            function = makers[maker]
            if route == 'clone':
                function = function().clone
            try:
                field = function(**{hook: path})
            except ImportError:
                field = None
            except Exception as exception:
                st.violate('%s raises %r' % (what, exception))
            judge(st, what, path in good, field)
            if field is not None and not callable(getattr(field, hook)):
                st.violate('%s gives %r' % (what, getattr(field, hook)))

def run_specification(st):
    from scheme import Field
    for label, value in menu():
        what = 'Field.reconstruct(%s)' % label
        expected = only_field(value)
        if isinstance(value, (str, tuple, list)) and value and not isinstance(value, str):
            expected = False
        field = attempt(st, what, Field.reconstruct, value)
        judge(st, what, expected, field)
        if field is not None and field is not value:
            st.violate('%s gives %r' % (what, field))
        what = 'reconstruct() of the type %s' % label
        try:
            hash(value)
        except TypeError:
            continue
        known = isinstance(value, str) and value in ('text',)
        field = attempt(st, what, Field.reconstruct, {'fieldtype': value})
        judge(st, what, known, field)
    for name in ('text', 'integer', 'date', 'boolean', 'token', 'email', 'object', 'uuid'):
        for form in (name, {'fieldtype': name}, [('fieldtype', name)]):
            field = attempt(st, repr(form), Field.reconstruct, form)
            judge(st, repr(form), True, field)
            if field.type != name:
                st.violate('reconstruct(%r) gives %r' % (form, field))

def run_redefine(st):
    from scheme import Enumeration
    for label, value in menu():
        for strategy in ('append', 'replace', 'prepend', '', None, 5):
            for form in ('whole', 'member'):
                field = Enumeration('a b')
                given = value if form == 'whole' else ['c', value]
                before = freeze(field.enumeration), repr(field)
                what = 'redefine(%s as %s, %r)' % (label, form, strategy)
                if strategy not in ('append', 'replace'):
                    expected = False
                elif form == 'whole':
                    expected = enumerated(value)
                else:
                    expected = True if native(value) else None
                if expected is False and strategy in ('append', 'replace') and \
                        form == 'whole' and enumerated(value) is False:
                    try:
                        list(value)
                        expected = None
                    except TypeError:
                        pass
                result = attempt(st, what, lambda: (field.redefine(given, strategy),))
                judge(st, what, expected, result)
                if result is None and (freeze(field.enumeration), repr(field)) != before:
                    st.violate('%s was refused, yet the field is %r' % (what, field))

def run_surrogate(st):
    from scheme import Structure, Integer, surrogate
    class Versioned(surrogate):
        schemas = [Structure({'a': Integer()}), Structure({'b': Integer()})]
    for label, value in menu():
        for name, call in (
                ('surrogate.construct(value=%s)', lambda: surrogate.construct(None, value)),
                ('surrogate.acquire(%s)', lambda: surrogate.acquire(value))):
            if name.startswith('surrogate.acquire'):
                if not isinstance(value, str):
                    continue
                expected = False
            elif isinstance(value, dict):
                expected = True
            else:
                expected = False
            what = name % label
            result = attempt(st, what, call)
            judge(st, what, expected, result)
    st.trace('surrogate')

def run_formats(st):
    """Schemas given to the formats which need one."""
    from scheme import Field, Integer, Sequence, Structure, Text
    from scheme.formats import Csv, Xml
    rows = Sequence(Structure({'a': Text()}), name='rows')
    extra = [('rows', rows), ('tuples', Sequence(Sequence(Text()))), ('no rows', Structure({}))]
    for label, value in menu() + extra:
        table = isinstance(value, Sequence) and isinstance(value.item, Structure)
        for name, call, expected in (
                ('Xml.serialize', lambda: (Xml.serialize({}, value),), False),
                ('Xml.unserialize', lambda: (Xml.unserialize('<a/>', value),), False),
                ('Csv.serialize', lambda: (Csv.serialize([], value),), table),
                ('Csv.unserialize', lambda: (Csv.unserialize('a\n', value),), table)):
            if name.startswith('Xml') and isinstance(value, Field):
                continue
            what = '%s with the schema %s' % (name, label)
            judge(st, what, expected, attempt(st, what, call))
    schema = Sequence(Structure({'a': Text(), 'b': Integer()}), name='rows')
    for label, value in menu():
        what = 'Csv.serialize(%s)' % label
        expected = isinstance(value, (list, tuple))
        if value and expected:
            expected = None if value != [[]] else False
            continue
        judge(st, what, expected, attempt(st, what, lambda: (Csv.serialize(value, schema),)))
