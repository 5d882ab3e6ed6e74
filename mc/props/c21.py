"""Pairs of operations on the same schemas in two real threads under a controlled scheduler.  Every
schedule in which the second operation runs before one source line of the first, for every line,
and, for a set of pairs, every schedule with two preemptions (a up to line i, b up to line j, the rest of
a, the rest of b), for every i and j.  Results, errors, their paths and their text must be those of
each operation alone.  Schemas are built and the global state of scheme is reset before every
schedule, so that whatever is made at first use is made under every schedule; the same schedules are
also run over schemas already used."""

import copy
import itertools
import os

from mc import spec
from mc.core import Violation
from mc.domains import *
from mc.freeze import freeze, freeze_error
from mc.schedule import Scheduler, Snapshot

BOUNDS = {
    'quick': '10 groups of 8 to 16 operations (111 in all) over all field types, formats, elements'
        ' and surrogates; each operation preempted by one or two others of its group at every'
        ' source line it executes, the first two times each line is run, on fresh schemas (for'
        ' every fourth also on used ones); two preemptions at every pair of such lines for 9 pairs',
    'thorough': 'every ordered pair of a group, one preemption at every line the first executes,'
        ' on fresh and on used schemas; two preemptions at every pair of lines for every pair with'
        ' at most 10 000 such schedules',
}
ASSUMPTIONS = (
    'preemption happens between source lines of scheme; code of the interpreter and of the'
    ' libraries it uses runs uninterrupted',
    'the arguments of concurrent calls are not shared for writing',
)
CASE_CPU_BUDGET = 600
LIMIT = {'quick': 4000, 'thorough': 10000}
PARTS = 8
VISITS = 2

INT, TEXT = ('integer', {}), ('text', {})

def S(**fields):
    return ('structure', {'structure': fields})

def instantiator(field, value, key=None):
    return [field.name, value, key]

def extractor(field, value):
    return value[1]

def image(result):
    from scheme.exceptions import StructuralError
    if isinstance(result, StructuralError):
        text = None if captured(result) else str(result)
        return ('error', repr(freeze_error(result)), text, repr(result.serialize()))
    if isinstance(result, BaseException):
        return ('raised', type(result).__name__, str(result))
    from scheme import Element
    if isinstance(result, Element):
        return ('element', type(result).__name__, image(dict((k, v) for k, v
            in vars(result).items())))
    if isinstance(result, dict) and not hasattr(result, 'surrogate'):
        return ('dict', [(freeze(k), image(v)) for k, v in result.items()])
    if isinstance(result, (list, tuple)):
        return (type(result).__name__, [image(v) for v in result])
    return freeze(result)

def captured(error):
    """Whether the text of the error holds a traceback."""
    if getattr(error, 'tracebacks', None):
        return True
    structure = getattr(error, 'structure', None) or ()
    for child in structure.values() if isinstance(structure, dict) else structure:
        if isinstance(child, Exception) and captured(child):
            return True
    return False

# operations: name -> function of the world, a dict of schemas

def p(value, phase='inbound', serialized=False, field='f'):
    def operation(world):
        return world[field].process(copy.deepcopy(value), phase, serialized)
    return operation

def text(value, phase='inbound', serialized=False, field='f'):
    """The rendered text of a refusal."""
    def operation(world):
        try:
            return world[field].process(copy.deepcopy(value), phase, serialized)
        except Exception as exception:
            return (str(exception), repr(exception.serialize()))
    return operation

def m(method, *args, **params):
    def operation(world):
        return getattr(world['f'], method)(*copy.deepcopy(args), **params)
    return operation

def used(method, *args):
    """A copy of the schema, and what it does."""
    def operation(world):
        made = getattr(world['f'], method)(*args)
        return (made.describe(), made is world['f'])
    return operation

def dump(format, value, **params):
    return lambda world: world['f'].serialize(copy.deepcopy(value), format, **params)

def load(format, value, **params):
    return lambda world: world['f'].unserialize(value, format, **params)

def marking(path, term):
    if path and path[-1] in ('a', 'item', 'value', 0) or path == ():
        return {'instantiator': instantiator, 'extractor': extractor}

class Group(object):
    def __init__(self, world, operations, brief=()):
        self.world, self.operations, self.brief = world, operations, brief

def fields(**terms):
    return lambda: dict((name, spec.build(term)) for name, term in terms.items())

STRUCTURE = ('structure', {'structure': {'a': ('integer', {'required': True, 'minimum': 1}),
    'b': ('text', {'default': 'dd', 'description': 'text of b'}), 'n': S(x=INT, y=('date', {})),
    'o': ('field', {}), 'l': ('map', {'value': INT, 'default': {'k': 1}})}, 'key_order': 'b a n o l',
    'name': 'root'})
POLYMORPHIC = ('structure', {'polymorphic_on': 'kind', 'structure': {'x': {'a': INT,
    'd': ('integer', {'default': 3})}, 'y': {'a': ('text', {'required': True}), 'd': ('date', {})},
    '*': {'c': ('text', {'default': 'cc'})}}, 'name': 'poly'})
CONTAINERS = S(s=('sequence', {'item': ('integer', {'minimum': 1}), 'unique': True}),
    m=('map', {'value': ('date', {}), 'key': ('integer', {}), 'required_keys': [1]}),
    t=('tuple', {'values': [INT, TEXT]}),
    u=('union', {'fields': [('integer', {'maximum': 9}), ('date', {}), ('sequence', {'item': TEXT})]}))
SCALARS = S(date=('date', {'minimum': date(2000, 1, 1)}), time=('time', {'maximum': time(12, 0)}),
    datetime=('datetime', {'utc': True, 'minimum': dt(2000, 1, 1)}), local=('datetime', {}),
    decimal=('decimal', {'minimum': '1.5'}), float=('float', {'maximum': 9.5}),
    binary=('binary', {'max_length': 3}), boolean=('boolean', {}))
STRINGS = S(token=('token', {'segments': 2}), email=('email', {'multiple': True}), uuid=('uuid', {}),
    text=('text', {'pattern': '^[a-z]+$', 'max_length': 4}), nice=('text', {'preprocessor': 'upper'}),
    enumeration=('enumeration', {'enumeration': ['p', 'q', 3], 'ignored_values': ['r']}),
    constant=('integer', {'constant': 7}))
MARKED = S(a=INT, s=('sequence', {'item': INT}), m=('map', {'value': INT}),
    t=('tuple', {'values': [INT, TEXT]}))
REPEATED = ('sequence', {'item': S(k=('text', {'required': True}), v=INT), 'name': 'rows'})

def elements():
    from scheme import Date, Element, Integer, Map, Sequence, Structure, Text
    class Leaf(Element):
        schema = Structure({'name': Text(required=True), 'when': Date()}, name='leaf')
    class Root(Element):
        key_attr = 'id'
        schema = Structure({'a': Integer(default=2), 'leaf': Leaf.schema, 'many':
            Sequence(Leaf.schema), 'byname': Map(Leaf.schema)}, name='root')
    class Base(Element):
        schema = Structure({'x': {'p': Integer()}, 'y': {'q': Text()}}, polymorphic_on='type',
            name='base')
    class X(Base):
        polymorphic_identity = 'x'
    class Y(Base):
        polymorphic_identity = 'y'
    return {'Leaf': Leaf, 'Root': Root, 'Base': Base, 'X': X, 'Y': Y}

def surrogates():
    from mc.props import c23
    from scheme import Surrogate
    module = c23.implementations()
    return {'f': Surrogate(name='sur'), 'only': Surrogate([c23.token('One')], name='only'),
        'module': module, 'list': spec.build(S(many=('sequence', {'item': ('surrogate', {})})))}

def sur(i):
    from mc.props import c23
    return c23.FEW[i]

def write_sur(i, field='f'):
    from mc.props import c23
    world_of = c23.World.__new__(c23.World)
    def operation(world):
        world_of.module = world['module']
        return world[field].process(world_of.real(c23.FEW[i]), 'outbound', True)
    return operation

def read_sur(i, field='f'):
    from mc.props import c23
    world_of = c23.World.__new__(c23.World)
    def operation(world):
        world_of.module = world['module']
        data = c23.MODEL.write(c23.FEW[i])
        return world[field].process(world_of.real(data), 'inbound', True)
    return operation

def bounded(k):
    """Fields with every kind of bound, which depend on k: their refusals differ in nothing else."""
    return {
        'integer%d' % k: ('integer', {'minimum': 5 * k, 'maximum': 5 * k + 1}),
        'float%d' % k: ('float', {'minimum': 5.5 * k, 'maximum': 5.5 * k + 1}),
        'decimal%d' % k: ('decimal', {'minimum': D(5 * k), 'maximum': D(5 * k + 1)}),
        'text%d' % k: ('text', {'min_length': 1 + k, 'max_length': 2 + k}),
        'binary%d' % k: ('binary', {'min_length': 1 + k, 'max_length': 2 + k}),
        'date%d' % k: ('date', {'minimum': date(2000 + k, 1, 1), 'maximum': date(2000 + k, 1, 2)}),
        'time%d' % k: ('time', {'minimum': time(10 + k, 0), 'maximum': time(10 + k, 1)}),
        'datetime%d' % k: ('datetime', {'utc': True, 'minimum': dt(2000 + k, 1, 1), 'maximum':
            dt(2000 + k, 1, 2)}),
        'enumeration%d' % k: ('enumeration', {'enumeration': [10 * k, 20 * k]}),
        'sequence%d' % k: ('sequence', {'item': INT, 'min_length': 1 + k, 'max_length': 2 + k}),
        'map%d' % k: ('map', {'value': INT, 'required_keys': ['key%d' % k]}),
        'tuple%d' % k: ('tuple', {'values': [INT] * (1 + k)}),
        'structure%d' % k: S(**{'need%d' % k: ('integer', {'required': True})}),
        'token%d' % k: ('token', {'segments': 1 + k}),
    }

BOUNDED = dict(bounded(1), **bounded(2))

def under(k):
    return {'integer%d' % k: 0, 'float%d' % k: 0.0, 'decimal%d' % k: D(0), 'text%d' % k: 'x',
        'binary%d' % k: b'x', 'date%d' % k: date(1999, 1, 1), 'time%d' % k: time(0, 0),
        'datetime%d' % k: dt(1999, 1, 1), 'enumeration%d' % k: 5, 'sequence%d' % k: [1],
        'map%d' % k: {}, 'tuple%d' % k: (), 'structure%d' % k: {}, 'token%d' % k: 'a:b:c:d:e'}

def over(k):
    return {'integer%d' % k: 100, 'float%d' % k: 100.0, 'decimal%d' % k: D(100), 'text%d' % k:
        'x' * 9, 'binary%d' % k: b'x' * 9, 'date%d' % k: date(2010, 1, 1), 'time%d' % k:
        time(23, 0), 'datetime%d' % k: dt(2010, 1, 1), 'sequence%d' % k: [1] * 9, 'map%d' % k: 5 * k,
        'structure%d' % k: {'need%d' % k: 1, 'strange%d' % k: 1}, 'none%d' % k: 5}

LIMITED = ('integer', {'minimum': 5, 'maximum': 10})
VARIED = ('structure', {'structure': {'x': {'a': LIMITED}, 'y': {}}, 'polymorphic_on': 'kind'})
REFUSING = S(m=('map', {'value': LIMITED}), s=('sequence', {'item': LIMITED}), t=('tuple', {'values':
    [LIMITED, LIMITED]}), n=S(a=LIMITED, b=LIMITED), u=('union', {'fields': [LIMITED, ('boolean',
    {})]}), p=VARIED)

def refused(n):
    return {'m': {'k': n}, 's': [n, 7], 't': (7, n), 'n': {'a': n}, 'u': n, 'p': {'kind': 'x', 'a':
        n}}

ROWS = [{'k': 'p', 'v': 1}, {'k': 'q q', 'v': 2}]
OTHERS = [{'k': 'longer text: here', 'v': -5}]

def files(name):
    def operation(world):
        from scheme import Json
        world['f'].write(name, ROWS if 'a' in name else OTHERS)
        with open(name) as opened:
            content = opened.read()
        return (content, world['f'].read(name), sorted(os.listdir(os.path.dirname(name))))
    return operation

def define(value):
    """Another thread's placeholder, in the same world."""
    def operation(world):
        from scheme import Integer, Structure, Undefined
        hole = Undefined()
        field = Structure({'p': hole, 'q': Integer(default=value)})
        hole.define(field)
        return field.process({'p': {'p': {}}, 'q': value})
    return operation

def groups():
    day = date(2001, 2, 3)
    return {
        'structure': Group(fields(f=STRUCTURE), {
            'good': p({'a': 1, 'n': {'x': 1, 'y': '2001-02-03'}, 'o': [1]}, 'inbound', True),
            'other': p({'a': 2, 'b': 'x', 'n': {'x': 7}, 'l': {'z': 3}}),
            'out': p({'a': 5, 'n': {'y': day}}, 'outbound', True),
            'bad': text({'a': 0, 'n': {'x': 'q', 'y': 'r'}, 'zz': 1}, 'inbound', True),
            'worse': text({'b': 1, 'n': {'u': 1}, 'l': {1: 1}}),
            'wrong': text([1]),
            'partial': m('process', {'b': 'y'}, partial=True),
            'describe': m('describe'),
            'verbose': m('describe', None, True),
            'clone': used('clone'),
            'repr': lambda world: repr(world['f']),
            'defaults': m('generate_defaults'),
            'extract': m('extract', {'a': 1, 'n': {'x': 2}, 'zz': 3}),
            'filter': used('filter'),
        }, [('partial', 'extract')]),
        'polymorphic': Group(fields(f=POLYMORPHIC), {
            'x': p({'kind': 'x', 'a': 1}, 'inbound', True),
            'y': p({'kind': 'y', 'a': 'p', 'd': '2001-02-03'}, 'inbound', True),
            'out': p({'kind': 'y', 'a': 'p', 'd': day}, 'outbound', True),
            'bad': text({'kind': 'x', 'a': 'q', 'd': 'r'}),
            'worse': text({'kind': 'y', 'd': 3}),
            'unknown': text({'kind': 'z'}),
            'missing': text({'a': 1}),
            'describe': m('describe'),
            'clone': used('clone'),
            'extract': m('extract', {'kind': 'y', 'a': 'q'}),
            'interpolate': m('interpolate', {'kind': 'x', 'a': '${n}'}, {'n': 4}),
        }, [('interpolate', 'extract')]),
        'containers': Group(fields(f=CONTAINERS), {
            'good': p({'s': [1, 2], 'm': {'1': '2001-02-03'}, 't': [1, 'x'], 'u': 3}, 'inbound',
                True),
            'other': p({'s': [], 'm': {1: day, 2: day}, 't': (4, 'y'), 'u': ['p']}),
            'out': p({'s': [3], 'm': {1: day}, 't': (4, 'y'), 'u': day}, 'outbound', True),
            'bad': text({'s': [1, 0, 'x'], 'm': {1: 'q', 2: day}, 't': ('x', 1), 'u': 10}),
            'worse': text({'s': ['x', 5], 'm': {'x': day}, 't': (1,), 'u': [1]}),
            'same': text({'s': [1, 1], 'm': {}, 'u': {}}),
            'describe': m('describe'),
            'clone': used('clone'),
            'repr': lambda world: repr(world['f']),
            'extract': m('extract', {'s': [1], 'm': {1: day}, 't': (1, 'x')}),
            'interpolate': m('interpolate', {'s': ['${n}', 2], 't': ('${n}', '${x}'), 'm': {1:
                '${d}'}}, {'n': 4, 'x': 'v', 'd': day}),
            'interpolate again': m('interpolate', {'s': ['${n}'], 'u': '${n}'}, {'n': 8}),
        }, [('extract', 'interpolate again')]),
        'refusals': Group(fields(f=REFUSING), {
            'low': text(refused(1)), 'high': text(refused(20)),
        }),
        'map refusals': Group(fields(f=('map', {'value': LIMITED})), {
            'low': text({'k': 1, 'l': 2}), 'high': text({'k': 20, 'j': 30}),
        }, [('low', 'high')]),
        'sequence refusals': Group(fields(f=('sequence', {'item': LIMITED})), {
            'low': text([1, 2]), 'high': text([20, 7, 30]),
        }, [('low', 'high')]),
        'tuple refusals': Group(fields(f=('tuple', {'values': [LIMITED, LIMITED]})), {
            'low': text((1, 2)), 'high': text((20, 30)),
        }, [('low', 'high')]),
        'structure refusals': Group(fields(f=S(a=LIMITED, b=LIMITED)), {
            'low': text({'a': 1, 'c': 5}), 'high': text({'a': 20, 'b': 30}),
        }, [('low', 'high')]),
        'union refusals': Group(fields(f=('union', {'fields': [LIMITED, S(a=LIMITED)]})), {
            'low': text(1), 'high': text({'a': 20}), 'text': text('x'),
        }, [('low', 'high')]),
        'scalars': Group(fields(f=SCALARS), {
            'good': p({'date': '2001-02-03', 'time': '01:02:03', 'datetime': '2001-02-03T04:05:06Z',
                'local': '2001-02-03T04:05:06Z', 'decimal': '2.50', 'float': '1.5', 'binary': b'YQ==',
                'boolean': True}, 'inbound', True),
            'other': p({'date': day, 'time': time(3, 4, 5), 'datetime': dt(2003, 1, 1), 'local':
                dt(2004, 1, 1), 'decimal': D('7'), 'float': 0.5, 'binary': b'b'}),
            'out': p({'date': day, 'time': time(3, 4, 5), 'datetime': dt(2003, 1, 1), 'local':
                dt(2004, 1, 1), 'decimal': D('7'), 'float': 0.5, 'binary': b'b'}, 'outbound', True),
            'bad': text({'date': date(1999, 1, 1), 'time': time(13, 0), 'datetime': dt(1999, 1, 1),
                'decimal': D('1'), 'float': 10.0, 'binary': b'xxxx', 'boolean': 1}),
            'worse': text({'date': 'x', 'time': 'y', 'datetime': 'z', 'decimal': 'q', 'float': 'x',
                'binary': 'u'}, 'inbound', True),
            'describe': m('describe'),
            'clone': used('clone'),
            'repr': lambda world: repr(world['f']),
        }),
        'bounds': Group(fields(f=S(**BOUNDED)), {
            'under': text(under(1)), 'over': text(over(1)),
            'low': text({'integer1': 1}), 'short': text({'text1': ''}),
            'none': text({'structure1': {}, 'map1': {}}), 'few': text({'sequence1': []}),
            'under again': text(under(2)), 'over again': text(over(2)),
            'low again': text({'integer2': 1}), 'short again': text({'text2': ''}),
            'none again': text({'structure2': {}, 'map2': {}}), 'few again': text({'sequence2': []}),
        }, [('low', 'low again'), ('short', 'short again')]),
        'strings': Group(fields(f=STRINGS), {
            'good': p({'token': 'a:b', 'email': 'A@B.co; c@d.co', 'uuid': UUIDS[1], 'text': ' ab ',
                'nice': 'up', 'enumeration': 'p', 'constant': 7}, 'inbound', True),
            'other': p({'token': 'c:d', 'email': 'x@y.org', 'text': 'zz', 'nice': 'other',
                'enumeration': 'r'}),
            'bad': text({'token': 'a:b:c', 'email': 'x', 'uuid': 'y', 'text': 'A', 'nice': 3,
                'enumeration': 'x', 'constant': 8}),
            'worse': text({'token': ':', 'email': 'x@y', 'text': 'abcde', 'enumeration': 4}),
            'describe': m('describe'),
            'clone': used('clone'),
            'interpolate': m('interpolate', {'text': 'a ${x} b', 'nice': '${y}', 'enumeration':
                '${x}'}, {'x': 'p', 'y': 'v'}),
            'interpolate again': m('interpolate', {'text': '${x}${x}', 'token': 'a:${y}',
                'constant': '${n}'}, {'x': 'q', 'y': 'w', 'n': 7}),
            'undefined': m('interpolate', {'text': '${zz}', 'token': '${y}'}, {'y': 'w'}),
        }),
        'marked': Group(lambda: {'f': spec.build(MARKED, marking)}, {
            'instantiate': m('instantiate', {'a': 1, 's': [1, 2], 'm': {'k': 3}, 't': (1, 'x')}),
            'again': m('instantiate', {'a': 5, 's': [], 'm': {'k': 6, 'l': 7}}, 'key'),
            'extract': m('extract', ['n', {'a': ['a', 1, None], 's': [['i', 2, None]]}, None]),
            'fails': m('extract', ['n', {'a': 3}, None]),
            'more': m('extract', ['n', {'m': {'k': ['v', 4, 'k']}, 'a': ['a', 9, None]}, None]),
            'process': p({'a': 1, 's': [1], 'm': {'k': 1}}),
            'screened': m('extract', {'a': 1}, True, name='x'),
            'define': define(3),
            'define again': define(4),
        }, [('instantiate', 'again'), ('extract', 'more')]),
        'elements': Group(elements, {
            'leaf': lambda w: w['Leaf'](name='n', when=day),
            'root': lambda w: w['Root'](leaf=w['Leaf'](name='m'), many=[w['Leaf'](name='p')]),
            'bad': lambda w: w['Root'](leaf=w['Leaf'](), many=3),
            'read': lambda w: w['Root'].unserialize({'a': 4, 'leaf': {'name': 'x', 'when':
                '2001-02-03'}, 'byname': {'k': {'name': 'y'}}}),
            'write': lambda w: w['Root'](leaf=w['Leaf'](name='m', when=day)).serialize(),
            'refused': lambda w: w['Root'].unserialize({'many': [{'name': 3}]}),
            'x': lambda w: w['Base'].unserialize({'type': 'x', 'p': 1}),
            'y': lambda w: w['Base'].unserialize({'type': 'y', 'q': 'v'}),
            'json': lambda w: w['Leaf'].unserialize('{"name": "n"}', 'json').serialize('json'),
        }, [('x', 'y'), ('leaf', 'root')]),
        'surrogates': Group(surrogates, {
            'write one': write_sur(3), 'write three': write_sur(5), 'write dynamic': write_sur(2),
            'write holder': write_sur(8), 'read one': read_sur(3), 'read three': read_sur(5),
            'read dynamic': read_sur(2), 'read holder': read_sur(8),
            'only': read_sur(5, 'only'),
            'unknown': p({'_': 'no.such.Thing', 'a': 1}, 'inbound', True),
            'broken': text({'_': 'os.path'}, 'inbound', True),
        }, [('read one', 'read three')]),
        'formats': Group(fields(f=REPEATED), {
            'json': dump('json', ROWS), 'json in': load('json', '[{"k": "x", "v": 3}]'),
            'yaml': dump('yaml', ROWS), 'yaml other': dump('yaml', OTHERS),
            'yaml in': load('yaml', '- k: "a b"\n  v: 5\n'),
            'xml': dump('xml', ROWS), 'xml other': dump('xml', OTHERS),
            'xml in': load('xml', '<rows><item><k>z</k><v>4</v></item></rows>'),
            'csv': dump('csv', ROWS), 'csv other': dump('csv', OTHERS),
            'csv in': load('csv', 'k,v\r\nx,3\r\n'),
            'form': lambda w: __import__('scheme').UrlEncoded.serialize({'a': [1, {'b': 'x y'}]}),
            'form in': lambda w: __import__('scheme').UrlEncoded.unserialize('a=[1,{b:2}]&c=3'),
            'broken': text('[', 'inbound', True),
            'files': files('a/rows.json'), 'files again': files('b/rows.yaml'),
        }),
    }

_scheduler = []

class Pair(object):
    def __init__(self, group, tier):
        self.tier = tier
        self.group = groups()[group]
        if not _scheduler:
            _scheduler.append(Scheduler())
        self.scheduler = _scheduler[0]
        self.snapshot = Snapshot()
        self.alone = {}
        for name in ('a', 'b'):
            if not os.path.isdir(name):
                os.mkdir(name)

    def fresh(self):
        self.snapshot.restore()
        for name in ('a', 'b'):
            for found in os.listdir(name):
                os.remove(os.path.join(name, found))
        return self.group.world()

    def prepare(self, name):
        """(lines, image) of an operation alone in a fresh world."""
        if name not in self.alone:
            world = self.fresh()
            operation = self.group.operations[name]
            self.scheduler.count(lambda: operation(world))
            world = self.fresh()
            places, result = self.scheduler.count(lambda: operation(world))
            self.alone[name] = (self.stops(places), image(result), len(places))
            if isinstance(result, (TypeError, NameError, AttributeError, KeyError)):
                raise result
        return self.alone[name]

    def stops(self, places):
        """Where to interrupt: every line or, for quick, every line the first times it is run."""
        if self.tier != 'quick':
            return list(range(len(places)))
        times, chosen = {}, []
        for number, place in enumerate(places):
            times[place] = times.get(place, 0) + 1
            if times[place] <= VISITS:
                chosen.append(number)
        return chosen

    def one(self, a, b, warm, part, st):
        """One preemption of ``a``, at every line."""
        stops, expected, _ = self.prepare(a)
        _, other, _ = self.prepare(b)
        first, second = self.group.operations[a], self.group.operations[b]
        world = self.fresh()
        if warm:
            first, second = self.group.operations[a], self.group.operations[b]
            for operation in (first, second, first):
                try:
                    operation(world)
                except Exception:
                    pass
        for stop in stops[part::PARTS]:
            if not warm:
                world = self.fresh()
            results = self.scheduler.run(lambda: first(world), lambda: second(world), stop)
            self.compare((a, b), results, (expected, other), 'preempted at line %d' % stop, st)
        st.state(a, b, warm)

    def two(self, a, b, limit, part, st):
        stops, expected, _ = self.prepare(a)
        others, other, _ = self.prepare(b)
        if len(stops) * len(others) > limit:
            return False
        first, second = self.group.operations[a], self.group.operations[b]
        for i in stops[part::PARTS]:
            for j in others:
                world = self.fresh()
                results = self.scheduler.run(lambda: first(world), lambda: second(world), i, j)
                self.compare((a, b), results, (expected, other), 'preempted at line %d, and at'
                    ' line %d of the second' % (i, j), st)
        st.state(a, b, 'two')
        return True

    def compare(self, names, results, expected, what, st):
        st.step()
        st.trace('schedule')
        for name, result, wanted in zip(names, results, expected):
            found = image(result)
            if found != wanted:
                st.violate('%s and %s together, the first %s: %s gave %s, alone %s' % (names[0],
                    names[1], what, name, found, wanted))

def rivals(name, group, a, tier):
    """The operations run within ``a``."""
    operations = list(group.operations)
    if tier != 'quick':
        return operations
    at = operations.index(a)
    if name in WHOLE:
        return [operations[at - len(operations) // 2]]
    chosen = [operations[at - len(operations) + 1]]
    if a not in HEAVY:
        chosen.append(operations[at - len(operations) // 2])
    for opposite in OPPOSITE.get(a, ()):
        if opposite in operations and opposite not in chosen:
            chosen.append(opposite)
    return chosen

OPPOSITE = {'good': ('worse', ), 'worse': ('good', )}
HEAVY = ('describe', 'verbose', 'clone', 'filter', 'bad', 'worse', 'same', 'files', 'files again')
WHOLE = ('bounds', )            # the second rival of these is what matters

def pairs(tier):
    for name, group in groups().items():
        for number, a in enumerate(group.operations):
            for b in rivals(name, group, a, tier):
                yield ('one', name, a, b, False)
                if tier != 'quick' or number % 4 == 0 and a not in HEAVY:
                    yield ('one', name, a, b, True)
                if tier != 'quick':
                    yield ('two', name, a, b, LIMIT[tier])
        if tier == 'quick':
            for a, b in group.brief:
                yield ('two', name, a, b, LIMIT[tier])

def cases(tier):
    for pair in pairs(tier):
        for part in range(PARTS):
            yield (tier,) + pair + (part,)

_pairs = {}

def run(case, st):
    tier, kind, group, a, b, option, part = case
    if (tier, group) not in _pairs:
        _pairs.clear()
        _pairs[tier, group] = Pair(group, tier)
    pair = _pairs[tier, group]
    try:
        if kind == 'one':
            pair.one(a, b, option, part, st)
        else:
            pair.two(a, b, option, part, st)
    finally:
        pair.snapshot.restore()
    st.sample('%s: %s (%d lines) and %s (%d lines)' % (group, a, pair.alone[a][2], b,
        pair.alone[b][2]))
