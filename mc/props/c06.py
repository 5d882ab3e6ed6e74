"""All ordered unions of one, two and three alternatives x values of all types x phase x form,
compared with the reference model and with the alternatives' own outcomes, alone and nested."""

import itertools

from mc import ref, spec
from mc.core import Violation
from mc.domains import *
from mc.observe import PHASES, Raised, attempt, check_process, expect
from mc.ref import Refused, same

BOUNDS = {
    'quick': 'all ordered pairs of 22 alternatives over the full value pool, ordered triples of 9'
        ' over 70 values, quadruples of 4; each nested in five containers over 22 pairs',
    'thorough': 'ordered triples of 22, quadruples of 7',
}

ALTS = [
    ('integer', {}), ('text', {}), ('structure', {'structure': {'a': ('integer', {})}}),
    ('sequence', {'item': ('integer', {})}), ('boolean', {}), ('integer', {'minimum': 2}),
    ('text', {'min_length': 2}), ('date', {}), ('float', {}),
    ('decimal', {}), ('decimal', {'maximum': D('1')}), ('binary', {}), ('token', {}),
    ('datetime', {'utc': True}), ('enumeration', {'enumeration': ['a', 1, None]}),
    ('map', {'value': ('text', {})}), ('tuple', {'values': [('integer', {}), ('text', {})]}),
    ('structure', {'structure': {'a': ('text', {'required': True})}, 'strict': False}),
    ('integer', {'constant': 1}), ('text', {'nonnull': True, 'max_length': 1}),
    ('union', {'fields': [('boolean', {}), ('time', {})]}),
    ('union', {'fields': [('sequence', {'item': ('integer', {}), 'min_length': 1}), ('uuid', {})]}),
]

VALUES = [v for v in POOL] + [[1, 'x'], [1, 'a'], (1, 'a'), (1, 'a', 2), {'a': 1, 'b': 2},
    {'b': 1}, {'a': []}, [[]], UUIDS[1], [1, 2]]
FEWER = [None, True, False, 0, 1, 2, -1, 2 ** 63, 1.5, float('nan'), '', 'a', 'abc', '1', '1.5',
    ' 1', 'null', b'', b'a', b'YWJj', D('1'), D('2.5'), date(2000, 1, 1), '2000-01-01',
    dt(2000, 1, 1, 12), '2000-01-01T12:30:15Z', time(1, 2, 3), '01:02:03', [], [1], ['a'],
    [1, 'x'], [1, 'a'], (1, 'a'), (1, 'a', 2), {}, {'a': 1}, {'a': 'b'}, {'a': 1, 'b': 2},
    {'b': 'x'}, {1: 2}, Junk(), UUIDS[1]]

def cases(tier):
    quick = tier == 'quick'
    for i in range(len(ALTS)):
        yield ('union', (i, ), True)
        for j in range(len(ALTS)):
            yield ('union', (i, j), True)
    for chosen in itertools.product(range(9 if quick else len(ALTS)), repeat=3):
        yield ('union', chosen, False)
    for chosen in itertools.product(range(4 if quick else 7), repeat=4):
        yield ('union', chosen, False)
    yield ('wide', )
    for i in range(len(ALTS)):
        for j in ((i * 7 + 3) % len(ALTS), (i * 5 + 1) % len(ALTS)) if quick else range(len(ALTS)):
            yield ('nested', i, j)

def wide(st):
    """Every alternative of wide unions, rotated and reversed."""
    kinds = [MEMBERS[i] for i in (2, 1, 4, 10, 0, 3, 7)]
    for turn in range(len(kinds)):
        for chosen in (kinds[turn:] + kinds[:turn], (kinds[turn:] + kinds[:turn])[::-1]):
            term = ('union', {'fields': [c[0] for c in chosen]})
            field = spec.build(term)
            for value in FEWER + [c[1] for c in MEMBERS] + [c[2] for c in MEMBERS]:
                for phase, serialized in PHASES:
                    check_process(field, term, value, phase, serialized, st)
                    direct(field, term, value, phase, serialized, st)
                st.state(repr(term), repr(value))

def direct(field, term, value, phase, serialized, st):
    """The union against its own alternatives."""
    actual = attempt(field.process, value, phase, serialized)
    if value is None:
        return
    for alternative in field.fields:
        wanted = attempt(alternative.process, value, phase, serialized, [field.guaranteed_name])
        if isinstance(wanted, Raised) and type(wanted.exception).__name__ == 'InvalidTypeError':
            continue
        if isinstance(wanted, Raised):
            agrees = isinstance(actual, Raised) and \
                actual.exception.serialize() == wanted.exception.serialize() and \
                actual.exception.identity == wanted.exception.identity
        else:
            agrees = not isinstance(actual, Raised) and same(actual, wanted)
        if not agrees:
            raise Violation('%r.process(%r, %s, serialized=%r): %r, but its first accepting'
                ' alternative gives %r' % (term, value, phase, serialized, actual, wanted))
        break
    st.step()

def run(case, st):
    if case[0] == 'wide':
        wide(st)
    elif case[0] == 'union':
        fields = [ALTS[i] for i in case[1]]
        for p in grid(nonnull=[E_, True], name=[E_, 'u']) if len(fields) < 3 else [{}]:
            term = ('union', dict(p, fields=fields))
            field = spec.build(term)
            for value in VALUES if case[2] and not p else FEWER:
                for phase, serialized in PHASES:
                    check_process(field, term, value, phase, serialized, st)
                    if not p and len(fields) == 2:
                        direct(field, term, value, phase, serialized, st)
                st.state(repr(term), repr(value))
    else:
        union = ('union', {'fields': [ALTS[case[1]], ALTS[case[2]]]})
        for p in ({}, {'nonnull': True}):
            inner = spec.with_params(union, **p)
            required = spec.with_params(inner, required=True)
            for term, make in (
                    (('structure', {'structure': {'a': required, 'b': inner}}),
                        lambda v: [{'a': v}, {'b': v}, {'a': v, 'b': v}]),
                    (('sequence', {'item': inner, 'max_length': 2}), lambda v: [[v], [v, 1]]),
                    (('map', {'value': inner}), lambda v: [{'a': v, 'b': True}]),
                    (('tuple', {'values': [inner, inner]}), lambda v: [(v, 'a')]),
                    (('union', {'fields': [inner, ('boolean', {})]}), lambda v: [v])):
                field = spec.build(term)
                for value in FEWER:
                    for made in make(value):
                        for phase, serialized in PHASES:
                            check_process(field, term, made, phase, serialized, st)
                        st.state(repr(term), repr(made))
