"""Probe values derived from a schema term: valid, boundary, serialized and invalid ones."""

import datetime
import decimal

from mc import domains
from mc.spec import Fixed, Junk

D = decimal.Decimal
date, time, dt = datetime.date, datetime.time, datetime.datetime
UTC = datetime.timezone.utc

SCALARS = {
    'field': ['x', None, {'a': [1]}, [], 0, False, 1.5],
    'text': ['a', 'b', None, '', ' a ', 'abc', 'a' * 9, 5, b'a'],
    'token': ['a:b', 'a', None, 'a:b:c', 'a b', '', 'a:', 5],
    'email': ['a@b.co', ' A@B.co;', None, '', 'N <a@b.co>', 'a@b.co; c@d.co', 'nope', 5],
    'uuid': [domains.UUIDS[1], None, domains.BAD_UUIDS[0], '', 5],
    'integer': [1, 0, None, -1, 2, 3, 5, 10, '1', '5', 1.5, True, 'x', 2 ** 70],
    'float': [1.5, 0.0, None, 1, -1.5, 2.0, 1e300, '1.5', float('nan'), float('inf'), 'x', True],
    'decimal': [D('1.5'), D('0'), None, '1.5', '1', D('2'), D('-1'), D('NaN'), 'x', 1, 1.5],
    'boolean': [True, False, None, 1, 0, 'true'],
    'binary': [b'abc', b'', None, b'YWJj', b'a', b'abcdef', 'abc', b'!', 5],
    'date': [date(2000, 1, 2), '2000-01-01', None, date(2000, 1, 1), date(2000, 1, 3),
        dt(2000, 1, 2, 5), '2000-01-03', 'x', date(999, 1, 1), '0999-01-01', 5],
    'time': [time(12, 30, 15), '12:30:15', None, time(12, 30, 14), time(12, 30, 16),
        time(0, 0), time(23, 59, 59), '00:00:00', 'x', 5],
    'datetime': [dt(2000, 1, 1, 12, 0), '2000-01-01T12:00:00Z', None, dt(2000, 1, 1, 12, 0, 1),
        dt(2000, 1, 1, 11, 59, 59), dt(2000, 1, 1, 13, 0, tzinfo=Fixed(60)),
        dt(2000, 1, 1, 12, 0, 0, 1, tzinfo=UTC), '2000-01-01T12:00:01Z', date(2000, 1, 1), 'x', 5],
    'enumeration': ['a', 1, None, 'b', True, 1.5, '', 'zz', 2],
    'definition': [],
    'object': [None, 'datetime.date', 'zz.zz', 5],
    'error': [None, ([{'token': 'invalid', 'title': 't', 'message': 'm'}], None), 5, [1]],
    'surrogate': [None, {'_': 'surrogate', 'a': 1}, 5, {}],
}

def good(term):
    """A valid native value of a term without narrowing constraints."""
    return samples(term)[0]

def samples(term, limit=24):
    kind, params = term
    if kind in SCALARS:
        found = list(SCALARS[kind])
        if kind == 'enumeration':
            allowed = params['enumeration']
            allowed = allowed.split(' ') if isinstance(allowed, str) else list(allowed)
            found = allowed + [v for v in found if v not in allowed]
        if kind == 'definition':
            from scheme import Integer, Text
            found = [{'fieldtype': 'integer', 'minimum': 5}, None, {'fieldtype': 'text'},
                {'fieldtype': 'zz'}, 5]
        for extra in ('default', 'constant', 'minimum', 'maximum'):
            if params.get(extra) is not None:
                found.append(params[extra])
        return found
    found = []
    if kind == 'structure':
        variants = params['structure']
        on = params.get('polymorphic_on')
        if on:
            name = on if isinstance(on, str) else on[1]['name']
            common = variants.get('*', {})
            variants = [(dict([(name, identity)]), dict(common, **fields))
                for identity, fields in variants.items() if identity != '*']
            found += [{}, {name: 'nope'}, {name: None}, {name: []}]
        else:
            variants = [({}, variants)]
        for base, fields in variants:
            inner = dict((n, samples(f)) for n, f in fields.items())
            first = dict(base, **dict((n, v[0]) for n, v in inner.items()))
            found += [first, dict(base), dict(first, zz=1)]
            for n in fields:
                without = dict(first)
                del without[n]
                found.append(without)
                found += [dict(first, **{n: v}) for v in inner[n][1:limit // max(1, len(fields))]]
    elif kind == 'sequence':
        inner = samples(params['item'])
        found += [inner[:1], [], inner[:1] * 2, inner[:1] * 3, inner[:2]]
        found += [[inner[0], v] for v in inner[1:limit - 4]]
        if params['item'][0] == 'integer':
            found += [list(range(n)) for n in range(2, 5)]
    elif kind == 'map':
        inner = samples(params['value'])
        keys = samples(params['key']) if params.get('key') else ['k', 'j', '', 5, None]
        keys = [k for k in keys if not isinstance(k, (list, dict, Junk)) and k == k]
        required = params.get('required_keys') or []
        required = required.split(' ') if isinstance(required, str) else list(required)
        base = dict((k, inner[0]) for k in required)
        found += [dict(base, **{}) if not base else base, {}]
        found += [dict(list(base.items()) + [(k, inner[0])]) for k in keys]
        found += [dict(list(base.items()) + [(keys[0], v)]) for v in inner[1:limit - len(keys)]]
        found += [dict((keys[i % 2], v) for i, v in enumerate(inner[:2]))]
        if required:
            found.append(dict((k, inner[0]) for k in required[1:]))
    elif kind == 'tuple':
        inner = [samples(f) for f in params['values']]
        first = tuple(i[0] for i in inner)
        found += [first, list(first), first[:-1], first + (1, )]
        for n, values in enumerate(inner):
            found += [first[:n] + (v, ) + first[n + 1:] for v in values[1:limit // len(inner)]]
    elif kind == 'union':
        for field in params['fields']:
            found += [v for v in samples(field)[:limit // len(params['fields'])]]
    return found + [None, 5, 'x', [], {}, ()]
