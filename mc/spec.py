"""Schemas as literal terms, and real schemas built from them through public constructors.

A term is ``(kind, params)``; nested terms stand where nested fields stand:

    ('structure', {'structure': {'a': ('integer', {'minimum': 1})}, 'strict': False})
    ('sequence', {'item': T}), ('map', {'value': T, 'key': T}), ('tuple', {'values': [T, ...]}),
    ('union', {'fields': [T, ...]})
"""

import datetime
import decimal

D = decimal.Decimal
date, time, dt = datetime.date, datetime.time, datetime.datetime

class Fixed(datetime.tzinfo):
    """A fixed offset zone independent of scheme."""
    def __init__(self, minutes):
        self.minutes = minutes
    def utcoffset(self, value):
        return datetime.timedelta(minutes=self.minutes)
    def dst(self, value):
        return datetime.timedelta(0)
    def tzname(self, value):
        return 'Fixed%+d' % self.minutes
    def __repr__(self):
        return 'Fixed(%d)' % self.minutes
    def __eq__(self, other):
        return isinstance(other, Fixed) and other.minutes == self.minutes
    def __hash__(self):
        return self.minutes

class Junk(object):
    """A value no field or format knows."""
    def __repr__(self):
        return 'Junk()'
    def __eq__(self, other):
        return isinstance(other, Junk)
    def __hash__(self):
        return 7

PREPROCESSORS = {
    'upper': lambda value: value.upper(),
    'twice': lambda value: value + value,
    'fail': lambda value: 1 // 0,
    'same': lambda value: value,
}

LITERALS = {'Fixed': Fixed, 'Junk': Junk, 'D': D}

KINDS = {
    'field': 'Field', 'text': 'Text', 'token': 'Token', 'email': 'Email', 'uuid': 'UUID',
    'integer': 'Integer', 'float': 'Float', 'decimal': 'Decimal', 'boolean': 'Boolean',
    'binary': 'Binary', 'date': 'Date', 'time': 'Time', 'datetime': 'DateTime',
    'enumeration': 'Enumeration', 'definition': 'Definition', 'object': 'Object',
    'error': 'Error', 'surrogate': 'Surrogate', 'structure': 'Structure',
    'sequence': 'Sequence', 'map': 'Map', 'tuple': 'Tuple', 'union': 'Union',
    'hole': 'Undefined',
}

# placeholders by number, set by checks building terms ('hole', {'id': number})
HOLES = {}

SCALARS = ('field', 'text', 'token', 'email', 'uuid', 'integer', 'float', 'decimal', 'boolean',
    'binary', 'date', 'time', 'datetime', 'enumeration', 'definition', 'object', 'error',
    'surrogate')

def field_class(kind):
    import scheme
    if kind == 'union' and not hasattr(scheme, 'Union'):
        from scheme.fields.union import Union
        return Union
    return getattr(scheme, KINDS[kind])

def is_term(value):
    return isinstance(value, tuple) and len(value) == 2 and value[0] in KINDS and \
        isinstance(value[1], dict)

def build(term, extra=None, path=()):
    """Builds the real field for ``term``.  ``extra`` maps paths (tuples of steps) to additional
    constructor parameters; with a callable, it is called with (path, term) for every node."""
    import scheme
    kind, declared = term
    if kind == 'hole':
        return HOLES[declared['id']]
    params = dict(declared)
    if extra is not None:
        params.update(extra(path, term) or {})
    if 'preprocessor' in params:
        params['preprocessor'] = PREPROCESSORS[params['preprocessor']]
    if 'errors' in params:
        params['errors'] = [scheme.FieldError(*error) for error in params['errors']]
    for name in ('min_value', ):
        params.pop(name, None)

    def sub(term, *steps):
        return build(term, extra, path + steps)

    if kind == 'structure':
        structure = params['structure']
        if params.get('polymorphic_on'):
            if is_term(params['polymorphic_on']):
                params['polymorphic_on'] = sub(params['polymorphic_on'], 'polymorphic_on')
            params['structure'] = dict((identity, dict((name, sub(field, identity, name))
                for name, field in fields.items())) for identity, fields in structure.items())
        else:
            params['structure'] = dict((name, sub(field, name))
                for name, field in structure.items())
        if 'key_order' in params and isinstance(params['key_order'], tuple):
            params['key_order'] = list(params['key_order'])
    elif kind == 'sequence':
        params['item'] = sub(params['item'], 'item')
    elif kind == 'map':
        params['value'] = sub(params['value'], 'value')
        if params.get('key'):
            params['key'] = sub(params['key'], 'key')
    elif kind == 'tuple':
        params['values'] = [sub(field, i) for i, field in enumerate(params['values'])]
    elif kind == 'union':
        params['fields'] = [sub(field, i) for i, field in enumerate(params['fields'])]
    return field_class(kind)(**params)

def children(term):
    """(step path, key of the child in data or None, child term) for every child."""
    kind, params = term
    if kind == 'structure':
        if params.get('polymorphic_on'):
            return [((identity, name), field) for identity, fields in params['structure'].items()
                for name, field in fields.items()]
        return [((name,), field) for name, field in params['structure'].items()]
    elif kind == 'sequence':
        return [(('item',), params['item'])]
    elif kind == 'map':
        found = [(('value',), params['value'])]
        if params.get('key'):
            found.append((('key',), params['key']))
        return found
    elif kind == 'tuple':
        return [((i,), field) for i, field in enumerate(params['values'])]
    elif kind == 'union':
        return [((i,), field) for i, field in enumerate(params['fields'])]
    return []

def with_params(term, **params):
    merged = dict(term[1])
    merged.update(params)
    return (term[0], merged)
