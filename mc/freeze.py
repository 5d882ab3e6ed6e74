"""Comparable images of values, errors and fields."""

import collections
import datetime
import decimal

def freeze_error(error):
    from scheme.exceptions import StructuralError
    structure = error.structure
    if isinstance(structure, dict):
        structure = sorted(((repr(k), freeze_error(v) if isinstance(v, StructuralError)
            else None) for k, v in structure.items()))
    elif structure:
        structure = [freeze_error(v) if isinstance(v, StructuralError) else None
            for v in structure]
    return (type(error).__name__, ''.join(error.identity), [(e.get('token'), e.get('title'),
        e.get('message')) for e in error.errors], structure or None)

def freeze(value):
    """A type-strict image of a value, equal exactly for equal values of equal types."""
    from scheme.exceptions import StructuralError
    from scheme.field import Field
    kind = type(value)
    if kind in (str, int, bool, bytes, type(None), float, decimal.Decimal, datetime.date,
            datetime.time):
        return (kind.__name__, repr(value))
    if isinstance(value, datetime.datetime):
        if value.tzinfo is None:
            return ('naive', repr(value))
        return ('aware', repr(value.replace(tzinfo=None)), str(value.utcoffset()))
    if isinstance(value, dict):
        items = [(freeze(k), freeze(v)) for k, v in value.items()]
        if not isinstance(value, collections.OrderedDict):
            items.sort()
        extra = ()
        if hasattr(value, 'surrogate'):
            extra = (value.surrogate, value.version, freeze(value.schema))
        return (kind.__name__, tuple(items), extra)
    if isinstance(value, (list, tuple)):
        return (kind.__name__, tuple([freeze(v) for v in value]))
    if isinstance(value, StructuralError):
        return ('error', repr(freeze_error(value)))
    if isinstance(value, Field):
        return ('field', kind.__name__, freeze(value.describe()))
    return (kind.__name__, repr(value))

def outcome(function, *args, **params):
    """Image of the outcome of a call; exceptions other than scheme's own propagate."""
    from scheme.exceptions import SchemeError, StructuralError
    try:
        result = function(*args, **params)
    except StructuralError as exception:
        return ('refused', freeze_error(exception))
    except SchemeError as exception:
        return ('raised', type(exception).__name__)
    return ('accepted', freeze(result))

PHASES = (('inbound', False), ('inbound', True), ('outbound', False), ('outbound', True))

def behaviour(field, values, phases=PHASES):
    """Outcome of processing each value in each phase and form."""
    return [outcome(field.process, value, phase, serialized)
        for value in values for phase, serialized in phases]

ATTRIBUTES = ('name', 'description', 'title', 'notes', 'required', 'nonnull', 'ignore_null',
    'default', 'constant')

def attributes(field):
    return dict((name, freeze(getattr(field, name))) for name in ATTRIBUTES)

def subfields(field):
    """place -> nested field, one level down."""
    from scheme import Map, Sequence, Structure, Tuple
    from scheme.fields.union import Union
    found = collections.OrderedDict()
    if isinstance(field, Structure):
        if field.polymorphic_on:
            for identity in sorted(field.structure, key=repr):
                for name in sorted(field.structure[identity]):
                    found[identity, name] = field.structure[identity][name]
        else:
            for name in sorted(field.structure):
                found[name] = field.structure[name]
    elif isinstance(field, Sequence):
        found['item'] = field.item
    elif isinstance(field, Map):
        if field.key is not None:
            found['key'] = field.key
        found['value'] = field.value
    elif isinstance(field, Tuple):
        for i, child in enumerate(field.values):
            found[i] = child
    elif isinstance(field, Union):
        for i, child in enumerate(field.fields):
            found[i] = child
    return found

def tree(field, path=()):
    """(path, field) of a field and everything below it."""
    yield path, field
    for place, child in subfields(field).items():
        for found in tree(child, path + (place, )):
            yield found
