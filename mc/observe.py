"""Running operations on the implementation and comparing them with the model."""

import copy

from mc import ref, spec
from mc.core import Violation
from mc.ref import Refused, same

def schemes():
    import scheme
    return scheme

class Raised(object):
    """An exception raised by the implementation."""
    def __init__(self, exception):
        self.exception = exception
    def __repr__(self):
        return 'raised %s: %s' % (type(self.exception).__name__, str(self.exception)[:300])

def attempt(function, *args, **params):
    """Result of a call, or Raised for scheme's own exceptions; others propagate."""
    from scheme.exceptions import SchemeError
    try:
        return function(*args, **params)
    except SchemeError as exception:
        return Raised(exception)

def expect(function, *args, **params):
    """Result of the model, or the Refused it raised."""
    try:
        return function(*args, **params)
    except Refused as exception:
        return exception

def message_problem(exception, error, refused):
    """None, or how a message differs from the field's own, filled with what was violated."""
    if not refused.shown or exception.field is None:
        return None
    declared = exception.field.errors.get(error['token'])
    if declared is None:
        return None
    shown = dict(refused.shown, field=refused.name or 'unknown-field')
    try:
        wanted = declared.message % shown
    except (KeyError, TypeError, ValueError):
        return None
    if error['message'] != wanted:
        return 'at %s: message %r, expected %r' % (refused.path, error['message'], wanted)

def error_problem(exception, refused, paths=True, child=None):
    """None, or how an implementation error differs from the expected one."""
    from scheme.exceptions import InvalidTypeError, StructuralError, ValidationError
    where = refused.path
    if not isinstance(exception, StructuralError):
        return 'at %s: raised %r instead of a validation error' % (where, exception)
    if not isinstance(exception, ValidationError):
        return 'at %s: %s is not a ValidationError' % (where, type(exception).__name__)
    if isinstance(exception, InvalidTypeError) != refused.type_error:
        return 'at %s: raised %s (%s), expected %s (%s)' % (where, type(exception).__name__,
            [e.get('token') for e in exception.errors],
            refused.type_error and 'a type error' or 'a constraint error', refused.tree())
    tokens = [error.get('token') for error in exception.errors]
    if tokens != refused.tokens:
        return 'at %s: tokens %r, expected %r' % (where, tokens, refused.tokens)
    for error in exception.errors:
        if not isinstance(error.get('title'), str) or not isinstance(error.get('message'), str):
            return 'at %s: error without title or message: %r' % (where, error)
        if (refused.name or 'unknown-field') not in error['message']:
            return 'at %s: message %r does not name field %r' % (where, error['message'],
                refused.name)
        problem = message_problem(exception, error, refused)
        if problem:
            return problem
        if refused.keyed and str(child) not in error['message']:
            return 'at %s: message %r does not name %r' % (where, error['message'], child)
    if paths:
        # a missing or unknown key is reported at the container, and named in the message
        if ''.join(exception.identity) != where:
            return 'path %r, expected %r' % (''.join(exception.identity), where)
    if refused.value is not ref.UNKNOWN and not same(exception.value, refused.value) and not (
            refused.value is exception.value):
        return 'at %s: the error is about the value %r, expected %r' % (where, exception.value,
            refused.value)
    if refused.kind is not None and getattr(exception.field, 'type', None) != refused.kind:
        return 'at %s: the error is about %r, expected a field of type %r' % (where,
            exception.field, refused.kind)
    structure, expected = exception.structure, refused.structure
    if expected is None:
        if structure:
            return 'at %s: unexpected structure %r' % (where, structure)
        return None
    if isinstance(expected, dict):
        if not isinstance(structure, dict) or set(structure) != set(expected):
            return 'at %s: structure %r, expected keys %r' % (where, structure, sorted(map(str,
                expected)))
        items = [(key, structure[key], expected[key]) for key in expected]
    else:
        if not isinstance(structure, (list, tuple)) or len(structure) != len(expected):
            return 'at %s: structure %r, expected %r' % (where, structure, expected)
        items = [(i, a, e) for i, (a, e) in enumerate(zip(structure, expected))]
    for key, actual, wanted in items:
        if isinstance(wanted, Refused):
            problem = error_problem(actual, wanted, paths, key)
            if problem:
                return problem
        elif isinstance(actual, Exception):
            return 'at %s: valid element %r reported: %r' % (where, key, actual)
        elif not same(actual, wanted):
            return 'at %s: valid element %r shown as %r, expected %r' % (where, key, actual,
                wanted)
    return None

def serialized_problem(serialized, refused):
    """Whether the serialized error mirrors the expected error."""
    if not isinstance(serialized, (tuple, list)) or len(serialized) != 2:
        return 'serialized error %r is not a pair' % (serialized,)
    errors, structure = serialized

    def flat(errors, refused):
        if not isinstance(errors, list):
            return 'errors at %s serialized as %r' % (refused.path, errors)
        if [e.get('token') for e in errors] != refused.tokens:
            return 'errors at %s serialized as %r, expected tokens %r' % (refused.path, errors,
                refused.tokens)
        for error in errors:
            for key, value in error.items():
                if not isinstance(key, str) or not (value is None or isinstance(value, (str, int,
                        float, bool, list, tuple, dict))):
                    return 'error %r is not natively serializable' % (error,)

    def nested(structure, refused):
        if isinstance(refused.structure, dict):
            wanted = dict((k, v) for k, v in refused.structure.items() if isinstance(v, Refused))
            if not isinstance(structure, dict) or set(structure) != set(wanted):
                return 'errors at %s serialized as %r, expected keys %r' % (refused.path,
                    structure, sorted(map(str, wanted)))
            items = [(structure[k], v) for k, v in wanted.items()]
        else:
            if not isinstance(structure, (list, tuple)) or \
                    len(structure) != len(refused.structure):
                return 'errors at %s serialized as %r' % (refused.path, structure)
            items = list(zip(structure, refused.structure))
        for actual, wanted in items:
            if not isinstance(wanted, Refused):
                if actual is not None:
                    return 'valid element serialized as error %r' % (actual,)
                continue
            problem = (nested if wanted.structure is not None else flat)(actual, wanted)
            if problem:
                return problem

    if refused.structure is None:
        if structure:
            return 'unexpected serialized structure %r' % (structure,)
        return flat(errors, refused)
    if errors:
        return 'unexpected serialized errors %r' % (errors,)
    return nested(structure, refused)

def compare(actual, expected, what, paths=True):
    """Raises Violation unless the implementation's outcome is the model's."""
    if isinstance(expected, Refused):
        if not isinstance(actual, Raised):
            raise Violation('%s: accepted as %r, expected refusal %r at %s' % (what, actual,
                expected.tree(), expected.path))
        problem = error_problem(actual.exception, expected, paths)
        if problem:
            raise Violation('%s: %s' % (what, problem))
    elif isinstance(actual, Raised):
        raise Violation('%s: %r, expected %r' % (what, actual, expected))
    elif not same(actual, expected):
        raise Violation('%s: gave %r, expected %r' % (what, actual, expected))

def outcome_of(expected):
    if isinstance(expected, Refused):
        tree = expected.tree()
        return 'refused: %s' % (tree if isinstance(tree, str) else 'structure')
    return 'accepted'

PHASES = (('inbound', False), ('inbound', True), ('outbound', False), ('outbound', True))

def check_process(field, term, value, phase, serialized, stats, paths=True, **params):
    """One process() compared with the model; the argument must stay as it was."""
    expected = expect(ref.process, term, value, phase, serialized, **params)
    actual = attempt(field.process, value, phase, serialized, **params)
    compare(actual, expected, '%r.process(%r, %s, serialized=%r)' % (term, value, phase,
        serialized), paths)
    stats.step()
    stats.trace(outcome_of(expected))
    return expected

def snapshot(value):
    """A deep copy of plain data for later comparison with ``same``."""
    return copy.deepcopy(value)
