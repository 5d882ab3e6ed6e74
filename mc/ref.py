"""Reference model of processing, over specification terms (see spec.py).

Shares no code with scheme: acceptance, canonicalisation, serialization and error structure are
written from the documented semantics.
"""

import base64
import collections
import datetime
import decimal
import math
import re

from mc.spec import PREPROCESSORS

D = decimal.Decimal
INBOUND, OUTBOUND = 'inbound', 'outbound'
UTCTZ = datetime.timezone.utc

UNKNOWN = object()

class Refused(Exception):
    """The model's validation error."""
    def __init__(self, path, name, tokens=(), type_error=False, structure=None, keyed=False,
            value=UNKNOWN, shown=None):
        super(Refused, self).__init__(path, tokens)
        self.path = path
        self.name = name
        self.tokens = list(tokens)
        self.type_error = type_error
        self.structure = structure
        self.keyed = keyed      # reported by the container about one of its keys
        self.value = value      # what the error says was refused, None if nothing was
        self.shown = shown      # what the message is about, in the terms of the field's messages
        self.kind = None

    def tree(self):
        if self.structure is None:
            return ('!' if self.type_error else '') + '+'.join(self.tokens)
        if isinstance(self.structure, dict):
            return dict((k, v.tree() if isinstance(v, Refused) else None)
                for k, v in self.structure.items())
        return [v.tree() if isinstance(v, Refused) else None for v in self.structure]

class Unresolved(Exception):
    """An undefined placeholder was reached."""

class Aware(object):
    """An expected datetime: an instant, expressed in the field's zone."""
    def __init__(self, instant, utc):
        self.instant = instant
        self.utc = utc
    def __repr__(self):
        return 'Aware(%s, utc=%r)' % (self.instant, self.utc)
    def __eq__(self, other):
        return isinstance(other, Aware) and other.instant == self.instant
    def __hash__(self):
        return hash(self.instant)

# local zone of the process; replaced by the time zone check
def local_to_instant(naive):
    return naive.replace(tzinfo=UTCTZ)

WORD = re.compile(r'\w', re.UNICODE)

def is_word(char):
    return char == '_' or char.isalnum()

def is_token(value):
    for segment in value.split(':'):
        if not segment or not is_word(segment[0]) or not is_word(segment[-1]):
            return False
        if not all(is_word(c) or c in '-+.' for c in segment):
            return False
    return True

def is_uuid(value):
    parts = value.split('-')
    return [len(p) for p in parts] == [8, 4, 4, 4, 12] and \
        all(c in '0123456789abcdef' for p in parts for c in p)

ATOM = set("-!#$%&'*+/=?^_`{}|~0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")
LETTERS = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ')
LABEL = LETTERS | set('0123456789-')

def _is_domain(value):
    labels = value.split('.')
    if len(labels) < 2:
        return False
    if not all(label and set(label) <= LABEL for label in labels[:-1]):
        return False
    return 2 <= len(labels[-1]) <= 6 and set(labels[-1]) <= LETTERS

def _is_local(value):
    if all(part and set(part) <= ATOM for part in value.split('.')):
        return True
    if len(value) < 2 or value[0] != '"' or value[-1] != '"':
        return False
    body, i = value[1:-1], 0
    while i < len(body):
        code = ord(body[i])
        if body[i] == '\\':
            i += 1
            if i >= len(body):
                return False
            code = ord(body[i])
            if not (1 <= code <= 9 or code in (11, 12) or 14 <= code <= 127):
                return False
        elif not (1 <= code <= 8 or code in (11, 12) or 14 <= code <= 31 or code == 33
                or 35 <= code <= 91 or 93 <= code <= 127) or body[i] == '"':
            return False
        i += 1
    return True

def is_address(value):
    # the domain holds no @, so the last one separates
    local, at, domain = value.rpartition('@')
    return bool(at) and _is_local(local) and _is_domain(domain)

def is_extended(value):
    if is_address(value):
        return True
    if not value.endswith('>'):
        return False
    for i, char in enumerate(value):
        if char == '<' and is_address(value[i + 1:-1]):
            display = value[:i]
            bare = display.rstrip(' ')
            if len(bare) == len(display):
                continue
            if '<' not in display and len(display) >= 2:
                return True
            if len(bare) > 2 and bare[0] == '"' and bare[-1] == '"' and '"' not in bare[1:-1]:
                return True
    return False

def is_list(value):
    # addresses are separated by commas; a quoted local part may itself contain commas
    if is_address(value):
        return True
    return any(char == ',' and is_address(value[:i]) and is_list(value[i + 1:])
        for i, char in enumerate(value))

def parse_date(value):
    m = re.match(r'([0-9]{4})-([0-9]{1,2})-([0-9]{1,2})\Z', value)
    return datetime.date(*[int(g) for g in m.groups()])

def parse_time(value):
    m = re.match(r'([0-9]{1,2}):([0-9]{1,2}):([0-9]{1,2})\Z', value)
    return datetime.time(*[int(g) for g in m.groups()])

def parse_datetime(value):
    m = re.match(r'([0-9]{4})-([0-9]{1,2})-([0-9]{1,2})T([0-9]{1,2}):([0-9]{1,2}):([0-9]{1,2})Z\Z',
        value)
    return datetime.datetime(*[int(g) for g in m.groups()], tzinfo=UTCTZ)

def instant(value, utc):
    if value.tzinfo is None:
        if utc:
            return value.replace(tzinfo=UTCTZ)
        return local_to_instant(value)
    # exact instant even when the zone is one of scheme's
    return (value.replace(tzinfo=None) - value.utcoffset()).replace(tzinfo=UTCTZ)

def show_date(value):
    return '%04d-%02d-%02d' % (value.year, value.month, value.day)

def show_time(value):
    return '%02d:%02d:%02d' % (value.hour, value.minute, value.second)

def show_instant(value):
    return '%sT%sZ' % (show_date(value), show_time(value))

def bound(kind, params, which):
    value = params.get(which)
    if value is None:
        return None
    if kind == 'decimal':
        return D(value)
    if kind == 'date':
        if isinstance(value, str):
            return parse_date(value)
        if isinstance(value, datetime.datetime):
            return value.date()
        return value
    if kind == 'time':
        return parse_time(value) if isinstance(value, str) else value
    if kind == 'datetime':
        if isinstance(value, str):
            return parse_datetime(value)
        return instant(value, params.get('utc', False))
    return value

def is_nan(value):
    return value != value

class Model(object):
    """process(value) of one term."""

    def resolve(self, term):
        """The term standing for ``term``; checks of placeholders override it."""
        return term

    def process(self, term, value, phase=INBOUND, serialized=False, path=None, name=None,
            partial=False):
        kind, params = self.resolve(term)
        try:
            return self._process(kind, params, value, phase, serialized, path, name, partial)
        except Refused as refused:
            if refused.value is UNKNOWN:
                refused.value = value
            if refused.kind is None:
                refused.kind = kind
            raise

    def _process(self, kind, params, value, phase, serialized, path, name, partial):
        name = params.get('name') or name
        if path is None:
            path = name or '(%s)' % kind

        def refuse(token, type_error=False):
            raise Refused(path, name, [token], type_error, value=value)

        if kind == 'enumeration':
            ignored = params.get('ignored_values')
            if isinstance(ignored, str):
                ignored = ignored.split(' ')
            if ignored and value in ignored:
                value = None
        if value is None:
            if params.get('nonnull') or params.get('nonempty'):
                refuse('nonnull')
            return None
        method = getattr(self, '_' + kind, None)
        if method:
            return method(params, value, phase, serialized, path, name, partial)

        if serialized and phase == INBOUND:
            value = self.unserialize(kind, params, value, path, name)
        if kind == 'email' and not params.get('extended'):
            if not isinstance(value, str):
                refuse('invalid', True)
            value = value.strip(' \t\n\r\v\f,;:').lower()
            if params.get('multiple'):
                value = re.sub(r'[\s,;:]+', ',', value)
        elif params.get('preprocessor'):
            try:
                value = PREPROCESSORS[params['preprocessor']](value)
            except Exception:
                refuse('invalid', True)
        constant = params.get('constant')
        if constant is not None and value != constant:
            refuse('invalid', True)
        value = self.validate(kind, params, value, path, name)
        if serialized and phase == OUTBOUND:
            value = self.serialize(kind, value)
        return value

    # scalars

    def unserialize(self, kind, params, value, path, name):
        try:
            if kind == 'integer':
                if isinstance(value, bool):
                    raise ValueError()
                return int(value)
            elif kind == 'float':
                return float(value)
            elif kind == 'decimal':
                if not isinstance(value, D):
                    value = D(value)
                    if value.is_snan():
                        raise ValueError()
                return value
            elif kind == 'binary':
                if not isinstance(value, bytes):
                    raise ValueError()
                return base64.urlsafe_b64decode(value)
            elif kind == 'date':
                if isinstance(value, datetime.datetime):
                    return value.date()
                return value if isinstance(value, datetime.date) else parse_date(value)
            elif kind == 'time':
                return value if isinstance(value, datetime.time) else parse_time(value)
            elif kind == 'datetime':
                return value if isinstance(value, datetime.datetime) else parse_datetime(value)
        except Exception:
            raise Refused(path, name, ['invalid'], True)
        return value

    def validate(self, kind, params, value, path, name):
        def refuse(token, type_error=False, **shown):
            raise Refused(path, name, [token], type_error, value=value, shown=shown)

        def sized(token, length, noun):
            shown = {token: length, 'noun': noun if length == 1 else noun + 's'}
            # a length of none is worded either way
            refuse(token, **(shown if length else {}))

        if kind in ('text', 'email'):
            if not isinstance(value, str):
                refuse('invalid', True)
            if kind == 'text' and params.get('strip', True):
                value = value.strip()
            minimum = params.get('min_length')
            if params.get('nonempty') and minimum is None:
                minimum = 1
            if minimum is not None and len(value) < minimum:
                sized('min_length', minimum, 'character')
            if params.get('max_length') is not None and len(value) > params['max_length']:
                sized('max_length', params['max_length'], 'character')
            if kind == 'text':
                if params.get('pattern') and not re.match(params['pattern'], value):
                    refuse('pattern')
            elif value == '':
                pass
            elif params.get('extended'):
                if not is_extended(value):
                    refuse('pattern')
            elif params.get('multiple'):
                if not is_list(value):
                    refuse('pattern')
            elif not is_address(value):
                refuse('pattern')
        elif kind == 'token':
            if not isinstance(value, str) or not is_token(value):
                refuse('invalid', True)
            if params.get('segments') is not None and \
                    len(value.split(':')) != params['segments']:
                refuse('invalid')
        elif kind == 'uuid':
            if not isinstance(value, str) or not is_uuid(value):
                refuse('invalid', True)
        elif kind == 'boolean':
            if not isinstance(value, bool):
                refuse('invalid', True)
        elif kind == 'binary':
            if not isinstance(value, bytes):
                refuse('invalid', True)
            minimum = params.get('min_length')
            if params.get('nonempty') and minimum is None:
                minimum = 1
            if minimum is not None and len(value) < minimum:
                sized('min_length', minimum, 'byte')
            if params.get('max_length') is not None and len(value) > params['max_length']:
                sized('max_length', params['max_length'], 'byte')
        elif kind == 'enumeration':
            allowed = params['enumeration']
            if isinstance(allowed, str):
                allowed = allowed.split(' ')
            if value not in allowed:
                refuse('invalid', True)
        elif kind in ('integer', 'float', 'decimal', 'date', 'time', 'datetime'):
            expected = {'integer': int, 'float': float, 'decimal': D, 'date': datetime.date,
                'time': datetime.time, 'datetime': datetime.datetime}[kind]
            if not isinstance(value, expected) or isinstance(value, bool):
                refuse('invalid', True)
            if kind == 'datetime':
                try:
                    value = Aware(instant(value, params.get('utc', False)),
                        params.get('utc', False))
                except OverflowError:
                    refuse('overflow')
                compared = value.instant
            elif kind == 'date' and isinstance(value, datetime.datetime):
                value = compared = value.date()
            else:
                compared = value
            minimum = bound(kind, params, 'minimum')
            maximum = bound(kind, params, 'maximum')
            show = {'date': show_date, 'time': show_time, 'datetime': show_instant}.get(kind,
                lambda shown: shown)
            if is_nan(compared) and kind == 'decimal' and not (minimum is maximum is None):
                refuse('invalid', True)
            if minimum is not None and compared < minimum:
                refuse('minimum', minimum=show(minimum))
            if maximum is not None and compared > maximum:
                refuse('maximum', maximum=show(maximum))
        return value

    def serialize(self, kind, value):
        if kind == 'decimal':
            return str(value)
        elif kind == 'binary':
            return base64.urlsafe_b64encode(value)
        elif kind == 'date':
            return show_date(value)
        elif kind == 'time':
            return show_time(value)
        elif kind == 'datetime':
            return show_instant(value.instant)
        return value

    # containers

    def _structure(self, params, value, phase, serialized, path, name, partial):
        if not isinstance(value, dict):
            raise Refused(path, name, ['invalid'], True)
        if params.get('preprocessor'):
            try:
                value = PREPROCESSORS[params['preprocessor']](value)
            except Exception:
                raise Refused(path, name, ['invalid'], True)
        fields = params['structure']
        on = params.get('polymorphic_on')
        if on:
            common = fields.get('*', {})
            fields = dict((k, v) for k, v in fields.items() if k != '*')
            if isinstance(on, str):
                on = ('enumeration', {'enumeration': sorted(fields), 'nonempty': True,
                    'name': on})
            on_name = on[1]['name']
            identity = value.get(on_name)
            if identity is None:
                raise Refused(path, name, ['required'], value=None, shown={'name': on_name})
            identity = self.process(on, identity, phase, serialized and phase == 'inbound',
                path + '.' + on_name)
            try:
                variant = fields.get(identity)
            except TypeError:
                variant = None
            if variant is None:
                raise Refused(path, name, ['unrecognized'], value=identity)
            fields = dict(variant)
            fields.update(common)
            discriminator = dict(on[1], constant=identity, required=True)
            fields[on_name] = (on[0], discriminator)

        order = params.get('key_order')
        if order:
            if isinstance(order, str):
                order = order.split(' ')
            names = [n for n in order if n in fields] + [n for n in fields if n not in order]
            result = collections.OrderedDict()
        else:
            names = list(fields)
            result = {}

        valid = True
        for key in names:
            field = fields[key]
            try:
                subparams = self.resolve(field)[1]
            except Unresolved:
                # nothing is known of the key as long as it's absent
                if key not in value:
                    continue
                raise
            required = subparams.get('required') or subparams.get('nonempty')
            serial = serialized
            if key in value:
                subvalue = value[key]
            elif partial:
                continue
            elif phase == INBOUND and subparams.get('default') is not None:
                subvalue = subparams['default']
            elif required:
                valid = False
                result[key] = Refused(path, name, ['required'], keyed=True,
                    value=None, shown={'name': key})
                continue
            else:
                continue
            if subvalue is None and subparams.get('ignore_null'):
                continue
            try:
                result[key] = self.process(field, subvalue, phase, serial,
                    path + '.' + (key), key)
            except Refused as exception:
                valid = False
                result[key] = exception
        if params.get('strict', True):
            for key in value:
                if key not in fields:
                    valid = False
                    result[key] = Refused(path, name, ['unknown'], keyed=True,
                        value=None, shown={'name': key})
        if not valid:
            raise Refused(path, name, structure=dict(result), value=value)
        return result

    def _sequence(self, params, value, phase, serialized, path, name, partial):
        if not isinstance(value, list):
            raise Refused(path, name, ['invalid'], True)
        if params.get('preprocessor'):
            value = PREPROCESSORS[params['preprocessor']](value)
        for token, wrong in (('min_length', lambda size, limit: size < limit),
                ('max_length', lambda size, limit: size > limit)):
            limit = params.get(token)
            if limit is not None and wrong(len(value), limit):
                raise Refused(path, name, [token], value=value, shown={token: limit,
                    'noun': 'item' if limit == 1 else 'items'})
        valid, result = True, []
        for i, item in enumerate(value):
            try:
                result.append(self.process(params['item'], item, phase, serialized,
                    '%s[%d]' % (path, i)))
            except Refused as exception:
                valid = False
                result.append(exception)
        if not valid:
            raise Refused(path, name, structure=result, value=value)
        if params.get('unique'):
            for i, item in enumerate(result):
                for other in result[:i]:
                    if item is other or item == other:
                        raise Refused(path, name, ['duplicate'], value=value)
        return result

    def _map(self, params, value, phase, serialized, path, name, partial):
        if not isinstance(value, dict):
            raise Refused(path, name, ['invalid'], True)
        if params.get('preprocessor'):
            value = PREPROCESSORS[params['preprocessor']](value)
        valid, result, native = True, {}, {}
        for key, item in value.items():
            original = key
            if params.get('key'):
                try:
                    key = self.process(params['key'], key, phase, serialized,
                        '%s[%s]' % (path, str(key)))
                except Refused:
                    raise Refused(path, name, ['invalidkeys'], value=value)
            elif not isinstance(key, str):
                raise Refused(path, name, ['invalidkeys'], value=value)
            native[original if phase == OUTBOUND else key] = True
            try:
                result[key] = self.process(params['value'], item, phase, serialized,
                    '%s[%s]' % (path, str(key)))
            except Refused as exception:
                valid = False
                result[key] = exception
        required = params.get('required_keys') or ()
        if isinstance(required, str):
            required = required.split(' ')
        for key in required:
            if key not in native:
                valid = False
                result[key] = Refused(path, name, ['required'], keyed=True,
                    value=None, shown={'name': key})
        if not valid:
            raise Refused(path, name, structure=result, value=value)
        return result

    def _tuple(self, params, value, phase, serialized, path, name, partial):
        if not isinstance(value, (list, tuple)):
            raise Refused(path, name, ['invalid'], True)
        if params.get('preprocessor'):
            value = PREPROCESSORS[params['preprocessor']](value)
        if len(value) != len(params['values']):
            raise Refused(path, name, ['length'], value=value, shown={'length':
                len(params['values'])})
        valid, result = True, []
        for i, item in enumerate(value):
            try:
                result.append(self.process(params['values'][i], item, phase, serialized,
                    '%s[%d]' % (path, i)))
            except Refused as exception:
                valid = False
                result.append(exception)
        if not valid:
            raise Refused(path, name, structure=result, value=value)
        return tuple(result)

    def _union(self, params, value, phase, serialized, path, name, partial):
        for field in params['fields']:
            try:
                return self.process(field, value, phase, serialized, path)
            except Refused as exception:
                if not exception.type_error:
                    raise
        raise Refused(path, name, ['invalid'], True)

MODEL = Model()

def process(*args, **params):
    return MODEL.process(*args, **params)

def same(actual, expected, order=True):
    """Deep, type-strict equality."""
    if isinstance(expected, Aware):
        if not isinstance(actual, datetime.datetime) or actual.tzinfo is None:
            return False
        if instant(actual, True) != expected.instant:
            return False
        if expected.utc and actual.utcoffset():
            return False
        return True
    if type(actual) is not type(expected):
        return False
    if isinstance(expected, collections.OrderedDict) and list(actual) != list(expected):
        return False
    if isinstance(expected, dict):
        if len(actual) != len(expected):
            return False
        for key, value in expected.items():
            if key not in actual or not same(actual[key], value):
                return False
        keys = dict((k, type(k)) for k in actual)
        return all(keys[k] is type(k) for k in expected)
    if isinstance(expected, (list, tuple)):
        return len(actual) == len(expected) and all(same(a, e)
            for a, e in zip(actual, expected))
    if isinstance(expected, float):
        if expected != expected:
            return actual != actual
        return actual == expected and math.copysign(1, actual) == math.copysign(1, expected)
    if isinstance(expected, D):
        return actual.as_tuple() == expected.as_tuple()
    if isinstance(expected, datetime.datetime):
        if (expected.tzinfo is None) != (actual.tzinfo is None):
            return False
        if expected.tzinfo is not None:
            return actual.utcoffset() == expected.utcoffset() and \
                actual.replace(tzinfo=None) == expected.replace(tzinfo=None)
    if isinstance(expected, datetime.time) and not isinstance(expected, datetime.datetime):
        return actual == expected and actual.utcoffset() == expected.utcoffset()
    return actual == expected
