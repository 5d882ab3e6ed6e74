"""All histories of writes (accepted, refused, failing in the environment) and reads over two files,
through every entry point, compared with a model of what each file last held; all formats, all ways
of naming a format, and contents of every kind."""

import builtins
import itertools
import json
import os
import shutil

from mc import ref
from mc.core import Violation
from mc.domains import *
from mc.freeze import freeze
from mc.observe import expect
from mc.spec import Junk, build

BARE = ('text', {'strip': False})
RECORD = ('structure', {'structure': {'a': ('integer', {}), 'b': BARE}})
ROWS = ('sequence', {'item': RECORD})
NAMED = {
    'json': ['json', 'application/json', '.json', 'class'],
    'yaml': ['yaml', 'application/x-yaml', '.yaml', '.yml', 'class'],
    'csv': ['csv', 'application/csv', '.csv', 'class'],
    'xml': ['xml', 'application/xml', '.xml', 'class'],
    'structuredtext': ['structuredtext', 'text/plain', 'class'],
    'urlencoded': ['urlencoded', 'application/x-www-form-urlencoded', 'class'],
}
CLASSES = {'json': 'Json', 'yaml': 'Yaml', 'csv': 'Csv', 'xml': 'Xml',
    'structuredtext': 'StructuredText', 'urlencoded': 'UrlEncoded'}
EXTENSIONS = {'json': ['.json', '.JSON', '.Json', '.jSoN'], 'yaml': ['.yaml', '.yml', '.YAML', '.Yml'],
    'csv': ['.csv', '.CSV'], 'xml': ['.xml', '.XML', '.Xml']}
UNKNOWN = ['zz', 'JSON', 'json ', '.zz', 'application/zz', 'yml', 5, object]
UNKNOWN_PATHS = ['f', 'f.zz', 'f.', '.json', 'f.json.zz', 'f.jsonx', 'd.json/f', 'f json', 'fjson']
TEXTS = ['', 'x', 'a\nb', 'a\r\nb', 'a\rb', '\n', '\r\n', 'a\r', '\xe9', '\u20ac\U0001f600', '\x85',
    '\u2028', '\xa0', '\ufeffa', 'a' * 70000, '\xe9' * 40000, '\x1a', '\x0c', ' a ', '"', "'", '\t']

BOUNDS = {
    'quick': 'all histories of up to 3 of %d operations over 2 files (and of 2 operations ended by '
        'every fault at every call of open, write, close); 6 formats x every way of naming them x %d '
        'texts, and values that are empty or whose files are; %d unknown formats, %d unknown paths; 3 locale encodings'
        % (0, len(TEXTS), len(UNKNOWN), len(UNKNOWN_PATHS)),
    'thorough': 'as quick, histories of up to 4 operations',
}
ASSUMPTIONS = ['after a fault of the environment during a write only that the fault is raised, that '
    'the other file is intact and that later operations work is required, unless nothing was opened']
CASE_CPU_BUDGET = 300

def schema_of(name):
    return build({'csv': ROWS, 'xml': RECORD, 'json': RECORD, 'yaml': RECORD,
        'structuredtext': ('map', {'value': BARE}), 'urlencoded': ('map', {'value': BARE})}[name])

def wrap(name, text):
    if name == 'csv':
        return [{'a': 1, 'b': text}] if text else [{'a': 1}]
    if name in ('structuredtext', 'urlencoded'):
        return {'b': text}
    return {'a': 1, 'b': text}

# --- histories

def operations():
    """(label, path, action, format or None when refused, value, reads)."""
    good, other, bad = {'a': 1, 'b': 'x\r\n\xe9'}, {'a': 2, 'b': ''}, {'a': 'x', 'b': 5}
    junk = {'a': 1, 'b': Junk()}
    found = []
    for path in ('one.json', 'two.dat'):
        json = path == 'one.json'
        def write(label, value, format, *args):
            found.append(('write', label, path, format, value, args))
        write('Format', good, 'json', 'json')
        write('Format', [None, True, 'a', {'k': 1.5}], 'yaml', 'yaml')
        write('Format', junk, None, 'json')
        write('Format', junk, None, 'yaml')
        write('Format', good, None, 'zz')
        write('Format', other, 'json' if json else None)
        write('Json', {'a': 'long' * 40}, 'json')
        write('Yaml', {'a': '\ud800'}, 'yaml')
        write('field', good, 'json', 'json')
        write('field', other, 'xml', 'xml')
        write('field', bad, None, 'json')
        write('field', good, None, 'csv')
        write('field', {'a': 1, 'b': '\x01'}, None, 'xml')
        write('field', bad, None)
        write('field', good, None, 'zz')
        found.append(('remove', 'os', path, None, None, ()))
    return found

OPS = operations()
BOUNDS['quick'] = BOUNDS['quick'].replace('0 operations over', '%d operations over' % len(OPS))

def cases(tier):
    depth = 3 if tier == 'quick' else 4
    for i in range(len(OPS)):
        yield ('history', depth, i)
    for i in range(len(OPS)):
        yield ('faults', i)
    for name in sorted(NAMED):
        for i in range(len(TEXTS)):
            yield ('contents', name, i)
        yield ('naming', name)
        yield ('small', name)
    yield ('unknown', )
    yield ('missing', )
    yield ('barred', )
    yield ('places', )
    for encoding in ('ascii', 'latin-1', 'utf-8', 'cp1252'):
        yield ('locale', encoding)

def fresh():
    """An empty directory of this case, within the scratch directory of the worker."""
    path = os.path.join(os.getcwd(), 'files')
    if os.path.isdir(path):
        shutil.rmtree(path)
    os.mkdir(path)
    return path

def image(directory):
    """Every file with its bytes."""
    found = {}
    for base, folders, files in os.walk(directory):
        for name in files:
            with open(os.path.join(base, name), 'rb') as openfile:
                found[os.path.relpath(os.path.join(base, name), directory)] = openfile.read()
        for name in folders:
            found[os.path.relpath(os.path.join(base, name), directory)] = 'folder'
    return found

def perform(op, directory):
    """Calls the implementation; True or the exception."""
    import scheme
    kind, label, path, format, value, args = op
    path = os.path.join(directory, path)
    try:
        if kind == 'remove':
            if os.path.exists(path):
                os.unlink(path)
        elif label == 'field':
            build(RECORD).write(path, value, *args)
        else:
            getattr(scheme, label).write(path, value, *args)
    except Exception as exception:
        return exception
    return True

def reads(directory, path, held, st):
    """Everything that can be read from one path, given the format and value it holds."""
    import scheme
    full = os.path.join(directory, path)
    if held is None:
        for call in (lambda: scheme.Format.read(full), lambda: scheme.Format.read(full, 'json'),
                lambda: scheme.Json.read(full), lambda: build(RECORD).read(full),
                lambda: build(RECORD).read(full, 'yaml')):
            st.step()
            try:
                value = call()
            except Exception:
                continue
            raise Violation('reading the missing %s returned %r' % (path, value))
        for call in (lambda: scheme.Format.read(full, quiet=True),
                lambda: scheme.Yaml.read(full, quiet=True),
                lambda: build(RECORD).read(full, quiet=True),
                lambda: build(RECORD).read(full, 'json', quiet=True)):
            st.step()
            value = call()
            if value is not False:
                raise Violation('quietly reading the missing %s returned %r' % (path, value))
        return
    format, value, schema = held
    calls = [lambda: getattr(scheme, CLASSES[format]).read(full, schema=schema)]
    calls.append(lambda: scheme.Format.read(full, format, schema))
    calls.append(lambda: scheme.Format.read(full, getattr(scheme, CLASSES[format]), schema, True))
    if schema is not None:
        calls.append(lambda: schema.read(full, format))
        calls.append(lambda: schema.read(full, format, quiet=True))
    if path.endswith('.' + format):
        calls.append(lambda: scheme.Format.read(full, schema=schema))
        if schema is not None:
            calls.append(lambda: schema.read(full))
    for i, call in enumerate(calls):
        st.step()
        try:
            actual = call()
        except Exception as exception:
            raise Violation('reading %s holding %s of %r raised %r'
                % (path, format, value, exception))
        if freeze(actual) != freeze(value):
            raise Violation('reading %s holding %s of %r returned %r (entry point %d)'
                % (path, format, value, actual, i))

def advance(op, model, directory, st, what):
    """Performs one operation and checks it against the model."""
    kind, label, path, format, value, args = op
    before = image(directory)
    st.step()
    result = perform(op, directory)
    after = image(directory)
    if kind == 'remove':
        model.pop(path, None)
    elif format is None:
        if result is True:
            raise Violation('%s: write %r succeeded' % (what, op))
        if after != before:
            raise Violation('%s: refused write %r (%r) changed %r to %r'
                % (what, op, result, before, after))
    else:
        if result is not True:
            raise Violation('%s: write %r raised %r' % (what, op, result))
        model[path] = (format, value, build(RECORD) if label == 'field' else None)
        for name in set(before) | set(after):
            if name != path and before.get(name) != after.get(name):
                raise Violation('%s: write %r changed %s' % (what, op, name))

def history(st, depth, first):
    for rest in itertools.product(range(len(OPS)), repeat=depth - 1):
        sequence = (first, ) + rest
        # removing a missing file, or twice, adds nothing
        if depth > 3 and (OPS[first][0] == 'remove' or OPS[first][3] is None):
            continue
        directory = fresh()
        model = {}
        for i, op in enumerate(sequence):
            advance(OPS[op], model, directory, st, sequence[:i])
        for path in ('one.json', 'two.dat'):
            reads(directory, path, model.get(path), st)
        st.state(repr(sorted(model.items(), key=repr)), sequence[-1])
        st.trace('history')
    st.sample(OPS[first])

class Fault(Exception):
    pass

class Faulty(object):
    """Counts the calls to the file system made through open, and fails one of them."""
    def __init__(self, at):
        self.at = at
        self.count = 0
        self.reached = None
        self.real = builtins.open

    def step(self, what):
        self.count += 1
        if self.count == self.at:
            self.reached = what
            raise Fault(what)

    def open(self, *args, **params):
        self.step('open')
        return Proxy(self, self.real(*args, **params))

class Proxy(object):
    def __init__(self, owner, file):
        self.owner = owner
        self.file = file
    def __enter__(self):
        return self
    def __exit__(self, *args):
        self.close()
    def __iter__(self):
        return iter(self.file)
    def __getattr__(self, name):
        return getattr(self.file, name)
    def close(self):
        self.file.close()
        self.owner.step('close')
    def write(self, content):
        self.owner.step('write')
        return self.file.write(content)
    def read(self, *args):
        self.owner.step('read')
        return self.file.read(*args)

def faults(st, first):
    """A fault at every call into the file system of the second write, after every first one."""
    for second in range(len(OPS)):
        if OPS[second][0] == 'remove':
            continue
        for at in range(1, 12):
            directory = fresh()
            model = {}
            advance(OPS[first], model, directory, st, 'first')
            before = image(directory)
            faulty = Faulty(at)
            builtins.open = faulty.open
            try:
                result = perform(OPS[second], directory)
            finally:
                builtins.open = faulty.real
            st.step()
            after = image(directory)
            if faulty.reached is None:
                break
            path = OPS[second][2]
            st.trace('fault at ' + faulty.reached)
            st.state('fault', first, second, at)
            if result is True:
                raise Violation('write %r succeeded in spite of a fault at %s'
                    % (OPS[second], faulty.reached))
            if OPS[second][3] is None:
                if after != before:
                    raise Violation('refused write %r changed %r to %r'
                        % (OPS[second], before, after))
            elif faulty.reached == 'open' and faulty.at == 1 and after != before:
                raise Violation('write %r, with a fault at %s, changed %r to %r'
                    % (OPS[second], faulty.reached, before, after))
            for name in set(before) | set(after):
                if name in ('one.json', 'two.dat') and name != path \
                        and before.get(name) != after.get(name):
                    raise Violation('failed write %r changed %s' % (OPS[second], name))
            # the next write works as if nothing had happened
            for third in (0, 16):
                result = perform(OPS[third], directory)
                if result is not True:
                    raise Violation('write %r after a fault raised %r' % (OPS[third], result))
                reads(directory, OPS[third][2], ('json', OPS[third][4], None), st)

# --- formats and contents

def store(directory, name, filename, value, schema, st, formats=None):
    """One value through every entry point, into a file with longer previous content."""
    import scheme
    path = os.path.join(directory, filename)
    cls = getattr(scheme, CLASSES[name])
    writers = [
        lambda: cls.write(path, value, schema=schema),
        lambda: scheme.Format.write(path, value, name, schema),
        lambda: scheme.Format.write(path, value, cls, schema=schema),
        lambda: schema.write(path, value, name),
        lambda: schema.write(path, value, cls),
    ]
    if formats:
        writers = [(lambda f=f: scheme.Format.write(path, value, f, schema)) for f in formats] + \
            [(lambda f=f: schema.write(path, value, f)) for f in formats]
    if os.path.splitext(filename)[1].lower() in EXTENSIONS.get(name, ()):
        writers += [lambda: scheme.Format.write(path, value, schema=schema),
            lambda: schema.write(path, value)]
    for i, writer in enumerate(writers):
        with open(path, 'w') as openfile:
            openfile.write('previous content ' * (i * 50))
        st.step()
        try:
            writer()
        except Exception as exception:
            raise Violation('writing %s of %r to %s raised %r (entry point %d)'
                % (name, value, filename, exception, i))
        reads(directory, filename, (name, value, schema), st)

def contents(st, name, i):
    text = TEXTS[i]
    if name == 'xml' and set(text) & set('\x0c\x1a'):
        return
    schema = schema_of(name)
    for filename in ('f' + EXTENSIONS.get(name, ['.txt'])[0], 'f', 'f.zz'):
        store(fresh(), name, filename, wrap(name, text), schema, st)
    st.state(name, text)
    st.trace('contents')

SMALL = {
    'structuredtext': [(BARE, ''), (BARE, 'x'), (BARE, '0'), (('boolean', {}), False),
        (('map', {'value': BARE}), {'a': ''}), (('sequence', {'item': BARE}), ['', 'x'])],
    'json': [(BARE, ''), (('sequence', {'item': BARE}), []), (('map', {'value': BARE}), {}),
        (('integer', {}), 0), (('boolean', {}), False), (('float', {}), 0.0), (('field', {}), None)],
    'csv': [(ROWS, []), (ROWS, [{'a': 0}])],
    'urlencoded': [(('map', {'value': BARE}), {}), (RECORD, {}), (RECORD, {'b': ''})],
    'xml': [(RECORD, {}), (RECORD, {'a': 0}), (ROWS, []), (('integer', {'name': 'i'}), 0),
        (('boolean', {'name': 'i'}), False)],
}
SMALL['yaml'] = SMALL['json']

def small(st, name):
    """Values that are empty, or whose files are; and the quiet reading of those."""
    for term, value in SMALL[name]:
        schema = build(term)
        try:
            expected = schema.unserialize(schema.serialize(value, name), name)
        except Exception as exception:
            expected = exception
        if freeze(expected) != freeze(value):
            if name in ('csv', 'urlencoded') and not value:
                continue            # (there is no such file)
            raise Violation('%s of %r is read as %r' % (name, value, expected))
        for extension in EXTENSIONS.get(name, ['.txt'])[:1] + ['', '.zz']:
            store(fresh(), name, 'f' + extension, value, schema, st)
        st.state(name, repr(value))
        st.trace('small')

def naming(st, name):
    import scheme
    schema = schema_of(name)
    cls = getattr(scheme, CLASSES[name])
    formats = [cls if f == 'class' else f for f in NAMED[name]]
    value = wrap(name, 'x y')
    for extension in EXTENSIONS.get(name, []):
        for base in ('f', 'f.zz', '.f', 'a.b.c', 'f.json', '\xe9 x'):
            directory = fresh()
            store(directory, name, base + extension, value, schema, st, formats)
            if schema is not None:
                for call in (lambda p: scheme.Format.read(p, schema=schema), schema.read):
                    st.step()
                    actual = call(os.path.join(directory, base + extension))
                    if freeze(actual) != freeze(value):
                        raise Violation('%s reads as %r' % (base + extension, actual))
            # by extension only
            path = os.path.join(directory, base + extension)
            os.unlink(path)
            scheme.Format.write(path, value, schema=schema)
            with open(path, 'rb') as openfile:
                content = openfile.read().decode('utf-8')
            if content != scheme.Format.serialize(value, name, schema):
                raise Violation('%s holds %r' % (path, content))
    for other in sorted(EXTENSIONS):
        # an explicit format wins over the extension
        store(fresh(), name, 'f.' + other, value, schema, st, formats)
        store(fresh(), name, 'f.' + other, value, schema, st)
    store(fresh(), name, 'f', value, schema, st, formats)
    for f in formats:
        st.step(2)
        text = scheme.Format.serialize(value, f, schema)
        if text != cls.serialize(value, schema) or \
                freeze(scheme.Format.unserialize(text, f, schema)) != freeze(value):
            raise Violation('format %r is not %s' % (f, name))
        if schema.serialize(value, f) != text or \
                freeze(schema.unserialize(text, f)) != freeze(value):
            raise Violation('format %r is not %s' % (f, name))
    st.trace('naming')

def unknown(st):
    import scheme
    field = build(RECORD)
    value = {'a': 1, 'b': 'x'}
    for existing in (False, True):
        for target in ['f', 'f.json', 'f.xml'] + UNKNOWN_PATHS:
            for format in UNKNOWN + ([None, ''] if target in UNKNOWN_PATHS else []):
                directory = fresh()
                path = os.path.join(directory, target)
                if '/' in target:
                    os.mkdir(os.path.dirname(path))
                if existing:
                    with open(path, 'w') as openfile:
                        openfile.write('{"a": 1, "b": "x"}')
                before = image(directory)
                for call in (lambda: scheme.Format.write(path, value, format),
                        lambda: scheme.Format.write(path, value, format, field),
                        lambda: field.write(path, value, format),
                        lambda: scheme.Format.read(path, format),
                        lambda: field.read(path, format)):
                    st.step()
                    try:
                        actual = call()
                    except Exception:
                        actual = Violation
                    if actual is not Violation:
                        raise Violation('format %r of %s: returned %r' % (format, target, actual))
                    if image(directory) != before:
                        raise Violation('format %r of %s: files changed' % (format, target))
                st.state(existing, target, format)
    for format in UNKNOWN:
        for call in (lambda: scheme.Format.serialize(value, format),
                lambda: scheme.Format.unserialize('{}', format),
                lambda: field.serialize(value, format),
                lambda: field.unserialize('{}', format)):
            st.step()
            try:
                actual = call()
            except Exception:
                continue
            raise Violation('format %r: returned %r' % (format, actual))
    st.trace('unknown')

def missing(st):
    import scheme
    for name in sorted(NAMED):
        for target in ('f.json', 'f', 'd/f.json', '', None):
            directory = fresh()
            path = os.path.join(directory, target) if target else target
            schema = schema_of(name)
            cls = getattr(scheme, CLASSES[name])
            for call in (lambda **p: scheme.Format.read(path, name, **p), lambda **p:
                    cls.read(path, **p), lambda **p: schema.read(path, name, **p),
                    lambda **p: scheme.Format.read(path, cls, schema, **p)):
                st.step(2)
                value = call(quiet=True)
                if value is not False:
                    raise Violation('quietly reading %r returned %r' % (target, value))
                try:
                    value = call()
                except Exception:
                    continue
                raise Violation('reading %r returned %r' % (target, value))
            if image(directory):
                raise Violation('reading %r created %r' % (target, image(directory)))
    # a file that holds false, or nothing like a value of the field
    directory = fresh()
    path = os.path.join(directory, 'f.json')
    scheme.Json.write(path, False)
    for quiet in (True, False):
        st.step(2)
        if build(('boolean', {})).read(path, quiet=quiet) is not False:
            raise Violation('false read as something else')
        try:
            value = build(RECORD).read(path, quiet=quiet)
        except scheme.ValidationError:
            continue
        raise Violation('a file holding false reads as the record %r (quiet=%r)' % (value, quiet))
    st.trace('missing')

BARRED = [
    (RECORD, [5, [], 'x', {'a': 'x'}, {'zz': 1}, Junk()], {'a': 1, 'b': 'x'}),
    (('structure', {'structure': {'a': ('integer', {'required': True})}, 'nonnull': True}), [None, {},
        {'a': 'x'}, 0, False, '', []], {'a': 1}),
    (('sequence', {'item': ('integer', {}), 'min_length': 1, 'nonnull': True}), [None, [], ['x'], {},
        0, False, ''], [1, 2]),
    (('map', {'value': BARE, 'required_keys': ['k'], 'nonnull': True}), [None, {}, {'j': 'x'}, [], 0,
        ''], {'k': 'x'}),
    (('tuple', {'values': [('integer', {}), BARE], 'nonnull': True}), [None, (), (1,), ('x', 1), 0, []],
        (1, 'x')),
    (('text', {'nonnull': True, 'min_length': 1}), [None, '', 0, False, [], b'x'], 'x'),
    (('integer', {'nonnull': True, 'minimum': 1}), [None, 0, False, '', 'x', -1, 1.5, []], 5),
    (('float', {'nonnull': True, 'minimum': 1.0}), [None, 0.0, False, '', 'x'], 1.5),
    (('boolean', {'nonnull': True, 'constant': True}), [None, False, 0, '', 1], True),
    (('date', {'nonnull': True}), [None, 0, '', 'x', False], date(2000, 1, 2)),
    (('decimal', {'nonnull': True, 'minimum': D(1)}), [None, D(0), 0, '', 'x'], D('1.5')),
    (('enumeration', {'nonnull': True, 'enumeration': ['a', 1]}), [None, 0, '', False, 'b', []], 'a'),
    (('union', {'nonnull': True, 'fields': [('boolean', {}), ('text', {'min_length': 2})]}), [None, 0,
        '', 'a', []], True),
    (('structure', {'polymorphic_on': 'kind', 'structure': {'x': {'a': ('integer', {})}}, 'nonnull':
        True}), [None, {}, {'kind': 'y'}, {'kind': 'x', 'a': 'q'}, 0, '', {'a': 1}], {'kind': 'x', 'a': 1}),
]

def barred(st):
    """Values a field refuses, the empty ones and null included, are refused by every way of
    writing, reading, serializing and unserializing them, and leave the files alone."""
    import scheme
    for term, refused, good in BARRED:
        for filename in ('f.json', 'f.yaml', 'f'):
            for format in ('json', 'yaml', '.json', 'class', None):
                if format is None and filename == 'f':
                    continue
                chosen = scheme.Json if format == 'class' else format
                for existing in (None, b'', b'previous content', 'good'):
                    directory = fresh()
                    path = os.path.join(directory, filename)
                    field = build(term)
                    if existing == 'good':
                        field.write(path, good, chosen)
                    elif existing is not None:
                        with open(path, 'wb') as opened:
                            opened.write(existing)
                    before = image(directory)
                    for value in refused:
                        st.step()
                        try:
                            field.write(path, value, chosen)
                        except scheme.ValidationError:
                            pass
                        else:
                            raise Violation('%r: refused %r written to %s as %r' % (term, value,
                                filename, format))
                        if image(directory) != before:
                            raise Violation('%r: writing the refused %r to %s as %r left %r of %r' % (
                                term, value, filename, format, image(directory), before))
                    if existing == 'good':
                        read = field.read(path, chosen)
                        if freeze(read) != freeze(good):
                            raise Violation('%r: %r reads back as %r' % (term, good, read))
                    st.state(repr(term), filename, repr(format), existing)
        for format in ('json', 'yaml'):
            directory = fresh()
            path = os.path.join(directory, 'f')
            for value in refused:
                for call in (lambda: build(term).serialize(value, format),
                        lambda: build(term).serialize(value)):
                    st.step()
                    try:
                        found = call()
                    except scheme.ValidationError:
                        continue
                    raise Violation('%r serializes the refused %r as %r' % (term, value, found))
                try:
                    scheme.Format.write(path, value, format)
                except Exception:
                    continue            # (the format has no such value)
                with open(path, 'rb') as opened:
                    text = opened.read().decode('utf-8')
                held = json.loads(text) if format == 'json' else scheme.Yaml.unserialize(text)
                if not isinstance(expect(ref.process, term, held, 'inbound', True), ref.Refused):
                    continue            # (refused only of native values)
                for call in (lambda: build(term).read(path, format), lambda: build(term).read(path,
                        format, quiet=True), lambda: build(term).unserialize(text, format),
                        lambda: scheme.Format.read(path, format) and None or build(term).unserialize(
                            scheme.Format.read(path, format))):
                    st.step()
                    try:
                        found = call()
                    except scheme.ValidationError:
                        continue
                    raise Violation('%r reads the refused %r as %r' % (term, value, found))
                st.state(repr(term), format, repr(value))
    st.trace('barred')

def places(st):
    """Places that cannot be written: nothing else changes."""
    import scheme
    value = {'a': 1, 'b': 'x'}
    for name in sorted(NAMED):
        for target in ('no/f', 'file/f', 'folder', ''):
            directory = fresh()
            os.mkdir(os.path.join(directory, 'folder'))
            with open(os.path.join(directory, 'file'), 'w') as openfile:
                openfile.write('kept')
            before = image(directory)
            path = os.path.join(directory, target) if target else ''
            for call in (lambda: scheme.Format.write(path, wrap(name, 'x'), name, schema_of(name)),
                    lambda: schema_of(name).write(path, wrap(name, 'x'), name)):
                st.step()
                try:
                    call()
                except Exception:
                    if image(directory) != before:
                        raise Violation('failed write of %r changed the files' % target)
                    continue
                raise Violation('write to %r succeeded' % target)
            st.state(name, target)
    st.trace('places')

def locale(st, encoding):
    """Files do not depend on the encoding of the locale."""
    import locale as module
    import _io
    real = module.getpreferredencoding
    opener = builtins.open
    def narrow(file, mode='r', buffering=-1, encoding_=None, *args, **params):
        if 'b' not in mode and encoding_ is None and not params.get('encoding'):
            params['encoding'] = encoding
        elif encoding_ is not None:
            params['encoding'] = encoding_
        return opener(file, mode, buffering, *args, **params)
    builtins.open = narrow
    module.getpreferredencoding = lambda *args: encoding
    try:
        for name in sorted(NAMED):
            for text in TEXTS:
                if name == 'xml' and set(text) & set('\x0c\x1a'):
                    continue
                if len(text) > 100:
                    continue
                directory = fresh()
                schema = schema_of(name)
                path = os.path.join(directory, 'f')
                st.step(2)
                st.state(encoding, name, text)
                schema.write(path, wrap(name, text), name)
                reads(directory, 'f', (name, wrap(name, text), schema), st)
    finally:
        builtins.open = opener
        module.getpreferredencoding = real
    st.trace('locale')

RUN = {'history': history, 'faults': faults, 'contents': contents, 'naming': naming, 'small': small,
    'barred': barred, 'unknown': unknown, 'missing': missing, 'places': places, 'locale': locale}

def run(case, st):
    RUN[case[0]](st, *case[1:])
