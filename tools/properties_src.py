"""Source of /verif/properties.jsonl (run: python3 tools/gen_meta.py)."""

P = []

def prop(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {'files': files,
                    'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
                    'mechanism': [dict(zip(('name', 'where'), m)) for m in mechanism],
                    'observe_at': observe, 'hook_needed': None},
    })

prop('C01', 'Scalar fields accept exactly the values their constraints allow',
 "For every scalar field type and every combination of its declared constraints, processing a value in either direction, in native or serialized form, succeeds exactly when the value is of the field's type (inbound serialized data: convertible to it) and satisfies every constraint: non-null, constant, inclusive minimum and maximum, inclusive length bounds, pattern or grammar, segment count, allowed and ignored values. An accepted value comes back unchanged except for the documented canonicalisation (stripped text, lower-cased e-mail, parsed or normalised dates and times, ignored values to null). A refused value raises a validation error carrying the token of the violated constraint, wrong-type refusals being distinguishable from constraint refusals.",
 ['inputs', 'configurations'],
 "Every scalar field type x constraint grid (bounds at, below and above the probed values) x every value of a pool mixing boundary values of all types x {inbound, outbound} x {native, serialized}; text, token and e-mail grammars over all strings up to a bounded length.",
 "The tests try a handful of values per field with one constraint at a time; acceptance is a statement about every value and every combination of constraints.",
 ['scheme/field.py', 'scheme/fields/text.py', 'scheme/fields/token.py', 'scheme/fields/email.py', 'scheme/fields/uuid.py', 'scheme/fields/integer.py', 'scheme/fields/float.py', 'scheme/fields/decimal.py', 'scheme/fields/boolean.py', 'scheme/fields/binary.py', 'scheme/fields/date.py', 'scheme/fields/time.py', 'scheme/fields/datetime.py', 'scheme/fields/enumeration.py', 'scheme/fields/definition.py', 'scheme/fields/object.py'],
 [('null / unserialize / preprocess / constant / validate / serialize pipeline', 'scheme/field.py Field.process'), ('per-type _validate_value and _unserialize_value', 'scheme/fields/*.py')],
 ['Field.process', 'Field.serialize', 'Field.unserialize'])

prop('C02', 'Serializing then unserializing a valid value gives the value back',
 "For every schema, flat or nested (unions only of alternatives whose serialized forms are distinct), and every valid native value of it in canonical form, serializing succeeds and yields only natively serializable data (null, booleans, numbers, text, bytes for binary fields, lists, tuples and dicts of these). Unserializing that data yields a value equal to the original and of the same types at every position, and serializing again yields identical data. Sub-second parts of times and the zone in which a datetime is expressed are the only information that may be lost.",
 ['inputs', 'configurations'],
 "All schemas built from every field type to nesting depth 2 (all pairs of leaves) and depth 3 (representative leaves), times all combinations of representative valid values per leaf, including calendar extremes, NaN-free numeric extremes, null and empty containers.",
 "Tests pair a few literal values with their serialized form for one field at a time; the round trip is a law over all values and all nestings.",
 ['scheme/field.py', 'scheme/fields/date.py', 'scheme/fields/datetime.py', 'scheme/fields/time.py', 'scheme/fields/decimal.py', 'scheme/fields/binary.py', 'scheme/fields/definition.py', 'scheme/fields/object.py', 'scheme/fields/error.py', 'scheme/fields/structure.py', 'scheme/fields/sequence.py', 'scheme/fields/map.py', 'scheme/fields/tuple.py', 'scheme/fields/union.py', 'scheme/util.py'],
 [('_serialize_value/_unserialize_value pairs', 'scheme/fields/*.py'), ('recursive processing with phase and serialized passed down', 'scheme/fields/{structure,sequence,map,tuple,union}.py process')],
 ['Field.serialize', 'Field.unserialize'])

prop('C03', 'Structures yield exactly the keys and values their schema dictates',
 "Processing a dict against a structure yields exactly: each present declared key with its processed value (dropped if null and the field ignores nulls); for an absent key the field's default, inbound only and even when that default is falsy; nothing for other absent optional keys or, in partial processing, for any absent key; and a 'required' error for an absent required key. Undeclared keys are 'unknown' errors when strict and silently dropped otherwise, and a declared key order fixes the order of the result. A polymorphic structure applies exactly the variant named by its discriminator, refusing a missing or unrecognised one.",
 ['inputs', 'configurations'],
 "All flag combinations (required, default none/falsy/truthy, nonnull, ignore_null) of up to two fields and selected combinations of three, x presence {absent, null, valid, invalid} x strict x undeclared key x partial x key order x phase x serialized, flat, nested and polymorphic.",
 "Each flag is tested alone with one value; the guarantee is about all combinations of flags, presence, phase, strictness and polymorphism.",
 ['scheme/fields/structure.py', 'scheme/field.py'],
 [('key walk, default/required/partial decision, strict check', 'scheme/fields/structure.py Structure.process'), ('discriminator', 'scheme/fields/structure.py Structure.__init__ / process')],
 ['Structure.process', 'Field.serialize', 'Field.unserialize'],
 [('structure', 'declared fields, per variant when polymorphic', 'scheme/fields/structure.py')])

prop('C04', 'Sequences, maps and tuples validate every element, length and key',
 "A sequence, map or tuple accepts a value exactly when it is of the container's type, its length lies within the inclusive bounds (for a tuple: equals the declared arity), its items are distinct if uniqueness is declared, all required keys are present, every key is valid for the key field (text if none), and every element is valid for its item field. The result preserves order, length and keys, with every element processed by its own item field and nothing added, lost or shared with another position. Otherwise the matching error is raised: container errors carry their token, element errors appear at exactly the offending positions.",
 ['inputs', 'configurations'],
 "All lists up to length 4 (thorough 5) over an alphabet of valid, null, duplicate and invalid items x min/max/unique grid; all maps over up to three keys x required-keys x key field; all tuples of arity 1..3 with candidate lengths 0..4; list and tuple inputs; nested containers; both phases, native and serialized.",
 "Tests check single examples per bound; off-by-one, order and position errors hide in the combinations of length, bounds, duplicates and invalid positions.",
 ['scheme/fields/sequence.py', 'scheme/fields/map.py', 'scheme/fields/tuple.py'],
 [('length, uniqueness and element loop', 'scheme/fields/sequence.py Sequence.process'), ('key processing and required keys', 'scheme/fields/map.py Map.process'), ('arity and positional processing', 'scheme/fields/tuple.py Tuple.process')],
 ['Field.process'])

prop('C05', 'Validation reports every invalid element at its exact place and nothing else',
 "When a value is refused, the raised error mirrors the value: every invalid element, at any depth, appears at its own key or index with its own error tokens, a message naming its field and the limit it broke, the value as it was refused, and the full path from the root, while every valid sibling is present and not reported. The serialized form of the error has the same shape and the same tokens, and its text lists exactly one numbered entry per reported element, naming its path, showing its field and value (unless the error is declared not to) and the traceback of whatever caused it. An error loses nothing when it is itself serialized and unserialized as data, except the exceptions' identity.",
 ['inputs', 'configurations'],
 "All subsets of invalid leaves (each of several failure kinds) of schemas up to depth 3 mixing structures, polymorphic structures, sequences, maps, tuples; both phases; flat and structural errors for the data round trip.",
 "Tests look at one or two failing leaves and compare tokens only; the law is over every subset of failing positions in arbitrarily nested schemas, including paths and rendered text.",
 ['scheme/exceptions.py', 'scheme/field.py', 'scheme/fields/structure.py', 'scheme/fields/sequence.py', 'scheme/fields/map.py', 'scheme/fields/tuple.py', 'scheme/fields/error.py', 'scheme/common.py'],
 [('error aggregation in structural process methods', 'scheme/fields/*.py'), ('serialize / __str__ of StructuralError', 'scheme/exceptions.py'), ('ancestry path', 'scheme/field.py Field.process')],
 ['StructuralError.serialize', 'str(StructuralError)', 'StructuralError.structure', 'StructuralError.identity', 'StructuralError.unserialize'])

prop('C06', 'A union behaves as its first alternative that accepts the type',
 "Processing a value against a union, in any phase and form, gives exactly the outcome of the first alternative in declared order that does not refuse the value's type: its result if it accepts, its validation error if a constraint fails. If every alternative refuses the type, the union refuses it with a single type error of its own; null is decided by the union alone.",
 ['inputs', 'configurations'],
 "All ordered unions of 1..3 alternatives drawn from scalar, constrained-scalar, structural and nested-union fields x value pool of all types x phase x form x nonnull, alone and inside structures and sequences.",
 "Tests cover two unions; priority and fall-through depend on every ordering of alternatives and every value that several alternatives could claim.",
 ['scheme/fields/union.py', 'scheme/exceptions.py'],
 [('first alternative not raising InvalidTypeError', 'scheme/fields/union.py Union.process')],
 ['Union.process'])

prop('C07', 'No input data makes processing fail with anything but a validation error',
 "For every schema and every piece of data a supported format can deliver (null, booleans, numbers of up to 4000 digits, text, bytes, dates, datetimes, lists, tuples and string-keyed or integer-keyed dicts, nested), inbound processing and unserialization either return a value or raise one of scheme's validation errors. The raised error can always be rendered as text and serialized. No malformed, oversized or wrongly typed input leaks another exception.",
 ['inputs', 'configurations'],
 "Every field type with a grid of constraints, alone and nested in each container, x all shapes of data up to depth 2 (thorough 3) over an alphabet of hostile atoms (malformed base64, NaN, infinities, huge numbers, wrong types, unhashable values, datetimes for dates, odd reserved keys).",
 "Tests feed the anticipated wrong types; robustness is a statement about all inputs an outside party can send.",
 ['scheme/field.py', 'scheme/fields/binary.py', 'scheme/fields/decimal.py', 'scheme/fields/sequence.py', 'scheme/fields/date.py', 'scheme/fields/definition.py', 'scheme/fields/email.py', 'scheme/fields/enumeration.py', 'scheme/fields/structure.py', 'scheme/fields/union.py', 'scheme/exceptions.py'],
 [('conversion guarded by InvalidTypeError', 'scheme/fields/*.py _unserialize_value'), ('preprocessor guard', 'scheme/field.py Field.process')],
 ['Field.process', 'Field.unserialize'])

prop('C08', 'Operations leave arguments and schemas untouched and do not remember',
 "No processing, serialization, unserialization, description, reconstruction, extraction, instantiation, interpolation, filtering, transformation, cloning or rendering changes the data, descriptions or parameters it is given, or the schema it is applied to. The outcome of an operation depends only on the schema's definition and the arguments, never on which operations ran before, on other schemas built or edited meanwhile, or on what callers did to results they were given earlier. In-place editing of a structure affects that structure alone.",
 ['histories', 'inputs'],
 "All operation histories up to length 2 (thorough 3) over some thirty operations (valid and invalid processing, describe, clone, edit of a sibling, mutation of returned results, ...) on each of a set of shared schemas, each followed by all probe operations compared with a fresh schema, with deep snapshots of every argument.",
 "Each test uses a fresh field and discards results; leaked state shows only after particular sequences of operations on shared schemas.",
 ['scheme/field.py', 'scheme/fields/structure.py', 'scheme/fields/sequence.py', 'scheme/fields/map.py', 'scheme/fields/tuple.py', 'scheme/fields/definition.py', 'scheme/exceptions.py', 'scheme/element.py', 'scheme/surrogate.py'],
 [('results built fresh', 'scheme/fields/*.py process'), ('errors table copied per instance', 'scheme/field.py Field.__init__'), ('specification not consumed', 'scheme/field.py FieldMeta.reconstruct')],
 ['every public Field operation'],
 [('Field.types', 'registry of field types', 'scheme/field.py'), ('errors', 'class-level error table', 'scheme/field.py')])

prop('C09', 'Reconstructing a described schema gives an equivalent schema',
 "For every schema whose parameters are natively serializable, its description is natively serializable data, and the schema reconstructed from it (directly or after a trip of the description through JSON) accepts, refuses and produces exactly what the original does, with the same names, requiredness, defaults and error tokens. Describing the reconstructed schema gives the same description again, and verbose descriptions, which hold every parameter that has a value at every depth, reconstruct equally.",
 ['inputs', 'configurations'],
 "Every field type with grids of natively serializable parameters, nested to depth 2 (thorough 3), polymorphic included, x plain/verbose x direct/JSON, each compared with the original on a pool of probe values in both phases and forms.",
 "Tests compare a few description dicts with literals and never probe the behaviour of the reconstructed field.",
 ['scheme/field.py', 'scheme/fields/structure.py', 'scheme/fields/sequence.py', 'scheme/fields/map.py', 'scheme/fields/tuple.py', 'scheme/fields/union.py', 'scheme/fields/datetime.py', 'scheme/fields/date.py', 'scheme/fields/time.py', 'scheme/fields/decimal.py', 'scheme/fields/enumeration.py', 'scheme/fields/token.py', 'scheme/fields/definition.py'],
 [('describe with declared parameters', 'scheme/field.py Field.describe and overrides'), ('reconstruct / construct', 'scheme/field.py FieldMeta.reconstruct, Field.construct')],
 ['Field.describe', 'Field.reconstruct', 'Definition field'])

prop('C10', 'A clone is equivalent to and independent of its original',
 "Cloning any schema (or deep-copying it) gives a schema of the same type that accepts, refuses, produces and describes exactly the same, apart from the parameters explicitly overridden, which take the given values and change nothing else. Editing the clone (inserting, merging, removing, redefining, renaming) never changes the original's behaviour at any depth, nor the reverse.",
 ['inputs', 'configurations', 'histories'],
 "Every field type with parameter grids nested to depth 2, cloned once and twice and deep-copied, with each overridable parameter, probed on a value pool; followed by all single edits of either side at every depth.",
 "One test clones an opaque field; equivalence and independence range over all schemas, overrides and subsequent edits.",
 ['scheme/field.py', 'scheme/fields/structure.py', 'scheme/fields/text.py', 'scheme/fields/email.py', 'scheme/fields/datetime.py', 'scheme/fields/enumeration.py'],
 [('clone by deep copy of attributes', 'scheme/field.py Field.clone, __deepcopy__')],
 ['Field.clone', 'copy.deepcopy'])

prop('C11', 'Editing a structure changes exactly the fields named',
 "Inserting, merging, extending, replacing and removing fields leaves a structure with exactly the fields the operation's documentation dictates, for any sequence of such operations: non-overwriting operations skip only the names already present, replacing ignores names not present, copying operations leave the original alone, and each field is known by the key it is stored under. The edited structure validates data exactly like one declared with that content from the start. Fields passed in are never renamed in place when they already have another name.",
 ['histories', 'inputs'],
 "Breadth-first exploration of all sequences of edits up to depth 3 (thorough 4) over three names, two field types and all option flags from several initial structures, every reachable state compared with a dict model and with a freshly declared structure on probe data.",
 "Tests apply each edit once; the interplay of several names in one call and of successive edits is not covered.",
 ['scheme/fields/structure.py'],
 [('insert/merge/extend/replace/remove', 'scheme/fields/structure.py')],
 ['Structure.insert', 'Structure.merge', 'Structure.extend', 'Structure.replace', 'Structure.remove', 'Structure.get', 'Structure.process'],
 [('structure', 'name -> field mapping', 'scheme/fields/structure.py')])

prop('C12', 'Filtering, transforming and visiting schemas touch exactly what matches',
 "Filtering a schema by attributes removes exactly the nested fields that do not match (any one attribute matching suffices, or all of them when asked for; a discriminator always stays, a union is kept or removed whole, and an item, map value or tuple position that would be removed is an error), returns the schema itself when nothing is removed and never an altered original. Transforming replaces exactly the fields for which a replacement is supplied, at every depth and in every variant, descends no further where told not to, and returns the identical schema when nothing is replaced. Visiting a description presents every directly nested field description exactly once at its place.",
 ['inputs', 'configurations'],
 "All assignments of two attributes (absent/true/false) to the nodes of schema trees of depth <= 3 over every structural type x all filter queries; all subsets of nodes chosen for replacement, descent refusal or no-op; all such trees for visiting.",
 "Tests filter and transform one tree each with one attribute; the rule quantifies over all marked subsets of nodes in all container types.",
 ['scheme/field.py', 'scheme/fields/structure.py', 'scheme/fields/sequence.py', 'scheme/fields/map.py', 'scheme/fields/tuple.py', 'scheme/fields/union.py'],
 [('filter', 'scheme/field.py Field.filter and overrides'), ('transform', 'scheme/field.py Field.transform and overrides'), ('visit', '_visit_field of each field type')],
 ['Field.filter', 'Field.transform', 'Field.visit', 'Field.screen'])

prop('C13', 'JSON and YAML documents read back as the data that was written',
 "For every composition of nulls, booleans, numbers, text, lists and string-keyed dicts (for YAML also dates and datetimes), reading the JSON or YAML text that scheme writes gives back an equal value with the same types, whatever the text contains: quotes, indicators, newlines, leading or trailing blanks, words that look like numbers, dates or booleans, long lines, any printable or control character. The same holds through a schema: a valid value serialized to JSON or YAML and unserialized with that schema is unchanged.",
 ['inputs', 'configurations'],
 "All strings up to length 3 (thorough 4) over an alphabet of YAML indicators, blanks, newlines, digits, letters and specials, plus a list of hostile words and long texts, at every nesting position (top, value, key, list item, nested); all data shapes up to depth 3 over representative atoms; schema-mediated variants.",
 "Tests pin a dozen documents; whether a hand-written YAML emitter quotes correctly is a question about every string in every position.",
 ['scheme/formats/json.py', 'scheme/formats/yaml.py', 'scheme/format.py', 'scheme/field.py'],
 [('quoting decisions and block layout', 'scheme/formats/yaml.py'), ('json module', 'scheme/formats/json.py')],
 ['Json.serialize/unserialize', 'Yaml.serialize/unserialize', 'Field.serialize/unserialize with format'])

prop('C14', 'XML and CSV documents read back as the data that was written',
 "For every schema XML supports (structures, polymorphic structures, sequences, maps, tuples and scalars, nested) and every valid value, unserializing the XML text scheme wrote with that schema returns the value, keeping null, empty text, empty container and absent key apart; keys and names are XML names, and text XML cannot express is refused. For every sequence of flat structures, unserializing the CSV text scheme wrote returns the same rows and scalar values, with null and empty text read back as absent, for any cell text without NUL, any choice of columns and either line-ending convention between rows. Reading and writing produce no other output.",
 ['inputs', 'configurations'],
 "XML: schema trees to depth 3 x value combinations, cell text over an alphabet of markup characters, blanks and non-ASCII; CSV: all row sets up to 3 rows x column subsets and orders x cell alphabet with quotes, commas, newlines.",
 "One document per format is tested; the guarantee is about all schemas and cell contents.",
 ['scheme/formats/xml.py', 'scheme/formats/csv.py', 'scheme/format.py'],
 [('schema-directed element walk', 'scheme/formats/xml.py'), ('column selection, dialect, row parsing', 'scheme/formats/csv.py')],
 ['Xml.serialize/unserialize', 'Csv.serialize/unserialize', 'Field.serialize/unserialize with format'])

prop('C15', 'Structured text and URL-encoded forms read back as the data that was written',
 "For every nesting of lists and dicts over nulls, booleans and text, reading the structured-text form gives back an equal value, for any text that has no comma, does not spell a literal (true, false, null in any case) and, inside a container, does not end in a backslash; keys additionally have no colon, bracket or backslash, and a list holding a single empty text is the one shape that cannot be told from an empty list. With number parsing on, integers and decimal floats come back as numbers. The URL-encoded form gives back the same for every dict at top level, including empty text and through a schema.",
 ['inputs', 'configurations'],
 "All strings up to length 3 (thorough 4) over {letter, digit, brackets, backslash, colon, blank, pipe, percent, ampersand, equals, plus, quote} at top level and inside every container shape up to depth 3 with up to 3 entries.",
 "Tests pin about thirty documents; bracket escaping and nesting interact for all strings and shapes.",
 ['scheme/formats/structuredtext.py', 'scheme/formats/urlencoded.py'],
 [('bracket escaping and innermost-first parsing', 'scheme/formats/structuredtext.py'), ('form encoding', 'scheme/formats/urlencoded.py')],
 ['StructuredText.serialize/unserialize', 'UrlEncoded.serialize/unserialize'])

prop('C16', 'File reads return what was written and a failed write destroys nothing',
 "After a successful write, reading the same path (format given explicitly, by file extension in any letter case, or by format class) returns the value written, processed by the schema when one is used. A write that is refused, because the value is invalid, cannot be expressed in the format, or the format is unknown, raises and leaves any existing file exactly as it was and creates no new one. Reading a missing file raises, or returns false when quiet is asked for, and an unknown format or extension always raises.",
 ['fault_sequences', 'histories', 'inputs'],
 "All sequences up to length 3 of writes (valid, invalid, inexpressible, unknown format, environment fault injected at each file-system step) and reads over two paths, all extensions and formats, compared with a model file system of last successful contents.",
 "Tests write one valid value per entry point; data loss shows only when a write fails over an existing file.",
 ['scheme/format.py', 'scheme/field.py'],
 [('format resolution', 'scheme/format.py Format.read/write'), ('process before write', 'scheme/field.py Field.write/read')],
 ['Format.read', 'Format.write', 'Field.read', 'Field.write', 'the files themselves'])

prop('C17', 'Interpolation substitutes parameters hierarchically and changes nothing else',
 "Interpolating a value against a schema replaces every variable reference, at any depth, by the value of the named parameter converted for the field it stands in, and expands a reference standing for a whole container into a container that is itself interpolated. Data without references, including nulls and native values, comes back equal. An undefined parameter drops exactly the affected key of a structure or map, makes text empty, and otherwise raises an undefined-parameter error; the subject and the parameters are never modified.",
 ['inputs', 'configurations'],
 "All schema trees to depth 2 (thorough 3) over every field type x all assignments of {literal, whole-value reference, embedded reference, undefined reference, null, reference to a container of references} to their positions x parameter environments.",
 "Tests interpolate each field once with defined parameters; undefined ones, nesting and container references combine freely.",
 ['scheme/interpolation.py', 'scheme/field.py', 'scheme/fields/structure.py', 'scheme/fields/sequence.py', 'scheme/fields/map.py', 'scheme/fields/tuple.py', 'scheme/fields/union.py', 'scheme/fields/text.py', 'scheme/fields/integer.py', 'scheme/fields/float.py', 'scheme/fields/decimal.py', 'scheme/fields/enumeration.py', 'scheme/fields/token.py', 'scheme/fields/uuid.py'],
 [('interpolate_parameters', 'scheme/interpolation.py'), ('interpolate overrides', 'scheme/fields/*.py')],
 ['Field.interpolate', 'interpolate_parameters'])

prop('C18', 'Extraction and instantiation visit every element exactly once',
 "Extracting from a subject returns a freshly built value holding, at every place the schema describes, what the extractor of that place (or the subject itself) supplies: declared non-null keys of dicts, or attributes of objects when not strict, all items of sequences and tuples, all entries of maps; fields excluded by the screening parameters are left out, and failures surface as extraction errors. Instantiating a valid value applies the instantiator of every place exactly once, innermost first, with its own field, value and (under keyed containers) key. Extracting from the instance gives back the value.",
 ['inputs', 'configurations'],
 "All schema trees to depth 3 over every structural type with extractor/instantiator/screening marks on every subset of nodes x value combinations, comparing the call log and result with a model.",
 "Tests put one extractor or instantiator at one or two places; the rule is about every subset of places.",
 ['scheme/field.py', 'scheme/fields/structure.py', 'scheme/fields/sequence.py', 'scheme/fields/map.py', 'scheme/fields/tuple.py'],
 [('extract overrides', 'scheme/fields/*.py'), ('instantiate overrides', 'scheme/fields/*.py'), ('screen', 'scheme/field.py')],
 ['Field.extract', 'Field.instantiate', 'Field.screen'])

prop('C19', 'Elements mirror their schema and survive a serialization round trip',
 "An element built from keyword values or by unserializing valid data has exactly the attributes its schema declares, with the given values and otherwise the schema's defaults, each instance owning its own copies of default values; an element in a map or structure holds its key in the key attribute of its class, whatever its data says. Serializing an element gives exactly the serialized form of its non-null attributes, and unserializing that gives an element of the class registered for it (the polymorphic identity's class when there is one) with equal attributes (null ones taking their defaults), nested elements included. Invalid data never yields an element.",
 ['inputs', 'configurations', 'histories'],
 "Element classes over scalar, structural, nested, keyed-map and polymorphic schemas x all combinations of attribute values {default, null, valid, mutated default} x formats {none, json, yaml, xml} x histories of constructing, mutating and serializing several instances.",
 "Tests build one instance per class; defaults shared between instances and polymorphic dispatch need several instances and histories.",
 ['scheme/element.py', 'scheme/fields/structure.py', 'scheme/field.py'],
 [('attribute defaults', 'scheme/element.py ElementMeta, Element.__init__'), ('extract / instantiate hooks', 'scheme/element.py')],
 ['Element()', 'Element.serialize', 'Element.unserialize'])

prop('C20', 'Late-defined and recursive fields behave as if declared in place',
 "A schema containing an undefined placeholder raises an undefined-field error whenever, and only when, an operation reaches the placeholder with data, and never another error or a partial result. Once the placeholder is defined, every schema referring to it, whenever built, behaves exactly as if the field had been declared there from the start, including recursive schemas at any depth of data. This holds for every order of declaring, using and defining.",
 ['histories', 'inputs', 'configurations'],
 "All interleavings of {build container k, use container k, define placeholder} for every container kind and nesting to depth 2, with one placeholder shared by up to two containers; recursive trees with data depth 0..4.",
 "Tests define after one failing use for one container at a time; orders of build/use/define and sharing are not covered.",
 ['scheme/field.py', 'scheme/fields/structure.py', 'scheme/fields/sequence.py', 'scheme/fields/map.py', 'scheme/fields/tuple.py', 'scheme/fields/union.py'],
 [('Undefined.register / define callbacks', 'scheme/field.py Undefined'), ('_define_undefined_field', 'scheme/fields/*.py')],
 ['Field.process', 'Field.extract', 'Field.instantiate', 'Field.interpolate', 'Undefined.define'],
 [('callbacks', 'containers waiting for the definition', 'scheme/field.py Undefined')])

prop('C21', 'A schema shared by threads gives each caller its own result',
 "When several threads process, serialize, unserialize, describe, clone, extract, instantiate or interpolate through the same schemas at the same time, every call returns or raises exactly what it would have alone, for every interleaving. Errors, their paths and their rendered text belong to the call that raised them.",
 ['schedules'],
 "Two concurrent operations from a menu of about twelve on shared schemas covering every field type: every schedule with one preemption at every executed source line (a whole operation inserted), and with two preemptions between real threads under a controlled scheduler (thorough: all pairs; quick: a fixed subset), including first use of lazily built globals.",
 "The tests are single-threaded; a result that leaks through shared state shows only in particular interleavings.",
 ['scheme/field.py', 'scheme/fields/structure.py', 'scheme/fields/sequence.py', 'scheme/fields/map.py', 'scheme/fields/tuple.py', 'scheme/fields/union.py', 'scheme/interpolation.py', 'scheme/util.py', 'scheme/exceptions.py', 'scheme/surrogate.py'],
 [('no per-call state on shared objects', 'scheme/fields/*.py process'), ('lazily created default interpolator', 'scheme/interpolation.py Interpolator.default'), ('caches', 'scheme/util.py identify_object, scheme/surrogate.py')],
 ['every public Field operation'],
 [('default_interpolator', 'lazily created global', 'scheme/interpolation.py'), ('cache', 'object identity cache', 'scheme/util.py')])

prop('C22', 'Datetimes denote the same instant in every time zone configuration',
 "Whatever time zone the process runs in, serializing a datetime writes its instant in UTC to the second, and unserializing yields the same instant expressed in the field's zone (UTC or local); naive datetimes are taken to be in the field's zone, and aware ones are converted without changing the instant. Minimum and maximum are compared as instants, inclusively, and survive description and reconstruction as the same instants. Wall-clock times repeated or skipped by a daylight-saving change, when given naively or produced in the local zone, are the only exception.",
 ['configurations', 'inputs'],
 "Process time zones {UTC, fixed east/west, half-hour, northern and southern DST} x every hour (thorough: quarter hour) of a year plus boundary years x {naive, UTC, local, fixed-offset} inputs x {utc, local} fields x bounds around the value, against the zoneinfo database.",
 "The suite runs in one time zone around the current moment.",
 ['scheme/fields/datetime.py', 'scheme/timezone.py'],
 [('_normalize_value', 'scheme/fields/datetime.py'), ('LocalTimezone', 'scheme/timezone.py')],
 ['DateTime.process', 'DateTime.describe', 'LOCAL', 'UTC'])

prop('C23', 'Surrogates keep their type, version and data through serialization',
 "A surrogate of any implementation, whether schemaless, versioned or carrying its own dynamic schema, serializes to plain data naming its implementation, and unserializing that data gives a surrogate of the same implementation with equal content and the same version or an equivalent schema; versions select exactly the schema they name. A surrogate field accepts exactly surrogates (restricted to the declared implementations if any) and never alters the data it is given. An implementation that cannot be imported falls back to the generic surrogate rather than failing.",
 ['inputs', 'configurations', 'histories'],
 "Implementations {generic, one version, three versions, dynamic schema, unknown} x every version x value combinations x direct/field-mediated/nested x restrictions x repeated unserialization of the same data.",
 "A single test constructs one generic surrogate; serialization, versions and restrictions are untested.",
 ['scheme/surrogate.py', 'scheme/fields/surrogate.py'],
 [('serialize / unserialize', 'scheme/surrogate.py'), ('implementation lookup and cache', 'scheme/surrogate.py _get_implementation'), ('field checks', 'scheme/fields/surrogate.py')],
 ['surrogate.serialize', 'surrogate.unserialize', 'Surrogate field'],
 [('cache', 'token -> implementation', 'scheme/surrogate.py')])

prop('C24', 'User-defined fields and formats work wherever built-in ones do',
 "A user's subclass of a field works, alone or nested and in every format, like a built-in type: its hooks are called in order (inbound: unserialize, preprocess, constant, validate; outbound: preprocess, constant, validate, serialize), a hook giving nothing keeps the value, declared parameters (described and reconstructed) and errors extend the inherited ones, an error declared by the class or for one field (its own coming first) is the one reported, and both survive cloning, and without hooks it behaves exactly as its base. A user's format is reached by name, mimetype, extension or class for values and files, and is given schema and parameters. Hooks given as functions, objects or import paths are equivalent, redefining an enumeration replaces or appends in order, and defining an extension changes no built-in.",
 ['inputs', 'configurations', 'histories'],
 "All combinations of hooks x phases, forms and containers; a hookless subclass of every field type x containers x operations; small inheritance chains of parameters and errors; all ways of naming a format x uses; all forms of instantiators and extractors; pairs of enumeration redefinitions.",
 "Tests define one or two extensions and use each in one place; the guarantee is about every combination of hook, place and form.",
 ['scheme/field.py', 'scheme/fields/*.py', 'scheme/format.py', 'scheme/formats/*.py'],
 [('FieldMeta', 'scheme/field.py'), ('Field.process', 'scheme/field.py'), ('FormatMeta', 'scheme/format.py'), ('Enumeration.redefine', 'scheme/fields/enumeration.py')],
 ['Field (subclassing)', 'Format (subclassing)', 'Enumeration.redefine'])

prop('C25', 'Malformed declarations are refused at once and change nothing',
 "Declaring a field or element, by constructor, clone, description or an edit of an existing structure, with a malformed argument (a bound or length of the wrong type, negative, or a text which is no date, time, decimal or regular expression; a member which is not a field; a variant, key list or discriminator of the wrong kind; an unknown type; a hook which cannot be imported) raises TypeError, ValueError, ImportError or the regular expression error there and then, and leaves the edited field unchanged and any placeholder in the declaration usable. Every well-formed declaration is accepted and holds exactly what was given, text forms (space-delimited lists, dates, times, decimals, patterns) being equivalent to native ones. An accepted field, whatever value it is given, yields a value or a validation error.",
 ['inputs', 'configurations'],
 "Every parameter of every field type x a menu of 60 values of all types x 7 ways of declaring; pairs of bounds; lists, structures and variants of up to 3 members with one malformed, with defined and undefined placeholders; edits with up to 3 members; element declarations; import paths; schemas given to table and document formats.",
 "The tests check one or two malformed arguments for some parameters; refusal is a statement about every argument, and atomicity about every position of the malformed one.",
 ['scheme/field.py', 'scheme/fields/*.py', 'scheme/element.py', 'scheme/formats/csv.py', 'scheme/formats/xml.py'],
 [('constructors', 'scheme/fields/*.py __init__'), ('Structure edits', 'scheme/fields/structure.py'), ('ElementMeta', 'scheme/element.py'), ('import_object', 'scheme/util.py')],
 ['Field constructors', 'Field.reconstruct', 'Structure.merge/extend/replace/insert', 'Element'])

prop('C26', 'Utilities address, merge and render any nested data faithfully',
 "traverse_to_key gives exactly the value at the end of a dotted path and set_nested_value replaces exactly it, both raising KeyError for a missing key and TypeError where the path leaves mappings, without changing anything; recursive_merge updates its first argument, merging mappings key by key and taking anything else from the second, which it leaves alone. format_structure renders any structure of mappings, lists, tuples and scalars deterministically as text which reads back as an equal structure (keys as text), indented by depth, never showing values under masked keys; indent, minimize_string and abbreviate_string do as much for any text, keeping to the limit given. Modules, and classes and functions under the names they're defined by, are imported as the same objects by the identities and paths which name them, and other paths raise ImportError.",
 ['inputs'],
 "All mappings up to 3 deep x all dotted paths of up to 4 segments; all pairs of mappings up to 2 deep; structures up to 3 deep of every kind of node x all styles of rendering; all texts of up to 6 characters (12 to abbreviate); every module, class, method and function of the library x the forms of path.",
 "The tests use one structure and a few paths; abbreviation and rendering are not tested at all, and failed on most inputs.",
 ['scheme/util.py'],
 [('paths', 'scheme/util.py traverse_to_key, set_nested_value'), ('merging', 'scheme/util.py recursive_merge'), ('StructureFormatter', 'scheme/util.py'), ('import_object / identify_object', 'scheme/util.py')],
 ['scheme.util'])

prop('C27', 'A schema represents itself as the expression which declares it',
 "The representation (repr) of any schema, however nested, recursive or partly undefined, is produced without fail and reads as an expression: each field under its type, with its name, its bounds, lengths, values, nested fields, key lists and flags (nonnull, required, ignore_null, unique, utc, multiple, extended, a strip or strict which is off), default and title exactly where they were given - whether they are false or not - and a constant as constant=True, and nothing which wasn't given; a recursive schema is cut off where it comes back to itself. It's the same however the schema came about (declared, cloned, copied, reconstructed from its description, a placeholder defined), is unchanged by use, and is what the text of a validation error shows as its field. Elements are represented by their class and whichever of id, name and title they have; surrogates by their implementation and content.",
 ['inputs', 'configurations', 'histories'],
 "All subsets of up to 8 parameters of each field type with ordinary and falsy values; every container around every container around every leaf; all cycles through up to 3 containers; histories of up to 2 derivations (clone, copy, describe, process).",
 "No test looks at a representation; an omitted bound, a false one taken for absent, or an endless recursion shows only for some combination of parameters or some cycle, and then in the text of an error in production.",
 ['scheme/field.py', 'scheme/fields/*.py', 'scheme/element.py', 'scheme/surrogate.py', 'scheme/exceptions.py'],
 [('Field.__repr__', 'scheme/field.py'), ('representations of the types', 'scheme/fields/*.py __repr__'), ('StructuralError._format_errors', 'scheme/exceptions.py')],
 ['repr() of fields, elements and surrogates'])
