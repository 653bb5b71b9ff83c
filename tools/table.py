IN = 'inputs'
COMMON = ' The contract of every listed function is checked for all inputs and iterations (partial correctness); the bounded oracles on the real code are extra and not counted as proved.'

prop('C01', 'Paths are lossless',
     'Joining any list of non-empty field names into a path and splitting that path gives the same fields back, whatever characters the names contain, and taking the head or the tail of a path and its remainder loses nothing. '
     'Prepending or appending a field to a well-formed path adds exactly that one field (none when the field is empty). A path is rejected with a path error exactly when a quote is not closed or the escape character is the last character.',
     IN, 'all paths, field lists and single-character delimiters other than a quote or the escape character',
     'The tests check a few dozen literal paths; the round trip must hold for every string, including quotes, escapes and delimiters inside field names.',
     ['marsh/path.py'], [('iterative_split', 'marsh/path.py'), ('escape_field', 'marsh/path.py'), ('join_fields / head / tail / prepend / append', 'marsh/path.py')],
     'All functions of marsh.path are proved against a recursive specification of the path grammar.' + COMMON, theorems=['C01_split_join', 'go_jf', 'go_append', 'go_esc0'])

prop('C02', 'Selecting by path returns the element the fields lead to',
     'Selecting a path in an element returns exactly the sub-element reached by following its fields one by one (mapping keys; sequence indices, also counted from the end), and stepping through the selection yields every element on the way with the path followed so far and the path that remains. '
     'If a field can not be followed, selection fails with a path error whose path names exactly the deepest element that exists; a path without fields selects the element itself. The element is never modified.',
     IN, 'all nested elements and all paths',
     'Tests select a handful of paths; the guarantee is over every element shape, depth, index spelling and quoting of field names.',
     ['marsh/element.py', 'marsh/path.py', 'marsh/utils.py'], [('iterative_select / select', 'marsh/element.py'), ('error path prefixes', 'marsh/errors.py')],
     'select and iterative_select proved against the specification, including the exact path of the error; is_mapping/is_sequence proved from an assumed contract of is_obj_instance.' + COMMON)

prop('C03', 'Overriding by path sets one place and nothing else',
     'After overriding a value at a path, selecting that path gives the value, every element that is not on or below the path is unchanged, missing mappings on the way are created, an index equal to the length appends, and the input element is left unmodified. '
     'With the combine option two mappings (or two sequences) at the path are combined into their union (concatenation), at any depth, instead of being replaced. A path that can not be traversed is rejected with a path error at the deepest element that was reached.',
     'inputs histories', 'all elements, values, paths and both combine settings, and all sequences of overrides',
     'Tests override a few literal paths; the frame condition (nothing else changes) and nested combination must hold for every element and path.',
     ['marsh/element.py'], [('override', 'marsh/element.py')],
     'override proved equal to a recursive specification; set-then-get and the frame condition proved as lemmas over that specification by induction over the path.' + COMMON, theorems=['C03_set_get', 'C03_frame'])

prop('C04', 'Removing by path takes away exactly one element',
     'Removing a path from an element returns a copy in which exactly the addressed mapping entry or sequence item is gone and everything else, including order, is as before; the input is left unmodified. '
     'A path that does not exist is rejected with a path error whose path names the deepest element that exists, and removing without a path or from a value that is not a container is rejected with a value error.',
     IN, 'all elements and paths', 'Tests remove a few literal paths; the guarantee ranges over every nesting, index spelling and field name (also those that need escaping in the error path).',
     ['marsh/element.py'], [('remove', 'marsh/element.py')], 'remove proved against a recursive specification, including the exact path of the error.' + COMMON)

prop('C05', 'Merging is a per-key union in which later values win',
     'Merging elements from left to right gives, for two mappings, a mapping with the union of their keys in which every key holds the merge of the two values; otherwise the later element wins unless it is the missing value, and with concatenation two sequences are concatenated. '
     'Merging any number of elements equals merging them one after the other, and no input is modified.',
     IN, 'all sequences of elements and both concatenation settings', 'Tests merge a few literal mappings; the law is over arbitrary nesting, missing markers at any place and any number of elements.',
     ['marsh/element.py'], [('merge / _merge', 'marsh/element.py')],
     'merge and _merge proved against a recursive specification; the per-key law is proved as a lemma for every iteration order of the key set.' + COMMON, theorems=['C05_pointwise', 'C05_last_wins'])

prop('C06', 'Standardizing changes container types only; missing values are always found',
     'Standardizing an element yields an element with the same keys in the same order and the same items and leaf values, in which every mapping and every sequence at every depth is of the requested type; doing it twice changes nothing. '
     'An element is reported as having missing values exactly when the missing value occurs in it as a key or value at some depth.',
     IN, 'all nested elements and container types', 'Tests use two or three shapes; the guarantee is for every nesting depth and mix of containers.',
     ['marsh/element.py'], [('standardize', 'marsh/element.py'), ('has_missing', 'marsh/element.py')],
     'standardize (default container types) and has_missing proved against recursive specifications; other container types are covered by the bounded oracle only.' + COMMON, theorems=['C06_keys', 'C06_values', 'C06_items', 'C06_length'])

prop('C07', 'Command-line text is parsed without loss, or rejected with a parse error',
     'Parsing any text as an element, sequence, mapping, terminal, string, list of config names or override either gives a result or raises ParseError, whose source is the text and whose remaining part is a suffix of it. '
     'Text that is quoted (or escaped character by character) is kept exactly and is always a string; the text of an integer or float gives exactly that number, and true, false and null in any case give the constants. '
     'The text of any nested element, with any choice of quotes, escapes, brackets and spacing, parses back to the same keys, order and values, and anything but whitespace after it is rejected. '
     'An override (path=value, path+=value, ~path, path@configs, path+@configs) yields exactly the kind of command, path, value, names and combine flag that is written, and applying it does to an element what overriding or removing by that path does.',
     IN, 'all texts (integers up to the digit limit of the interpreter)',
     'Tests parse a few dozen literal texts; containment and the round trip must hold for every text and every nesting, quoting and escaping.',
     ['marsh/parse.py'], [('string / terminal / element', 'marsh/parse.py'), ('sequence / mapping', 'marsh/parse.py'), ('override / config_names', 'marsh/parse.py')],
     'Every parser is proved: string, terminal and unbracketed elements equal a specification of the scanner (value and what is left of the source); sequence, mapping, element, config_names and override either give a result of the right kind or raise ParseError, and an override has the kind, path and combine flag of its text. '
     'The values of bracketed elements and error positions are covered by the bounded oracles.' + COMMON)

prop('C08', 'Primitives are converted only where nothing is lost, else rejected',
     'Unmarshaling a value as bool, int, float or str gives exactly the value that is written and is rejected otherwise: the text of an integer, or of a float without a fraction, gives exactly that integer; a float gives an int only if it has no fraction and is finite; the words 1/true/y/yes/on and 0/false/n/no/off in any case, and the numbers 0 and 1, give a bool and nothing else does; '
     'a number that is too large for a float is rejected; anything but a bool, int, float or str is rejected. A rejection is a ValueError of the conversion and an UnmarshalError of the schema, never another exception. '
     'A literal type gives the first of its literals that the value, converted to the type of the literal, equals (with the type of that literal); a subclass of int, float or str (such as an IntEnum) gives its own instance for that value or rejects it; an enum gives the member whose name the value is, or else the first member whose value it is; None is given by None (for the conversion also by null and none in any case) and the missing value only.',
     IN, 'all values, in particular all texts, integers (up to the digit limit of the interpreter) and floats',
     'Tests convert a few literal values; exactness and rejection must hold for every number and text (for example integers above 2**53, infinities, texts of floats).',
     ['marsh/utils.py', 'marsh/schema/types/primitive.py', 'marsh/schema/types/literal.py', 'marsh/schema/types/enum.py', 'marsh/schema/types/none.py'],
     [('cast_primitive / cast_literal / cast_none', 'marsh/utils.py'), ('_PrimitiveUnmarshalSchema.unmarshal', 'marsh/schema/types/primitive.py')],
     'The casts and the primitive and None schemas are proved against a specification (the parsing of texts as numbers by int() and float() is an axiom).' + COMMON)

prop('C09', 'A rejected element raises a marsh error naming the place in the input',
     'Unmarshaling any element as any supported type either gives a value or raises a MarshError (MissingValueError when the culprit is a missing value without a default), never another exception, as long as no constructor or hook of the user raises one. '
     'The path of the error consists of exactly the fields (keys, indices, names of parameters) that lead from the whole input to the value that could not be unmarshaled, with special characters escaped, so that selecting that path in the input gives the culprit; an error about the whole input has an empty path.',
     IN, 'all types built from primitives, literals, enums, unions, sequences, mappings, tuples, dataclasses, named tuples, typed dicts and functions, at any depth, and all elements',
     'Tests check the error of a few types at depth one; containment and the exact path must hold for every nesting, every key and every culprit.',
     ['marsh/schema/_functional.py', 'marsh/schema/template/sequence.py', 'marsh/schema/template/mapping.py', 'marsh/schema/template/structured.py', 'marsh/schema/template/union.py', 'marsh/errors.py'],
     [('SequenceUnmarshalSchema.unmarshal', 'marsh/schema/template/sequence.py'), ('MappingUnmarshalSchema.unmarshal', 'marsh/schema/template/mapping.py'), ('prepend', 'marsh/errors.py')],
     'The exception behaviour and error paths of the sequence, mapping, union, structured, primitive, None and Any schemas are proved, for arbitrary nested schemas that satisfy the same contract.' + COMMON)

prop('C10', 'Sequences and mappings are unmarshaled item by item',
     'Unmarshaling a sequence or mapping type passes every item, key and value of the element to the schema of items, keys or values exactly once and in order, and gives a container of the requested type that holds exactly the results, in the same order (a tuple for a Sequence, a mapping proxy for a Mapping; a set or a dict loses only equal items or keys). '
     'An element that is not a sequence (or not a mapping), such as text, is rejected; a missing element without a default gives the empty container. The entry of an absent key of a DefaultDict is what its type of values makes of the missing value, or else of 0, empty text or None (None for Any).',
     IN, 'all elements and item types', 'Tests unmarshal a few literal lists and dicts; no item may be lost, duplicated, reordered or converted by the wrong schema for any length and nesting.',
     ['marsh/schema/template/sequence.py', 'marsh/schema/template/mapping.py', 'marsh/schema/types/sequence.py', 'marsh/schema/types/mapping.py', 'marsh/schema/types/set.py', 'marsh/schema/types/defaultdict.py'],
     [('SequenceUnmarshalSchema.unmarshal', 'marsh/schema/template/sequence.py'), ('MappingUnmarshalSchema.unmarshal', 'marsh/schema/template/mapping.py')],
     'Both templates are proved for arbitrary item schemas and constructors; so are how the schemas of items, keys and values are found (inspect_*_type and the __init__ methods), what a DefaultDict makes for an absent key, and the choice of the container that is made.' + COMMON)

prop('C11', 'Every parameter of a structured type gets its own entry or item',
     'Unmarshaling a dataclass, named tuple, typed dict, tuple or function passes to its constructor, for every parameter, the unmarshaled entry of the same name (from a mapping) or the item at its position (from a sequence); *args gets the remaining items in order and **kwargs the remaining entries. '
     'A parameter that is not given gets its default, or is unmarshaled as a missing value; names that are not parameters and surplus items are rejected; nothing is bound twice, dropped, or bound to another parameter, and keyword-only parameters are never bound by position. '
     'unmarshal_args gives the arguments with which a call does the same, and arguments passed along by the caller are used exactly where the element gives none.',
     IN, 'all signatures (positional-only, keyword-only, variadic, defaults, init variables) and all elements',
     'Tests use a few signatures; the binding must be right for every combination of parameter kinds and every way of giving some of them.',
     ['marsh/schema/template/structured.py', 'marsh/schema/template/callable.py', 'marsh/schema/argument.py', 'marsh/schema/types/dataclass.py', 'marsh/schema/types/namedtuple.py', 'marsh/schema/types/typeddict.py', 'marsh/schema/types/tuple.py'],
     [('StructuredUnmarshalSchema.unmarshal', 'marsh/schema/template/structured.py'), ('ArgumentsUnmarshalSchema', 'marsh/schema/argument.py')],
     'The binding done by StructuredUnmarshalSchema.unmarshal is proved for all parameters, elements, defaults passed along and nested schemas (an unknown constructor receives exactly the specified arguments); the set-up of callables, tuples, named tuples, typed dicts and dataclasses (parameters, their order, kinds, types and defaults) is proved from what inspect, dataclasses and typing give, which is trusted and covered by the bounded oracles.' + COMMON)

prop('C12', 'A union gives the first of its types that accepts the element',
     'Unmarshaling a union asks its types in the order they are written and gives the result of the first one that accepts the element; it is rejected only if every type rejects it, and a type that would accept the element is never passed over, whatever the types before it raise. '
     'An Optional gives None for None or a missing element that the other type does not accept, and otherwise gives, or fails as, the other type does. Unions that differ in the order of their types are told apart, whichever was used first. A union written with the | operator is one like any other.',
     'inputs histories', 'all unions, all elements and all orders of uses', 'Tests use a few unions; the order must decide for every combination of types that overlap (bool, int, float, str, literals, containers).',
     ['marsh/schema/template/union.py', 'marsh/schema/types/union.py', 'marsh/schema/_functional.py'], [('UnionUnmarshalSchema.unmarshal', 'marsh/schema/template/union.py')],
     'The template is proved for arbitrary member schemas that give a result or raise any exception; so are which types are taken for unions (typing.Union and |) and literals, and the set-ups of unions, literals and enums.' + COMMON)

prop('C13', 'A default is used exactly when the value is missing',
     'A missing element (or an entry or item that is absent or is the missing value) is unmarshaled to its default, or to what its default factory makes, which is called anew every time; a value that is given is never replaced by a default, and a default is never unmarshaled, converted, copied or exchanged for the equal default of another parameter. '
     'Without a default a missing primitive, literal, enum or Any is rejected with an error that names its path (a MissingValueError for primitives, enums and Any), while a container becomes empty, an Optional becomes None unless its type accepts the missing value, and a structured type is built from the defaults of its own parameters.',
     'inputs histories', 'all types, defaults and elements', 'Tests use literal defaults of a few types; a default may be any object, including falsy ones and ones that equal others.',
     ['marsh/schema/core/unmarshal.py', 'marsh/schema/template', 'marsh/schema/types'], [('has_default / get_default', 'marsh/schema/core/unmarshal.py')],
     'has_default, get_default and the handling of a missing element by the sequence, mapping, union, structured, primitive and Any schemas are proved, and that the set-up of schemas hands the default (or the factory) to exactly the schema it is for.' + COMMON)

prop('C14', 'Unmarshaling and marshaling are pure and do not depend on earlier uses',
     'Unmarshaling and marshaling never modify the element or object they are given, whether they succeed or fail, and marshaling shares no mutable container with its input. What they give depends on the type and the element alone: the same again for every repetition, '
     'and unaffected by earlier uses of the library with other types, including types and defaults that are equal or nearly equal (Literal[1] and Literal[True], unions in another order, defaults 1 and True).',
     'inputs histories', 'all types and elements, and all sequences of uses', 'Caches shared across types only go wrong for particular histories; tests use each type once in a fresh process state.',
     ['marsh/schema/_functional.py', 'marsh/schema/core/base.py', 'marsh/schema/template', 'marsh/utils.py'], [('schema cache', 'marsh/schema/core'), ('cache', 'marsh/utils.py')],
     'The frame conditions (the element is not modified) of the sequence, mapping and union templates and of element.py are proved; so is that the choice of a schema leaves the cached selection as it was; independence of history as a whole is covered by the bounded oracles.' + COMMON)

prop('C15', 'Marshaling gives a plain element with exactly the data of the value',
     'Marshaling a value gives an element of nothing but None, plain bool, int, float and str (also for instances of their subclasses), dicts with text keys, and tuples: every item of a sequence or iterable in order, every entry of a mapping in order under the text of its key, every init field of a dataclass and every field of a namedtuple under its name, '
     'the name of an enum member, the base64 text of bytes, the ISO text of dates and times, the parts of complex numbers and slices. Nothing is dropped, added, reordered or marshaled twice, whatever protocol the containers are written against; a value for which there is no schema raises MarshalError. '
     'marsh.cast is unmarshaling of what marshaling gives, and keyword arguments of marsh.unmarshal are marshaled once and take precedence over the entries of the element.',
     IN, 'all values built from supported types', 'Tests marshal a few literal values; completeness and plainness must hold for every nesting, subclass and container type.',
     ['marsh/_functional.py', 'marsh/schema/types/generic.py', 'marsh/schema/types/primitive.py', 'marsh/schema/types/dataclass.py', 'marsh/schema/types/namedtuple.py', 'marsh/schema/types/enum.py', 'marsh/schema/types/bytes.py', 'marsh/schema/types/complex.py', 'marsh/schema/types/slice.py', 'marsh/schema/types/datetime.py'],
     [('GenericMapping/Sequence/IterableMarshalSchema', 'marsh/schema/types/generic.py'), ('DataclassMarshalSchema', 'marsh/schema/types/dataclass.py'), ('unmarshal / cast', 'marsh/_functional.py')],
     'The marshal methods of iterables, sequences, mappings, primitives, None, dataclasses, namedtuples, enums, bytes, slices and complex numbers, marsh.unmarshal (with keyword arguments) and marsh.cast are proved against recursive specifications in which marshaling a nested value is an unknown partial function; dates are covered by the bounded oracle.' + COMMON)

prop('C26', 'Unmarshaling what marshaling gives yields the same value',
     'For every value of a type whose values are determined by their data (primitives and their subclasses, enums, literals, bytes, complex numbers, slices, datetimes, sequences, sets, mappings with such keys, dataclasses, namedtuples, typed dicts and Optionals of those, in any nesting), marshaling the value and unmarshaling the result as that type gives an equal value of the same type.',
     IN, 'all values and types of the kinds listed (no Any, no unions but Optional, no functions; text that is the missing marker excluded)', 'Tests check a few pairs; the two directions are written separately and only agree if every special case agrees.',
     ['marsh/schema/types', 'marsh/utils.py'], [('marshal / unmarshal', 'marsh/_functional.py')],
     'Theorems C26_*: over the proved specifications of the two directions, primitives and enums (whatever the names and values of their members) survive the round trip, and sequences and mappings do if their parts do. Structured types, bytes, complex numbers, slices and datetimes are covered by bounded oracles.' + COMMON,
     theorems=['C26_bool', 'C26_int', 'C26_float', 'C26_str', 'C26_enum', 'C26_seq', 'C26_map'])

prop('C16', 'Prioritised items stay in an order that satisfies every stated priority',
     'An item that is added to a PriorityOrder is placed right behind the last item that it is stated to come after (by either of the two) or that has a greater number, among those in front of the first item it is stated to come before; among equals the newest comes first. '
     'The order of the items that are there already is kept, and nothing is lost or duplicated; two items that are each stated to come before the other are rejected with ValueError, as is an item that is there already, unless it is to replace it. '
     'Removing an item keeps the order of unrelated ones, and where items are related, as a reload does, files all items anew in the order in which they were created.',
     'histories', 'all sets of items and relations, and all orders in which they are added', 'Registration order and relations combine; the tests add a handful of schemas with few relations.',
     ['marsh/utils.py'], [('PriorityOrder', 'marsh/utils.py')],
     'get_relation, has_relation, both comparisons, find_index, add, reload and removal (by index) are proved for arbitrary entries; theorems C16_* prove that the insertion keeps the others in order and lies between the neighbours that are stated. Removal of slices is covered by the bounded oracle; values are told apart by their hash.' + COMMON,
     theorems=['C16_others_keep_order', 'C16_inserted', 'C16_before_lower', 'C16_behind_higher'])

prop('C18', 'SafeDict is an ordered dictionary, also for keys that cannot be hashed',
     'After any history of operations a SafeDict has exactly the entries of an ordered dictionary with the same history: get and deletion of a key that is not there raise KeyError, setting a key that is there replaces its value and keeps its place, and iteration, reversed iteration, length and containment cover hashable and unhashable keys in the order they were first set.',
     'histories', 'all histories and keys (a hashable and an unhashable key count as different even if equal)', 'Index bookkeeping over two containers goes wrong only after particular sequences of sets and deletions.',
     ['marsh/utils.py'], [('SafeDict', 'marsh/utils.py')],
     '__getitem__, __setitem__, __delitem__, __len__, __iter__, __reversed__ and _remove_order are proved against a specification over the two underlying containers and the order list; lemmas say that a new key goes to the end of the iteration, that the keys which stay keep their order when one is removed, and that the invariant of the order list is kept.' + COMMON, theorems=['C18_new_hashable', 'C18_new_unhashable', 'C18_removed', 'C18_removed_u', 'C18_dist_removed', 'C18_dist_new'])

prop('C19', 'A cache gives exactly what was stored or computed for an equal key',
     'A ValueCache gives for a key what was last stored for an equal key (of the same type if it is typed) and KeyError otherwise, whether the key can be hashed or not; it never confuses two keys that differ, counts every hit and miss, and gives and takes nothing while it is disabled. The hash keys that are made of arguments are equal only if the arguments are (and their types, if typed). '
     'A function decorated with marsh.utils.cache gives what the function gives for the arguments (or gave for equal ones since the cache was cleared), also for arguments that cannot be hashed, for every owner of a method with a weak binding, and while the cache is disabled; it raises what the function raises and remembers no failure. A cache pool does to each of its caches what it is told to do.',
     'histories', 'all histories of keys, calls, clears, disables and enables', 'A wrong cache key shows only if two particular keys are used in one process.',
     ['marsh/utils.py'], [('ValueCache, cache, CachePool, make_hash_key', 'marsh/utils.py')],
     'ValueCache (with make_hash_key, make_typed_hash_key and _make_key inlined) is proved: getting, setting, removing, counting, disabling. The decorator marsh.utils.cache is proved for every binding: what calls of the closure that it gives do, for all arguments, after any of a call, disabling and enabling, over an assumed contract of functools.lru_cache (which may give what the function gave at any earlier time for equal arguments); so are the pools, which make their caches with the options they are given.' + COMMON)

prop('C20', 'An iterable made from an iterator gives every item once per iteration',
     'Every iteration over an IterableFromIterator gives all items of the iterator, in order, each exactly once, however many iterations there are and however they are interleaved (with each other, nested, abandoned and resumed); the iterator is consumed only as far as an iteration has come, and its truth is that it has an item.',
     'schedules', 'all interleavings of any number of iterations', 'Interleaved generators over shared state; a test iterates twice in a row.',
     ['marsh/utils.py'], [('IterableFromIterator', 'marsh/utils.py')],
     '__iter__ is proved with arbitrary interference by other iterations at every yield (the rely condition: the cache only grows by what the iterator gives); __bool__ is proved to take at most one item, and to keep it.' + COMMON)

prop('C17', 'A type or value is handled by the first matching schema, in priority order',
     'The schema that handles a type or value is the first, in the order of priority (a greater priority first; of equal ones the one registered last), whose match accepts it; a match that raises TypeError does not accept. Wrapping schemas that match in front of it are put around it from the outside in, each once, and a type or value that nothing accepts is rejected with the error of the registry. '
     'A schema that is registered later takes effect for everything that is unmarshaled or marshaled from then on, also for types (and types that contain them) that were used before.',
     'inputs histories', 'all registries, types and values, and all histories of registrations and uses',
     'Selection is cached at several levels; a stale or misordered selection shows only for particular histories.',
     ['marsh/schema/core/base.py', 'marsh/schema/core/unmarshal.py', 'marsh/schema/core/marshal.py', 'marsh/schema/_functional.py'], [('SchemaRegistry.match / build', 'marsh/schema/core/base.py')],
     'SchemaRegistry.match is proved for arbitrary entries and match functions, build for arbitrary selections, and PriorityOrder.add for the order; theorems C17_* say what the proved specification selects. The effect of later registrations is covered by bounded oracles.' + COMMON,
     theorems=['C17_chain', 'C17_skip', 'C17_first'])

prop('C21', 'The name in an element picks the registered component of that name',
     'Where a namespace exists whose base is the type or a superclass of it, an element with a name is unmarshaled (without the name) as the component of that name that is a subclass of the type, the oldest namespace first, and as nothing else; an element without a name is unmarshaled as the type itself, an unknown name is rejected with an error, and so is registering a name twice unless it is to be replaced, or what is no subclass of the base. '
     'Marshaling an instance of a registered component adds its name, of the newest namespace that has it, and building by name passes all given arguments on. What is registered, replaced or deleted takes effect also for types that were used before.',
     'inputs histories', 'all namespaces, components, elements and histories', 'Namespaces depend on class hierarchies and on what was registered when; tests look at one namespace in a fresh state.',
     ['marsh/schema/namespace.py', 'marsh/schema/types/namespace.py'], [('Namespaces / Namespace', 'marsh/schema/namespace.py'), ('NamespaceUnmarshalSchema', 'marsh/schema/types/namespace.py')],
     'Lookup, registration, creation, deletion and building of namespaces and the marshal and unmarshal methods of the schema are proved for arbitrary registries.' + COMMON)

prop('C22', 'Configs are found by name, merged in order and written without loss',
     'Loading configs finds for every name the one file that it names (a path with an extension, which must be a supported one, is taken as it is; for any other the only file of that name, in any case of a supported extension, in its directory, relative to the root unless it is absolute; none or several are an error), merges the contents in the order given, resolves references if asked to and drops the meta data at the top unless it is to be kept. Nothing on disk is changed by loading. '
     'An element that is dumped or written as JSON or YAML loads again as the same element, also through text. A config format that is registered takes effect from then on.',
     'inputs histories', 'all directories, names, roots and elements (text keys), all registrations', 'Tests load a few files; name resolution depends on what else lies in the directory, and text that looks like another type must survive being written.',
     ['marsh/config.py'], [('find_config', 'marsh/config.py'), ('load', 'marsh/config.py'), ('write / ConfigSchema', 'marsh/config.py')],
     'has_ext, strip_ext, get_ext, config_type_is_supported, find_config, select_config, drop_meta, load and the reading and writing of JSON and YAML files are proved over an unknown file system; json, yaml and references (omegaconf) are trusted and covered by the bounded oracle.' + COMMON)

prop('C23', 'Annotations see the element and the value, each once and in order',
     'Unmarshaling as an annotated type calls every pre-annotation once, in the order written, each with what the one before gives (the first with the element), unmarshals the result as the type, and calls every annotation once, in order, each with what the one before gives (the first with the value); the last result is the result, wherever the type occurs (fields, items, parameters, other annotated types, types written as text). '
     'The first one that fails ends it: a Marsh error is passed on, any other exception becomes an UnmarshalError. Metadata that is no annotation is ignored; Positive, Negative, Unsigned and Populated reject exactly what they say and change nothing.',
     IN, 'all types, annotations and elements', 'Order and once-ness show only with several annotations that do not commute or that have effects, in nested and textual types.',
     ['marsh/schema/types/annotated.py', 'marsh/annotation.py'], [('AnnotatedUnmarshalSchema.unmarshal', 'marsh/schema/types/annotated.py'), ('Positive / Negative / Unsigned / Populated', 'marsh/annotation.py')],
     'AnnotatedUnmarshalSchema.unmarshal is proved for any annotations (unknown partial functions) and the annotations of marsh for all numbers and collections.' + COMMON)

prop('C25', 'The command line calls the function once with what it says, or not at all',
     'An entry point applies its overrides in order (values, config files, combinations, removals) to an empty config, resolves it, drops the meta data at the top, unmarshals it as the config type or the parameters of the function (what the caller passed counts as given), calls the function exactly once with the result in the output directory, and gives what it gives or raises. '
     'If anything before fails, the function is not called and the process exits with status 1 and a message; the working directory is afterwards what it was (unless the function changed it without an output directory), and a config that is written is exactly the one that is used.',
     'inputs faults', 'all command lines, config files, functions and failures', 'Failures at any stage and directories that must be restored are combinations that a test of single options does not reach.',
     ['marsh/entry_point.py', 'marsh/parse.py'], [('EntryPoint.__call__', 'marsh/entry_point.py'), ('EntryPoint.load_config', 'marsh/entry_point.py'), ('SetValue / SetConfig / DeleteValue', 'marsh/parse.py')],
     'EntryPoint.__call__ (with the directory change and error handling inlined), load_config and the overrides are proved over arbitrary failures of everything that is called; argparse and help texts are trusted.' + COMMON)
