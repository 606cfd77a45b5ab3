# -*- coding: utf-8 -*-
"""The properties, as data (see gen.py)."""
T = 'explicit-state bounded model checking of the real code: '
NOTE = 'Holds for every execution within the bounds written in the evidence file; nothing is claimed beyond them. Trusts the reference model in mc/checks and the enumeration in mc/core.py.'
TESTS = 'The tests run a handful of fixed examples, each on fresh objects; '
NOT_APPLICABLE = []
PROPS = [
 dict(id='C01', title='A scalar is converted to its type and satisfies its constraints, or is rejected',
  statement='Setting a value on a property of a scalar type (integer, number, boolean, string, enum, date, time, datetime, path, uri) or building such a type with it yields a value of that type equal to what the input denotes and satisfying every constraint of the schema (bounds, exclusive bounds, multipleOf, lengths, pattern, enum, const, allOf/anyOf/oneOf/not), or raises a conversion or invalid-value error. It is accepted if and only if the converted value satisfies all constraints, whatever other constraints accompany it, and serializing an accepted value and loading it back gives the same value.',
  over=['inputs', 'configurations'], forall='every scalar type x every combination of up to 2 (thorough: 3) constraints x every value of the input domain (native, textual, float, decimal, boundary and malformed values)',
  why=TESTS+'they check one or two values per type and never combine constraints or sit on their boundaries.',
  files=['ngoschema/types/numerics.py', 'ngoschema/types/boolean.py', 'ngoschema/types/strings.py', 'ngoschema/types/datetime.py', 'ngoschema/types/uri.py', 'ngoschema/types/type.py', 'ngoschema/managers/jsch_validators.py', 'ngoschema/protocols/type_protocol.py', 'ngoschema/protocols/validator.py'],
  mech=[('conversion', 'ngoschema/types/*.py convert/check'), ('constraints', 'ngoschema/managers/jsch_validators.py'), ('evaluate', 'ngoschema/protocols/type_protocol.py')],
  technique=T+'exhaustive product of types, constraint combinations and values against an independent evaluator', note=NOTE),
 dict(id='C02', title='An object behaves as a record: set, delete and read histories are never mixed up',
  statement='After any history of setting (by attribute or item), deleting and reading properties, items of nested objects and arrays, every property reads the last accepted value converted to its type, or its default when it was never set or was deleted. A rejected operation (wrong type, violated constraint, read-only, required deletion, unknown name) raises and leaves the whole object exactly as it was.',
  over=['histories', 'inputs'], forall='every sequence of up to 2-4 operations (depth per alphabet in the evidence) over properties of all kinds with accepted and rejected values, lazy and eager reading',
  why=TESTS+'they never follow a rejected or deleting operation by reads of the other properties, and histories are at most a couple of steps.',
  files=['ngoschema/protocols/object_protocol.py', 'ngoschema/protocols/collection_protocol.py', 'ngoschema/types/object.py'],
  mech=[('item and attribute access', 'ngoschema/protocols/object_protocol.py __setitem__/__delitem__/__getattr__/__setattr__'), ('lazy evaluation', 'ngoschema/protocols/collection_protocol.py'), ('descriptors', 'ngoschema/protocols/object_protocol.py PropertyDescriptor')],
  technique=T+'all operation sequences up to a depth on the implementation, compared step by step with a record model', note=NOTE),
 dict(id='C03', title='Aliases, negated aliases and translated names are views of one property',
  statement='Reading or setting a property through an alias, or through the attribute name its raw name translates to, is the same as doing so through its own name; through a negated alias it reads and sets the opposite number. After any history of sets through any of its names all the names of a property agree, and conversion, constraints and errors are those of the property.',
  over=['histories', 'inputs'], forall='every sequence of up to 2-3 operations over all names (item, attribute, constructor) of every property with accepted and rejected values',
  why=TESTS+'aliases are only read in them, after one set.',
  files=['ngoschema/protocols/object_protocol.py', 'ngoschema/types/object.py', 'ngoschema/managers/type_builder.py'],
  mech=[('aliases', 'ngoschema/protocols/object_protocol.py _aliases/_negated_aliases'), ('raw and translated names', 'ngoschema/protocols/object_protocol.py properties_translation')],
  technique=T+'all operation sequences over all names up to a depth, compared with a one-cell-per-property model', note=NOTE),
 dict(id='C04', title='Values computed from other properties are never stale',
  statement='A property whose value is a template or expression over other properties, or which has a getter and declared dependencies, always reads as the function of the current values of those properties, whatever the way the source reaches them (paths, computed indexes, loops, filters, comprehensions, methods, local names) and whether they are set or changed in place inside nested objects and arrays. This holds after any history of sets, deletions and reads of the properties it depends on directly, through nested objects and arrays elements, or through other computed properties, for objects loaded eagerly or lazily and for subclasses; the dependencies of a class are its own and those of all its bases.',
  over=['histories'], forall='every sequence of up to 2-3 operations (set, delete, read, nested set, replacement of expressions) over a graph of templates, expressions, chains and getters; 135 templates and expressions of every construct x 17 changes (thorough: pairs of changes) x eager/lazy; every sequence of up to 2 (3) of 18 changes in place of the collections getters and templates are computed from, and of up to 3 (4) sets and reads of getters whose dependencies 4 classes add to those of their bases',
  why=TESTS+'a stale cache appears only when a computed value was read before its (transitive) dependency changes; tests read once.',
  files=['ngoschema/protocols/object_protocol.py', 'ngoschema/protocols/collection_protocol.py', 'ngoschema/utils/jinja2.py', 'ngoschema/types/strings.py'],
  mech=[('dependencies', 'ngoschema/protocols/collection_protocol.py _touch/_dependencies'), ('variables of templates', 'ngoschema/utils/jinja2.py'), ('getters', 'ngoschema/protocols/object_protocol.py PropertyDescriptor')],
  technique=T+'all histories up to a depth, every computed property recomputed by a functional model after each', note=NOTE),
 dict(id='C05', title='A lazily loaded object is, once read, the object built eagerly',
  statement='Lazy loading (of the object, of nested objects or of arrays) only delays conversion and validation: in whatever order properties are read and whatever is set in between, each read gives the value an eagerly built object gives, and the final content, length, keys, equality and serialization are identical. A value an eager object rejects at construction is rejected by the lazy object at the latest when it is read.',
  over=['histories', 'configurations'], forall='every read order of all properties in every lazy/eager mode, and every operation sequence up to depth 2-3',
  why=TESTS+'lazy loading is exercised with one order of reads.',
  files=['ngoschema/protocols/collection_protocol.py', 'ngoschema/protocols/object_protocol.py', 'ngoschema/protocols/array_protocol.py', 'ngoschema/types/collection.py'],
  mech=[('lazy loading', 'ngoschema/protocols/collection_protocol.py _data/_data_validated')],
  technique=T+'differential exploration of lazy against eager objects over all read orders and operation sequences', note=NOTE),
 dict(id='C06', title='Default, required, read-only, pattern and additional property rules always hold',
  statement='Whatever combination of defaults, required, readOnly, patternProperties, additionalProperties and lazy loading a schema has: read-only properties never change after construction, required ones cannot be deleted, unset properties read their default (falsy ones too), properties matching a pattern or additional ones are converted and validated with their schema, and a name not allowed by additionalProperties is rejected. A rejected operation changes nothing.',
  over=['configurations', 'histories'], forall='every schema of the product of those rules (several hundreds) x every constructor content x every operation sequence up to depth 2',
  why=TESTS+'each rule is tested alone on one schema; interactions and histories are not.',
  files=['ngoschema/protocols/object_protocol.py', 'ngoschema/types/object.py'],
  mech=[('schema rules', 'ngoschema/protocols/object_protocol.py'), ('lookup of the type of an item', 'ngoschema/protocols/object_protocol.py _items_type')],
  technique=T+'all schema configurations x all short histories against a reference interpreter of the schema', note=NOTE),
 dict(id='C07', title='A typed array is a list of converted and valid items',
  statement='After any history of list operations (index and slice set, append, insert, extend, pop, remove, delete, reverse, clear, iteration) a typed array has the content of a python list undergoing the same operations on the converted items, each item being valid for the schema of its position. An operation with an invalid item (or breaking uniqueItems or minItems) raises and leaves the array as it was, the string form of an array splits back to the same array, and a scalar (0 included) given for an array of scalars is the array of this item.',
  over=['histories', 'configurations'], forall='every sequence of up to 2-3 operations over 9 kinds of arrays (integers, lazy, untyped, tuples, objects, nested, unique, minItems, string forms)',
  why=TESTS+'only append and index access are tested on one kind of array.',
  files=['ngoschema/types/array.py', 'ngoschema/protocols/array_protocol.py', 'ngoschema/protocols/collection_protocol.py'],
  mech=[('list operations', 'ngoschema/protocols/array_protocol.py'), ('item types and string form', 'ngoschema/types/array.py')],
  technique=T+'all operation sequences up to a depth against a list model', note=NOTE),
 dict(id='C08', title='A class extending others behaves as one class declaring the merged schema',
  statement='A class built by Python inheritance or by "extends" (also between documents definitions, in any order) behaves exactly as a class declaring the merged schema: union of the properties with the nearest definition winning, union of required, read-only, not-serialized, pattern properties, aliases and dependencies, and inherited or overridden getters and methods. Building a subclass never changes the behaviour of its bases.',
  over=['configurations', 'histories'], forall='every inheritance shape (chains of 2 and 3, two bases, diamond) x every assignment of a definition of a property to each class x every rule placed on each class x python/extends/document/reversed document x constructors and operation sequences',
  why=TESTS+'one or two fixed hierarchies are built.',
  files=['ngoschema/protocols/object_protocol.py', 'ngoschema/managers/type_builder.py', 'ngoschema/protocols/type_protocol.py'],
  mech=[('merge of the bases', 'ngoschema/protocols/object_protocol.py ObjectProtocol.build'), ('loading by id', 'ngoschema/managers/type_builder.py load')],
  technique=T+'all hierarchies of a bounded universe compared (differential, operation by operation) with the flat class of the merged schema', note=NOTE+' The flat class is itself decided by C02-C06. Diamonds in which the nearest definition depends on the linearization, and redefinitions below a getter, are left out.'),
 dict(id='C10', title='Serialization emits exactly the selected properties, and loads back the same',
  statement='Serializing an object (do_serialize, to_json and the like) emits the properties set, with a default or computed, encoded by their type, and none of those which are notSerialized, excluded, not in "only", read-only (no_readOnly) or at their default (no_defaults); the choice is made independently in every nested object and array element. Serializing never changes the object nor what a following serialization gives, and loading the result of a full serialization gives an equal object.',
  over=['inputs', 'configurations'], forall='every content of an object of 14 properties with up to 2 (thorough: 3) properties set to each of their values x every combination of options (only, excludes, no_defaults, no_readOnly) and every pair of consecutive serializations',
  why=TESTS+'serialization is tested with one content and hardly any options.',
  files=['ngoschema/protocols/object_protocol.py', 'ngoschema/protocols/collection_protocol.py', 'ngoschema/types/object.py', 'ngoschema/types/array.py', 'ngoschema/types/collection.py'],
  mech=[('selection of the properties', 'ngoschema/protocols/object_protocol.py serialize'), ('options of collections', 'ngoschema/types/collection.py'), ('encoding', 'ngoschema/types/*.py serialize')],
  technique=T+'exhaustive product of contents and options against an independent serializer, with round trips', note=NOTE),
 dict(id='C11', title='A dotted and indexed path reads and writes what its steps do one by one',
  statement='Reading or setting an item of an object by a path ("o.m[1].x", with aliases and translated names, negative indices, a leading dot, or an empty part for the owning object) is the same as following its steps one by one: it gives the same value, sets that element only (converted and validated by its own schema) and raises for a path that does not exist, leaving the object unchanged. A path through an unset element reads None.',
  over=['inputs', 'histories'], forall='every path of up to 3-4 steps over the names and indices of a nested schema, read and set with accepted and rejected values, and sequences of sets, deletions and reads',
  why=TESTS+'a couple of paths are read.',
  files=['ngoschema/protocols/object_protocol.py', 'ngoschema/protocols/array_protocol.py'],
  mech=[('paths', 'ngoschema/protocols/object_protocol.py __getitem__/__setitem__'), ('splitting', 'ngoschema/protocols/object_protocol.py split_cname')],
  technique=T+'all paths up to a length in all reachable states of a bounded history, against a nested-dictionary model', note=NOTE),
 dict(id='C14', title='Canonical names and ids designate each other in the known namespaces',
  statement='In a namespace manager, the canonical name of the id of a document, definition or property is the name of the most qualified namespace containing it (registered, current or known document) followed by the names of its ancestors, and the id of that canonical name is the id again, also for relative names and ids in the current namespace. This holds at any point of a history of added namespaces, changes of the current one, and registered, replaced or removed documents: answers never reflect a former state, nor a namespace whose name or uri is merely a textual prefix.',
  over=['histories', 'configurations'], forall='every history of up to 2-3 operations over 4 documents with common prefixes and 6 namespaces from 6-10 initial states, all ids and names queried; every set of up to 3 names of definitions and properties',
  why=TESTS+'one name of one document is resolved, by a fresh manager.',
  files=['ngoschema/managers/namespace_manager.py', 'ngoschema/resolvers/uri_resolver.py'],
  mech=[('names and ids', 'ngoschema/managers/namespace_manager.py get_id_cname/get_cname_id'), ('caches', 'ngoschema/managers/namespace_manager.py _get_id_cname/_get_cname_id'), ('current namespace', 'ngoschema/managers/namespace_manager.py set_current')],
  technique=T+'all histories of namespaces and documents up to a depth, against a functional model of the naming', note=NOTE+' Names of elements which are in no known document are guesses and not checked.'),
 dict(id='C15', title='A URI resolves to the element of the document registered under it now',
  statement='Resolving a URI with a fragment gives the very element of the document registered for it that the JSON pointer designates (special characters, percent encoding, array indices), or raises if there is no such document or element. After any history of registrations (by uri, with or without an empty fragment and whatever the case, or by loading a schema with its id or title), replacements and unregistrations, it is the document registered last which is used. Scoping a reference in a base gives the reference itself when absolute and the base document with its fragment otherwise.',
  over=['inputs', 'histories'], forall='every pointer to every element of documents nesting every pair of 14 special keys; every history of up to 3-5 registrations, replacements, removals and resolutions of 3 documents',
  why=TESTS+'they never resolve after a document was replaced or removed, nor with special characters.',
  files=['ngoschema/resolvers/uri_resolver.py', 'ngoschema/loaders/schemas.py', 'ngoschema/utils/utils.py'],
  mech=[('pointers', 'ngoschema/resolvers/uri_resolver.py resolve_fragment'), ('store', 'ngoschema/resolvers/uri_resolver.py register_doc/resolve_doc'), ('loading', 'ngoschema/loaders/schemas.py load_schema')],
  technique=T+'all pointers of a bounded set of documents and all histories of the store up to a depth, against a dictionary model', note=NOTE),
 dict(id='C17', title='Queries give the objects meeting their criteria, however often they are read',
  statement='A query yields, in order, exactly the objects meeting all (filter), none of, any of or not any of its criteria: attributes present, nested attributes compared with any operator (also negated, on sizes or indices, or named as an operator), a missing value never meeting a criterion. Ordering, reversing, distinct, union, intersection, difference and chained filters compose as on lists. Reading a query in any way, partially or several times, never changes its results, those of queries derived from it, nor the queried objects.',
  over=['inputs', 'histories'], forall='every criterion alone, every ordered pair, and every presence test, in the four modes, on dictionaries and objects; every sequence of up to 3-4 derivations and reads from 7 kinds of sources (lists, generators, queries)',
  why=TESTS+'no reliable test runs a query at all; the existing one reads each query once.',
  files=['ngoschema/query.py', 'ngoschema/utils/utils.py'],
  mech=[('criteria', 'ngoschema/query.py Filter/_apply_ops_test'), ('results', 'ngoschema/query.py Query.result_cache'), ('descendants', 'ngoschema/utils/utils.py get_descendant')],
  technique=T+'exhaustive criteria combinations and all derivation/read sequences up to a depth, against list semantics', note=NOTE),
 dict(id='C18', title='Contexts, key-insensitive mappings and registries are the mappings they document',
  statement='After any history, a context (or read-only chain map) gives for each key the value of its nearest map, iterates on each key once in that order, and finds its first or last map of a class, whether maps were prepended, appended, changed or inherited by a child context; children and parents do not affect each other. Case-insensitive and URI dictionaries identify keys up to case at all times, and a registry and its ancestors hold what was registered last and not unregistered.',
  over=['histories'], forall='every sequence of up to 3-5 operations on contexts built from 3-4 chains of maps, on key-insensitive mappings, and on three kinds of registries with shared parents',
  why=TESTS+'none of these containers is tested.',
  files=['ngoschema/utils/utils.py'],
  mech=[('contexts', 'ngoschema/utils/utils.py ReadOnlyChainMap/Context'), ('mappings', 'ngoschema/utils/utils.py _KeyModifierMapping'), ('registries', 'ngoschema/utils/utils.py Registry/WeakRegistry/GenericClassRegistry')],
  technique=T+'all operation sequences up to a depth against lists of dictionaries', note=NOTE),
 dict(id='C19', title='The utility algorithms compute what they document and keep their input',
  statement='Topological sort yields the levels of a dependency graph or fails on a cycle; mro is the C3 linearization; brackets are matched, nested and delimited exactly; collections are gone through (deleting on the fly), filtered and flattened completely, at every depth; descendants follow paths of keys and indices; strings are split on any set of delimiters and replaced simultaneously; a casted instance always gets its class back. None of them changes its input.',
  over=['inputs'], forall='all graphs of up to 4 nodes, all hierarchies of up to 4-5 classes, all bracket strings up to 8-9 characters, all nested collections of depth 2-3 and width 2, all pairs of delimiters, all sets of 2-3 replacements',
  why=TESTS+'one example of two of these functions is tested.',
  files=['ngoschema/utils/utils.py', 'ngoschema/utils/str_utils.py'],
  mech=[('algorithms', 'ngoschema/utils/utils.py'), ('strings', 'ngoschema/utils/str_utils.py')],
  technique=T+'exhaustive enumeration of all inputs up to a size against independent definitions', note=NOTE),
 dict(id='C21', title='XML documents are parsed, emitted and streamed without loss or change',
  statement='Parsing XML (xmltodict) gives, for every element, its attributes, its text and its children, repeated ones as a list, in document order, with the options of the call (prefixes, forced lists or texts, namespaces, comments, post-processing) and whatever the way the source is given or cut; no text is lost, even long or mixed with elements (text before the first child, then the end). Entities are not expanded unless asked for. Emitting a parsed document gives an equivalent document, which parses to an equal value, for every layout option. Streaming calls back once per item of the depth, in order, with its own content, and stops when asked to.',
  over=['inputs', 'configurations'], forall='all trees of up to 4-5 elements over 2-3 names, texts and attributes x parsing and emitting options x sources; all texts around multiples of the buffer of the parser; all comments/entities/namespace placements listed in the evidence',
  why=TESTS+'XML is not tested at all.',
  files=['ngoschema/utils/xmltodict.py'],
  mech=[('parsing', 'ngoschema/utils/xmltodict.py parse'), ('emitting', 'ngoschema/utils/xmltodict.py unparse')],
  technique=T+'every document up to a size, parsed by another parser as the oracle', note=NOTE),
 dict(id='C25', title='Decorated functions are the function on converted, checked, listed arguments',
  statement='take_arrays applies a function or method to every element of a list given as its argument (paired with the elements of a second list of the same size, or with its only element), and fails on different sizes; assert_arg converts and validates exactly the named or numbered argument of functions, methods, class and static methods, however it is passed, and the function is never called with an invalid one; assert_prop fails when a property is not set, zero and empty values being set. A memoized property or method is evaluated once per instance, per definition and per arguments, whatever other instances, copies, subclasses and resets do. Logging decorators change neither results nor exceptions; a class property reads and writes the class. In any stack these behave as their composition.',
  over=['inputs', 'histories', 'configurations'], forall='all pairs of 14 argument values x 6 configurations; 6 schemas x 5 kinds of callables x 12 values x 5 ways of passing; all sequences of up to 5-6 reads, resets and copies; all stacks of up to 3-4 of 7 decorators',
  why=TESTS+'only two decorators are tested, on one call each.',
  files=['ngoschema/decorators.py'],
  mech=[('decorators', 'ngoschema/decorators.py')],
  technique=T+'exhaustive product of decorators, callables, arguments and call histories against their composition', note=NOTE),
 dict(id='C26', title='Instances follow changes: canonical names, parents, keys, computed values',
  statement='In a tree of named instances, the canonical name of each is at any time the dotted chain of the names of the instances enclosing it (plain objects in between being skipped), whatever was renamed, replaced, inserted or removed and whatever was read before; its parent, parent instance, root and string are consistent with it, and every instance can be represented. The identity keys of an entity are the current values of its primary keys (those its class declares, or else those of its bases, in order, each once); they cannot be set, and serialization by identity keys, by entity keys or with added keys gives those for each entity, in objects and lists. A property computed by a getter declared to depend on others (depend_on_prop) is up to date after any change, through chains of such properties and in subclasses.',
  over=['histories', 'configurations'], forall='every sequence of up to 2-4 of 16 changes and 4 kinds of readings on a tree of 7 instances, eager and lazy; of up to 2-3 of 23 changes of entities of 11 classes (4 declared keys, 7 derived from one or two others) x 4 serializations; of up to 5-6 changes and readings of chained computed properties',
  why=TESTS+'instances are tested neither nested nor after a change.',
  files=['ngoschema/models/instances.py', 'ngoschema/contexts/instance_context.py', 'ngoschema/contexts/object_protocol_context.py', 'ngoschema/decorators.py', 'ngoschema/protocols/object_protocol.py'],
  mech=[('names', 'ngoschema/models/instances.py Instance'), ('keys', 'ngoschema/models/instances.py Entity'), ('parents', 'ngoschema/contexts/*.py set_context'), ('computed', 'ngoschema/protocols/object_protocol.py build/dependencies')],
  technique=T+'all operation sequences up to a depth against a plain tree', note=NOTE),
    dict(
        id='C16', title='Types referring to each other are what they say, whichever is loaded first',
        statement="Definitions referring to each other - by $ref alone, in properties, items, additionalProperties, patternProperties, with rules beside the reference, or by extends, in one document or several, cyclically or not - give the same types whichever is loaded first and whatever was used in between: every nested value is converted and checked by the definition it refers to and by the rules beside the reference, a default beside a reference applies, one id always gives one class, a definition which is only a reference is the class it refers to, and one which extends another is a subclass of it. A definition only made of itself (through references and extends) is refused. A failed construction leaves nothing behind: once the document is completed, its types load. The documents and schemas given are left as they were. A class behaves by its own schema, its bases and its extends, whatever classes of the same name were defined (or failed to be) before or after.",
        over=['inputs', 'histories', 'configurations'],
        forall='every pair of definitions with 15 kinds of links to each other or themselves, in one or two documents, and every chain of three; every pair completed after a failure; every sequence of up to 3-4 of 13 definitions of classes of the same name',
        why=TESTS+'they load a few fixed documents in one order; order, cycles, failures and names taken twice only show across several constructions.',
        files=['ngoschema/managers/type_builder.py', 'ngoschema/protocols/type_proxy.py', 'ngoschema/protocols/type_protocol.py', 'ngoschema/protocols/object_protocol.py', 'ngoschema/protocols/array_protocol.py', 'ngoschema/resolvers/uri_resolver.py'],
        mech=[('registry', 'ngoschema/managers/type_builder.py build/load'), ('references', 'ngoschema/protocols/type_proxy.py'), ('names', 'ngoschema/protocols/type_protocol.py SchemaMetaclass')],
        technique=T+'all graphs of definitions and loading histories within bounds, against an interpreter of the definitions', note=NOTE),
    dict(
        id='C12', title='Objects and arrays compare, hash and copy as the records and lists they hold',
        statement="Two objects are equal when, and only when, they have the same properties with equal values (defaults and computed values included), however each was built (from a mapping, keywords, texts, later assignments, lazily or not, in a subclass) and whatever was read or attempted on them before; an object is equal to a mapping of the same content, to nothing else. Instances are compared and hashed in this way too, whatever objects they belong to, their canonical names being part of their content. Two arrays of a class are equal when their items are. Inequality is the negation of equality, equality is symmetric, and equal objects have equal hashes, so that they are found in sets and lists. A copy is another object of the same class with the same content: setting, adding or deleting a property or item of either never changes the other; after a deep copy, neither does a change at any depth.",
        over=['inputs', 'histories', 'configurations'],
        forall='all pairs of 23 contents (35 with arrays) x 8 ways of building each, all pairs of 32 trees of instances x 6 ways, before and after readings; every history of up to 2-3 of 16 operations on two objects, on an object and its copies (3 ways of copying), on an array and its copies',
        why=TESTS+'none compares, hashes or copies two objects; differences show only for a way of building against another, or in a copy after an operation on the other.',
        files=['ngoschema/protocols/collection_protocol.py', 'ngoschema/protocols/object_protocol.py', 'ngoschema/protocols/array_protocol.py'],
        mech=[('objects', 'ngoschema/protocols/object_protocol.py __eq__/__hash__'), ('arrays', 'ngoschema/protocols/collection_protocol.py __eq__/__hash__'), ('copies', 'ngoschema/protocols/collection_protocol.py copy/__copy__')],
        technique=T+'all pairs of contents and all operation sequences up to a depth against plain dictionaries and lists', note=NOTE),
    dict(
        id='C13', title='Instances, types and classes keep to themselves: nothing leaks between them',
        statement="Nothing done to an instance (setting, deleting, changing nested objects and arrays, reading, serializing) is seen in another instance of its class or of a subclass, in those created later, nor in the data given to build it, even when they were built with the very same data or hold values from the same defaults. Types built with options, in any combination and order, each keep to their own options (constraints, items, properties, patterns, defaults), also once others were dropped, and leave the options and the values given to them as they were. A class behaves as when it is alone, whatever other classes, subclasses or property types were built around it.",
        over=['inputs', 'histories', 'configurations'],
        forall='every history of up to 2-3 of 17 operations on three instances, and 3-4 of 5-8 on two, eager and lazy, with data shared or not; every sequence of up to 2-3 of 25 types built together; types built after 1-3 (thorough: 20) others were dropped, repeatedly; every sequence of up to 2-3 of 24 definitions of classes',
        why=TESTS+'each uses one instance of one class; what leaks shows only in another one.',
        files=['ngoschema/protocols/object_protocol.py', 'ngoschema/protocols/array_protocol.py', 'ngoschema/protocols/type_protocol.py', 'ngoschema/types/object.py', 'ngoschema/types/array.py', 'ngoschema/types/collection.py', 'ngoschema/types/type.py'],
        mech=[('instances', 'ngoschema/protocols/collection_protocol.py __init__/_create'), ('types', 'ngoschema/types/*.py __init__'), ('classes', 'ngoschema/protocols/object_protocol.py build')],
        technique=T+'all histories up to a depth on several instances, types and classes together, against each of them alone', note=NOTE),
 dict(id='C09', title='Data naming its class by $schema gives an instance of it, anywhere, and back',
  statement='Wherever an object of a class is expected (alone, as a property, an array or tuple item, a pattern or an additional property), data whose $schema names a definition (absolute id, id relative to the expected class, or canonical name) gives an instance of that class, built once by its Python class when there is one, with its own conversion, defaults and rules; data without $schema gives the expected class. Serializing writes $schema first for exactly the objects whose class is not the expected one, so that loading back gives the same classes and values. Data naming an unknown class, or breaking the rules of the named one, is rejected and changes nothing; the data given is never modified and can be used again.',
  over=['inputs', 'histories'], forall='every way to name 8 classes of 3 documents x contents x nested contents x 6 places x ways of building and setting (eager, lazy, keywords, set, set over another class), and every sequence of up to 2 (thorough: 3) operations over three places',
  why=TESTS+'a single document with one $schema is loaded, and neither reused, serialized back nor placed in another position.',
  files=['ngoschema/protocols/object_protocol.py', 'ngoschema/managers/type_builder.py', 'ngoschema/resolvers/uri_resolver.py', 'ngoschema/types/uri.py', 'ngoschema/types/object.py'],
  mech=[('choice of the class', 'ngoschema/protocols/object_protocol.py __new__'), ('$schema in the serialization', 'ngoschema/protocols/object_protocol.py _serialize'), ('names', 'ngoschema/managers/type_builder.py load')],
  technique=T+'exhaustive product of class names, contents and places, and all operation sequences up to a depth, against a record model with classes', note=NOTE),
 dict(id='C20', title='An entity is designated by its keys: foreign keys, repositories, arrays',
  statement="An entity (a subclass of Entity whose schema declares primaryKeys) is designated by the values of its primary keys. (1) A foreign key property (type foreignKey with foreignSchema) of an object, of a nested object or of an array holds the converted key, or the tuple of converted keys when there are several: it takes them natively, as a text (comma separated when there are several; the text of a single key is the key, whatever it holds), as a list or tuple, or takes the entity or one of a subclass, eagerly or lazily; it serializes to the key or list of keys, which loads back the same; a key which does not convert and an object which is not such an entity are rejected and leave the property unchanged; None unsets it. (2) A MemoryRepository(instanceClass, many=True) holds the last entity committed under each key, in the order of the first commits; a missing integer key is given by the commit, one more than the greatest held (0 at first). (3) In a session the key of a class designates the entity of that key in the first bound repository of that class or of a subclass which has it: repository.resolve_fkey and query(**keys), session.resolve_fkey, the `<property>_ptr` of foreign keys of objects of this session give that very entity, and building the class from the key with session=, or an object referring to the class with the key in place of the entity, gives an entity of the same class and content; otherwise they raise; setting `<property>_ptr` to an entity sets its key. Without a session the default one is used. Serializing with use_identity_keys (use_entity_keys) writes the keys in place of the nested entities, and loading it in the session gives them back. (4) In an array of entities get(*keys, default=None, **values) gives the first entity with these keys and values, or the default, and identityKeys their keys, after any changes of the array and of the keys of its items.",
  over=['histories', 'inputs'], forall='every key of a domain x everything which designates it x 8 places x eager/lazy/set; every sequence of 2 (thorough 3) of 15 operations on 4 repositories of 2 sessions, all designations checked after each; every sequence of 3 (4) of 13 operations on arrays of entities',
  why='the tests of repositories and relationships cannot be imported here, and commit two entities; which of several repositories, sessions and subclasses answers depends on the history.',
  files=['ngoschema/types/foreign_key.py', 'ngoschema/models/instances.py', 'ngoschema/repositories/memory_repository.py', 'ngoschema/session.py', 'ngoschema/managers/relationship_builder.py', 'ngoschema/protocols/array_protocol.py'],
  mech=[('foreign keys', 'ngoschema/types/foreign_key.py'), ('keys and entities built from keys', 'ngoschema/models/instances.py Entity'), ('commits and lookups', 'ngoschema/repositories/memory_repository.py'), ('pointers', 'ngoschema/managers/relationship_builder.py')],
  technique=T+'all keys in all forms and places, and all histories of commits, bindings and assignments up to a depth against dictionaries of entities', note=NOTE),
 dict(id='C22', title='A symbol is the object its dotted name imports, and is written as such a name',
  statement="A property or array item (nested, pattern, additional) of type importable, module, function, class, callable or instance given a dotted name holds the very object Python finds under it: the builtin of that name, or the attributes (of modules, classes and nested classes, falsy values included) followed from the longest prefix which imports as a module, imported on demand. Given an object which is not a text it holds it as it is. The typed kinds reject what is not of the kind (a module, a plain function, a class, a callable) and names of nothing, which leaves the property unchanged; for importable and instance the text of a name which imports nothing is kept. Modules, classes (nested too) and functions are serialized as a dotted name which imports that same object, so that loading it back gives it. The name is resolved when the value is converted (when set, or when first read for lazily loaded objects), and the value is not affected by later changes of the modules.",
  over=['inputs', 'histories'], forall='every chain of 2 (thorough 3) members (modules, classes, functions, falsy values, aliases, absent) of a generated package, 43 names of the standard library and 15 objects x 6 kinds x 6 places x eager/lazy/set; every sequence of 3 (thorough 4) of 15 settings, readings and changes of the modules',
  why='the tests of symbols fail on this platform before any check, and import one name of each kind.',
  files=['ngoschema/types/symbols.py', 'ngoschema/utils/utils.py'],
  mech=[('names to objects', 'ngoschema/types/symbols.py Symbol._convert'), ('kinds', 'ngoschema/types/symbols.py check_symbol'), ('objects to names', 'ngoschema/types/symbols.py Symbol._serialize, ngoschema/utils/utils.py qualname')],
  technique=T+'all chains of members, kinds and places, and all histories of changes of modules up to a depth, against the import system of Python', note=NOTE),
 dict(id='C23', title='The text of an object or an array shows what it contains now',
  statement="Once its values are read, str() and repr() of an object, of its nested objects and of arrays show their current content after any history of changes, made directly or inside nested objects and arrays, whether texts were asked for before or not; they equal the texts of a new object of the same content. str gives {key: value, ...} and repr gives qualified name(key=value, ...) without the read only properties, arrays give [value, ...]. Keys come in the order of the object, those without value, or with the value of their default, are left out; every value is shown by its repr (the evaluated value, not its template), cut at 40 characters followed by '...'; at most 10 of them are shown, followed by the number of those which are not (+N...). The text of an entity is <qualified name keys>, with its current keys, wherever it is.",
  over=['inputs', 'histories'], forall='every sequence of up to 2 (thorough 3) of 33 changes, readings and texts (sets, nested sets, arrays changed in place, new and deleted keys) on eager, lazy and derived classes; texts of 0-45 characters, objects of 0-13 and arrays of 0-24 elements, all combinations of 7 optional properties with falsy and default values',
  why='no test compares a text; a stale or truncated text shows only after a change made inside the object, or at a limit of size.',
  files=['ngoschema/protocols/object_protocol.py', 'ngoschema/protocols/array_protocol.py', 'ngoschema/protocols/collection_protocol.py', 'ngoschema/utils/str_utils.py'],
  mech=[('texts of objects', 'ngoschema/protocols/object_protocol.py __str__, __repr__'), ('texts of arrays', 'ngoschema/protocols/array_protocol.py'), ('truncation', 'ngoschema/utils/str_utils.py shorten')],
  technique=T+'all histories of changes up to a depth and all sizes around the limits, against a formatter of plain data and against new objects', note=NOTE),
 dict(id='C24', title='Files of modules, templates and schema documents are found under their names',
  statement="After any history of registrations, a loader of files holds, for each module, the existing folders registered for it, each once, in order (registering returns the folder, and fails for a module which cannot be imported). A name starting by a registered module (with / or \\\\) gives the first of its folders having that file, or nothing; any other name is searched in the folders of all the modules in order. Templates named 'module/file' are those files, and can include, extend and import each other by such names. Loaded schema documents (given as such, from a file, or from the schemas of a module, broken files being skipped) are resolved by their id, up to case and a final '#', or else by their parameterized title, or by the name of their file; the last one loaded under a name is given, as well as in the store given by the caller, until it is unregistered; a fragment is a JSON pointer (escaped and percent encoded keys, indices) giving the very element of the document, and a pointer to nothing fails.",
  over=['histories', 'inputs'], forall='every sequence of up to 3 (thorough 4) of 10 registrations of generated packages (with subpackages, missing folders and modules), and of 14 loadings and unregistrations of documents; every document of nested keys (12, with separators, escapes, percents) and lists to depth 2 (3) with every pointer, in 3 encodings',
  why='the tests find one file of the package itself and load its own schemas; precedence of folders, forgotten and replaced documents and escaped pointers depend on the history and on the names.',
  files=['ngoschema/loaders/module.py', 'ngoschema/loaders/schemas.py', 'ngoschema/resolvers/uri_resolver.py', 'ngoschema/utils/jinja2.py'],
  mech=[('folders of modules', 'ngoschema/loaders/module.py GenericModuleFileLoader'), ('templates by module', 'ngoschema/utils/jinja2.py ModulePrefixedJinja2Environment'), ('documents', 'ngoschema/loaders/schemas.py, ngoschema/resolvers/uri_resolver.py UriResolver'), ('pointers', 'ngoschema/resolvers/uri_resolver.py resolve_fragment')],
  technique=T+'all histories of registrations and loadings up to a depth, and all pointers of all small documents, against dictionaries of folders and documents', note=NOTE),
 dict(id='C27', title='Validating data reports exactly the rules of its schema the data breaks',
  statement="Data of the type (integer, string, object or array) validated against a type or class (validate) is returned, unchanged, when it breaks no rule of its schema; otherwise an InvalidValue is raised whose message has a line `path: reason` for exactly the rules which are broken, each named by its path in the schema (minimum, allOf/1/pattern, properties/a/maximum, items/0/const, if/then/...), and no other; undeclared keys of a closed object, missing required keys and repeated items of an array with uniqueItems are reported first, by themselves. This holds for any combination of rules on numbers, texts, objects (sizes, required, names, patterns, additional, dependencies) and arrays (contains, uniqueness, items) and their nesting in allOf, anyOf, oneOf, not and if/then/else, and for the rules a class adds to those of its base. Rules given in excludes are left out and only these; check(value, validate=True) accepts the same data, evaluate() and the call of a type made of these rules report the same; nothing is changed in the data, the schema, or by what was validated before.",
  over=['inputs', 'configurations'], forall='every combination of up to 2 (thorough 3) of 28-36 rules per kind of type (with 10 nestings of several atoms) x every value of a domain (9 integers, 15 texts, 81 objects, 40 arrays) x every single rule excluded, and all pairs of rules of a base and of a class derived from it',
  why=TESTS+'a rule lost or reported wrongly shows only for the data breaking this rule in this combination.',
  files=['ngoschema/protocols/validator.py', 'ngoschema/managers/jsch_validators.py', 'ngoschema/managers/type_builder.py', 'ngoschema/types/object.py', 'ngoschema/types/collection.py'],
  mech=[('validators', 'ngoschema/managers/jsch_validators.py'), ('errors', 'ngoschema/protocols/validator.py _errors/_format_errors'), ('schemas of classes', 'ngoschema/protocols/object_protocol.py build')],
  technique=T+'exhaustive combinations of rules and values, against an independent evaluator of schemas giving the paths of broken rules', note=NOTE),
 dict(id='C28', title='Threads using their own objects, or reading a shared one, do not interfere',
  statement="Whatever the interleaving of threads: objects of one class created, set, read, rejected a value and serialized each by one thread give what they give without the other threads; an object (eager or lazy) read by several threads gives each of them its values, computed ones included, and stays up to date afterwards; a scoped session gives each thread one session of its own, different from those of the others and with its own repositories, until it is removed; a threadsafe counter gives every number once, in increasing order in each thread; queries, the resolution of documents and the registration of classes under different names by several threads give what they give alone. Defining classes, and changing a same object, from several threads is not claimed.",
  over=['schedules'], forall='every schedule of 2 threads with one preemption at any call or line of the package (2 for the shortest; for counters of 2 or 3 threads 1-2, thorough 2-3, preemptions at any bytecode) of 24 (thorough 83) workloads',
  why='no test starts a thread; a value kept at a place both threads reach only shows when one is preempted between two given lines.',
  files=['ngoschema/session.py', 'ngoschema/utils/utils.py', 'ngoschema/protocols/collection_protocol.py', 'ngoschema/protocols/object_protocol.py', 'ngoschema/query.py', 'ngoschema/resolvers/uri_resolver.py'],
  mech=[('sessions', 'ngoschema/session.py scoped_session'), ('counter', 'ngoschema/utils/utils.py threadsafe_counter'), ('lazy and computed values', 'ngoschema/protocols/collection_protocol.py'), ('documents', 'ngoschema/resolvers/uri_resolver.py')],
  technique='stateless model checking of the real code: all schedules of real threads up to a number of preemptions, under a controlled scheduler (one thread runs at a time, preempted at the chosen step), against each thread alone', note=NOTE+' Steps are calls, lines or bytecodes of this package: no preemption is explored inside Python or other libraries.'),
 dict(id='C29', title='A file holds what was written to it; file objects show their current path',
  statement="A FileSaver (text in its charset, or binary, either being overridden by the options of a call) writes exactly the bytes of the text in this charset, or the bytes given, in place of the former content or after it (append_file, an existing file only), creating missing directories, and touching no other file; a file which already holds exactly what is written is left alone. read_file, load_file and load give back what is held, newlines included; with many=True the comma separated elements, converted by the instanceClass. A File object reads its content (contentRaw, nothing when the file does not exist), its identity keys and its loads from the path it has now, whatever paths it had, and whatever other files were read, loaded or written through it (writing to a path makes it its path); so do the content, identifier and filename of a Document. The size, human readable size and sha1 of a FileInfo are those of the bytes of the file.",
  over=['histories', 'inputs', 'configurations'], forall='every sequence of up to 2 of 20-30 writes, appends, saves and reads by 3 kinds of savers with charsets and modes by call, of up to 3 (thorough 4) of 15 changes of path, writes and readings of text and binary files and of documents; sizes around the units and the blocks of the digest',
  why='no test writes a file; a stale content or a wrong encoding shows only on a second path or a second write.',
  files=['ngoschema/protocols/file_loader.py', 'ngoschema/protocols/loader.py', 'ngoschema/models/files.py', 'ngoschema/types/collection.py'],
  mech=[('savers', 'ngoschema/protocols/file_loader.py FileSaver'), ('file objects', 'ngoschema/models/files.py File'), ('dependencies', 'ngoschema/types/collection.py CollectionDeserializer.__init__')],
  technique=T+'all histories of writes, readings and changes of path up to a depth in scratch folders, against a dictionary of bytes', note=NOTE),
]
