"""What is claimed: the properties, their anchors, and the bounds of the checks (source of properties.jsonl and MANIFEST.json)."""
WHY = "The test suite that runs here covers the Python generator, the schema comparator, podio-vis and one stream operator; "
SE = "symbolic execution of the compiled code (LLVM IR) with Z3 over all inputs and histories within stated bounds"
SC = "symbolic execution of all interleavings (preemption bounded) with happens-before race detection and Z3"
P = []


def prop(id, title, statement, over, text, why, files, mech, bounds, note=None, observe=(), state=(), technique=SE, assumptions=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, bounds=bounds, note=note or bounds,
                  observe=list(observe), state=list(state), technique=technique, assumptions=list(assumptions)))


TEMPL = ["python/templates/Collection.cc.jinja2", "python/templates/CollectionData.cc.jinja2", "python/podio_gen/cpp_generator.py"]
DEPTH = " (first number: quick tier, second: thorough tier)"

prop("C01", "Stored data members come back bit for bit",
     "Whatever values the data members and vector members of any number of objects have when a collection is written, an object read back at the same position has exactly the same "
     "values, every vector member has the same length and order, and no object sees entries of another one. Writing does not disturb the collection in memory, and writing what was read stores the same again.",
     ["inputs", "histories"], "all member values, all lengths of every vector member, all ways of filling the collection, repeated writing",
     WHY + "values and lengths of several objects with every member kind are never combined, and no round trip is run without ROOT.",
     TEMPL + ["include/podio/CollectionBuffers.h", "src/CollectionBufferFactory.cc"],
     [("prepareForWrite / prepareAfterRead of the generated collection data", "python/templates/CollectionData.cc.jinja2"),
      ("begin/end offsets of vector members", "python/templates/macros/collections.jinja2"),
      ("lazy buffer creation", "python/templates/Collection.cc.jinja2")],
     "collections of 0..2|3 objects with one member of every kind (all integer widths, float, double, bool, arrays, nested components, arrays of components), and 0..2|3 objects with three vector "
     "members of 0..2|3 entries each; every value is a full-width symbolic variable (all bit patterns incl. NaN)" + DEPTH + ". Outside: more objects/entries, the byte format of the storage backend itself (ROOT/SIO), which is not built here.",
     observe=["read back objects", "raw write buffers"])

prop("C02", "Relations survive the round trip and point at the right object",
     "After writing and reading, every one-to-one and one-to-many relation of every object refers to exactly the object (same collection, same position) it referred to before, in the same order and number, "
     "also across collections, cycles and interface types. A relation to a collection that was not stored is reported as unavailable and never resolves to another object; a relation that was never set stays unset. "
     "An entry of a one-to-many relation that is not part of any collection is refused instead of being stored as something else.",
     ["inputs", "histories"], "all relation graphs over the stored collections, all orders in which the collections are stored and read, any single missing target collection",
     WHY + "relation graphs with cycles, missing collections and interface types are a product no sample covers.",
     TEMPL + ["include/podio/RelationRange.h", "include/podio/Frame.h", "python/templates/Obj.cc.jinja2"],
     [("setReferences resolves object IDs via the collection provider", "python/templates/macros/collections.jinja2"), ("prepareForWrite stores object IDs and begin/end", "python/templates/CollectionData.cc.jinja2"),
      ("relation accessors", "python/templates/macros/implementations.jinja2")],
     "two source objects, targets in three collections of two types (up to 3+2 objects), every one-to-one assignment incl. unset/self/cycle, one-to-many lists of up to 2 entries for each relation, vector members in between, interface relations to two "
     "types with 1-2 sources and up to 2 entries, one missing target collection, first collection accessed: derived|any, second round trip; payload values symbolic" + DEPTH + ". Outside: longer lists, more collections.",
     observe=["relations of objects read back", "isAvailable()"])

prop("C03", "Subset collections hold references only",
     "A subset collection contains exactly the picked objects in the order they were added, shares them with their owning collection, and after a round trip refers to the same objects of the same collections; "
     "objects whose collection is missing come back as unavailable. Elements enter only if they are owned by some collection, cannot be created in or owned by the subset, and mixing both kinds of content is refused without side effects. "
     "Destroying the subset or its owner in any order is safe.",
     ["inputs", "histories"], "all picks (with repetition) from several collections, all orders of storing, reading and destroying, every refused operation",
     WHY + "orders of access and destruction are not sampled at all.",
     TEMPL + ["include/podio/LinkCollection.h", "include/podio/detail/LinkCollectionImpl.h", "include/podio/UserDataCollection.h"],
     [("setSubsetCollection and push_back rules", "python/templates/Collection.cc.jinja2"), ("reference buffers of subset collections", "python/templates/CollectionData.cc.jinja2")],
     "up to 3 picks with repetition out of 3 objects in 2 collections, both storage orders, missing second collection, two round trips; subsets of objects with relations and of links; every push/create/setSubset rule for four collection types; four destruction orders. Outside: larger subsets; "
     "setSubsetCollection(true) followed by setSubsetCollection(false) on an empty collection (see DESIGN.md).",
     observe=["elements of the subset", "object IDs", "exceptions"])

prop("C04", "Collections behave as sequences of their elements",
     "Size, emptiness, indexed access, checked access, iteration in either direction and member-wise access of a collection always agree with the sequence of objects that were added: checked access throws exactly for indices outside, iterators satisfy "
     "the arithmetic and order laws of random access iterators, and the values of one member across all elements come back in order and number. Clearing empties a collection for re-use, and moving it transfers everything.",
     ["inputs", "histories"], "all sizes and indices, all pairs of iterators and offsets, clearing and refilling, moving before or after being filled",
     WHY + "boundary indices and iterator arithmetic are sampled by ostream tests only.",
     TEMPL + ["python/templates/macros/iterator.jinja2", "python/templates/Collection.h.jinja2", "include/podio/LinkCollection.h"],
     [("operator[], at, iterators", "python/templates/macros/iterator.jinja2"), ("clear and move", "python/templates/CollectionData.cc.jinja2")],
     "sizes 0..3|5, symbolic 64 bit index, iterator pairs with symbolic 8 bit offset restricted to the valid range, four collection types; clear/refill with up to 2+2 elements before/after preparing for writing; move construction and assignment with up to 2 elements" + DEPTH + ".",
     observe=["elements", "exceptions"])

prop("C05", "Every object has one stable identity in its collection",
     "The object at position i of a collection always has index i and the ID of that collection, at every moment, no matter in which order objects are created in place or added and when the ID is assigned or the collection is prepared for writing. "
     "An object belongs to at most one collection: adding it to a second one is refused and leaves both unchanged. Values given on creation are the ones stored.",
     ["histories"], "all histories of creating, adding, refused adding, assigning IDs (any value), and preparing for writing",
     WHY + "histories of operations are not explored.",
     TEMPL + ["include/podio/ObjectID.h", "include/podio/LinkCollection.h"],
     [("object IDs set on create/push_back/setID", "python/templates/Collection.cc.jinja2")],
     "all histories of 4|5 operations out of 6 for four collection types (plain, relations, vector members + relations, links) with symbolic IDs" + DEPTH + "; adding after prepareForWrite is excluded (documented as not supported, see DESIGN.md).",
     observe=["getObjectID()/id()", "exceptions"])

prop("C06", "Handles share their object, clones do not",
     "Copies of a handle, mutable or not, show every change made through any of them; rebinding one handle affects no other. A clone has equal member values (and relations exactly when asked for) and is from then on independent of its original: neither changes when the other does, "
     "it belongs to no collection, and it can be stored.",
     ["inputs", "histories"], "all member values, all sources of a clone (mutable, immutable, read from storage), with and without relations",
     WHY + "clones of objects with relations that were read back are not exercised.",
     ["python/templates/Object.cc.jinja2", "python/templates/MutableObject.cc.jinja2", "python/templates/Obj.cc.jinja2", "include/podio/utilities/MaybeSharedPtr.h", "include/podio/detail/Link.h"],
     [("clone", "python/templates/MutableObject.cc.jinja2"), ("shared pointer semantics", "include/podio/utilities/MaybeSharedPtr.h")],
     "four datatypes for handles; clones of objects with up to 2 vector entries and 2 relation targets, 1-2 objects in the source collection, three kinds of source.",
     observe=["member values of both objects"])

prop("C07", "Objects live exactly as long as they are needed",
     "However handles, copies, clones, collections, frames and read buffers are created, moved, combined and dropped, an object stays readable as long as a handle (for untracked objects) or its collection exists, is released exactly once, and nothing is leaked or used after release.",
     ["histories"], "all histories of creating, copying, moving, adding to a collection and dropping, all orders of destruction",
     WHY + "no test runs under a leak checker here and histories are not explored.",
     ["include/podio/utilities/MaybeSharedPtr.h", "python/templates/CollectionData.cc.jinja2", "python/templates/Obj.cc.jinja2", "include/podio/CollectionBuffers.h", "include/podio/Frame.h"],
     [("reference counting with ownership release", "include/podio/utilities/MaybeSharedPtr.h"), ("releasing buffers and objects", "python/templates/CollectionData.cc.jinja2")],
     "all histories of 4|5 operations out of 9 over 2 handles per kind for four datatypes; relations to untracked objects; frames with 6 collections dropped/moved after touching any two. Every memory access and every free is checked, and the heap must be empty at the end" + DEPTH + ". Cyclic relations between untracked objects excluded.",
     observe=["memory accesses", "live heap blocks"])

prop("C08", "Accessors change and return exactly the member they name",
     "Setting a member, one element of an array member, or an exposed member of a component changes exactly that and nothing else of the object or its neighbours, and every accessor of the object (whole, element, exposed member, mutable reference, read-only view) returns the current value. "
     "Constructor arguments and declared default values end up in the members they belong to. Indices outside of arrays, relations and vector members are refused. Relations and vector members return what was added, in order, through every accessor. All of this holds for members, types and interfaces taken from an upstream model.",
     ["inputs", "histories"], "all values, all indices, all orders of setting and adding, all member kinds, models with and without get/set prefix, subfolder and upstream model",
     WHY + "accessors are used with few fixed values, and never with the generator options combined.",
     ["python/templates/macros/implementations.jinja2", "python/templates/macros/declarations.jinja2", "python/templates/Object.h.jinja2", "python/templates/MutableObject.h.jinja2", "python/podio_gen/cpp_generator.py", "python/podio_gen/generator_utils.py", "include/podio/RelationRange.h"],
     [("getters and setters", "python/templates/macros/implementations.jinja2"), ("default values", "python/templates/Data.h.jinja2"), ("names of accessors", "python/podio_gen/generator_utils.py"), ("upstream types", "python/podio_gen/cpp_generator.py")],
     "an object with 14 members of all kinds holding arbitrary values, one|two changes out of 33 kinds (symbolic value and index); histories of 2|3 relation/vector member changes out of 8 kinds on empty and filled objects; three ways of construction; an extension model with 12 kinds of changes (2|3 in a row) and its round trip with 1..2 objects and up to "
     "1|2 entries per relation" + DEPTH + ". Four combinations of the generator options are encoded.",
     observe=["all accessors"])

prop("C09", "Links survive the round trip",
     "Every link read back connects the same two objects with the same weight as when it was written, also when ends are of interface type, live in different collections, or are members of a subset. Ends that were not set or whose collection is missing come back as unavailable, never as another object, "
     "and access by position, by type or by name always returns the same ends.",
     ["inputs", "histories"], "all connections, all weights, missing collections, subset collections, repeated round trips",
     WHY + "no link collection is written or read by any test that runs.",
     ["include/podio/LinkCollection.h", "include/podio/detail/LinkCollectionImpl.h", "include/podio/detail/LinkCollectionData.h", "include/podio/detail/LinkObj.h", "include/podio/detail/Link.h"],
     [("setReferences / prepareForWrite of link collections", "include/podio/detail/LinkCollectionData.h"), ("get/set by type and index", "include/podio/detail/Link.h")],
     "0..2|3 links between 2+2 objects (unset ends included), symbolic weights (all float bit patterns), one missing collection, two round trips; 1..2 links to an interface with 5 targets in 3 collections; subset of up to 2 links out of 3; API of a single link incl. clones" + DEPTH + ".",
     observe=["from, to and weight of links read back"])

prop("C10", "Link navigation finds exactly the linked objects",
     "Looking up an object returns exactly the objects linked with it in the requested direction, one entry per link with that link's weight, in no particular order; objects without links give nothing. This holds for links between objects of the same type, where only the direction "
     "distinguishes the ends, for interface types, and for links that were read back.",
     ["inputs"], "all link multigraphs and weights, all lookups in both directions",
     WHY + "the navigator is not used by any test that runs.",
     ["include/podio/LinkNavigator.h"],
     [("lookup maps from both ends", "include/podio/LinkNavigator.h")],
     "0..3|4 links between 2 and 2 objects (repetition and one unset end included), 0..2 links among 3 objects of one type, 0..2|3 links to interface values in memory and read back; symbolic weights" + DEPTH + ". The bucket order of the hash maps is that of concrete pointers.",
     observe=["results of getLinked"])

prop("C11", "User data collections are faithful number vectors",
     "A collection of plain numbers behaves like the vector of the values put in, for every supported element type: size, access, resizing, appending, moving, creating from a vector, printing-independent content and the round trip through storage all preserve number, order and bits of the values.",
     ["inputs", "histories"], "all values of all element types, all short programs over the collection",
     WHY + "only printing is tested.",
     ["include/podio/UserDataCollection.h", "src/UserDataCollection.cc"],
     [("buffers alias the vector", "include/podio/UserDataCollection.h")],
     "0..3|4 elements of each of the ten element types with fully symbolic values, six ways of filling, with/without move and early buffer access, two round trips; all programs of 4|5 operations out of 7 for one type" + DEPTH + ".",
     observe=["elements", "buffers"])

prop("C12", "Equality, order and hash of handles are consistent",
     "Two handles are equal exactly if they refer to the same object, whether mutable or not; the order of handles is a strict weak order whose equivalence is that equality, and equal handles and equal object IDs have equal hashes. Object IDs compare member by member.",
     ["inputs"], "all triples of handles (same, different, mutable, immutable, unset), all pairs of object IDs",
     WHY + "ordering laws need all pairs and triples.",
     ["python/templates/Object.h.jinja2", "python/templates/MutableObject.h.jinja2", "include/podio/ObjectID.h", "include/podio/detail/Link.h", "include/podio/utilities/MaybeSharedPtr.h"],
     [("operator==, operator<, std::hash", "python/templates/macros/declarations.jinja2")],
     "all triples out of 9 handles of 3 objects for a datatype and for links (third handle restricted to 3 in the quick tier); fully symbolic pairs of object IDs.",
     observe=["results of comparisons"])

prop("C13", "Interface values stand for exactly one concrete object",
     "A value of interface type made from a handle of any of its types reports exactly that type, gives back an equal handle only for that type and refuses all others, forwards every member access to the object and is equal to another value exactly if both hold the same object of the same type. "
     "Copying, assigning, ordering, hashing and dropping interface values is safe and consistent.",
     ["inputs", "histories"], "all concrete types, mutable and immutable sources, all copies and pairs/triples of values",
     WHY + "interface values are not used in any test that runs.",
     ["python/templates/Interface.h.jinja2", "python/podio_gen/cpp_generator.py"],
     [("type erased model", "python/templates/Interface.h.jinja2")],
     "an interface over two datatypes with two objects each, all triples, four ways of copying, symbolic member values; order and equality of unset values of different types excluded (see DESIGN.md).",
     observe=["isA/as/operator==", "member access"])

prop("C14", "A frame maps each name to one collection, once",
     "Putting a collection into a frame under a free name makes that collection available under that name, unchanged and with an ID of its own; a name in use, including one only present in data that was read and not yet unpacked, is refused and the frame stays as it is. "
     "Asking for a name that is not there gives nothing, the list of names is exactly what was put or read, and moving a frame moves its whole content.",
     ["histories", "inputs"], "all histories of puts and gets over several names and collection kinds, on new frames and on frames made from data that was read",
     WHY + "no frame test runs here.",
     ["include/podio/Frame.h", "src/CollectionIDTable.cc", "include/podio/FrameCategories.h"],
     [("put under lock with name check", "include/podio/Frame.h"), ("ID table", "src/CollectionIDTable.cc")],
     "all histories of 3|4 puts over 3 names and 3 kinds (by value and by pointer) with the whole state compared after each; frames read from 7 collections: clash and re-use for each name before/after any read, two kinds of frame data" + DEPTH + ". The hash of names is that of the concrete names.",
     observe=["get/getName/getAvailableCollections/getCollectionForWrite"])

prop("C15", "Reading a frame lazily is invisible",
     "In whatever order and however often the collections of a frame that was read are requested, for reading or for writing, each has the same content and the same relations as the frame that was written, and writing the frame again stores the complete content.",
     ["histories"], "all access histories, all kinds of frame data, moving the frame in between, second generation",
     WHY + "lazy unpacking orders are not explored.",
     ["include/podio/Frame.h", "include/podio/ROOTFrameData.h", "src/ROOTFrameData.cc", "include/podio/CollectionBuffers.h"],
     [("unpack on first access, resolve references recursively", "include/podio/Frame.h"), ("hand-out of raw buffers", "src/ROOTFrameData.cc")],
     "one frame of 7 collections (cyclic relations, subset, user data, links) with symbolic values; all histories of 3|4 accesses (reading or for writing), then everything compared; 2|3 accesses, optional move and a second generation in an order given by its first element" + DEPTH + ".",
     observe=["collections of the frame", "raw buffers of the second generation"])

prop("C16", "A frame can be used by several threads at once",
     "Threads that concurrently get collections (unpacking them lazily), put new ones, and ask for names and IDs on the same frame never race on memory, never deadlock, and each sees complete collections: a get returns either nothing or the fully connected collection, always the same one, and of several puts under one name exactly one wins.",
     ["schedules"], "all interleavings of two threads at synchronisation points, all combinations of operations",
     WHY + "the threaded frame tests are not part of it, and would sample a handful of schedules.",
     ["include/podio/Frame.h", "src/CollectionIDTable.cc", "include/podio/GenericParameters.h"],
     [("collection map mutex, frame data mutex", "include/podio/Frame.h"), ("ID table mutex", "src/CollectionIDTable.cc")],
     "2 threads with one or two operations each on a frame with 5 collections, all interleavings with at most 2-3 preemptions at lock, unlock and atomic operations; data races by happens-before on every memory access of every explored execution. Outside: more threads or preemptions; weak memory effects of race free code (all atomics are taken as sequentially consistent).",
     technique=SC, observe=["returned collections", "happens-before order of accesses"])

prop("C17", "Frame parameters are a typed map",
     "A parameter that was set under a name and type is returned with exactly its values in order until it is set again; the four value types never interfere; names and values may be any strings; what is not there is reported as absent. Listing names, storing, reading back and moving a frame preserve exactly this content.",
     ["inputs", "histories"], "all values, all names, all histories of setting, overwriting and reading for each type",
     WHY + "parameters are untested in what runs here.",
     ["include/podio/GenericParameters.h", "src/GenericParameters.cc", "include/podio/Frame.h"],
     [("one map per type", "include/podio/GenericParameters.h")],
     "all histories of 2|3 operations out of 9 over two names, vectors of up to 2 values, all bit patterns; names of up to 2 arbitrary characters; strings with an arbitrary character in short and long forms; round trip through a frame" + DEPTH + ".",
     observe=["get/getKeys/getParameter"])

prop("C18", "Parameters, ID tables and handles are thread safe",
     "Concurrent use of the same parameters, of the same collection ID table, and of handles to the same object from several threads never races or deadlocks and has the effect of some sequential order; an object whose last handles are dropped concurrently is released exactly once.",
     ["schedules"], "all interleavings of two threads, all pairs of operations",
     WHY + "no concurrent test runs.",
     ["include/podio/GenericParameters.h", "src/GenericParameters.cc", "src/CollectionIDTable.cc", "include/podio/utilities/MaybeSharedPtr.h"],
     [("per type mutexes", "include/podio/GenericParameters.h"), ("table mutex", "src/CollectionIDTable.cc"), ("atomic reference count", "include/podio/utilities/MaybeSharedPtr.h")],
     "2 threads, all pairs of nine parameter operations, of four table operations and of four handle operations, at most 2-4 preemptions; happens-before races on every access. Sequentially consistent atomics.",
     technique=SC, observe=["results", "happens-before order of accesses"])

prop("C19", "Collection names and IDs are in one-to-one correspondence",
     "The ID of a collection depends on its name only, is never the reserved invalid value, is the same in every table and process, and looking up a name or an ID returns exactly its counterpart or reports absence. Tables read from a file keep the stored pairs and can be extended without changing them.",
     ["inputs", "histories"], "all names (within the bounds), all stored IDs, adding repeatedly and in any order",
     WHY + "the table is not tested in what runs.",
     ["src/CollectionIDTable.cc", "include/podio/CollectionIDTable.h", "src/MurmurHash3.cpp"],
     [("hash of the name as ID", "src/CollectionIDTable.cc"), ("32 bit hash", "src/MurmurHash3.cpp")],
     "two names of up to 1|2 arbitrary characters; names up to 9|12 characters that differ in one place (3|4 symbolic bits); all tail lengths of the hash with long prefixes; tables of up to 3|4 symbolic IDs" + DEPTH + ". Hash collisions of different names, which are possible by design, are excluded by assumption.",
     observe=["add/collectionID/name/present"])

prop("C20", "The right evolution function runs for stored buffers",
     "Buffers of an older schema version are passed to exactly the function registered for their type and version, once; a function registered by the user takes precedence over a generated one regardless of the order of registration; buffers of the current version, of newer versions or of unknown types are returned untouched.",
     ["inputs", "histories"], "all current and stored versions, all orders of registration, user and generated functions",
     WHY + "the registry is only exercised by I/O tests that need ROOT.",
     ["include/podio/SchemaEvolution.h", "src/SchemaEvolution.cc"],
     [("per type table of functions by version", "src/SchemaEvolution.cc")],
     "current version 1..3|4, functions for every older version, user functions for any of them, both orders, neighbours before and after; symbolic 32 bit stored version >= 1" + DEPTH + ". Version 0 is outside (never written).",
     observe=["which function is called", "buffers returned"])

prop("C21", "Data of older schema versions read with their values",
     "Data written by older versions of a data model come back with the newest version's classes: members that still exist keep their values (converted if their type was widened), renamed members have the values stored under the old name in that version, new members have their default values, "
     "components evolve wherever they are used, vector members and relations keep length, order and targets, and collections of a renamed type become collections of the new type.",
     ["inputs", "histories"], "all values stored by every older version, all lengths of vector members and all relations",
     WHY + "schema evolution is only tested with ROOT files of a few values; the rules the generator writes are not executed by any test that runs.",
     ["python/podio_gen/cpp_generator.py", "python/podio_schema_evolution.py", "python/templates/selection.xml.jinja2", "python/templates/Collection.cc.jinja2", "python/templates/Component.h.jinja2", "python/templates/Data.h.jinja2", "src/SchemaEvolution.cc"],
     [("rules for renamed members and types", "python/templates/selection.xml.jinja2"), ("registration of buffers for older versions and old names", "python/templates/Collection.cc.jinja2"),
      ("definitions of older versions", "python/templates/Component.h.jinja2"), ("evolution of definitions", "python/podio_gen/cpp_generator.py")],
     "a model with versions 1, 2 and 3 that renames members (differently per version), widens, drops, adds and reorders members, drops a component, nests evolving components in members, arrays, components and vector members, and renames a type in a namespace; 0..2|3 objects with up to 1|2 entries per vector member "
     "and relation, all values symbolic" + DEPTH + ". Matching of members by name, conversion of numbers and execution of the generated rules is done by the check in place of ROOT; type changes that need hand written code are outside.",
     observe=["objects read", "generated dictionary rules"])

prop("C22", "Buffer creation matches type, version and kind",
     "For every registered type and version the created buffers have the shape that type's collections need (reference collections, vector members, data), and turn into a collection of that type with the content filled in; versions and types that are not known give nothing, whatever was registered before or after.",
     ["inputs", "histories"], "all versions, plain and subset kind, all registration orders",
     WHY + "buffers are only created in I/O tests that need ROOT.",
     ["src/CollectionBufferFactory.cc", "include/podio/CollectionBufferFactory.h", "python/templates/CollectionData.cc.jinja2", "python/templates/Collection.cc.jinja2"],
     [("table of creation functions by type and version", "src/CollectionBufferFactory.cc")],
     "histories of 2|3 registrations of versions 1..4 (contiguous use), symbolic 32 bit version >= 1 on lookup, plain/subset; five generated collection types, links and user data" + DEPTH + ".",
     observe=["created buffers"])

prop("C23", "The data model registry describes each model faithfully",
     "Each registered data model is found by its name and its index and gives back exactly its definition, version and relation names; registering again changes nothing, unknown names and indices give the documented defaults. Relation and vector member names are listed in the order of the buffers they describe, "
     "and the definitions collected for writing are those of all models in use, each once.",
     ["inputs", "histories"], "all registration orders and repetitions, all indices, all collections used",
     WHY + "the registry is only tested through files.",
     ["src/DatamodelRegistry.cc", "include/podio/DatamodelRegistry.h", "src/DatamodelRegistryIOHelpers.cc", "include/podio/utilities/DatamodelRegistryIOHelpers.h"],
     [("definitions in order of registration", "src/DatamodelRegistry.cc"), ("generated DatamodelDefinition.h", "python/templates/DatamodelDefinition.h.jinja2"), ("collector and holder for I/O", "src/DatamodelRegistryIOHelpers.cc")],
     "up to 2|3 models in any order, with and without versions, each registered repeatedly, symbolic index; names and relations of the generated model; up to 2|3 collections/stored definitions" + DEPTH + ".",
     observe=["registry queries"])

prop("C24", "Versions are ordered and encoded faithfully",
     "Versions are ordered by major, minor and patch number with the usual laws of a total order, and the single number used by the preprocessor and the storage represents exactly the version for all numbers that fit. The version reported by the library is the one it was built as.",
     ["inputs"], "all pairs of versions",
     WHY + "ordering and encoding have no test.",
     ["podioVersion.in.h", "CMakeLists.txt"],
     [("version structure and macros", "podioVersion.in.h")],
     "two fully symbolic versions of three 16 bit numbers; encoding for numbers up to their field width.",
     observe=["comparisons", "decoded values"])

prop("C25", "Name patterns, splitting and sorting helpers are exact",
     "A string is taken as a file pattern exactly if it contains an unescaped wildcard; splitting a string at a delimiter loses and invents no characters and gives one part more than there are delimiters; sorting names independent of case is a permutation in that order; "
     "maps keyed by strings give the same entry for a string and a view of it, and only for equal ones.",
     ["inputs"], "all strings within the bounds",
     WHY + "the helpers have no test that runs.",
     ["src/Glob.cc", "include/podio/utilities/Glob.h", "include/podio/utilities/MiscHelpers.h", "include/podio/utilities/StringKeyMap.h"],
     [("wildcard detection", "src/Glob.cc"), ("splitting and sorting", "include/podio/utilities/MiscHelpers.h"), ("heterogeneous lookup", "include/podio/utilities/StringKeyMap.h")],
     "strings of up to 4|6 arbitrary characters and an arbitrary delimiter; three strings of up to 2 characters" + DEPTH + ".",
     observe=["results"])
prop("C26", "JSON output mirrors the content of collections",
     "The JSON form of a collection lists its objects in order, each with exactly its members, vector members and relations under their names: numbers, arrays and components with their exact values, relations as the identities of the related objects in order. Subset collections list the "
     "identities of their objects, links their weight and both ends.",
     ["inputs"], "all member values, all lengths of vector members and relations, all connections",
     WHY + "the JSON tests cover single objects with fixed values.",
     ["python/templates/macros/implementations.jinja2", "python/templates/Collection.cc.jinja2", "python/templates/Component.cc.jinja2", "include/podio/ObjectID.h", "include/podio/detail/Link.h", "include/podio/detail/LinkCollectionImpl.h"],
     [("to_json of objects, collections, components and links", "python/templates/macros/implementations.jinja2")],
     "0..2|3 objects with all member kinds, vector members with up to 2 entries, relations with up to 2 entries, links; all values symbolic" + DEPTH + ". The text form of the JSON document is produced by the nlohmann library and not part of it.",
     observe=["the JSON document"])

SP = "symbolic execution of the Python source over all strings and choices within stated bounds, decided by Z3"
WHYP = "The Python tests sample a few dozen fixed definitions; "
prop("C27", "Changes between schema versions are all found and judged",
     "Comparing two versions of a data model reports exactly the difference: every added and dropped component, data type, member, vector member and relation, and every change of a member's type, each once and for its class, and nothing else. "
     "In the judgement a declared rename replaces exactly the pair of changes it explains, an undeclared possible rename of members or components is pointed out, dropped and added data types with the same members are paired as a rename at most once with declared "
     "renames first, and there is an error exactly for each impossible change: added or dropped vector members and relations, and type changes between arrays and other types or from or to components. All other changes stay reported; the comparison fails exactly if there is an error, and what is printed names every change, "
     "potential rename and error.",
     ["inputs"], "all pairs of old and new definitions and all declared renames within the bounds",
     WHYP + "each changes one thing; combinations of several changes with declared and possible renames in several classes are never tried.",
     ["python/podio_schema_evolution.py", "python/podio_gen/schema_evolution.py", "python/podio_gen/generator_utils.py"],
     [("comparison", "python/podio_schema_evolution.py"), ("judgement", "python/podio_schema_evolution.py"), ("declared renames", "python/podio_gen/schema_evolution.py")],
     "two versions of a class with up to 2 old and 2|3 new members of each category, names out of 4 and types out of 3, 13x13 types incl. arrays and (upstream) components; up to 2 old and 2 new data types or components; two classes at once; up to 1|2 declared renames of members "
     "and 2|3 of types" + DEPTH + ". The order in which sets are iterated is fixed.",
     observe=["list of changes", "errors", "warnings"], technique=SP)
prop("C28", "Invalid data model definitions are refused, valid ones accepted",
     "A data model definition is accepted exactly if it follows the documented rules: components have members of builtin or component types (also arrays of them) and only the allowed entries; data types have a description and an author, members of builtin or component "
     "types, vector members of such types, and relations to data types or interfaces; names of members, including those of exposed components, are unique; interfaces and links have all required entries, their own names, and refer to existing types; "
     "types of an upstream model count as existing; the schema version is a positive number and options have their documented defaults. What is refused is refused with a definition error.",
     ["inputs"], "all definitions within the bounds",
     WHYP + "each breaks one rule in an otherwise fixed model; combinations with upstream models, arrays, exposed members and the order of types are not sampled.",
     ["python/podio_gen/podio_config_reader.py", "python/podio_gen/generator_utils.py"],
     [("ClassDefinitionValidator", "python/podio_gen/podio_config_reader.py"), ("PodioConfigReader.parse_model", "python/podio_gen/podio_config_reader.py")],
     "models with two components, two data types, an interface and a link, with and without an upstream model; one of them has 1..2 (clashes: 1..3) members whose types (out of 17) and names are symbolic, with any category, one unknown or missing entry" + DEPTH + ".",
     observe=["accepted or DefinitionError", "the parsed model"], technique=SP)
prop("C29", "Definitions of members are understood as written or refused",
     "The text of a member yields exactly the type, array size, name, default value, unit and description that are written, whatever characters values and comments contain and however it is spaced; builtin and fixed width integer types are recognized as such, and only they. "
     "Text with anything left over, a missing or malformed part, or without a required description is refused with a definition error. Writing a member as text and parsing it again gives the same member.",
     ["inputs"], "all texts within the bounds, each character symbolic",
     WHYP + "texts are arbitrary strings in which values, units and comments can contain the delimiters of each other.",
     ["python/podio_gen/podio_config_reader.py", "python/podio_gen/generator_utils.py"],
     [("MemberParser", "python/podio_gen/podio_config_reader.py"), ("MemberVariable", "python/podio_gen/generator_utils.py")],
     "characters out of printable ASCII, tab and a non-ASCII letter, each one symbolic: names of up to 2, types of up to 3 on top of every prefix of a builtin type, sizes and units of up to 2|4, values of up to 3, comments of up to 4|5 plus tricky starts; malformed texts "
     "with up to 3 arbitrary characters at either end" + DEPTH + ".",
     observe=["the parsed member", "DefinitionError"], technique=SP)
prop("C30", "The stored data model definition reproduces the model",
     "The JSON representation of a data model, which is stored in every file, is itself a valid definition, and reading it gives the same model: the same version, options, components, data types, interfaces and links in the same order, with the same members in all their properties, "
     "relations and extra code.",
     ["inputs"], "all models within the bounds",
     WHYP + "none of them reads a stored definition back (that needs ROOT).",
     ["python/podio_gen/generator_utils.py", "python/podio_gen/podio_config_reader.py", "python/podio_gen/generator_base.py"],
     [("DataModelJSONEncoder, _to_json", "python/podio_gen/generator_utils.py"), ("parse_model", "python/podio_gen/podio_config_reader.py")],
     "models with two components, two data types, an interface, a link; symbolic types, default values, units, comments, names in namespaces, extra code, categories and options; the json library of Python copies strings as they are" + DEPTH + ".",
     observe=["the model read back"], technique=SP)
prop("C31", "Declared migrations and version texts are read as written",
     "A file with declared migrations gives exactly the renames of members and data types it contains, with their versions, sorted by version and for the right type; a declaration with missing or malformed versions or names, an unknown or no kind of change, or several of them, is refused. "
     "The text of a version is accepted exactly if it has two or three numbers separated by points or dashes, and gives these numbers.",
     ["inputs"], "all declarations and all texts within the bounds",
     WHYP + "they contain one declaration each.",
     ["python/podio_gen/schema_evolution.py", "python/podio_class_generator.py"],
     [("SchemaMigrationReader", "python/podio_gen/schema_evolution.py"), ("parse_version", "python/podio_class_generator.py")],
     "1..2 migrations with any versions out of 6, kinds out of 4, names symbolic, 0..2 changes each; version texts of up to 5|7 symbolic characters" + DEPTH + ".",
     observe=["the parsed migrations", "the parsed version"], technique=SP)

prop("C32", "Generated C++ files include what they use and none is forgotten",
     "For any valid data model, with or without an upstream model, every generated file includes or declares the types of its members, vector members, relations and interfaces, of links and of the old versions it defines, from the folder they are in, and never itself. "
     "Exactly the files that belong to the model and the chosen backends are written, each once, and all of them are in the lists for the build, in the header of the whole model, and (for ROOT) among the dictionaries; all links are registered.",
     ["inputs"], "all models within the bounds",
     "The tests compile a few fixed models; combinations of namespaces, folders, upstream types, arrays, interfaces and categories of members they do not contain fail to compile for users only.",
     ["python/podio_gen/cpp_generator.py", "python/podio_gen/generator_base.py", "python/podio_gen/generator_utils.py"],
     [("includes", "python/podio_gen/cpp_generator.py"), ("_write_file, _fill_templates", "python/podio_gen/generator_base.py")],
     "a model with two data types, two components, an interface and a link; one data type or component with 1..2 members of symbolic type in any one category, links and interfaces with symbolic types (own, of the upstream model, of the same name in another namespace); "
     "0..2 of each kind of type for the lists of files. The templates themselves are replaced: what they get is checked (their C++ is checked by the other properties for the generated test models).",
     observe=["data passed to the templates", "names and lists of generated files"], technique=SP)
prop("C33", "Declared evolutions become rules, old versions stay defined",
     "For any current model and any set of older versions, the generator refuses evolutions that are impossible or not declared and accepts all others; every declared rename of a member or data type gives, for each old version that has the old name, exactly the rules that read the old "
     "member with the type it had then into the new one; every component and (still existing or renamed) data type of every old version keeps a definition with its old members, with component types of that same version and upstream types as they are, and a dictionary; "
     "collections of a renamed type are registered for exactly the versions before the rename.",
     ["inputs", "histories"], "all histories of models within the bounds",
     "The tests have one chain of fixed versions and need ROOT to read anything.",
     ["python/podio_gen/cpp_generator.py", "python/podio_schema_evolution.py", "python/podio_gen/generator_utils.py", "python/podio_gen/schema_evolution.py"],
     [("_prepare_iorules, _create_selection_xml", "python/podio_gen/cpp_generator.py"), ("_read_old_schemas, _identify_renamed_datatypes", "python/podio_gen/cpp_generator.py"), ("qualified_as_version", "python/podio_gen/generator_utils.py")],
     "a current model with one or two older versions in any order, with and without an upstream model; a component or data type with a member whose name in each version (out of 3) and type (out of 5) are symbolic, up to 2 symbolic declared renames for this or another class; "
     "a data type whose name in each version is symbolic, with dropped and new components and types; 7x7 types before and after a change.",
     observe=["I/O rules", "dictionaries", "definitions of old versions", "refused evolutions"], technique=SP)
prop("C34", "The Arrow schema mirrors the data model",
     "The Arrow schema generated for a data type has exactly one field for each member, vector member and relation, in this order and under its name; its type has the kind and size of the C++ type, recursively for components, arrays and vectors; "
     "and the builder and array classes, getters and sizes used to fill and read a field are those that belong to its type.",
     ["inputs"], "all data types within the bounds",
     "The tests of the Arrow backend use a few fixed types (and need Arrow).",
     ["python/podio_gen/cpp_generator.py"],
     [("_arrow_fields, _arrow_type", "python/podio_gen/cpp_generator.py"), ("_get_arrow_metadata", "python/podio_gen/cpp_generator.py")],
     "a data type with a member and a vector member whose types are symbolic out of all builtin and fixed width integer types and components (own, nested, with arrays, of the upstream model), arrays of them, relations; both kinds of getters.",
     observe=["fields and metadata passed to the template"], technique=SP)
prop("C35", "Generated Julia structs have the right types in an order that loads",
     "In the Julia code for a data model every builtin member type, also in arrays, becomes the Julia type of the same kind and size; every component and every data type that does not need interfaces, also not through other data types, gets exactly one struct file and one constructor; "
     "the module includes each file once and after those of all structs it contains; relations become type parameters, one for each type.",
     ["inputs"], "all models within the bounds",
     "The Julia tests load one fixed model (and need Julia).",
     ["python/podio_gen/julia_generator.py", "python/podio_gen/generator_utils.py"],
     [("_sort_components_and_datatypes", "python/podio_gen/julia_generator.py"), ("get_julia_type", "python/podio_gen/generator_utils.py")],
     "all builtin and fixed width integer types; three components in any order with symbolic acyclic contents (plain, arrays, upstream), a data type with a symbolic (vector) member; three data types with up to 2 relations to each other or to an interface" + DEPTH + ".",
     observe=["files, includes and parameters passed to the templates"], technique=SP)

prop("C36", "Generated files are up to date after a run and only touched when they change",
     "Whatever is in the output directory - nothing, files of an older model, cut off or edited files, in any combination - a run of the code generator (C++ or Julia, with or without a formatter) leaves every file of the model with exactly the "
     "content the model gives, and leaves all other files alone; it writes a file only if its content differs, and the list of generated files exactly if any file (or the list) changed; running it again writes nothing; a dry run writes nothing at all.",
     ["inputs", "histories", "crash_points"], "all states of the output directory within the bounds",
     "The tests generate into an empty directory; incremental builds depend on what is touched, in whatever state an earlier, possibly interrupted run left the directory.",
     ["python/podio_gen/generator_base.py", "python/podio_gen/cpp_generator.py"],
     [("write_file_if_changed", "python/podio_gen/generator_base.py"), ("_write_file", "python/podio_gen/generator_base.py"), ("_write_cmake_lists_file", "python/podio_gen/cpp_generator.py")],
     "one component and one data type; the directory is empty, up to date or all different; two of the generated files have symbolic new contents and are missing or have symbolic old contents (6 texts: empty, cut off, without last newline, leading blank, other case); "
     "the list of files is complete, missing or cut off" + DEPTH + ".",
     observe=["contents of the files", "which files are written"], technique=SP)

WHYS = "The SIO backend is neither built nor tested here (the library is missing); where it is, tests write and read one fixed set of collections; "
SIOASM = ["the SIO library is replaced by a model (/verif/harness/stub/sio): records of named, versioned blocks in an in-memory file system; reading past the end of a buffer or file, data that is "
          "not (un)compressed or not at a record start are exceptions; no file errors while writing, no blocks libraries to load"]
prop("C37", "What is written to a file comes back from it (SIO backend)",
     "A frame written with the SIO writer is the same frame when the SIO reader returns it: every written collection, and none that was not written, under its name, with its ID, type and objects; data members, arrays, components, vector members, user data, relations, interface relations, links, "
     "subset collections and parameters of all types are unchanged; what refers to a collection that was not written is not available. This also holds after a frame that was read, unpacked or not, is written to another file.",
     ["inputs", "histories"], "all values, relation targets and sets of written collections within the bounds",
     WHYS + "values, missing collections, orders and second files are not varied.",
     ["src/SIOBlock.cc", "src/SIOBlockUserData.cc", "src/SIOFrameData.cc", "src/SIOWriter.cc", "src/SIOReader.cc", "src/sioUtils.h", "include/podio/SIOBlock.h", "include/podio/SIOBlockUserData.h",
      "include/podio/detail/LinkSIOBlock.h", "python/templates/SIOBlock.cc.jinja2", "python/templates/SIOBlock.h.jinja2", "python/templates/macros/sioblocks.jinja2"],
     [("generated read / write of a block", "python/templates/SIOBlock.cc.jinja2"), ("SIOFrameData::unpackBuffers, getCollectionBuffers", "src/SIOFrameData.cc"), ("SIOWriter::writeFrame", "src/SIOWriter.cc"),
      ("writeGenericParameters, readGenericParameters", "src/SIOBlock.cc")],
     "0..2 objects with one member of every kind and 0..2 objects with three vector members of 0..2 entries (all values symbolic); two hits, two parts with symbolic relations, an object with interface relations, links (also to interfaces, also unset), subset collections of both, "
     "one of three collections not written, two orders, first access, second file; all ten user data types with 0..2 elements; parameters of four types with 0..2 symbolic values and up to 3 keys. The SIO library itself is a model; plain old data of the current schema version only; the legacy reader is outside.",
     observe=["objects, collections and parameters of the frame that was read"], assumptions=SIOASM)
prop("C38", "A file gives back its entries, in any order (SIO backend)",
     "A file has exactly the categories and entries that were written, whether the writer was finished (once, twice) or only destroyed; any entry can be read at any time, in any order, directly or as the next one, and is the one that was written at this place; reading beyond the last entry or from an "
     "unknown category gives nothing; only the collections asked for are available then, asking for one that is not there is an error; the file knows the podio version and the definitions of exactly the data models it contains; a missing file is an error.",
     ["inputs", "histories"], "all sequences of writing and reading within the bounds",
     WHYS + "they read entries mostly in order and completely.",
     ["src/SIOWriter.cc", "src/SIOReader.cc", "src/SIOBlock.cc", "src/SIOFrameData.cc", "src/sioUtils.h", "include/podio/SIOBlock.h", "include/podio/utilities/ReaderCommon.h", "src/DatamodelRegistryIOHelpers.cc"],
     [("SIOFileTOCRecord", "src/SIOBlock.cc"), ("SIOReader::readNextEntry, readEntry, openFile", "src/SIOReader.cc"), ("SIOWriter::finish", "src/SIOWriter.cc"), ("limited collections", "src/SIOFrameData.cc")],
     "0..3|4 frames with symbolic contents in any of two categories, 3|4 reads of any category and entry (also beyond the end) or the next one; three collections, any subset written in two orders, any subset plus an unknown name asked for; two files at a time" + DEPTH + ". The SIO library itself is a model.",
     observe=["entries, categories, collections and definitions that are read"], assumptions=SIOASM)

prop("C39", "Readers and writers are made for the right backend and pass everything on",
     "makeReader gives a reader of the backend the (first) file is made for, with all files opened in order, and refuses files that are missing, of different or unknown kind or (SIO) more than one; a pattern stands for its matches. makeWriter gives a writer for the backend of the extension, for .root files "
     "the one of the type or else of the environment. The front ends podio::Reader and podio::Writer ask the backend for exactly what they are asked for (category, entry, collections, all available ones by default), return what it gives, and turn a missing entry into an error.",
     ["inputs"], "all requests, file names, types, file contents and environments within the bounds",
     "These files need ROOT and are not built here; with ROOT a handful of combinations is used by the tests.",
     ["include/podio/Reader.h", "include/podio/Writer.h", "src/Reader.cc", "src/Writer.cc", "src/Glob.cc"],
     [("ReaderModel, WriterModel", "include/podio/Reader.h"), ("makeReader", "src/Reader.cc"), ("makeWriter", "src/Writer.cc"), ("expand_glob", "src/Glob.cc")],
     "three backends that record what they are asked for; one request of any kind with symbolic entry, category, subset of two collections; 0..2 files out of five names, files with 0..2 keys of five classes, three results of glob; 8 file names x 9 types x 3 environments. "
     "The backends (ROOT, RNTuple, SIO) and glob() are models; an explicit type for an unknown extension is not specified.",
     observe=["requests to the backend", "results and errors"], assumptions=["TFile, TKey, glob() and the backend readers and writers are replaced by models that record what they are asked for"])

ROOTASM = ["ROOT is replaced by a model (harness/stub/rootmodel.h, harness/stub/ROOT): trees, chains and ntuples store copies of the objects of registered classes; the branches of a chain are deleted when it goes to another file; asking a chain for its number of entries does not move it; "
           "TTree compression, baskets, streamers and schema evolution by ROOT are not part of it"]
WHYR = "ROOT is not installed here, so no test of this backend runs; with ROOT, "
ROOTF = ["include/podio/utilities/RootHelpers.h", "src/rootUtils.h", "src/ROOTFrameData.cc"]
for _id, _n, _w, _r in (("C40", "TTree", "src/ROOTWriter.cc", "src/ROOTReader.cc"), ("C41", "RNTuple", "src/RNTupleWriter.cc", "src/RNTupleReader.cc")):
    prop(_id, "A frame written with the %s backend is the same frame when it is read" % _n,
         "Every frame written with the %s writer comes back from the reader as it was: members, vector members, relations, interfaces, links, subset collections, user data and parameters of all types, under the same names and IDs; for any category and entry in any order, with all or only some of the "
         "collections, also from several files read as one. The contents of a category are fixed by its first frame; frames with other collections are refused and not stored. Version and data model definitions come along." % _n,
         ["inputs", "histories"], "all frames, histories of writing and requests within the bounds",
         WHYR + "fixed frames are written and read, mostly in order, and names rarely differ by case only.",
         [_w, _r] + ROOTF, [("writeFrame, finish", _w), ("readEntry", _r), ("branch names, checkConsistentColls", "src/rootUtils.h")],
         "as C37 and C38 for the frames (0..2 objects of each kind, all relations, links, user data, parameters), 0..3|4 frames in two categories, 3|4 reads of any entry or the next one, any subset of 3 collections written and read; 2|3 writes of any subset of three names (two of them differing by case only) "
         "with a frame that has two or all of them; 2|3 files with 1..2 entries, 3 reads; names of up to 2 symbolic characters" + DEPTH + ". ROOT itself is a model; files of older versions of podio are decided in C42, other schema versions are outside the bounds.",
         observe=["frames that are read", "errors"], assumptions=ROOTASM)

prop("C42", "Files of older versions are readable",
     "Files in the layouts of older versions give the same frames as when they were written: ROOT files of podio before 0.17 (relations stored by index, without names of collections or schema versions), before 1.0 (parameters as one object), up to 1.2 (collections described by tuples), and ROOT and SIO files "
     "from before there were frames, with or without a description of their collections, subset collections, parameters of type double, or a table of contents; alone or several ROOT files read as one, any entry in any order. Beyond the last entry there is nothing.",
     ["inputs", "histories"], "all files in the layouts that the readers know, within the bounds",
     "ROOT and SIO are not installed here, so no test of these readers runs; with them, the files of older versions that the upstream tests download are read from the first to the last entry.",
     ["src/ROOTReader.cc", "src/ROOTLegacyReader.cc", "src/SIOLegacyReader.cc"] + ROOTF + ["src/SIOBlock.cc", "src/SIOFrameData.cc", "src/sioUtils.h"],
     [("initCategory, createCollectionBranchesIndexBased, readEntryParameters", "src/ROOTReader.cc"), ("readEntry, openFiles", "src/ROOTLegacyReader.cc"), ("reconstructCollectionInfo", "src/rootUtils.h"), ("createBuffers", "src/CollectionBufferFactory.cc"),
      ("readCollectionIDTable, readFileTOCRecord, readNextEntry", "src/SIOLegacyReader.cc"), ("SIOCollectionIDTableBlock::read, readGenericParameters", "src/SIOBlock.cc")],
     "ROOT files of five versions (0.16.3, 0.16.6, 0.17, 1.0, 1.2) with 1..2 entries, one entry read; before that, ROOT files of three kinds, 1..2 of them with 1..2 entries each, and SIO files with 0..2 entries, with or without table of contents, subset collections, records in between and parameters in the oldest layout; 2|3 reads of any "
     "entry or the next one (SIO files without table of contents: only the next one); objects, relations, vector members, a subset collection, symbolic values and parameters. "
     "The layouts are taken from what the readers look for; ROOT and SIO themselves are models, ROOT's own conversion of old classes is outside the bounds.",
     observe=["frames that are read"], assumptions=ROOTASM)
WHYN = "The libraries this needs are not installed, so no test of it runs here."
prop("C43", "A data frame sees every entry of its files once",
     "The data source of ROOT's RDataFrame has the requested collections of the events as columns, with their types. In every event loop over it (any number of them), with any number of slots working on any of the ranges it hands out, also at the same time, every requested entry is seen exactly once, "
     "and each slot sees the collections of the entry it is at. Files without entries, unknown columns and more slots than entries are refused.",
     ["inputs", "histories", "schedules"], "all numbers of entries and slots, histories of event loops",
     "ROOT is not installed here, so no test of the data source runs; with it, two tests run one event loop over one file each.",
     ["include/podio/DataSource.h", "src/DataSource.cc"], [("SetupInput, SetNSlots, GetEntryRanges, Initialize, SetEntry, GetColumnReadersImpl", "src/DataSource.cc")],
     "event loops: 0..4|5 entries, any requested number of them up to 5|6 or all, 1..3 slots, two loops, every assignment of ranges to slots, 1 or 2 columns, asked for in either order or the second one only in the second loop; ranges: any number of entries below 2^40, any requested number, 1..4|8 slots, two loops; "
     "two slots in two threads with 2 preemptions" + DEPTH + ". Readers have their entries in memory, RDataFrame is replaced by the calls its event loop makes.",
     observe=["entries seen", "collections in the columns", "errors"],
     assumptions=["the event loop of RDataFrame is modelled by its calls: SetNSlots once, GetColumnReaders before a loop; in every loop Initialize, GetEntryRanges until it is empty, InitSlot, SetEntry and FinalizeSlot per range, Finalize"])

prop("C44", "podio-dump shows the entries that are asked for",
     "The dump tool understands its command line: flags in any order, a number, a list of numbers, an inclusive range, or -1 for all entries; what is none of these is refused with a failure. It shows exactly the requested entries of the requested category, in order, "
     "each with all collections (type, number of elements, subset collections marked, sizes if requested and known) and all parameters (type and number of values), sorted by name, and the versions, data models and categories of the file; it fails if an entry is not there.",
     ["inputs"], "all command lines, files with any categories and entries within the bounds",
     "ROOT, SIO and fmt are not installed here, so the tool is not even built; with them, it is run on a few files and only its exit code is looked at.",
     ["tools/src/podio-dump-tool.cpp", "tools/src/argparseUtils.h", "tools/src/tabulate.h"], [("parseEventRange, parseArgs, fullEntryList, printFrame", "tools/src/podio-dump-tool.cpp"), ("parseSizeOrExit", "tools/src/argparseUtils.h"), ("printTable", "tools/src/tabulate.h")],
     "lists of entries of up to 4|5 characters from the ten kinds of characters that can matter, numbers of up to 4|6 arbitrary characters; every combination of category, entries, --detailed and --size-stats in two orders with the file at any position, 3 + 2 entries in two categories, three collections, "
     "parameters of all types; 20 complete and incomplete command lines" + DEPTH + ". fmt is replaced by plain text, the layout of the tables and the values that --detailed prints are outside the bounds.",
     observe=["what is printed", "entries read", "exit code"], assumptions=["fmt prints its arguments at the replacement fields of the format"])

PYB = "ROOT and cppyy are not installed here, so none of the Python bindings can be imported and none of their tests run; where they do run, "
PYX = ("ROOT, cppyy and the C++ classes are replaced by a model of them (pyharness/cppmodel.py): what it says about overload resolution, conversions, null pointers and TFileMerger is an assumption.",)
prop("C45", "A frame used from Python holds what is put into it",
     "Through the Python bindings, a frame (new or read from a file) has exactly the parameters it was given: under every name and for every type the value that was put last, single values as such and all others as lists; if a name has several types, a value is only returned "
     "if the type that is asked for decides which one, and every one of them can be asked for; the types and sizes of parameters are reported. Values that do not fit their type are refused and change nothing. Collections are found under their names, also if they are empty, "
     "names by collection or ID; names that are taken, unknown names and what is no collection are refused.",
     ["inputs", "histories"], "all names, types and values, all histories within the bounds",
     PYB + "a few names with one type each are used.",
     ["python/podio/frame.py", "python/podio/link_navigator.py", "python/podio/version.py", "python/podio/utils.py"], [("Frame.put_parameter / get_parameter / get_param_info", "python/podio/frame.py"), ("Frame.put / get / getName", "python/podio/frame.py")],
     "two names of parameters and three of collections; up to 2|3 parameters of any of the 4 types with 0, 1 or 2-3 values from a file, then up to 1|2 from Python (7 type specifications, single values, lists and tuples, mixed types), or three from Python; "
     "up to 2 collections from a file and 1|2 from Python (of 5 kinds)" + DEPTH + ". Values themselves are fixed: they are only passed on. " + PYX[0],
     observe=["what Python sees", "what the C++ frame gets"], technique=SP, assumptions=PYX)

prop("C46", "Reading, writing and merging from Python passes every entry on",
     "Iterating over a category of a reader gives every entry once and in order, an index (also from the end) gives that entry, and what is not there is refused; only the collections that are asked for are read, and those that are not there are refused. The reader "
     "for a file is the one for its format, reads all the files it is given or refuses them, and reports categories, models and versions as they are in the file. Writers write the frame, category and collections they are given, and all are finished at the end of the program. "
     "Merging or converting files writes every frame of every input file exactly once, in order, to its category, with the metadata that was asked for and the names of the merged files, and leaves the inputs alone.",
     ["inputs", "histories"], "all files, categories, indices and options within the bounds",
     PYB + "single files with two categories are read; merging is compared for ROOT files only.",
     ["python/podio/frame_iterator.py", "python/podio/base_reader.py", "python/podio/base_writer.py", "python/podio/reading.py", "python/podio/root_io.py", "python/podio/sio_io.py", "python/podio/root_merge.py", "tools/podio-merge-files", "tools/podio-ttree-to-rntuple"],
     [("FrameCategoryIterator", "python/podio/frame_iterator.py"), ("get_reader", "python/podio/reading.py"), ("AllWriters", "python/podio/base_writer.py"), ("merge_files", "python/podio/root_merge.py"), ("podio-merge-files", "tools/podio-merge-files")],
     "up to 3|4 entries in two categories, two or three operations with indices -6..5, five selections of collections; files of all five formats, one or two at once, as text, paths and lists; two writers of three kinds with 1|2 frames; "
     "merging of up to 2|3 SIO or ROOT files with any of four sets of categories, 0-2 entries each, every choice of metadata and compression" + DEPTH + ". " + PYX[0],
     observe=["what Python sees", "what is opened and written"], technique=SP, assumptions=PYX)

prop("C90", "Data of older schema versions are readable (ROOT)",
     "Data of older schema versions in ROOT files are read as the generated read rules and the schema evolution functions say.",
     ["inputs", "histories"], "all files of older versions", WHYN,
     ["python/templates/selection.xml.jinja2", "src/ROOTReader.cc"], [("generated read rules", "python/templates/selection.xml.jinja2"), ("getCollectionBuffers", "src/ROOTReader.cc")], "")
prop("C91", "Arrow tables hold what the frames hold",
     "The Arrow tables made of a list of frames hold, row by row, exactly the members, vector members, relations and parameters of each frame, and frames made of such tables are the same frames again.",
     ["inputs"], "all frames", WHYN, ["src/ArrowFrameConverter.cc", "src/ArrowFrameData.cc", "src/ArrowUtils.cc", "python/templates/ArrowMapper.cc.jinja2"],
     [("ArrowFrameConverter", "src/ArrowFrameConverter.cc"), ("generated mapper", "python/templates/ArrowMapper.cc.jinja2")], "")
prop("C92", "Objects and collections used from Python behave as in C++",
     "Attribute access, iteration, slicing and conversions of objects and collections through cppyy, with the pythonizations of podio, give the same results as the C++ calls.",
     ["inputs"], "all objects, collections and accesses", WHYN, ["include/podio/detail/Pythonizations.h", "src/UserDataCollection.cc"], [("pythonizations", "include/podio/detail/Pythonizations.h")], "")
PN = [p for p in P if p["id"] >= "C90"]  # properties that are stated but not claimed
P = [p for p in P if p["id"] < "C90"]
NOT_APPLICABLE = [
    dict(property="C90", reason="Needs ROOT's streamers and its schema evolution (read rules compiled by ROOT's interpreter); neither is installed. "
         "The generated I/O rules are decided in C33, the conversion of buffers in C20 - C22."),
    dict(property="C91", reason="Arrow is not installed and its builders, arrays and readers would have to be modelled completely; the generated Arrow schema is decided in C34."),
    dict(property="C92", reason="This is decided inside cppyy (the interpreter of ROOT), which is not installed; what podio's own Python code does is decided in C45 and C46, the data source in C43."),
]
