#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept in one place so that ids, titles and anchors stay in step).
import json, pathlib
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(zip(("name", "meaning", "where"), s)) for s in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=hook)))

VH, VI, VC = "include/rtti/variant.h", "include/rtti/detail/variant_impl.h", "src/variant.cpp"
AI, MI, MD = "include/rtti/detail/argument_impl.h", "include/rtti/detail/metamethod_impl.h", "include/rtti/metadefine.h"
MT, MTC = "include/rtti/metatype.h", "src/metatype.cpp"
MCH, MCC, MCP = "include/rtti/metaclass.h", "src/metaclass.cpp", "src/private/metaclass_p.h"
CTH, CTC, CTP = "include/rtti/metacontainer.h", "src/metacontainer.cpp", "src/private/metacontainer_p.h"
ITH, ITC, ITP = "include/rtti/metaitem.h", "src/metaitem.cpp", "src/private/metaitem_p.h"
MIS = "include/rtti/misc_traits.h"

prop("C01", "A variant holds exactly the last value put into it, whatever its history",
 "After any sequence of constructing, copying, moving, assigning (including self-assignment), swapping, clearing and in-place converting variants, every variant reports exactly the type and the value a plain typed variable would hold after the same steps, and is empty exactly when the model says so. Copies are independent of their source, a moved-from variant is empty, and an operation that throws leaves its target unchanged. This holds alike for small values, large values, arrays, pointers, enums, smart pointers and move-only values.",
 ["histories", "inputs"], "all operation histories over several variants, all storable content types and values",
 "The unit tests walk a few fixed copy/move sequences with two or three types; they never mix small, heap and array content in one history nor compare with a model.",
 [VH, VI, VC], [("copy-and-swap assignment, type-erased function table, three-way swap", VC), ("small/heap/array storage strategies", VI)],
 [("storage/manager", "the held bytes and the operations for their type; must always agree", VH)], ["variant::is, ref, to, empty, typeId, operator=="])

prop("C02", "Every contained object is created and destroyed exactly once; nothing leaks",
 "Every object a variant (or a conversion, a call, or dynamic construction) creates is destroyed exactly once, at the latest when its owner is destroyed, cleared or overwritten, and no memory is lost, read after destruction, read uninitialised or misaligned for its type. This also holds when a copy, a move or a memory allocation inside the operation throws.",
 ["histories", "fault_sequences"], "all operation histories over all content types (size, alignment, copy/move policy), every position at which a constructor or an allocation may throw",
 "The tests count constructor calls for one hand-written history without exceptions; leaks, alignment and double destruction on other histories or on a throwing copy are invisible to them.",
 [VH, VI, VC, MT], [("allocate/construct/destroy/deallocate per storage strategy", VI), ("temporary conversion buffers guarded by FINALLY", VH), ("type function table", MT)],
 [], ["constructor/destructor ledger of instrumented content types", "heap block count", "AddressSanitizer/UBSan"])

prop("C03", "A variant of a reference aliases the original and never owns it",
 "A variant built from std::ref or std::cref always shows the current state of the referred object: writes through the variant change the object, writes to the object are seen through the variant, copies of the variant alias the same object. It never copies or destroys the object, and it never gives mutable access to an object it was given as const.",
 ["histories", "inputs"], "all interleavings of writes to the object and operations on aliasing variants, all content types and constness combinations",
 "Tests check one reference to an int/class; aliasing under copy, move, swap, overwrite and mixed constness is a history property.",
 [VH, VI], [("reference_wrapper storage keeps a pointer", VI)], [], ["variant::ref/cref/data/to, original object"])

prop("C04", "Typed access succeeds exactly when C++ would allow it, and all accessors agree",
 "For a variant holding type S accessed as type T, the query is<T>, the references ref/cref/rref, the pointer data and the copy to<T> succeed exactly when C++ would let an S value of that value category be bound or (pointer qualification, array-to-pointer) converted to T; otherwise they fail with false, a null pointer, bad_variant_cast or bad_variant_convert respectively and leave the variant unchanged. The accessors never contradict each other, and what they return denotes the stored object with its stored value. Mutable access to anything stored or referenced as const is never granted.",
 ["inputs"], "all pairs of stored type and requested type (const at every level, pointers of several depths, arrays, references) crossed with const/mutable/temporary variants",
 "Tests enumerate a few dozen hand-picked pairs; the guarantee is about the whole matrix of types, value categories and accessors.",
 [VH, MTC, MIS], [("access type attribute NONE/LREF/RREF/LREF_CONST per variant constness", VI), ("type compatibility decision", MTC)], [], ["is/ref/cref/rref/data/to/canConvert"])

prop("C05", "Type descriptors state the true C++ facts about every type",
 "For every type, its descriptor reports exactly what the compiler says: size, constness, reference and pointer kind, pointer depth, array-ness, base category (integral, floating, enum, union, class, function, void), triviality, polymorphism, abstractness, constructibility, assignability, comparability, and the decayed type obtained by dropping references, arrays and all const. The descriptor's printed form names exactly the flags that are set.",
 ["inputs", "programs"], "all C++ types built from scalars, enums, unions, classes, functions, member pointers by adding const, pointers, references and array bounds",
 "Tests look at a handful of types and flags; every new combination of qualifiers is a separate case and printing is never tested.",
 [MT, MTC, MIS], [("compile-time flag computation", MT), ("decay/const-bitset/arity traits", MIS), ("flag printing", MTC)], [], ["MetaType::typeFlags, typeSize, pointerArity, decayId, is*, operator<<"])

prop("C06", "One stable identity per C++ type, the same from every module, found by its name",
 "Two types have the same type id if and only if they are the same C++ type, no matter how often, from which translation unit or shared module, in which order or from how many threads the ids are requested. Looking a type up by its name finds that same type, unknown names and invalid ids give an invalid type, and ids, names and descriptors never change once obtained.",
 ["inputs", "histories", "configurations"], "all sets of types, all orders of first use, several shared modules with separate copies of the template instantiations",
 "All unit tests run in one module and in one fixed first-use order.",
 [MT, MTC, "include/rtti/typename.h", "include/rtti/tagged_id.h"], [("registry keyed by type name, append-only list", MTC), ("per-type static holder", MT)],
 [("registered types and name index", "append-only; entries never move", MTC)], ["metaTypeId, MetaType(id), MetaType(name)"])

prop("C07", "Type compatibility follows the C++ reference and qualification rules",
 "Asked whether a value of one type can be used where another is expected, for types with the same decayed type the library answers yes exactly when C++ would allow the reference binding, qualification conversion or array decay (a longer array may serve as a shorter one), including const at every pointer level. The relation is reflexive, never yes for an invalid type, and never lets const be dropped or be added unsafely at an inner level.",
 ["inputs", "programs"], "all ordered pairs of types over the same base with up to several pointer levels, const masks, reference kinds and array bounds",
 "The tests enumerate some pairs by hand; the rule ranges over thousands of ordered pairs.",
 [MTC, MIS], [("compatibility decision on arity and const bitsets", MTC)], [], ["MetaType::compatible, variant access"])

prop("C08", "Converters: first registration wins, exact lookup, failures are clean",
 "A conversion registered from one type to another is found and applied, for all cv/reference variants of the two types, exactly from its registration until its removal; a second registration for the same pair is rejected and does not disturb the first, and a conversion registered after removal is the one then used. Converting yields exactly what the registered function (free function, functor, member function, converting constructor, or one that reports success through a flag) returns for the stored value. If the function throws or reports failure, or none is registered, converting fails with bad_variant_convert, leaves the variant unchanged and leaks nothing.",
 ["histories", "inputs", "fault_sequences"], "all histories of register/unregister/convert over many type pairs and converter kinds, all values, failing converters",
 "Tests register a few converters once, never remove and re-register them, and never use failing ones with resources.",
 [MT, MTC, VH, VI, MD], [("process-wide converter table keyed by decayed pair", MTC), ("converter wrappers", MT), ("converting constructor registration", MD)],
 [("converter table", "at most one converter per ordered pair of decayed types", MTC)], ["registerConverter, unregisterConverter, hasConverter, canConvert, to, convert, tryConvert, eq"])

prop("C09", "Variant equality agrees with the equality of the contained values",
 "Two variants compare equal exactly when both are empty or both hold (directly, by reference, or through a pointer or array of the same decayed type and shape) values that compare equal with their own ==; comparison is reflexive for reflexive values, symmetric, and != is its negation. eq additionally accepts values reachable through a registered conversion. Equal variants of hashable scalar content have equal hashes, and comparing never changes or damages the operands.",
 ["inputs"], "all pairs of contents over all content types, storage forms (value/reference/array/pointer) and values",
 "Tests compare a few pairs; symmetry and consistency are relations over all pairs.",
 [VC, VI, MT], [("equality through the type function table", VI), ("conversion assisted eq", VI)], [], ["operator==, !=, eq, neq, std::hash"])

prop("C10", "Class casts agree with dynamic_cast over every registered hierarchy",
 "For every hierarchy of classes (single, multiple, virtual inheritance, several levels) whose bases were registered, casting a pointer or reference to any registered class gives the same address as dynamic_cast whenever that target is an unambiguous base of the object's dynamic type or that type itself, and a null pointer or bad_meta_cast when it is neither that type nor a base of it (ambiguous bases are not covered). inheritedFrom is exactly the reflexive transitive closure of the registered base relation, and the base and derived lists contain exactly the direct relations, each once and in declaration order.",
 ["programs", "inputs", "histories"], "all class hierarchies, all (dynamic type, static type, target type) triples, all registration orders and repetitions",
 "Tests use one or two fixed hierarchies; offsets, virtual bases and registration order vary per program.",
 [MCH, MCC, MCP, MD], [("recursive cast over registered bases with compiled upcast functions", MCC), ("base/derived lists", MCP)],
 [("base list, derived list", "mutually inverse direct relations", MCP)], ["meta_cast, MetaClass::inheritedFrom/baseClass/derivedClass"])

prop("C11", "Variants of polymorphic objects can be used as any registered base",
 "A variant holding an object, a reference to one or a pointer to one can be queried and accessed as any registered base of its dynamic type: is is true, ref and data designate the base sub-object of the very same object, and to<Base*> yields the same address as the C++ conversion; for unrelated or unregistered classes all of them fail, and constness is respected. The class reported for the variant is the dynamic class of the object, and null pointers and unregistered classes are handled without undefined behaviour.",
 ["programs", "inputs"], "all hierarchies, dynamic/static/requested class triples, storage forms (value, reference, pointer, pointer to const) and null pointers",
 "Tests cover one hierarchy with pointers at offset zero or one fixed offset and no null pointers.",
 [VH, VI, MCC], [("dynamic class info stored per content", VI), ("cast through the registered hierarchy", VH)], [], ["variant::is/ref/cref/data/to/metaClass"])

prop("C12", "Invoking a reflected method is equivalent to calling it directly",
 "Invoking a method by reflection, on an object held by value, by reference or by pointer, calls exactly the registered function exactly once with exactly the given arguments, and returns exactly its result (an alias for reference results, an empty variant for void), with the same effect on the object and letting its exceptions through. A wrong number of arguments is refused with invoke_error, a non-const method on a const instance or through a pointer to const, or on a wrong class, is refused with a cast error, an unknown name with runtime_error, and a refused call runs nothing.",
 ["inputs", "programs"], "all signatures up to ten arguments over by-value/reference/const parameters, const/non-const/static/inherited methods, all instance forms and argument values",
 "Tests call a dozen methods with fixed arguments; arity limits, instance forms and refusals are sampled sparsely.",
 [MD, MI, VI, VH], [("method invokers and argument packing", MD)], [], ["MetaMethod::invoke, variant::invoke"])

prop("C13", "Arguments reach the callee with the right value, identity and value category",
 "When a reflected function is invoked, a lvalue-reference parameter binds to the caller's own object (or the object inside a passed variant), a const reference or by-value parameter receives an equal value, converting through a registered converter when types differ, and an rvalue-reference parameter accepts only rvalue arguments and may move from them. Arguments whose type cannot be used are refused with a cast error before the callee runs, and arguments taken by value or const reference are left unchanged.",
 ["inputs", "programs"], "all combinations of parameter kinds, argument forms (lvalue, const lvalue, rvalue, variant of value/reference/const reference, temporary variant) and argument types",
 "Tests try a few parameter kinds with matching arguments; the cross product with variants, constness and conversions is not covered.",
 [AI, VH, MD], [("argument wrapper remembers value category and binds by parameter kind", AI)], [], ["callee-recorded parameters, caller's objects after the call"])

prop("C14", "Reflected constructors find the right overload and build equal objects",
 "Every registered class offers default, copy and move constructors exactly when the C++ class does, plus each constructor declared, each once and found by its signature; invoking one yields a variant holding an object equal to the one direct construction gives, with copy construction leaving its source intact and move construction taking from it. Wrong argument counts or types are refused without leaking or constructing anything.",
 ["programs", "inputs"], "all classes by constructibility traits, all constructor signatures, argument values and forms",
 "Tests use two or three classes and fixed values.",
 [MD, "src/metaconstructor.cpp", "include/rtti/metaconstructor.h", CTC], [("automatic special constructors, signature lookup, constructor invoker", MD)], [], ["getConstructor, defaultConstructor, copyConstructor, moveConstructor, invoke"])

prop("C15", "Properties read and write exactly the underlying member or accessor",
 "Getting a property yields the current value (an alias where a member or reference is exposed) and setting it stores exactly the given value, converting if needed, into that one member of that one object or the one static, leaving everything else unchanged, for members, statics, accessor pairs and inherited properties and for objects held by value, reference or pointer. Writing a read-only property, using a static property with an instance or a member property without one, is refused with invoke_error, writing through a const instance or with an inconvertible value is refused with a cast error, and a refused write changes nothing.",
 ["inputs", "programs", "histories"], "all histories of get/set over objects in all instance forms, all property kinds and value types",
 "Tests read and write a few properties once.",
 [MD, VH, VI, "src/metaproperty.cpp"], [("property invokers for members, statics and accessor pairs", MD)], [], ["MetaProperty::get/set/readOnly, variant::get_property/set_property"])

prop("C16", "The registry contains exactly what was declared, once, in declaration order",
 "After any sequence of declarations, every namespace and class contains exactly the declared items per category: each is found by its name and by its index in declaration order, counts match, unknown names and out-of-range indexes give null, and enumeration visits all items in order and stops when asked. Re-opening a namespace or class or repeating a declaration changes nothing and returns the existing item. Each item reports its own category, name, owner and the qualified name made of the owner chain, and none of this ever changes later.",
 ["histories"], "all sequences of nested declarations, with repetitions, re-opening and interleaved queries, arbitrary names",
 "Tests check a fixed registry of a handful of items.",
 [CTC, CTP, ITC, ITP, MD, "src/metanamespace.cpp", "src/metamethod.cpp", "src/metaproperty.cpp", "src/metaenum.cpp", MCC], [("per-category list with name index", CTP), ("create-or-find functions", CTC)],
 [("item lists and name index", "name index and vector agree; append-only", CTP)], ["get*/count/for_each_*/name/owner/qualifiedName/category"])

prop("C17", "Methods and properties are looked up in the class, then its bases in order",
 "Looking up a method by full signature or by bare name, or a property by name, finds the class's own first-declared match, otherwise the first match in its bases in declaration order, depth first, and null if there is none; a derived declaration of the same name or signature always hides the base one and never removes or changes it. What is found does not depend on how the hierarchy was registered in time.",
 ["programs", "histories"], "all hierarchies with arbitrary distributions of same-named members, all registration orders that respect base-before-derived",
 "Tests have one hierarchy with one inherited method and property.",
 [MCC, CTC, "src/metamethod.cpp", "src/metaproperty.cpp"], [("inheritance aware lookup", MCC), ("signature/short name matching", CTC)], [], ["getMethod/getProperty, invoke through variants"])

prop("C18", "Deferred definitions run exactly once, on demand, and are invisible otherwise",
 "A definition given lazily for a namespace or class runs exactly once, no later than the first query that could observe its content, and never before someone asks; afterwards the registry is exactly as if the same declarations had been made eagerly. Nested and re-entrant queries during the deferred definition neither rerun it nor deadlock, forcing runs all pending definitions below, and giving a second deferred definition while one is pending is refused with definition_error and changes nothing.",
 ["histories"], "all registries with lazy parts at any depth, all orders of first queries, forcing at any point, definitions that query or extend the registry themselves",
 "Tests have one or two lazy classes accessed in a fixed order.",
 [CTC, CTP, MD], [("pending definition executed by first access", CTC)], [("pending definition", "present until run exactly once", CTP)], ["any container query, forceDeferredDefine"])

prop("C19", "Attributes and enum elements behave as insertion-ordered dictionaries",
 "Attributes of any item and elements of any enum form an insertion-ordered dictionary: each name maps to the last value stored under it, overwriting keeps its position, positions 0..count-1 enumerate names and values in first-insertion order, and names and values are found by exact match only. Missing names and positions yield the empty variant or empty string, empty names are ignored, enumeration stops when asked, references to values and names obtained earlier stay valid and show the last stored value, and attributes land on the item being defined.",
 ["histories", "inputs"], "all sequences of insertions, overwrites and queries with arbitrary names and value types",
 "Tests store two or three attributes.",
 [ITC, ITP, "src/metaenum.cpp", MD], [("vector plus name index", ITP)], [("named value list", "index and vector agree", ITP)], ["attribute*/element*/for_each_*"])

prop("C20", "Invalid definitions are rejected and leave the registry unchanged",
 "Registering one C++ class under two different names or places is refused with duplicate_metaclass, naming an unregistered class as base is refused with unregistered_metaclass, and a failed declaration leaves counts, lookups, inheritance relations and later definitions as if it had not been attempted. Every class is found from its type, its type id and its type name exactly if its registration succeeded.",
 ["histories"], "all sequences of valid and invalid declarations in any order",
 "Tests check that one such error is thrown, not the state afterwards.",
 [MCC, MD, MTC], [("checks in class creation and base registration", MCC)], [], ["exceptions, MetaClass::find, MetaType::metaClass, counts"])

prop("C21", "Queries, conversions and first-use registration are safe from many threads",
 "Any number of threads may at the same time obtain type ids, look up and enumerate items, take qualified names, trigger deferred definitions, register and use converters, cast, and use their own variants; every thread observes only complete, correct results as in some sequential order, a deferred definition runs exactly once and nobody sees it half done, and there is no data race, deadlock or crash.",
 ["schedules"], "all interleavings of concurrent queries, first uses and converter registration by several threads",
 "All unit tests are single-threaded.",
 [CTC, CTP, ITC, ITP, MTC, MCP], [("shared mutexes on lists, atomic deferred lock, static initialisation", CTP)], [], ["results per thread, ThreadSanitizer"])

prop("C22", "The type-list, function-traits and signature toolkit computes the exact answers",
 "For every type list, the operations size, get, index, contains, append/concatenate, map, filter, fold and the like give what the corresponding operation on an ordinary sequence gives; for every callable type the traits report its exact result, class, arguments, arity, constness and uniform signature; signatures and type names render exactly the name and the parameter types, distinct for distinct parameter lists. The helper traits (size, array length, pointer depth, const mask, removal of cv and decay at every level, base type, template arguments, detection of members) are exact for every type.",
 ["programs", "inputs"], "all type lists and callable types (generated programs)",
 "Tests assert a few instances.",
 ["include/rtti/typelist.h", "include/rtti/function_traits.h", "include/rtti/signature.h", "include/rtti/typename.h", MIS], [("template metafunctions", "include/rtti/typelist.h")], [], ["static results of the metafunctions"])

prop("C23", "Dynamic construction and destruction by type behave like new and delete",
 "Constructing an instance through a type descriptor gives a separately owned object: value- or default-initialised as C++ default construction gives for class types, equal to the source when copied, moved from the source when movable, and for arrays element by element; destructing it runs each destructor once and frees the memory. Asking for a construction the type does not support is refused with runtime_error, an invalid type gives a null pointer, and a throwing constructor leaks nothing.",
 ["inputs", "fault_sequences"], "all constructible types including arrays and over-aligned ones, all construct modes, every position at which a constructor or allocation may throw",
 "Tests construct a couple of types.",
 [MT, MTC], [("type function table", MT), ("construct/destruct", MTC)], [], ["MetaType::construct, destruct"])

prop("C24", "Scope guards run exactly once on every exit path; ids compare exactly",
 "A scope guard declared in a block runs its action exactly once when the block is left, by falling through, returning, breaking out or an exception, in reverse order of declaration and never earlier. The small helper values (tagged ids) compare and hash exactly like their underlying values and are invalid exactly for the reserved value; flag enumerations combine like the integers behind them.",
 ["inputs", "histories"], "all nestings of guarded blocks and exit paths; all underlying values",
 "There is no direct test of these helpers.",
 ["include/rtti/finally.h", "include/rtti/tagged_id.h"], [("FINALLY guard object", "include/rtti/finally.h")], [], ["recorded action order; id comparison"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P), "properties")
