# What each check builds and runs. Case counts live next to the laws in harness/*.cpp.
SPECS = {
    "C01": dict(src=["c01_value.cpp", "c01_tree.cpp"], technique="model-based property testing of operation histories",
                note="Random histories compared step by step with a typed model under ASan/UBSan; no failure found in the explored histories, not a proof. Assumes the harness' value equality of the ~50 content kinds."),
    "C02": dict(src=["c02_lifetime.cpp", "c02_exit.cpp", "c02_uses.cpp"] + [f"c02_uses{i}.cpp" for i in range(6)], technique="model-based property testing of histories with injected constructor and allocation faults",
                note="Object ledger, heap balance and ASan/UBSan over random histories and fault positions; sampled, not exhaustive. One known finding (moved-from in-place objects)."),
    "C03": dict(src=["c03_alias.cpp"], technique="model-based property testing of aliasing histories",
                note="Random histories over aliases and objects of 25 types against an identity/constness model, object ledger and ASan/UBSan; sampled."),
    "C07": dict(src=["c07_compat.cpp"], gen="gen_c07.py", technique="property-based testing against a model of the C++ conversion rules, itself checked against the compiler",
                note="All pairs of the enumerated types are drawn with high probability; deeper pointer chains are sampled. Only types with the same decayed type are judged."),
    "C04": dict(src=["c04_access.cpp", "c04_int.cpp", "c04_ptr.cpp", "c04_class.cpp", "c04_string.cpp", "c04_misc.cpp"], technique="property-based testing against a model of the C++ conversion rules",
                note="43 stored types x 5 ways to store x 69 requested types x 17 accessors, drawn at random; the rule model is the one C07 checks against the compiler. Class hierarchies are C11's subject. Binding a temporary pointer made from an array to an rvalue reference is not judged."),
    "C05": dict(src=["c05_facts.cpp"], gen="gen_c05.py", flags=["-O0"], technique="property-based testing over generated type definitions; differential against the compiler's own traits",
                note="About 1300 types per seed (fixed and generated classes, unions, enums in 21 shapes). Comparability of arrays, and class facts of arrays and pointers to arrays, are not judged."),
    "C06": dict(src=["c06_identity.cpp", "c06_volume.cpp"], so=["c06_mod_a.cpp", "c06_mod_b.cpp"], technique="property-based testing of request histories in fresh processes, across three modules and several threads",
                note="~680 types from three modules, and 1020 from one; every case starts with an empty registry. Unloading a module is outside the domain. Six known findings: types which the compiler prints alike share an id."),
    "C08": dict(src=["c08_convert.cpp", "c08_volume.cpp"], technique="model-based property testing of registration and conversion histories in fresh processes",
                note="19 type pairs (and 306 between 18 classes), 12 forms of converters; every case starts with an empty registry. Converters to pointer-to-const and member functions returning references are outside the domain (they do not compile)."),
    "C09": dict(src=["c09_equal.cpp"], technique="model-based and metamorphic property testing (symmetry, negation, hash agreement)",
                note="56 kinds of content; NaN (whose comparison with itself is not reflexive) is not judged. eq where both converter directions exist and disagree is not judged."),
    "C10": dict(src=["c10_cast.cpp", "c10_large.cpp", "large_ops.cpp"], gen="gen_hier.py", flags=["-O0"], technique="property-based testing over generated class hierarchies and registration histories; differential against dynamic_cast",
                note="20 generated hierarchies per seed (56 in thorough runs). Ambiguous bases are not judged (the library has no notion of them); private inheritance and direct bases which are themselves ambiguous are outside the domain."),
    "C11": dict(src=["c11_poly.cpp", "c11_large.cpp", "large_ops.cpp"], gen="gen_hier.py", flags=["-O0"], technique="property-based testing over generated class hierarchies and registration histories; differential against the compiler's own conversions",
                note="20 generated hierarchies per seed (56 in thorough runs), 9 ways of holding an object. Ambiguous bases, and references to pointers to sub-objects (which the library may refuse), are not judged."),
    "C13": dict(src=["c13_args.cpp"], gen="gen_calls.py", flags=["-O0"], technique="property-based testing over generated signatures and argument lists against a model of C++ argument passing",
                note="92 signatures per seed (188 in thorough runs) over 14 parameter types in 6 kinds, 17 argument types in 18 forms. Parameters of type variant, rvalue reference results and arrays by reference are outside the domain (they are refused or do not compile); pointers to bases behind a non-const reference are not judged."),
    "C12": dict(src=["c12_invoke.cpp"], gen="gen_calls.py", flags=["-O0"], technique="property-based testing over generated signatures, instances and argument lists against a model of direct calls",
                note="92 signatures per seed (188 in thorough runs), each as free, static, (const) member and inherited function, 14 instance forms. Methods on variants of non-class content and on null pointers are outside the domain (the direct call is undefined)."),
    "C14": dict(src=["c14_ctors.cpp"], gen="gen_ctors.py", flags=["-O0"], technique="property-based testing over generated classes, constructor signatures and argument lists against a model of direct construction",
                note="48 classes per seed (120 in thorough runs) over constructibility, size and alignment, with 0 to 5 declared constructors each, and registration histories in fresh processes. Classes which can neither be copied nor moved are outside the domain (registering their constructors does not compile)."),
    "C15": dict(src=["c15_props.cpp"], gen="gen_props.py", flags=["-O0"], technique="model-based property testing of get/set histories",
                note="224 properties (members, const members, statics, globals and accessor pairs over 14 value types), 14 instance forms, values of 17 types in 18 forms. Array properties do not compile; getters which are not const, and writing move-only values (the library copies), are outside the domain."),
    "C16": dict(src=["c16_registry.cpp", "c16_volume.cpp", "registry.cpp"], gen="gen_registry.py", flags=["-O0"], technique="model-based property testing of declaration histories in fresh processes",
                note="18 names, 12 classes, namespaces up to 3 deep. Attributes on methods, properties and constructors are not asserted (the definition syntax gives them no target); empty names and names of methods with '(' are outside the domain."),
    "C18": dict(src=["c18_lazy.cpp", "c18_volume.cpp", "registry.cpp"], gen="gen_registry.py", flags=["-O0"], technique="model-based property testing of declaration histories in fresh processes",
                note="The content of every deferred definition is drawn when it is called. Definitions which throw are outside the domain. Whether a declaration into a container starts its deferred definition is left open. Several threads are C21's subject."),
    "C19": dict(src=["c19_dict.cpp", "c19_volume.cpp", "registry.cpp"], gen="gen_registry.py", flags=["-O0"], technique="model-based property testing of dictionary histories in fresh processes",
                note="Attributes on methods, properties and constructors are not asserted; setting attributes from within an enumeration of the same item is outside the domain."),
    "C20": dict(src=["c20_invalid.cpp", "registry.cpp"], gen="gen_registry.py", flags=["-O0"], technique="model-based property testing of declaration histories in fresh processes",
                note="12 classes with 5 base relations, 18 names. Naming a class which is not a base, or the class itself, as base does not compile or is outside the domain."),
    "C17": dict(src=["c17_lookup.cpp", "c17_large.cpp", "large_ops.cpp"], gen="gen_hier.py", flags=["-O0"], technique="property-based testing over generated class hierarchies and registration histories against a reference lookup",
                note="20 generated hierarchies per seed (56 in thorough runs); methods on ambiguous bases are looked up but not called; static members are not called on instances."),
    "C21": dict(src=["c21_threads.cpp"], san="tsan", flags=["-DPBT_NO_HEAP"], technique="property-based testing of concurrent histories in fresh processes under ThreadSanitizer, with a linearizability check",
                note="2 to 4 threads; schedules are the operating system's, varied by barriers, pauses and yields in the definitions, so a rare interleaving may be missed where no data race gives it away. Declaring from several threads outside of deferred definitions is not claimed; nor is finding a class by its type while another thread is still declaring it."),
    "C22": dict(src=["c22_toolkit.cpp"], gen="gen_c22.py", flags=["-O0"], san="none", technique="property-based testing over generated programs against a model in Python",
                note="About 6000 generated entries per seed (30000 in thorough runs). C-style variadic functions are outside the domain; the order in which duplicates are removed is not asserted."),
    "C23": dict(src=["c23_construct.cpp"], flags=["-O0"], technique="model-based property testing of construction histories with injected constructor and allocation faults",
                note="115 tracked and 41 ordinary types. Classes with their own operator new, and descriptors of reference types, are outside the domain; the value of default-made scalars is not judged."),
    "C24": dict(src=["c24_helpers.cpp"], flags=["-O0"], technique="model-based property testing of generated programs of guarded blocks; differential against plain values",
                note="11 guarded constructs nested up to 5 deep. Actions which throw are outside the domain (they are noexcept), as is move-assigning guards."),
}
