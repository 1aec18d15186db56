#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []
D = "fieldx_derive/src/"
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "A lazy field is built exactly once per uninitialized period, on first read",
  "The lazy builder of a field runs exactly when an uninitialized field is first read (accessor, mutable accessor or reader) and never otherwise: not on construction, not by a predicate, setter, writer or clearer, and not on any later read until the field is cleared. Every read returns the value most recently built or stored, a lazy field which was given a value (by the struct builder, a field default, a setter or a writer) never runs its builder while it holds that value, and lazy builders that read other lazy fields see those fields initialized regardless of order.",
  ["programs", "histories"],
  "for every struct declaration with lazy fields (plain, sync and async; value kinds; accessor modes; reference counted or not; generic or not; arguments at struct or field level) and every finite single-threaded sequence of helper calls on it",
  "The tests run a handful of fixed declarations with one or two fixed call sequences each; the guarantee quantifies over all declarations the macro accepts and all interleavings of get/set/clear/has/read/write.",
  [D+"codegen/plain.rs", D+"codegen/sync.rs", D+"codegen/sync/impl_async.rs", "fieldx/src/sync/fxproxy.rs", "fieldx/src/async/fxproxy.rs"],
  [("OnceCell get_or_init in plain accessors", D+"codegen/plain.rs field_lazy_initializer"),
   ("lazy proxy read_or_init", "fieldx/src/sync/fxproxy.rs, fieldx/src/async/fxproxy.rs")],
  [("is_set / value", "whether the lazy field holds a value", "fieldx/src/sync/fxproxy.rs")],
  ["generated helper methods", "invocation count of the user's lazy builder"])

p("C02", "Concurrent reads of a sync lazy field initialize it exactly once",
  "Whatever the thread schedule, concurrent accesses to a sync lazy field behave as if they were executed one at a time in some order consistent with real time: at most one builder call succeeds per uninitialized period, every reader sees the completely built or stored value, none sees a cleared, partial or older one, and no call blocks forever. The predicate answers true only when a value has been stored and not cleared.",
  ["schedules", "histories"],
  "for every interleaving, at synchronization-operation granularity, of 2 to 4 threads each running a short sequence of get, get_mut, read, write+store, write+clear, set, clear and has calls on lazy fields of a sync struct, with builders that yield or read other lazy fields",
  "The threaded tests run real threads on a few fixed scenarios and see only the schedules the OS happens to produce; a lost re-check after lock upgrade or a flag published too early needs one specific preemption.",
  ["fieldx/src/sync/fxproxy.rs", D+"codegen/sync.rs", D+"codegen/sync/impl_sync.rs"],
  [("upgradable read then upgrade before building", "fieldx/src/sync/fxproxy.rs read_or_init"),
   ("write guard store/clear", "fieldx/src/sync/fxproxy.rs FXWrLockGuardSync")],
  [("is_set", "atomic mirror of value.is_some()", "fieldx/src/sync/fxproxy.rs")],
  ["history of call intervals and results", "builder invocations"])

p("C03", "Async lazy fields initialize once under any task interleaving and cancellation",
  "Whatever the order in which tasks are polled, and wherever a pending access is cancelled, an async lazy field runs at most one successful builder per uninitialized period, every completed read returns a value that was built or stored and not yet superseded, and the observed history is explainable by some sequential order. A cancelled or failed initialization leaves the field unset, usable and not locked: later accesses complete and build again.",
  ["schedules", "fault_sequences", "histories"],
  "for every poll order of up to 5 tasks performing get, get_mut, read, write+store/clear, set, clear and has on async fields, builders suspending any number of times, and every choice of suspension point at which a task is dropped",
  "Async tests use a real runtime on fixed scenarios and never cancel an in-flight initialization; the property quantifies over all poll orders and all cancellation points.",
  ["fieldx/src/async/fxproxy.rs", "fieldx/src/async/fxlock.rs", D+"codegen/sync/impl_async.rs", D+"codegen/sync.rs"],
  [("write lock held across the awaited builder", "fieldx/src/async/fxproxy.rs read_or_init"),
   ("store/clear of the async write guard", "fieldx/src/async/fxproxy.rs FXWrLockGuardAsync")],
  [("is_set", "atomic mirror of value.is_some()", "fieldx/src/async/fxproxy.rs")],
  ["poll results, builder invocations"])

p("C04", "Setter, clearer, predicate and optional accessor agree on one stored value",
  "For optional and lazy fields of any concurrency mode the predicate is true exactly when the field holds a value; the setter stores its argument and returns precisely the value it replaced (nothing if there was none), and the clearer returns the value held and leaves the field empty. For ordinary fields the setter returns the replaced value; every value put into a struct is handed back, dropped on replacement, or still held - exactly once, never duplicated or leaked - and operations on one field never change another.",
  ["programs", "histories"],
  "for every declaration with optional, lazy or ordinary fields (any mode, with or without locks, interior mutability and value conversion) and every sequence of set, clear, has, get, write and take calls",
  "Tests cover a few fixed field flavours with one linear script; combinations such as optional + interior mutability + converting setter, or clear twice in a row, are not sampled.",
  [D+"codegen/plain.rs", D+"codegen/sync.rs", D+"ctx/field.rs", "fieldx/src/sync/fxproxy.rs", "fieldx/src/async/fxproxy.rs"],
  [("field_setter / field_clearer / field_predicate", D+"codegen/plain.rs, "+D+"codegen/sync.rs"),
   ("store/clear", "fieldx/src/sync/fxproxy.rs, fieldx/src/async/fxproxy.rs")],
  None, ["return values of helpers", "drop counts of stored values"])

p("C05", "A failing lazy builder surfaces its error, leaves the field unset and is retried",
  "When a fallible lazy builder returns an error, the access that triggered it returns exactly that error and the field stays unset (predicate false, nothing to clear), with other fields unaffected; the next access calls the builder again and, once it succeeds, its value is stored and the builder is not called any more. A builder that panics likewise leaves the field unset, unlocked and retryable, in every concurrency mode.",
  ["fault_sequences", "histories", "programs"],
  "for every pattern of builder outcomes (ok, error, panic) over time interleaved with every sequence of helper calls on fallible and infallible lazy fields, at field or struct level, of plain, sync and async structs",
  "Tests inject one failure into one or two declarations; retry after several failures, failure after clear, failure through get_mut or reader, panics and failures in nested builders are not covered.",
  [D+"codegen/plain.rs", D+"codegen/sync.rs", "fieldx/src/sync/fxproxy.rs", "fieldx/src/async/fxproxy.rs", D+"codegen/codegen_trait.rs", "fieldx_aux/src/fallible.rs"],
  [("try_read / try_read_mut", "fieldx/src/sync/fxproxy.rs, fieldx/src/async/fxproxy.rs"),
   ("get_or_try_init", D+"codegen/plain.rs")],
  None, ["accessor results", "builder invocation count"])

p("C06", "All ways of reading and writing a field observe the same value",
  "For any non-lazy or lazy field, the accessor in each of its modes (reference, guard, copy, clone, as-reference option), the mutable accessor, the reader and the writer all refer to one and the same stored value: what is written through any of them is what each of the others subsequently returns, and mutating in place changes only that field. A copying or cloning accessor returns an independent value and never an alias, and the value kind returned (value, optional value, reference to optional, optional reference) follows the declaration in every concurrency mode.",
  ["programs", "histories"],
  "for every declaration combining accessor modes with optional/lazy/locked/unlocked/interior-mutability fields and concurrency modes, and every sequence of reads and writes through every generated view",
  "Each test looks at one accessor mode of one field flavour; cross-view coherence for all flavours and sequences is not exercised.",
  [D+"codegen/plain.rs", D+"codegen/sync.rs", D+"ctx/field.rs", "fieldx/src/sync/fxlock.rs", "fieldx/src/async/fxlock.rs"],
  [("field_accessor, field_accessor_mut, field_reader, field_writer", D+"codegen/plain.rs, "+D+"codegen/sync.rs"),
   ("accessor mode resolution", D+"ctx/field.rs accessor_mode/is_copy/is_clone")],
  None, ["return values of accessors"])

p("C07", "The struct builder delivers every given value and reports missing required ones",
  "A struct built through its builder holds, in each field, exactly the last value given for it; fields not given take their declared default, stay lazy or empty, and a field that is required (explicitly, or because it has no default and is neither lazy nor optional) makes the build fail with an error naming the first such field in declaration order, of the requested error type. A failed build consumes nothing: supplying the missing values and building again succeeds with all previously given ones, and a post-build hook runs exactly once, on the complete object, after a successful build only.",
  ["programs", "histories", "inputs"],
  "for every declaration with a builder (struct-wide, opt-in, per-field required/converting/off, custom error type or variant, post-build hook, defaults, any concurrency mode, reference counted or not) and every sequence of builder calls with any subset of fields, repeated setters and repeated builds",
  "Tests build a few fixed structs with either all or one missing field; subsets, orders, repeated builds, and combinations with defaults, laziness, conversion, locks and error variants are not sampled.",
  [D+"codegen.rs", D+"codegen/codegen_trait.rs", D+"codegen/plain.rs", D+"codegen/sync.rs", "fieldx_aux/src/builder_helper.rs", "fieldx/src/error.rs"],
  [("builder_impl: checkers before construction", D+"codegen.rs"),
   ("field_builder_value_required, field_builder_value_for_set", D+"codegen/codegen_trait.rs"),
   ("field_builder_setter", D+"codegen/plain.rs, "+D+"codegen/sync.rs")],
  None, ["result of build()", "field values afterwards"])

p("C08", "Default construction puts exactly the declared defaults into fields",
  "A struct made by its generated constructor or by the default trait holds, in each field, the declared default value when there is one, otherwise the type's own default for ordinary fields and nothing for optional and lazy fields; default expressions are evaluated afresh for every instance and only for fields that need them. A disabled default or constructor is really absent, a default given to a lazy field serves until it is cleared, after which the lazy builder takes over.",
  ["programs", "inputs"],
  "for every declaration with any placement of default values (literal, path, call, self-relative) over fields of every flavour and mode, with the constructor on or off",
  "Tests check a few literals on a few field flavours.",
  [D+"codegen.rs", D+"codegen/codegen_trait.rs", "fieldx_aux/src/default_arg.rs", D+"ctx/codegen.rs"],
  [("field_default_value / field_default_wrap", D+"codegen/codegen_trait.rs, plain.rs, sync.rs"),
   ("needs_default / needs_new", D+"ctx/codegen.rs, "+D+"util/args.rs")],
  None, ["values after new()/default()", "number of default evaluations"])

p("C09", "Interior-mutability fields mutate through shared references, borrow rules kept",
  "A field with interior mutability can be set, cleared and mutably accessed through a shared reference to its struct, and behaves as one cell: any sequence of reads and writes through shared references gives the same results as on an ordinary field. Overlapping a mutable borrow with any other borrow of the same field is refused (panics) and leaves the value intact, while borrows of distinct fields never interfere and a copying or cloning accessor releases its borrow at once.",
  ["programs", "histories"],
  "for every plain struct whose fields get interior mutability at struct or field level, optional or not, with every accessor mode, and every sequence of operations including overlapping guards",
  "The tests have one fixed script per flavour and never overlap borrows.",
  [D+"codegen/plain.rs", D+"ctx/field.rs", D+"fields.rs"],
  [("RefCell wrapping", D+"codegen/plain.rs type_tokens, field_accessor, field_accessor_mut, field_setter, field_clearer")],
  None, ["return values", "panics on conflicting borrows"])

p("C10", "Reference-counted structs know themselves and are freed exactly once",
  "An object of a reference-counted struct, whether made by the constructor or by the builder, is returned inside a counting pointer (thread-safe one for sync and async structs), and asking it for itself yields a pointer to that very object as long as it is alive, from any method and any lazy builder. Self references never keep the object alive: once the last user-held pointer is gone the object is dropped exactly once and previously taken weak pointers no longer upgrade; strong and weak counts are those the user's own pointers account for.",
  ["programs", "histories"],
  "for every reference-counted declaration (plain, sync, async; builder, post-build hook, lazies, renamed self accessor) and every sequence of cloning, downgrading, self-referencing, lazy building and dropping",
  "The tests check that upgrading succeeds once in a fixed script; they do not check leaks, pointer identity across histories, or counts.",
  [D+"codegen.rs", D+"codegen/codegen_trait.rs", D+"ctx/codegen.rs"],
  [("new_cyclic construction", D+"codegen/codegen_trait.rs maybe_ref_counted_create"),
   ("myself methods", D+"codegen.rs myself_methods")],
  None, ["pointer equality, counts, drops"])

p("C11", "Serialization round-trips values and honours per-field control",
  "Serializing a struct and deserializing the result gives a struct with equal field values; the serialized form is a map with one entry per serializable field under its effective name, holding the plain value (null for an empty optional field), and lazy fields are initialized by their builders before being written. Fields whose (de)serialization is off are neither written nor read and get their default on input; missing input entries take the declared serialization default, or else leave lazy and optional fields unset, or else are an error, and a lazy field missing from the input is built on first read.",
  ["programs", "inputs"],
  "for every declaration with serialization support (struct or field level on/off, serialize or deserialize only, renames, defaults, custom shadow name, optional/lazy/locked/interior-mutability fields, generics, any mode) and every combination of field values and of present, missing and null input entries",
  "Tests marshal one object per fixed declaration; the space of flags x field flavours x values x partial inputs is open.",
  [D+"codegen/serde.rs", D+"codegen/plain.rs", D+"codegen/sync.rs", "fieldx_aux/src/serde_helper.rs", D+"ctx/field.rs"],
  [("shadow struct and conversions", D+"codegen/serde.rs"),
   ("field_from_shadow / field_from_struct", D+"codegen/plain.rs, "+D+"codegen/sync.rs")],
  None, ["JSON text, deserialized values"])

p("C12", "Lock and lazy containers are transparent: clone, compare, convert without loss",
  "Creating, cloning, comparing, defaulting, formatting and unwrapping the sync and async field containers - and structs deriving these traits over them - behaves exactly as on the wrapped values: a clone equals its source yet is independent of it, equality holds exactly when the held values (or absence of them) are equal, unwrapping gives back the very value. It does so within an async runtime too, as long as no task is writing to the field. A clone of a lazy field keeps its state and its builder: set stays set, unset is built on demand for the clone's own owner.",
  ["histories", "inputs"],
  "for every sequence of create/store/clear/read/clone/compare/convert operations over a population of containers and of derived structs holding them",
  "Tests check that cloning and comparison compile and work on one set value.",
  ["fieldx/src/sync/fxlock.rs", "fieldx/src/async/fxlock.rs", "fieldx/src/sync/fxproxy.rs", "fieldx/src/async/fxproxy.rs"],
  [("Clone/PartialEq/Eq/From/Default/Debug/into_inner impls", "fieldx/src/sync/*.rs, fieldx/src/async/*.rs")],
  None, ["results of trait methods"])

p("C13", "Generated methods have exactly the requested names, visibility and attributes",
  "Each requested helper becomes one method whose name is the explicit field-level name if given, else the struct-level prefix (or the documented default prefix and suffix) joined with the field's alternative name or own name, and no method exists for helpers that are off or not requested. Its visibility is that of the field's helper argument, else the field's, else the struct's helper argument, else the struct-wide one, else the struct's own (builder setters are public unless the field's builder argument says otherwise); requested attributes are attached to exactly the items they were requested for. The shadow struct made for serde has the fields which aren't excluded, each with the attributes `forward_attrs` lets through and those requested for it.",
  ["programs"],
  "for every combination of names, prefixes, renames, visibilities (private, public, crate, super, in path) and attribute lists at struct and field level over all helper kinds and all concurrency modes",
  "Tests check selected names and two visibilities on fixed structs; precedence combinations across levels, kinds and modes are not enumerated.",
  [D+"codegen/codegen_trait.rs", D+"ctx/field.rs", D+"helper.rs", "fieldx_aux/src/base_helper.rs", "fieldx_aux/src/accessor_helper.rs", "fieldx_aux/src/setter_helper.rs", "fieldx_aux/src/builder_helper.rs", "fieldx_aux/src/attributes.rs"],
  [("helper_name", D+"codegen/codegen_trait.rs"), ("vis_tok", D+"ctx/field.rs"), ("attributes_fn", D+"codegen/codegen_trait.rs")],
  None, ["signatures of the expanded methods"])

p("C14", "Struct-level arguments are defaults: field arguments override and `off` disables",
  "Giving an argument at struct level has the same observable effect as giving it to every field that does not say otherwise, and a field-level argument always wins over the struct-level one, including turning a helper off or back on. Turning any argument off with `off` has the same effect as not giving it at all, except for overriding a struct-level or implied default, and the order in which arguments are written does not matter.",
  ["programs"],
  "for every declaration: rewriting it by moving struct-level arguments to fields or vice versa, adding `off` arguments, overriding with `off`, or permuting arguments yields the same set of methods with the same signatures and behaviour",
  "Tests use fixed declarations; the metamorphic equalities between declarations are never compared.",
  [D+"ctx/field.rs", D+"util/args.rs", D+"fields.rs", D+"util.rs", "fieldx_aux/src/value.rs", "fieldx_aux/src/nesting_attr.rs"],
  [("needs_*/is_* resolution", D+"ctx/field.rs, "+D+"util/args.rs, "+D+"fields.rs")],
  None, ["expanded items of equivalent declarations"])

p("C15", "Every attribute input is either expanded to valid code or rejected with an error",
  "For any tokens given as struct-level or field-level arguments on any item, the macro terminates without panicking and either expands to syntactically valid code or reports at least one compile error; it never silently accepts unknown arguments. Contradictory arguments at the same level (both visibilities, copy with clone, several concurrency modes, lazy with optional or interior mutability, fallible with optional, lock or interior mutability, serialization with reference counting; fallible ones at the field level only), struct-only options on fields and arguments of disabled features are always rejected, and the same arguments where all but one are switched off are accepted.",
  ["inputs", "programs"],
  "for every argument list drawn from the argument grammar, its mutations and arbitrary token trees, on structs, enums, unions, tuple and unit structs",
  "The compile-fail tests hold about a dozen fixed snippets.",
  [D+"lib.rs", D+"input_receiver.rs", D+"fields.rs", D+"util/args.rs", "fieldx_aux/src/util.rs", "fieldx_aux/src/builder_helper.rs", "fieldx_aux/src/syn_value.rs"],
  [("validate_exclusives!", "fieldx_aux/src/util.rs"), ("darling parsing", D+"lib.rs fxstruct")],
  None, ["compiler diagnostics of the expansion"])

p("C16", "Argument parsing used by helper macros is faithful to what was written",
  "Parsing an argument list with the auxiliary crate yields exactly what was written: the on/off state, name, visibility, values, attributes and flags of every helper argument, independent of order and of neighbours, with each unset item reported as absent. Malformed lists (duplicates, unknown or wrongly typed items, too few or too many elements, conflicting flags) are rejected, and re-emitting a parsed attribute list reproduces the same attributes.",
  ["inputs"],
  "for every argument list generated from the grammar of each public argument type, and for mutations of such lists",
  "The auxiliary crate has almost no unit tests of its own; its parsers are exercised only through the fixed declarations of the macro tests.",
  ["fieldx_aux/src/base_helper.rs", "fieldx_aux/src/accessor_helper.rs", "fieldx_aux/src/setter_helper.rs", "fieldx_aux/src/builder_helper.rs", "fieldx_aux/src/default_arg.rs", "fieldx_aux/src/fallible.rs", "fieldx_aux/src/serde_helper.rs", "fieldx_aux/src/attributes.rs", "fieldx_aux/src/syn_value.rs", "fieldx_aux/src/value.rs", "fieldx_aux/src/nesting_attr.rs", "fieldx_aux/src/util.rs", "fieldx_derive_support/src/lib.rs"],
  [("FromMeta / FromNestAttr impls", "fieldx_aux/src/*.rs"), ("fxhelper attribute", "fieldx_derive_support/src/lib.rs")],
  None, ["values returned by the public getters of parsed arguments"])

p("C17", "Sync and async structs are shareable between threads whenever their values are",
  "A sync or async struct all of whose fields are lazy, optional or lock-protected is sendable and shareable between threads for all field types that are themselves so (sendable alone suffices for exclusive access through locks only where the lock grants it), and its helpers can be called from several threads through a shared reference. A plain struct, a skipped or an unprotected field never gains thread-safety its own type lacks.",
  ["programs"],
  "for every sync, async and plain declaration over field types with every combination of thread-safety properties",
  "One test asserts shareability of one struct.",
  [D+"codegen/sync.rs", D+"codegen/sync/impl_async.rs", "fieldx/src/sync/fxproxy.rs", "fieldx/src/sync/fxlock.rs", "fieldx/src/async/fxproxy.rs", "fieldx/src/async/fxlock.rs", D+"ctx/field.rs"],
  [("container selection", D+"codegen/sync.rs type_tokens"), ("marker traits of containers", "fieldx/src/sync, fieldx/src/async")],
  None, ["trait assertions in generated programs"])

p("C18", "Generic structs behave as their concrete instances",
  "A struct generic over types, lifetimes or constants, with bounds inline or in a where clause, gets the same helpers, builder, default, reference counting and serialization as the same struct with the concrete types written out, with every operation behaving identically. The generated items require no bounds beyond those the user declared and those the requested operation itself needs (cloning, copying or defaulting the value).",
  ["programs", "histories"],
  "for every declaration parameterized over one or two types (and lifetimes or constants), each instantiated with several types, under every sequence of helper calls",
  "Tests have one or two generic structs with one instantiation.",
  [D+"codegen.rs", D+"codegen/codegen_trait.rs", D+"ctx/codegen.rs", D+"input_receiver.rs", D+"codegen/serde.rs"],
  [("generic parameter propagation", D+"codegen.rs finalize/builder_impl, "+D+"ctx/codegen.rs struct_generic_params")],
  None, ["compilation and behaviour of generated programs"])

p("C19", "Plain, sync and async variants of one declaration give the same results",
  "For a declaration that is meaningful in more than one concurrency mode, switching the mode (however spelled, at struct or field level) changes only how values are wrapped: the same single-threaded sequence of calls yields the same sequence of values, presence answers, builder invocations and errors in each mode.",
  ["programs", "histories", "configurations"],
  "for every mode-neutral declaration, every pair of concurrency modes, every way to spell the mode, and every call sequence",
  "Tests are written per mode and never compared with one another.",
  [D+"codegen/plain.rs", D+"codegen/sync.rs", D+"codegen/sync/impl_async.rs", D+"ctx/codegen.rs", D+"fields.rs", D+"util/args.rs", "fieldx/src/sync", "fieldx/src/async"],
  [("mode selection", D+"ctx/codegen.rs is_rather_sync, "+D+"fields.rs is_sync/is_async"), ("two code generators", D+"codegen/plain.rs, "+D+"codegen/sync.rs")],
  None, ["observation traces per mode"])

p("C20", "Lock-protected sync fields are linearizable and never lose an update",
  "For lock-protected and optional fields of a sync struct, concurrent readers, writers, setters, clearers, predicates and mutable accessors behave as if executed one at a time in an order consistent with real time: a write guard excludes every other access for as long as it is held, replaced values are returned to exactly one caller, and no update is lost. Calls on different fields never block each other, and no combination of single calls deadlocks.",
  ["schedules", "histories"],
  "for every interleaving at synchronization-operation granularity of 2 to 4 threads running short sequences of helper calls, holding guards across yields, on locked and optional fields of sync structs",
  "The threaded tests exercise two fixed workloads under OS scheduling.",
  [D+"codegen/sync.rs", "fieldx/src/sync/fxlock.rs", "fieldx/src/sync/fxproxy.rs"],
  [("parking_lot lock per field", "fieldx/src/sync/fxlock.rs"), ("helpers taking the lock once", D+"codegen/sync.rs")],
  None, ["history of call intervals and results"])

p("C21", "Generated code does not depend on where and how the struct is declared",
  "A declaration has the same meaning wherever it appears: in crates of editions 2018, 2021 and 2024, in a module, in the body of a function, or made by a macro which is given its attributes, their arguments, names, types and visibilities in pieces. Types, traits, functions, constants, modules and macros of the surrounding module which happen to be named like items of the standard library or of fieldx never change it or make it fail to compile.",
  ["programs", "histories"],
  "for every declaration, every set of names visible where it is declared, every way to split it between a macro and its arguments, and every call sequence",
  "Tests declare structs directly in modules with nothing but standard names around.",
  [D+"codegen.rs", D+"codegen/plain.rs", D+"codegen/sync.rs", D+"codegen/sync/impl_async.rs", D+"codegen/codegen_trait.rs", D+"codegen/serde.rs", D+"ctx/field.rs", D+"util.rs", D+"lib.rs"],
  [("fully qualified paths", D+"codegen*"), ("local names of generated methods", D+"util.rs unify_locals")],
  None, ["compilation and behaviour of generated programs"])

p("C22", "Optional features of the library only add to it",
  "Any combination of the library's cargo features (sync, async, serde, send_guard, diagnostics) can be asked for. A declaration which asks for nothing outside of the features the library is built with compiles and behaves the same whatever other features are on or off. With send_guard on, whatever keeps a lock of a sync struct can be moved to another thread.",
  ["programs", "histories", "configurations"],
  "for every set of features, every declaration needing only those, and every call sequence",
  "The test suite is run with all features on, and with none of them.",
  ["fieldx/Cargo.toml", "fieldx/src/lib.rs", D+"util/args.rs", D+"fields.rs", D+"codegen.rs", D+"ctx/codegen.rs", D+"ctx/field.rs", D+"codegen/sync.rs", D+"codegen/plain.rs", "fieldx_aux/src"],
  [("conditional compilation of the macro", D+"*"), ("guards", "fieldx/src/sync/fxproxy.rs, fieldx/src/sync/fxlock.rs")],
  None, ["compilation and behaviour of generated programs"])

p("C23", "What the macro generates raises no compiler warnings and has no unsafe code",
  "A crate declaring structs gets no warnings of lints which are on by default for what the macro makes of its declarations, whatever edition the crate is of and with whatever features the library is built, so that it can be compiled with warnings denied; nor do generated items contain unsafe code. Warnings about what the user asked for aren't meant: helpers, builders and fields nothing uses, names which are not in the customary style, `clone` of a reference. `myself` and its downgrading counterpart never count as unused.",
  ["programs", "configurations"],
  "for every declaration, edition of the crate declaring it, and set of features with all it asks for",
  "The test suite compiles with warnings on, nothing looks at them; only the declarations of the suite are compiled, in one edition.",
  [D+"codegen.rs", D+"codegen/plain.rs", D+"codegen/sync.rs", D+"codegen/sync/impl_sync.rs", D+"codegen/sync/impl_async.rs", D+"codegen/codegen_trait.rs", D+"codegen/serde.rs"],
  [("lints allowed on generated items", D+"codegen*")],
  None, ["diagnostics of generated programs"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
