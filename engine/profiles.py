"""What is generated for each property which is decided by generated structs and call sequences."""
from gen import profile
import check_fixed, conc, features, threads, variants

# Rules by which a case counts as non-trivial; rt/src/run.rs implements them.
COMMON = ("a case is a generated struct declaration (concurrency mode, helpers, names, defaults at struct and field level), a way "
          "to construct an object and a random sequence of calls; each call's result, builder and default call counts and the "
          "multiset of live values are compared with a reference model; non-trivial: ")
CONC = ("a case is a generated declaration of %s struct, a few %s each making a short sequence of calls (holding what they get "
        "for a while), planned builder failures and %s; the history of each field must be explainable by calls made one at a time, held "
        "values must not change, everything must finish; non-trivial (and different from all other histories): ")
THREADS = CONC % ("a sync", "threads", "the choice of who goes on at each synchronization operation")
CARGS = dict(emit_main=conc.emit_main, package=dict(deps=conc.DEPS, extra=conc.EXTRA), args=["tasks"],
             sizes=dict(quick=dict(programs=16, per=30, cases=400, tasks=4, max_ops=3), thorough=dict(programs=64, per=50, cases=3000, tasks=5, max_ops=5)))
PROFILES = {
    "C01": dict(
        rule=COMMON + "a lazy builder ran and the field was read again or rebuilt after a clear",
        profile=profile(kinds=dict(lazy=7, opt=1, ord=2), deps=0.7, containers=True, fallible=0.3, panics=0.3, rc=0.1,
                        want=dict(get_mut=0.6, reader=0.5, writer=0.5, clearer=0.6, predicate=0.7))),
    "C02": dict(
        rule=THREADS + "calls of different threads on one field overlapped and a lazy builder ran",
        profile=profile(modes=dict(plain=0, sync=1, async_=0), kinds=dict(lazy=6, opt=0.5, ord=0.5), lock=1.0, deps=0.5, fallible=0.3,
                        nfields=(1, 3), skip=0.0, new_ctor=1.0, builder=0.0, rc=0.1, clone=0.35, inner_mut=0.0, default=0.12,
                        need=conc.need,
                        want=dict(get=0.9, get_mut=0.6, set=0.5, reader=0.5, writer=0.6, clearer=0.7, predicate=0.7)), **CARGS),
    "C03": dict(
        rule=CONC % ("an async", "tasks", "the choice of which task is polled next and of where some are dropped") +
             "calls of different tasks on one field overlapped and a lazy builder ran, or a call was cancelled halfway",
        profile=profile(modes=dict(plain=0, sync=0, async_=1), kinds=dict(lazy=6, opt=1, ord=1), lock=1.0, deps=0.5, fallible=0.3,
                        nfields=(1, 3), skip=0.0, new_ctor=1.0, builder=0.0, rc=0.1, inner_mut=0.0, default=0.12, need=conc.need,
                        want=dict(get=0.9, get_mut=0.6, set=0.5, reader=0.5, writer=0.6, clearer=0.7, predicate=0.7)), **CARGS),
    "C20": dict(
        rule=THREADS + "a call changing a field overlapped with a call of another thread on it",
        profile=profile(modes=dict(plain=0, sync=1, async_=0), kinds=dict(lazy=0.7, opt=5, ord=4), lock=1.0, deps=0.5,
                        nfields=(1, 3), skip=0.0, new_ctor=1.0, builder=0.0, rc=0.1, clone=0.35, inner_mut=0.0, default=0.3,
                        need=conc.need,
                        want=dict(get=0.9, get_mut=0.7, set=0.7, reader=0.6, writer=0.7, clearer=0.7, predicate=0.6)), **CARGS),
    "C04": dict(
        rule=COMMON + "a held value was replaced and a held value was cleared",
        profile=profile(kinds=dict(lazy=3, opt=5, ord=2), want=dict(set=0.9, clearer=0.7, predicate=0.7), inner_mut=0.25)),
    "C05": dict(
        rule=COMMON + "a lazy builder failed or panicked and the field was read successfully later",
        profile=profile(kinds=dict(lazy=6, opt=1, ord=1), fallible=0.75, panics=1.0, containers=True,
                        want=dict(predicate=0.7, clearer=0.6, get_mut=0.5, reader=0.6, writer=0.4))),
    "C06": dict(
        rule=COMMON + "a field was read after having been changed through some other helper",
        profile=profile(kinds=dict(lazy=3, opt=4, ord=4), acc_mode=0.5, mixed=0.15, lock=0.4,
                        want=dict(get_mut=0.7, set=0.5, reader=0.7, writer=0.7))),
    "C07": dict(
        rule=COMMON + "a build with some values missing was reported, or some but not all of the fields were given",
        profile=profile(kinds=dict(lazy=3, opt=3, ord=5), builder=1.0, builder_error=0.5, post_build=0.5, required=0.3, opt_in=0.25,
                        no_builder_field=0.2, into=0.35, rc=0.15, skip=0.12, nfields=(2, 6))),
    "C08": dict(
        rule=COMMON + "an object was constructed by `new`, Default or a builder",
        profile=profile(kinds=dict(lazy=3, opt=3, ord=5), default=0.6, new_ctor=0.6, inner_mut=0.2, rc=0.1, skip=0.15, nfields=(2, 6))),
    "C09": dict(
        rule=COMMON + "overlapping borrows of one field were attempted and a value was replaced",
        profile=profile(modes=dict(plain=1, sync=0, async_=0), kinds=dict(lazy=0.5, opt=4, ord=5), inner_mut=0.9,
                        want=dict(get_mut=0.8, set=0.7, clearer=0.6, predicate=0.6))),
    "C10": dict(
        rule=COMMON + "an object was asked for itself while having several handles or from within a lazy builder",
        profile=profile(rc=1.0, builder=0.5, post_build=0.3, kinds=dict(lazy=5, opt=2, ord=2), inner_mut=0.3, builder_error=0.3)),
    "C11": dict(
        after=check_fixed.main,
        rule=COMMON + "a struct went through serialization and back, or was deserialized from an incomplete map",
        profile=profile(serde=1.0, fallible=0.25, panics=0.25, modes=dict(plain=1, sync=1, async_=0.7), nfields=(2, 6), default=0.3)),
    "C12": dict(
        rule=COMMON + "the struct was cloned or compared",
        profile=profile(clone=0.85, containers=True, fallible=0.2, modes=dict(plain=1, sync=3, async_=1.5))),
    "C14": dict(
        rule=COMMON + "more than three calls were made on objects of a declaration and of one or two others got from it by rewritings "
                      "which don't change the documented meaning; all of them must give the same trace",
        variants=variants.equal,
        profile=profile(lift=0.35, off=0.15, inner_mut=0.2, builder=0.5, required=0.3, into=0.3, fallible=0.15, serde=0.15, rc=0.1,
                        nfields=(2, 4), acc_mode=0.45, sacc_mode=0.35)),
    "C19": dict(
        rule=COMMON + "more than three calls were made on objects of one declaration in at least two of the plain, sync and async modes; "
                      "all of them must give the same trace",
        variants=variants.modes,
        profile=profile(modes=dict(plain=1, sync=0, async_=0), inner_mut=0.0, mixed=0.0, lock=0.0, fallible=0.3, panics=0.3, rc=0.15,
                        builder=0.5, builder_error=0.3, post_build=0.3, required=0.3, clone=0.15, serde=0.15, nfields=(2, 5),
                        want=dict(reader=0.0, writer=0.0))),
    "C17": dict(
        rule="a case is a generated struct declaration over field types of all thread-safety classes; whether the struct and its "
             "builder are Send and Sync is compared with what the documented containers give, helpers of shareable structs are "
             "called from two threads through a shared reference and their futures must be Send; each declaration also goes "
             "through some random histories; non-trivial: the type of some field is not both Send and Sync",
        variants=threads.variants, count=threads.count,
        sizes=dict(quick=dict(programs=20, per=70, cases=20), thorough=dict(programs=96, per=100, cases=50)),
        profile=profile(modes=dict(plain=2, sync=5, async_=3), kinds=dict(lazy=4, opt=3, ord=3), mixed=0.2, lock=0.5, inner_mut=0.2,
                        deps=0.3, builder=0.5, rc=0.2, generics=0.2, new_ctor=1.0, nfields=(1, 4), skip=0.1,
                        types=["Cp", "u64", "String", "Vec<u64>", "Cp", "String"] + threads.ODD, inst=["Cp", "String"] + threads.ODD[:3])),
    "C21": dict(
        rule=COMMON + "more than three calls were made on an object of a struct which is declared in a function's body, in a module having items "
                      "named like the standard ones or fieldx's, or by a macro some pieces of the declaration are handed to",
        variants=variants.placed,
        profile=profile(acc_mode=0.4, fallible=0.3, builder=0.5, builder_error=0.4, post_build=0.3, rc=0.15, clone=0.2, serde=0.2, into=0.3,
                        generics=0.2, default=0.4, inner_mut=0.2, lock=0.3, mixed=0.1, opt_in=0.15, required=0.2, new_ctor=0.5,
                        want=dict(get_mut=0.6, reader=0.5, writer=0.5, set=0.6, clearer=0.5, predicate=0.5))),
    "C22": dict(
        rule=COMMON + "more than three calls were made on an object of a struct which was compiled against the library having some of its features only",
        sets=features.sets,
        sizes=dict(quick=dict(programs=4, per=60), thorough=dict(programs=16, per=80)),
        profile=profile(acc_mode=0.4, fallible=0.3, builder=0.5, builder_error=0.4, post_build=0.3, rc=0.15, clone=0.2, serde=0.35, into=0.3,
                        generics=0.2, default=0.4, inner_mut=0.2, lock=0.3, mixed=0.15, opt_in=0.15, required=0.2, new_ctor=0.5,
                        want=dict(get_mut=0.6, reader=0.5, writer=0.5, set=0.6, clearer=0.5, predicate=0.5))),
    "C18": dict(
        rule=COMMON + "more than three calls were made on an object of a struct with generic parameters",
        profile=profile(generics=1.0, builder=0.5, rc=0.15, clone=0.2, serde=0.2, into=0.0)),
}
SIZES = dict(quick=dict(programs=24, per=60, cases=250, max_ops=28), thorough=dict(programs=96, per=80, cases=1000, max_ops=50))
