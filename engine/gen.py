"""Random declarations and the Rust programs which exercise them.

A declaration is built from documented arguments only and its meaning is worked out by decl.resolve.  The emitted module has
the struct, the user-supplied parts (lazy builders, hooks) and a driver with one match arm per possible operation.
"""
import random, re
from decl import TYPES, Ty, Args, render, resolve, struct_mode
from decl import first, ident, KEYWORDS

# How often things happen; profiles override.
BASE = dict(
    modes=dict(plain=4, sync=4, async_=2),
    raw=0.04,             # fields named by raw identifiers
    mixed=0.0,            # fields of another concurrency mode
    kinds=dict(lazy=4, opt=3, ord=3),
    types=["Nc", "Nc", "Nc", "Cp", "Cp", "u64", "String", "Vec<u64>", "Option<u64>", "Option<Nc>", "(Nc, u8)"],
    nfields=(2, 5),
    empty=0.02,           # no fields at all
    want=dict(get=0.9, get_mut=0.4, set=0.5, reader=0.3, writer=0.3, clearer=0.5, predicate=0.5),
    lift=0.25,            # a helper is a struct-level argument
    off=0.05,             # needless `off`
    names=0.15,
    prefix=0.15,
    rename=0.1,
    vis=0.1,
    acc_mode=0.35,
    sacc_mode=0.15,
    into=0.15,
    default=0.25,
    fallible=0.0,
    panics=0.0,
    inner_mut=0.1,
    lock=0.2,
    rc=0.0,
    builder=0.3,
    builder_error=0.0,
    post_build=0.0,
    required=0.15,
    opt_in=0.15,
    no_builder_field=0.15,
    clone=0.0,
    generics=0.0,
    serde=0.0,
    implied=0.15,         # the sync mode comes from what needs it
    third=["async"],      # modes of fields of sync structs
    fourth=["sync"],      # the same for async ones
    skip=0.06,
    containers=False,     # look at the containers of fields directly
    inst=["Nc", "Cp", "u64", "String"],    # what generic parameters stand for
    deps=0.5,
    new_ctor=0.9,         # chance for `new` to be there
    need=None,            # what a declaration must be like
    noisy=0.2,            # `order` shuffles, parens
)

OVERLAPS = True


def profile(**kw):
    p = dict(BASE)
    p["want"] = dict(BASE["want"], **kw.pop("want", {}))
    p["kinds"] = dict(BASE["kinds"], **kw.pop("kinds", {}))
    p["modes"] = dict(BASE["modes"], **kw.pop("modes", {}))
    for k in kw:
        assert k in p, k
    p.update(kw)
    return p


def weighted(rng, d):
    ks = [k for k in d if d[k] > 0]
    return rng.choices(ks, [d[k] for k in ks])[0]


class Field:
    @property
    def src(self):
        return ident(self.name, True)


class Decl:
    pass


class Unsound(Exception):
    pass


VIS = ["public", "public(crate)", "public(super)", "private"]


def maybe_noise(rng, p, d):
    if rng.random() < p["noisy"]:
        d["order"] = rng.randrange(1, 10 ** 6)
    if rng.random() < p["noisy"] / 4:
        d["parens"] = True
    return d


HELPER_NAMES = {"get": "g_%s", "get_mut": "gm_%s", "set": "s_%s", "reader": "r_%s", "writer": "w_%s", "clearer": "c_%s",
                "predicate": "p_%s", "lazy": "mk_%s", "builder": "b_%s"}
HELPER_PREFIX = {"get": "get_", "get_mut": "mutable_", "set": "put_", "reader": "rd_", "writer": "wr_", "clearer": "drop_",
                 "predicate": "is_", "lazy": "init_", "builder": "with_"}


def gen_decl(rng, p, ident):
    for _ in range(400):
        try:
            return try_decl(rng, p, ident)
        except Unsound:
            continue
    raise RuntimeError("no sound declaration found")


def spelled_mode(rng, A, mode, field):
    """Puts the concurrency mode into arguments."""
    if mode == "sync":
        if rng.random() < 0.6:
            A["sync"] = {}
        else:
            A["mode"] = {"which": "sync"}
    elif mode == "async":
        if rng.random() < 0.6:
            A["async"] = {}
        else:
            A["mode"] = {"which": "async"}
    elif field or rng.random() < 0.15:
        A["mode"] = {"which": "plain"}


def shuffled(rng, A):
    ks = list(A)
    rng.shuffle(ks)
    return Args({k: A[k] for k in ks})


def try_decl(rng, p, ident):
    D = Decl()
    D.id = ident
    D.name = "S%d" % ident if rng.random() < 0.9 else "Thing%dOf" % ident
    if rng.random() < p["raw"] / 2:
        D.name = "r#" + rng.choice(KEYWORDS)
    mode = weighted(rng, p["modes"]).rstrip("_")
    S = Args()
    implied = None
    if mode == "sync" and rng.random() < p["implied"]:
        # What only makes sense with locks says enough
        implied = rng.choice(["lock", "reader", "writer"])
        S[implied] = {}
    else:
        spelled_mode(rng, S, mode, False)
    # Nothing else but this tells of the mode
    D.quiet = implied and rng.random() < 0.6
    D.rc = rng.random() < p["rc"]
    D.serde = (not D.rc) and rng.random() < p["serde"]
    if D.rc:
        S["rc"] = {}
        if rng.random() < p["names"] * 2:
            S["rc"]["name"] = "me"
    mixed = rng.random() < p["mixed"]

    # Struct-level helpers
    for h, pr in p["want"].items():
        if h in ("reader", "writer") and mode == "plain" or h == implied:
            continue
        if h in ("clearer", "predicate") and p["kinds"]["ord"] and rng.random() < 0.6:
            # These turn ordinary fields into optional ones
            continue
        r = rng.random()
        if r < p["lift"]:
            S[h] = {}
        elif r < p["lift"] + p["off"] / 2:
            S[h] = {"off": True}
    if rng.random() < p["lift"] * p["kinds"]["lazy"] / 10:
        S["lazy"] = {}
    elif rng.random() < p["off"]:
        S["lazy"] = {"off": True}
    if "lazy" not in S and rng.random() < p["lift"] * p["kinds"]["opt"] / 10:
        S["optional"] = {}
    if mode == "plain" and "mode" not in S and S.has("lazy") is None and rng.random() < p["inner_mut"] * 0.5:
        S["inner_mut"] = {}
    if mode != "plain" and implied != "lock" and rng.random() < p["lock"] * 0.3:
        S["lock"] = {} if rng.random() < 0.7 or p["lock"] == 1 else {"off": True}
    if rng.random() < p["sacc_mode"] and S.has("get"):
        S["get"]["mode"] = rng.choice(["clone", "clone", "copy", "as_ref"])
    elif rng.random() < p["sacc_mode"]:
        S[rng.choice(["clone", "clone", "copy"])] = {}
    for h in list(S):
        if h in HELPER_PREFIX and not S[h].get("off") and rng.random() < p["prefix"]:
            S[h]["name"] = HELPER_PREFIX[h]
        if h in HELPER_PREFIX and not S[h].get("off") and rng.random() < p["vis"]:
            S[h]["vis"] = rng.choice(VIS)
    if S.has("set") and rng.random() < p["into"]:
        S["set"]["into"] = True
    if rng.random() < p["into"] * 0.4:
        S["into"] = {}
    if rng.random() < p["vis"] * 0.5:
        v = rng.choice(VIS)
        if v == "private":
            S["private"] = {}
        elif v == "public":
            S["public"] = {}
        else:
            S["public"] = {"value": v[7:-1]}
    D.fallible = rng.random() < p["fallible"]
    if D.fallible and rng.random() < 0.4:
        # Turned on for the whole struct it means nothing for fields which aren't lazy.
        S["fallible"] = {"off": True, "err": "LErr"} if rng.random() < 0.5 else {"err": rng.choice(["LErr", "FErr"])}

    # Builder
    D.ek, D.pb = "Fx", "None"
    has_builder = rng.random() < p["builder"]
    D.post_name = "post_build"
    if has_builder:
        b = {}
        r = rng.random()
        if rng.random() < p["prefix"]:
            b["name"] = HELPER_PREFIX["builder"]
        if rng.random() < p["opt_in"]:
            b["opt_in"] = True
        if rng.random() < p["into"]:
            b["into"] = True
        if rng.random() < p["required"] * 0.3:
            b["required"] = True
        if rng.random() < p["builder_error"]:
            if rng.random() < 0.5:
                D.ek = "CustomFrom"
                b["error"] = ["BErr"]
            else:
                D.ek = "Variant"
                b["error"] = ["BErr", "BErr::Miss"]
        if rng.random() < p["post_build"]:
            if True:
                b["post_build"] = True
                if rng.random() < 0.4:
                    b["post_build"] = D.post_name = "check_in"
                D.pb = "Infallible" if D.ek == "Fx" else "Fallible"
        S["builder"] = maybe_noise(rng, p, b)

    # Constructors
    D.new_off = None
    r = rng.random()
    if r > p["new_ctor"]:
        c = rng.choice(["no_new", "default_off", "no_new_default"])
        if c == "no_new":
            S["no_new"] = {}
        elif c == "no_new_default":
            S["no_new"] = {}
            S["default"] = {}
        else:
            S["default"] = {"off": True}
    elif rng.random() < 0.2:
        S["default"] = {}
    if rng.random() < p["off"]:
        S["no_new"] = S.get("no_new", {"off": True})

    D.generics = gen_generics(rng, p) if rng.random() < p["generics"] else None
    if D.generics and D.serde:
        D.generics.lts = []
        if not (D.generics.tys or D.generics.consts):
            raise Unsound

    D.smode_im = S.has("inner_mut")
    n = rng.randint(*p["nfields"])
    if rng.random() < p["empty"]:
        n = 0
    D.fields = []
    smode = struct_mode(S, None)
    if smode != mode:
        raise Unsound
    D.mode = mode
    for i in range(n):
        for _ in range(60):
            f = try_field(rng, p, D, S, i, mode, mixed)
            if f:
                D.fields.append(f)
                break
        else:
            raise Unsound
    D.S = shuffled(rng, S)
    finish_decl(rng, p, D)
    return D


BASES = ["alpha", "beta", "gamma", "delta", "eps", "zeta"]


def try_field(rng, p, D, S, i, mode, mixed):
    f = Field()
    f.i = i
    f.name = BASES[i] if rng.random() < 0.5 else "f%d" % i
    if rng.random() < p["raw"]:
        # Can only be written as a raw identifier; each field has its own share of names
        f.name = rng.choice(KEYWORDS[i::6])
    kind = weighted(rng, p["kinds"])
    F = Args()
    implied = None
    f.ty = pick_type(rng, p, D)
    fmode = mode
    if mixed:
        if mode == "plain":
            # Once a field is sync the struct counts as such: all modes are given explicitly
            fmode = rng.choice(["plain", "sync"])
            if fmode == "sync" and rng.random() < p["implied"] * 3:
                implied = rng.choice(["lock", "reader", "writer"] if kind != "lazy" else ["reader", "writer"])
                F[implied] = {}
            else:
                spelled_mode(rng, F, fmode, True)
        elif mode == "sync":
            fmode = rng.choice(["plain", "sync", "sync"] + p["third"])
            if fmode != "sync":
                spelled_mode(rng, F, fmode, True)
        else:
            fmode = rng.choice(["async", "async", "plain"] + p["fourth"])
            if fmode != "async":
                spelled_mode(rng, F, fmode, True)
    f.fmode = fmode
    f.kind0 = kind
    skip = not implied and rng.random() < p["skip"]
    if skip:
        F["skip"] = {}
        kind = "ord"
    # Kind
    if kind == "lazy":
        if S.has("lazy") is not True or rng.random() < 0.2:
            F["lazy"] = {}
        if S.has("optional"):
            F["optional"] = {"off": True}
        if S.has("inner_mut"):
            F["inner_mut"] = {"off": True}
    else:
        if S.has("lazy"):
            F["lazy"] = {"off": True}
        elif rng.random() < p["off"]:
            F["lazy"] = {"off": True}
        if kind == "opt":
            if rng.random() < 0.4 and S.has("optional") is not True:
                F["optional"] = {}
        else:
            if S.has("optional"):
                F["optional"] = {"off": True}
    # inner mutability
    if fmode == "plain" and mode == "plain" and not mixed and kind != "lazy":
        if S.has("inner_mut"):
            if rng.random() < 0.15 and p["inner_mut"] < 1 and INNER_MUT_OFF:
                F["inner_mut"] = {"off": True}
        elif rng.random() < p["inner_mut"] and "mode" not in F:
            F["inner_mut"] = {}
    if kind == "ord" and fmode != "plain" and not D.quiet and rng.random() < p["lock"] and "inner_mut" not in F:
        F["lock"] = {}
    # Helpers
    for h, pr in p["want"].items():
        if h == implied or D.quiet and h in ("reader", "writer") and not S.has(h):
            continue
        if h in ("reader", "writer") and fmode == "plain":
            if S.has(h):
                F[h] = {"off": True}
            continue
        want = rng.random() < pr
        if kind == "ord" and h in ("clearer", "predicate"):
            want = False
        s = S.has(h)
        if want:
            if s is not True or rng.random() < 0.15:
                F[h] = {}
        else:
            if s is True:
                F[h] = {"off": True}
            elif rng.random() < p["off"]:
                F[h] = {"off": True}
    if kind == "opt" and not (F.has("optional") or S.has("optional") or F.has("clearer") or F.has("predicate")
                              or (S.has("clearer") and F.has("clearer") is None)
                              or (S.has("predicate") and F.has("predicate") is None)):
        F["optional"] = {}
    if kind != "lazy" and S.has("lock") is False and fmode != "plain" and "lock" not in F and any(
            first(F.has(h), S.has(h), False) for h in ("reader", "writer")):
        F["lock"] = {}
    if kind != "lazy" and fmode != "plain" and p["lock"] < 1 and "lock" not in F and rng.random() < 0.06 and not any(
            first(F.has(h), S.has(h), False) for h in ("reader", "writer")):
        if not any(m in F for m in ("mode", "sync", "async")):
            spelled_mode(rng, F, fmode, True)
        F["lock"] = {"off": True}
    # Accessor mode
    if rng.random() < p["acc_mode"]:
        m = rng.choice(["clone", "copy", "as_ref"] if kind == "opt" and fmode == "plain" else ["clone", "copy"])
        if F.has("get") and rng.random() < 0.7:
            F["get"]["mode"] = m
        elif m != "as_ref":
            F[m] = {}
    elif rng.random() < p["off"] * 2:
        F[rng.choice(["clone", "copy"])] = {"off": True}
    # Names
    for h in list(F):
        if h in HELPER_NAMES and not F[h].get("off"):
            if rng.random() < p["names"]:
                F[h]["name"] = HELPER_NAMES[h] % f.name
            if rng.random() < p["vis"] and h != "builder":
                F[h]["vis"] = rng.choice(VIS)
    if rng.random() < p["rename"] and not skip:
        F["rename"] = {"name": "ren_%s" % f.name if rng.random() > p["raw"] else rng.choice(KEYWORDS[i::6])}
    # Setter conversions
    for h in ("set",):
        if F.has(h) and rng.random() < p["into"]:
            F[h]["into"] = rng.random() < 0.8
    if rng.random() < p["into"] * 0.4:
        F["into"] = {"off": True} if rng.random() < 0.25 else {}
    # Builder
    if S.has("builder"):
        r = rng.random()
        if S["builder"].get("opt_in"):
            if r < 0.7:
                F["builder"] = {}
        elif r < p["no_builder_field"]:
            F["builder"] = {"off": True}
        elif r < p["no_builder_field"] + 0.25:
            F["builder"] = {}
        if F.has("builder"):
            b = F["builder"]
            if rng.random() < p["names"]:
                b["name"] = HELPER_NAMES["builder"] % f.name
            if rng.random() < p["required"]:
                b["required"] = rng.random() < 0.85
            if rng.random() < p["into"]:
                b["into"] = rng.random() < 0.75
    # Default
    f.def_expr, f.def_tok, f.def_counted = None, None, False
    if rng.random() < p["default"]:
        gen_default(rng, p, D, f, F)
    elif rng.random() < p["off"]:
        pass
    # Failures
    if kind == "lazy" and S.has("fallible") and rng.random() < 0.75:
        if rng.random() < 0.25:
            F["fallible"] = {"off": True}
        elif rng.random() < 0.25:
            F["fallible"] = {"err": rng.choice(["LErr", "FErr"])}
    elif kind == "lazy" and D.fallible and rng.random() < 0.75:
        F["fallible"] = {} if S.has("fallible") is False and "err" in S["fallible"] and rng.random() < 0.8 else {"err": rng.choice(["LErr", "LErr", "FErr"])}
    if rng.random() < p["vis"] * 0.5:
        v = rng.choice(VIS)
        if v == "private":
            F["private"] = {}
        elif v == "public":
            F["public"] = {}
        else:
            F["public"] = {"value": v[7:-1]}
    for k in F:
        if k not in ("default", "mode", "sync", "async", "skip"):
            maybe_noise(rng, p, F[k])
            if k in ("copy", "clone", "lock", "inner_mut", "optional", "into", "private", "public", "rename", "fallible"):
                F[k].pop("parens", None)
    f.F = shuffled(rng, F)
    f.kind = kind
    f.sem = s = resolve(S, F, f.name, mode)
    if not sound(p, D, S, f, s):
        return None
    return f


INNER_MUT_OFF = True


def sound(p, D, S, f, s):
    F = f.F
    if s.skip:
        return True
    if s.mode != f.fmode:
        return False
    k = "lazy" if s.lazy else "opt" if s.optional else "ord"
    f.kind = k
    if s.lazy and (s.optional or s.inner_mut):
        return False
    if s.inner_mut and s.mode != "plain":
        return False
    if s.acc_mode == "copy" and not f.ty.copy:
        return False
    if s.acc_mode == "as_ref" and not (s.optional and s.mode == "plain" and not s.inner_mut):
        return False
    if s.fallible and not s.err:
        return False
    if F.has("fallible") and not s.lazy:
        return False
    if (s.set_into and s.setter or s.b_into and s.inb) and not f.ty.into:
        return False
    if F.has("copy") and F.has("clone"):
        return False
    # A lazy field makes its accessor by itself; explicit name for what is off means nothing
    return True


def pick_type(rng, p, D):
    if D.generics and rng.random() < 0.75:
        t = D.generics.field_type(rng)
        if t:
            return t
    return TYPES[rng.choice(p["types"])]


def gen_default(rng, p, D, f, F):
    tok = rng.randrange(1, 900)
    f.def_tok = tok
    t = f.ty
    r = rng.random()
    if t.lit and r < 0.4:
        f.def_expr = t.lit(tok)
    elif r < 0.55 and not D.generics:
        # A function of the struct itself
        f.def_expr = "Self::dflt_%s()" % f.name
        f.def_counted = True
    elif D.generics and isinstance(t, Gty) and (f.kind0 == "lazy" or F.has("inner_mut") or D.smode_im):
        # Type of the expression can't be inferred by any means
        f.def_tok = None
        return
    else:
        f.def_expr = rng.choice(["dv_%s()", "self::dv_%s()", "{ dv_%s() }"][:2]) % f.name
        f.def_counted = True
    if f.def_counted and rng.random() < 0.3:
        f.def_expr = "::std::convert::identity(%s)" % rng.choice(["%s", "{ let [v] = [%s]; v }", "match () { _ => { %s } }"]) % f.def_expr
    F["default"] = {"value": f.def_expr, "tok": tok}


# ---------------------------------------------------------------- generics
class Generics:
    pass


def gen_generics(rng, p):
    """Parameters of the struct; each is used by a field at least in a marker."""
    g = Generics()
    g.lts = ["'a"] if rng.random() < 0.3 else []
    g.tys = ["T", "U"][: rng.choice([0, 1, 1, 2])]
    g.consts = ["N"] if rng.random() < 0.3 else []
    if not (g.lts or g.tys or g.consts):
        g.tys = ["T"]
    g.inst = {}
    for t in g.tys:
        g.inst[t] = rng.choice(p["inst"])
    g.where = rng.random() < 0.6
    def field_type(rng):
        opts = []
        for t in g.tys:
            c = TYPES[g.inst[t]]
            opts.append(Gty(t, c.rust, c.track, thr=c.thr))
            opts.append(Gty(t, c.rust, c.track, thr=c.thr))
            opts.append(Gty("Option<%s>" % t, "Option<%s>" % c.rust, c.track, opt=True, thr=c.thr))
            opts.append(Gty("(%s, u8)" % t, "(%s, u8)" % c.rust, c.track, thr=c.thr))
            for n in g.consts:
                opts.append(Gty("[%s; %s]" % (t, n), "[%s; 2]" % c.rust, 2 * c.track, ty_default=False, thr=c.thr))
        for l in g.lts:
            opts.append(Gty("&%s str" % l, "&'static str", 0, copy=True))
        for n in g.consts:
            opts.append(Gty("Arr<%s>" % n, "Arr<2>", 0))
        return rng.choice(opts) if opts else None
    g.field_type = field_type
    return g


def gen_bounds(rng, D, sd):
    """Declares of each type parameter what the requested operations need; sometimes more than that."""
    g = D.generics
    g.bound = {}
    for t in g.tys:
        b = ["Mk"]
        for f in D.fields:
            if not re.search(r"\b%s\b" % t, f.ty.rust):
                continue
            if f.kind == "ord" and f.def_expr is None and not f.ty.opt and (D.has_default or sd is not False or not f.sem.inb):
                b.append("Default")
            if f.sem.acc and f.sem.acc_mode == "clone":
                b.append("Clone")
            if D.serde and "serde" in f.F:
                # serde's own derive asks for it where a field may be left out
                b.append("Default")
        if D.serde:
            b.append("Clone")
        if any(f.sem.mode == "async" and f.kind == "lazy" for f in D.fields):
            # What futures of lazy builders hold must be so
            b += ["Send", "Sync", "'static"]
        thr = TYPES[g.inst[t]].thr == (True, True)
        for x in ["Default", "Clone", "Val", "PartialEq", "'static"] + (["Send", "Sync"] if thr else []):
            if rng.random() < 0.08:
                b.append(x)
        g.bound[t] = " + ".join(dict.fromkeys(b))


class Gty(Ty):
    def __init__(self, rust, inst, track, copy=False, opt=False, ty_default=True, thr=(True, True)):
        super().__init__(rust, copy=copy, track=track, zero_untracked=opt and track > 0, into=False, opt=opt, thr=thr)
        self.inst = inst
        self.ty_default = ty_default


def inst_ty(t):
    return getattr(t, "inst", t.rust)


# ---------------------------------------------------------------- the rest of a declaration
def has_counted(D):
    return any(f.def_counted for f in D.fields)


def finish_decl(rng, p, D):
    S = D.S
    D.derives = []
    # Dependencies of lazy builders: a random order keeps them acyclic
    order = list(range(len(D.fields)))
    rng.shuffle(order)
    rank = {i: n for n, i in enumerate(order)}
    for f in D.fields:
        f.deps = []
        if f.kind != "lazy":
            continue
        for o in D.fields:
            if rank[o.i] < rank[f.i] and rng.random() < p["deps"] and readable(o, f):
                f.deps.append(o.i)
    any_lazy_async = any(f.kind == "lazy" and f.sem.mode == "async" for f in D.fields)
    if any_lazy_async and any(f.sem.mode == "plain" and (f.sem.lazy or f.sem.inner_mut) for f in D.fields):
        # Futures of async lazy builders are Send, cells in the struct would forbid this
        raise Unsound
    D.has_async = any(f.sem.mode == "async" and not f.sem.skip for f in D.fields)
    if D.serde:
        serde_directions(rng, D, any_lazy_async)
    # Serialization takes the fields from a copy
    want_clone = rng.random() < p["clone"] or D.serde and D.ser_all
    if any_lazy_async:
        want_clone = False
    D.clone = want_clone
    if D.rc:
        D.clone = False
    if D.clone:
        D.derives += ["Clone"]
        D.derives += ["PartialEq"] if rng.random() < 0.9 else []
        D.derives += ["Debug"] if rng.random() < 0.9 else []
    D.eq = "PartialEq" in D.derives
    # Constructors
    sd, nn = S.has("default"), S.has("no_new")
    D.has_new = sd is not False and not nn
    D.absent = []
    if not D.has_new:
        D.absent.append("new")
    D.has_default = sd is True or D.has_new or any(
        f.F.has("default") or f.sem.lazy and counts_as_sync(D) for f in D.fields)
    if sd is False:
        D.has_default = False
        D.absent.append("default")
    D.has_builder = S.has("builder") if S.has("builder") is not None else any(f.F.has("builder") for f in D.fields)
    if not D.has_builder:
        for f in D.fields:
            f.sem.inb = f.sem.req = False
    # What the Default implementation would need
    for f in D.fields:
        t = f.ty
        if not getattr(t, "ty_default", True) and f.kind == "ord" and f.def_expr is None:
            if D.has_default or sd is not False or not (f.sem.inb):
                raise Unsound
    D.ctors = []
    if D.has_new:
        D.ctors += ["New"]
    if D.has_default and not D.rc:
        D.ctors += ["Default"]
    if D.has_builder:
        D.ctors += ["Builder", "Builder"]
    if not D.ctors:
        raise Unsound
    for f in D.fields:
        if D.generics and f.def_counted and "Self::" in f.def_expr:
            raise Unsound
    if D.serde:
        gen_serde(rng, p, D)
    if D.generics:
        gen_bounds(rng, D, sd)
    D.ek_used = D.ek
    D.pb_sees = [f.i for f in D.fields if f.kind == "ord" and not f.sem.skip] if D.pb != "None" else []
    D.ops = []
    if D.clone:
        D.ops += ["CloneSwap"]
        if D.eq:
            D.ops += ["EqClone"]
        if "Debug" in D.derives:
            D.ops += ["DebugFmt"]
    if D.rc:
        D.ops += ["Myself", "MyselfDown", "Counts", "RcClone", "RcDrop"]
    if D.serde and D.ser_rt:
        D.ops += ["SerdeRt"]
    for f in D.fields:
        f.ops = field_ops(p, D, f)
    if p.get("need") and not p["need"](D):
        raise Unsound


def readable(o, f):
    """Can the builder of `f` read `o`?"""
    s = o.sem
    if s.skip:
        return False
    if o.kind == "lazy":
        if not s.acc or s.acc_mode == "as_ref":
            return False
        if s.fallible and not f.sem.fallible:
            return False
        if s.mode == "async" and f.sem.mode != "async":
            return False
        return True
    if s.mode == "async" and s.locked and f.sem.mode != "async":
        return False
    return True


def field_ops(p, D, f):
    s, k = f.sem, f.kind
    if s.skip:
        # No helpers; the field itself is there as it was declared
        return ["Get"] if D.rc else ["Get", "Set"]
    ops = []
    excl = receiver_mut(f)           # mutating helpers want `&mut self`
    can_mut = not (D.rc and excl)
    asy_unsupported = s.mode == "async" and s.locked
    if s.acc:
        if not (asy_unsupported and s.acc_mode in ("copy", "clone") and not ASYNC_NONLAZY):
            ops.append("Get")
    if s.acc_mut and can_mut:
        if not (asy_unsupported and not ASYNC_NONLAZY):
            ops += ["GetMut", "GetMutPeek"]
    if s.setter and can_mut:
        ops.append("Set")
        if D.clone and D.eq:
            ops.append("EqMutated")
            if s.clearer and p["containers"]:
                ops.append("EqCleared")
    if s.clearer and can_mut:
        ops.append("Clear")
    if s.predicate:
        ops.append("Has")
    if p["containers"] and s.mode != "plain":
        if s.lazy:
            ops += ["IsSet", "LazyInit"]
        if s.lazy or s.locked:
            ops.append("Dbg")
        if D.clone:
            ops.append("Unwrap")
        if D.clone and D.eq and s.locked and not s.lazy and (k == "opt" or getattr(f.ty, "ty_default", True)):
            ops.append("Conv")
    if s.reader:
        ops.append("Read")
    if s.writer:
        if k == "lazy":
            ops += ["WStore", "WClear", "WStoreClear"]
        else:
            ops += ["Write", "WPeek"]
    if k == "lazy" and p["panics"]:
        ops.append("PlanPanic")
        if s.fallible:
            ops.append("PlanErr")
    if s.inner_mut and OVERLAPS and s.acc and s.acc_mode is None:
        ops.append("OvGetGet")
        if s.acc_mut:
            ops += ["OvGetMut", "OvMutGet"]
        if s.setter:
            ops.append("OvGetSet")
        if s.clearer:
            ops.append("OvGetClear")
    if s.inner_mut and s.acc_mut:
        ops.append("OvMutMut")
        if s.setter:
            ops.append("OvMutSet")
        if s.predicate:
            ops.append("OvMutHas")
        if other_for(D, f):
            ops.append("OvOther")
    return ops


ASYNC_NONLAZY = True


def other_for(D, f):
    for o in D.fields:
        if o.i != f.i and o.sem.inner_mut and o.sem.acc_mut:
            return o
    return None


def receiver_mut(f):
    s = f.sem
    if s.mode == "plain":
        return not s.inner_mut
    return not (s.lazy or s.locked)


# ---------------------------------------------------------------- serde
def serde_directions(rng, D, only_de):
    """Which of the two traits are implemented, and how it is written."""
    D.ser_all = D.de_all = True
    D.ser_raw = []
    r = rng.random()
    if only_de:
        D.ser_all = False
        D.ser_raw = rng.choice([["serialize(off)"], ["deserialize"], ["serialize(off)", "deserialize"]])
    elif r < 0.06:
        D.ser_raw = ["serialize(off)"]
        D.ser_all = False
    elif r < 0.12:
        D.ser_raw = ["deserialize(off)"]
        D.de_all = False
    elif r < 0.16:
        # Naming just one of the two disables the other one
        D.ser_raw = ["serialize"]
        D.de_all = False
    elif r < 0.2:
        D.ser_raw = ["deserialize"]
        D.ser_all = False
    elif r < 0.28:
        D.ser_raw = rng.choice([["serialize", "deserialize"], ["serialize", "deserialize(off)"], ["serialize(off)", "deserialize"]])
        D.ser_all, D.de_all = "serialize" in D.ser_raw, "deserialize" in D.ser_raw


def gen_serde(rng, p, D):
    S = D.S
    s = {}
    D.ser_rt = True
    D.de_default = None
    S["serde"] = {"raw": []}
    raw = S["serde"]["raw"]
    if rng.random() < 0.2:
        s["name"] = "%sDup" % D.name.replace("r#", "")
        S["serde"]["name"] = s["name"]
    sdef = None
    if rng.random() < 0.3 and D.has_default and not (D.generics and D.generics.consts):
        # Container level: missing entries are taken from the declared defaults
        raw.append("default")
        sdef = "plain"
        D.de_default = [f.def_tok if f.def_tok is not None else (0 if f.kind == "ord" else None) for f in D.fields]
    raw += D.ser_raw
    ser_all, de_all = D.ser_all, D.de_all
    D.ser_rt = ser_all and de_all
    if de_all:
        D.ctors += ["De", "De"]
    for f in D.fields:
        f.ser = None
        if f.sem.skip:
            if not D.has_default:
                raise Unsound
            continue
        ser = de = True
        fraw = []
        name = f.F["rename"]["name"] if "rename" in f.F else f.name
        default = "None"
        if rng.random() < 0.15:
            f.F["serde"] = {"off": True}
            if not D.has_default:
                raise Unsound
            continue
        r = rng.random()
        if r < 0.1:
            fraw.append("serialize(off)")
            ser = False
        elif r < 0.2:
            fraw.append("deserialize(off)")
            de = False
        elif r < 0.23:
            fraw.append("serialize")
            de = False
        elif r < 0.26:
            fraw.append("deserialize")
            ser = False
        elif r < 0.3:
            fraw += ["serialize", "deserialize"]
        if not de and not D.has_default:
            raise Unsound
        if SERDE_NAME and rng.random() < 0.15:
            name = "ser_%s" % f.name
            fraw.append('"%s"' % name)
        if de and rng.random() < 0.3:
            r = rng.random()
            if r < 0.3:
                fraw.append("default")
                default = "Ty"
            elif r < 0.8 and not isinstance(f.ty, Gty):
                tok = rng.randrange(1, 900)
                if f.ty.lit and f.ty.rust == "u64" and r < 0.75:
                    fraw.append("default(%d)" % tok)
                else:
                    fraw.append("default(sd_%s())" % f.name)
                    f.sd_tok = tok
                default = "Val(%d)" % tok
        if de and f.kind != "ord" and f.def_tok is not None:
            # null and missing are ambiguous (see DESIGN.md)
            if not SERDE_NULL_DEFAULT:
                raise Unsound
        if fraw:
            rng.shuffle(fraw)
            f.F["serde"] = {"raw": fraw}
        elif rng.random() < 0.1:
            f.F["serde"] = {}
        if "; N]" in f.ty.rust:
            raise Unsound       # serde has no such arrays
        f.ser = dict(name=name, ser=ser and ser_all, de=de and de_all, default=default)
    if D.generics:
        # The shadow struct, too, must use all parameters
        import re
        used = " ".join(f.ty.rust for f in D.fields if f.ser)
        if not all(re.search(r"\b%s\b" % t, used) for t in D.generics.tys):
            raise Unsound


SERDE_NAME = True
SERDE_NULL_DEFAULT = True


# ---------------------------------------------------------------- emission
def q(s):
    return '"%s"' % s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n")


def gen_header(D):
    """(impl generics, type generics, where clause, declaration generics)."""
    g = D.generics
    if not g:
        return "", "", "", ""
    names = g.lts + g.tys + g.consts
    tg = "<%s>" % ", ".join(names)
    decl, where = [], []
    decl += g.lts
    for t in g.tys:
        if g.where:
            decl.append(t)
            where.append("%s: %s" % (t, g.bound[t]))
        else:
            decl.append("%s: %s" % (t, g.bound[t]))
    for n in g.consts:
        decl.append("const %s: usize" % n)
    dg = "<%s>" % ", ".join(decl)
    wh = " where " + ", ".join(where) if where else ""
    return dg, tg, wh, dg


def used_generics(D, rust):
    g = D.generics
    if not g:
        return ""
    import re
    ps = [l for l in g.lts if l in rust] + ["%s: Mk" % t for t in g.tys if re.search(r"\b%s\b" % t, rust)]
    ps += ["const %s: usize" % n for n in g.consts if re.search(r"\b%s\b" % n, rust)]
    return "<%s>" % ", ".join(ps) if ps else ""


def inst_args(D):
    g = D.generics
    if not g:
        return ""
    a = ["'static" for _ in g.lts] + [g.inst[t] for t in g.tys] + ["2" for _ in g.consts]
    return "<%s>" % ", ".join(a)


def markers(D):
    """Fields which make parameters used."""
    g = D.generics
    out = []
    if not g:
        return out
    used = " ".join(f.ty.rust for f in D.fields)
    import re
    for l in g.lts:
        if l not in used:
            out.append(("pl", "PhantomData<&%s ()>" % l))
    for t in g.tys:
        if not re.search(r"\b%s\b" % t, used):
            out.append(("pt_%s" % t.lower(), "PhantomData<%s>" % t))
    return out


def struct_src(D, place=None):
    """The declaration; with a plan made by gen_place, some pieces of it are handed to a macro which makes the declaration."""
    dg, tg, wh, _ = gen_header(D)
    pl = Pieces(place)
    lines = []
    a = render(D.S, True)
    lines.append("#[%s]" % pl.attr("fxstruct", a))
    if D.derives:
        lines.append("#[derive(%s)]" % ", ".join(D.derives))
    lines.append("%s struct %s%s%s {" % (pl.piece("vis", "pub"), pl.piece("ident", D.name), dg, wh))
    for f in D.fields:
        fa = render(f.F, False)
        if fa:
            lines.append("    #[%s]" % pl.attr("fieldx", fa))
        lines.append("    %s: %s," % (pl.piece("ident", f.src), pl.piece("ty", f.ty.rust)))
    for n, t in markers(D):
        # `inner_mut(off)` and such keep it an ordinary field whatever the struct says
        offs = []
        for k in ("lazy", "optional", "clearer", "predicate", "get", "get_mut", "set", "reader", "writer", "inner_mut"):
            if D.S.has(k):
                offs.append("%s(off)" % k)
        if D.S.has("copy"):
            offs.append("clone")
        offs.append("builder(off)")
        if D.serde:
            offs.append("serde(off)")
        lines.append("    #[fieldx(%s)]" % ", ".join(offs))
        lines.append("    %s: %s," % (n, t))
    lines.append("}")
    return pl.wrap("\n".join(lines))


class Pieces:
    """Pieces of a declaration which are handed over to a macro_rules macro."""
    def __init__(self, place):
        self.rng = random.Random(place["pieces"]) if place and place.get("pieces") else None
        self.pats, self.vals = [], []
        self.attrs = bool(self.rng) and self.rng.random() < 0.3
        self.whole = self.rng and self.rng.random() < 0.15 and self.rng.choice([("$i:item", "$i"), ("$($i:tt)*", "$($i)*")])

    def piece(self, kind, text, p=0.4):
        if not self.rng or self.whole or self.rng.random() > p:
            return text
        n = "p%d" % len(self.pats)
        if self.rng.random() < 0.4:
            kind = "tt" if kind == "ident" else "tts"
        if kind in ("tts", "args"):
            self.pats.append("[$($%s:tt)*]" % n)
            self.vals.append("[%s]" % text)
            return "$($%s)*" % n
        self.pats.append("[$%s:%s]" % (n, kind))
        self.vals.append("[%s]" % text)
        return "$" + n

    def attr(self, name, args):
        """An attribute handed over as it is, or some of its arguments."""
        if self.attrs:
            return self.piece("meta", "%s(%s)" % (name, args) if args else name, 1.0)
        if self.rng and not self.whole and args:
            args = ", ".join(self.arg(a) for a in top_split(args))
        return "%s(%s)" % (name, args) if args else name

    def arg(self, a):
        """All of an argument or only what it has within its parentheses."""
        m = re.match(r"(?s)([a-z_#]+)\((.*)\)$", a)
        if m and self.rng.random() < 0.4:
            return "%s(%s)" % (self.piece("ident", m.group(1), 0.5) if re.match("[a-z_]+$", m.group(1)) else m.group(1), self.piece("args", m.group(2), 0.6))
        return self.piece("args", a)

    def wrap(self, text):
        if not self.rng:
            return text
        if self.whole:
            return "macro_rules! decl_it { (%s) => { %s } }\ndecl_it! { %s }" % (*self.whole, text)
        return "macro_rules! decl_it { (%s) => {\n%s\n} }\ndecl_it! { %s }" % (" ".join(self.pats), text, " ".join(self.vals))


def top_split(s):
    """Splits at commas which aren't within any delimiters or literals."""
    out, cur, depth, i = [], "", 0, 0
    while i < len(s):
        c = s[i]
        if c == '"':
            j = i + 1
            while s[j] != '"':
                j += 2 if s[j] == "\\" else 1
            cur += s[i:j + 1]
            i = j + 1
            continue
        depth += (c in "([{<") - (c in ")]}" or c == ">" and s[i - 1] not in "-=")
        if c == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
        i += 1
    if cur.strip():
        out.append(cur.strip())
    return out


# What a module may define under names which mean something else everywhere else.
HOSTILE = {
    "type": "Option Result Box String Vec Rc Arc RefCell Weak Mutex RwLock PhantomData Pin OnceCell AtomicBool Ordering Ref RefMut "
            "FXProxySync FXProxyAsync FXRwLockSync FXRwLockAsync FXBuilderInfallible FXBuilderFallible FieldXError Builder Lazy".split(),
    "trait": "Default Clone Copy From Into TryFrom TryInto Deref DerefMut Send Sync Sized Drop Future Fn FnMut FnOnce ToString AsRef AsMut Debug "
             "PartialEq Eq Iterator FXStruct FXStructSync FXNewDefault".split(),
    "fn": "Some Ok Err drop".split(),
    "const": ["None"],
    "mod": "std core alloc fieldx_aux sync r#async error traits once_cell parking_lot tokio".split(),
    "macro": "panic unreachable format vec matches assert assert_eq debug_assert stringify concat todo unimplemented write".split(),
    "use": "::std::borrow::Borrow ::std::borrow::BorrowMut ::std::any::Any ::std::ops::Deref ::std::convert::AsRef ::std::hash::Hash".split(),
}


def gen_place(rng, D):
    """Where the struct is declared: under what names, directly or by a macro, in a module or in a function's body."""
    place = {}
    if rng.random() < 0.6:
        words = set(re.findall(r"[A-Za-z_]\w*", struct_src(D)))
        names = []
        every = rng.random() < 0.3
        share = rng.choice([0.05, 0.3, 0.8])
        for kind, ns in HOSTILE.items():
            for n in ns:
                w = n.split("::")[-1].replace("r#", "")
                if w not in words and (every or rng.random() < share) and not any(w == x for _, _, x in names):
                    names.append((kind, n, w))
        place["names"] = [(k, n) for k, n, _ in names]
    if rng.random() < 0.5:
        place["pieces"] = rng.randrange(1, 1 << 30)
    # There is no `self::` for what is declared in a function's body
    place["fn"] = rng.random() < 0.3 and (bool(place.get("names")) or "self::" not in struct_src(D))
    return place


def hostile_src(names):
    return "\n".join({"type": "pub struct %s;", "trait": "pub trait %s {}", "fn": "pub fn %s() {}", "const": "pub const %s: u8 = 0;",
                      "mod": "pub mod %s {}", "macro": "macro_rules! %s { ($($t:tt)*) => { compile_error!(\"the module's own macro\") } }",
                      "use": "use %s;"}[k] % n for k, n in names)


def dep_read(D, i, owner_async, f):
    o = D.fields[i]
    s = o.sem
    aw = ".await" if s.mode == "async" else ""
    if o.kind == "lazy":
        call = "self.%s()%s" % (s.mname("get"), aw)
        if s.fallible:
            call += "?"
        return "{ let g = %s; d += g.tok(); }" % call
    if s.mode == "plain":
        src = "self.%s%s" % (o.src, ".borrow()" if s.inner_mut else "")
    elif s.locked:
        src = "self.%s.read()%s" % (o.src, aw)
    else:
        src = "self.%s" % o.src
    if o.kind == "opt":
        return "{ let g = &%s; d += g.as_ref().map_or(0, |x| x.tok()); }" % src
    return "{ let g = &%s; d += g.tok(); }" % src


def stashes_self(D):
    """The hook of a reference counted struct keeps a weak pointer to its object, to be upgraded when there is one."""
    return D.rc and D.pb == "Infallible" and not gen_header(D)[1]


def emit_user_impl(D):
    dg, tg, wh, _ = gen_header(D)
    out = ["impl%s %s%s%s {" % (dg, D.name, tg, wh)]
    myself = D.S.get("rc", {}).get("name") or "myself"
    for f in D.fields:
        s = f.sem
        t = f.ty.rust
        if s.lazy:
            b = "let mut d = 0u64; let _ = &mut d; "
            if D.rc:
                b += "env::check(self.%s().map_or(false, |m| std::ptr::eq(&*m, self)), \"myself() in the builder of %s\"); " % (
                    myself, f.name)
                if f.i % 2:
                    b += ("env::check(self.%s_downgrade().upgrade().map_or(false, |m| std::ptr::eq(&*m, self)), "
                          "\"myself_downgrade() in the builder of %s\"); ") % (myself, f.name)
            for i in f.deps:
                b += dep_read(D, i, s.mode == "async", f) + " "
            if s.mode == "async" and f.i % 2 == 0:
                b += "env::yield_now().await; "
            if s.fallible:
                b += "Ok(<%s as Mk>::mk(env::try_build(%d, d)?))" % (t, f.i)
                rt_ = "Result<%s, %s>" % (t, s.err)
            else:
                b += "<%s as Mk>::mk(env::build(%d, d))" % (t, f.i)
                rt_ = t
            out.append("    pub %sfn %s(&self) -> %s { %s }" % ("async " if s.mode == "async" else "", s.mname("lazy"), rt_, b))
        if f.def_expr and "Self::" in f.def_expr:
            out.append("    pub fn dflt_%s() -> %s { <%s as Mk>::mk(env::def(%d, %d)) }" % (f.name, t, t, f.i, f.def_tok))
    if D.pb != "None":
        see = ""
        for i in D.pb_sees:
            o = D.fields[i]
            so = o.sem
            if so.mode == "plain":
                src = "self.%s%s" % (o.src, ".borrow()" if so.inner_mut else "")
            elif so.locked:
                src = "self.%s.%s" % (o.src, "try_read().unwrap()" if so.mode == "async" else "read()")
            else:
                src = "self.%s" % o.src
            see += "{ let g = &%s; let t = g.tok(); env::with(|e| e.post_seen.push(t)); } " % src
        if stashes_self(D):
            see += "env::stash(Box::new(self.%s_downgrade())); " % myself
        elif D.rc:
            see += "let _ = self.%s_downgrade(); let _ = self.%s(); " % (myself, myself)
        if D.pb == "Fallible":
            out.append("    pub fn %s(self) -> Result<Self, BErr> { %s env::post()?; Ok(self) }" % (D.post_name, see))
        else:
            out.append("    pub fn %s(self) -> Self { %s let _ = env::post(); self }" % (D.post_name, see))
    out.append("}")
    return "\n".join(out)


def rd(kind, t, shape, g):
    """Expression turning what has been read into an observation."""
    if kind == "opt":
        if shape == "value":
            return "{ let r: Option<%s> = %s; Obs::O(r.as_ref().map(|x| x.tok())) }" % (t, g)
        if shape == "as_ref":
            return "{ let r: Option<&%s> = %s; Obs::O(r.map(|x| x.tok())) }" % (t, g)
        return "{ let r: &Option<%s> = &*%s; Obs::O(r.as_ref().map(|x| x.tok())) }" % (t, g)
    if shape == "value":
        return "{ let r: %s = %s; Obs::V(r.tok()) }" % (t, g)
    return "{ let r: &%s = &*%s; Obs::V(r.tok()) }" % (t, g)


def wrm(kind, t, g):
    """Reads and then replaces through a mutable view."""
    if kind == "opt":
        return ("{ let r: &mut Option<%s> = &mut *%s; let old = r.as_ref().map(|x| x.tok()); "
                "*r = if op.v %% 4 == 0 { None } else { Some(<%s as Mk>::mk(op.v)) }; Obs::O(old) }") % (t, g, t)
    return "{ let r: &mut %s = &mut *%s; let old = r.tok(); *r = <%s as Mk>::mk(op.v); Obs::V(old) }" % (t, g, t)


def emit_op(D, f, k):
    s = f.sem
    t = inst_ty(f.ty)
    asy = s.mode == "async"
    covered = s.lazy or s.locked            # behind a lock
    aw = ".await" if asy and covered else ""
    excl = receiver_mut(f)
    shape = {"copy": "value", "clone": "value", "as_ref": "as_ref", None: "ref"}[s.acc_mode]
    val = "::rt::In(op.v)" if s.set_into else "<%s as Mk>::mk(op.v)" % t

    def o(mut):
        if D.rc:
            return "let o = &*self.h[op.v as usize % self.h.len()];"
        return "let o = &mut self.o;" if mut else "let o = &self.o;"

    def fal(call, body):
        if s.fallible:
            return "match %s { Ok(mut g) => { let _ = &mut g; %s } Err(e) => { let e: %s = e; Obs::E(e.0) } }" % (call, body, s.err)
        return "let mut g = %s; let _ = &mut g; %s" % (call, body)
    if s.skip:
        if k == "Get":
            return "%s let g = &o.%s; %s" % (o(False), f.src, rd("ord", t, "ref", "g"))
        return "%s let r: %s = std::mem::replace(&mut o.%s, <%s as Mk>::mk(op.v)); Obs::V(r.tok())" % (o(True), t, f.src, t)
    get = "o.%s()%s" % (s.mname("get"), aw)
    getm = "o.%s()%s" % (s.mname("get_mut"), aw)
    if k == "Get":
        return "%s %s" % (o(False), fal(get, rd(f.kind, t, shape, "g")))
    if k == "GetMut":
        return "%s %s" % (o(excl), fal(getm, wrm(f.kind, t, "g")))
    if k == "GetMutPeek":
        return "%s %s" % (o(excl), fal(getm, rd(f.kind, t, "ref", "g")))
    if k == "Read":
        return "%s %s" % (o(False), fal("o.%s()%s" % (s.mname("reader"), aw), rd(f.kind, t, "ref", "g")))
    wr = "o.%s()%s" % (s.mname("writer"), aw)
    if k == "Write":
        return "%s let mut g = %s; %s" % (o(False), wr, wrm(f.kind, t, "g"))
    if k == "WPeek":
        return "%s let g = %s; %s" % (o(False), wr, rd(f.kind, t, "ref", "g"))
    if k == "WStore":
        return "%s let mut g = %s; let r: Option<%s> = g.store(<%s as Mk>::mk(op.v)); Obs::O(r.map(|x| x.tok()))" % (
            o(False), wr, t, t)
    if k == "WClear":
        return "%s let g = %s; let r: Option<%s> = g.clear(); Obs::O(r.map(|x| x.tok()))" % (o(False), wr, t)
    if k == "WStoreClear":
        return ("%s let mut g = %s; let a: Option<%s> = g.store(<%s as Mk>::mk(op.v)); let b: Option<%s> = g.clear(); "
                "Obs::List(vec![Obs::O(a.map(|x| x.tok())), Obs::O(b.map(|x| x.tok()))])") % (o(False), wr, t, t, t)
    set_ = "o.%s(%s)%s" % (s.mname("set"), val, aw)
    old = "Option<%s>" % t if f.kind != "ord" else t
    oobs = "Obs::O(r.as_ref().map(|x| x.tok()))" if f.kind != "ord" else "Obs::V(r.tok())"
    if k == "Set":
        return "%s let r: %s = %s; %s" % (o(excl), old, set_, oobs)
    if k == "EqMutated":
        return ("let o = &self.o; let mut c = o.clone(); let _ = &mut c; { let o = &mut c; let _ = %s; } "
                "Obs::List(vec![Obs::B(*o == c), Obs::B(c == *o)])") % set_
    if k == "EqCleared":
        return ("let o = &self.o; let mut c = o.clone(); let _ = &mut c; { let o = &mut c; let _ = o.%s()%s; } "
                "Obs::List(vec![Obs::B(*o == c), Obs::B(c == *o)])") % (s.mname("clearer"), aw)
    if k == "IsSet":
        return "%s Obs::B(o.%s.is_set())" % (o(False), f.src)
    if k == "LazyInit":
        return "%s o.%s.lazy_init(o)%s; Obs::U" % (o(False), f.src, aw)
    if k == "Dbg":
        opt = "if op.v == u64::MAX { None } else { Some(<%s as Mk>::mk(op.v)) }" % t
        return "%s let x: %s = %s; ::rt::shows(&o.%s, &x)" % (
            o(False), t if f.kind == "ord" else "Option<%s>" % t, "<%s as Mk>::mk(op.v)" % t if f.kind == "ord" else opt, f.src)
    if k == "Unwrap":
        return "let c = self.o.clone(); let r = c.%s%s; %s" % (
            f.src, ".into_inner()" if covered else "",
            "let r: %s = r; Obs::V(r.tok())" % t if f.kind == "ord" else "let r: Option<%s> = r; Obs::O(r.as_ref().map(|x| x.tok()))" % t)
    if k == "Conv":
        inner = t if f.kind == "ord" else "Option<%s>" % t
        mk = "<%s as Mk>::mk(op.v)" % t
        mk = mk if f.kind == "ord" else "Some(%s)" % mk
        C = "fieldx::%s::%s<%s>" % (("r#async", "FXRwLockAsync", inner) if asy else ("sync", "FXRwLockSync", inner))
        L = ("::tokio::sync::RwLock<%s>" if asy else "::parking_lot::RwLock<%s>") % inner
        see = lambda g: "{ let g = %s; %s }" % (g, rd(f.kind, t, "ref", "g"))
        rdm = "try_read().unwrap" if asy else "read"
        return ("%s let c: %s = ::std::convert::From::from(%s); let mut l = vec![Obs::B(c == o.%s), Obs::B(o.%s == c)]; "
                "l.push(%s); l.push(%s); l.push(%s); { let d = c.clone(); l.push(%s); } l.push({ let g = &c.into_inner(); %s }); "
                "let d = <%s as Default>::default(); l.push(%s); Obs::List(l)") % (
            o(False), C, mk, f.src, f.src,
            see("AsRef::<%s>::as_ref(&c).%s()" % (L, rdm)), see("::std::borrow::Borrow::<%s>::borrow(&c).%s()" % (L, rdm)),
            see("::std::ops::Deref::deref(&c).%s()" % rdm), see("d.%s" % ("read().await" if asy else "read()")), rd(f.kind, t, "ref", "g"),
            C, see("d.%s()" % rdm))
    if k == "Clear":
        return "%s let r: Option<%s> = o.%s()%s; Obs::O(r.map(|x| x.tok()))" % (o(excl), t, s.mname("clearer"), aw)
    if k == "Has":
        return "%s Obs::B(o.%s()%s)" % (o(False), s.mname("predicate"), ".await" if asy and not s.lazy and covered else "")
    ok = "let ok = ::rt::survives(|| { %s }); Obs::List(vec![a, if ok { Obs::U } else { Obs::P }])"
    g_ = "let g = %s; let a = %s; " % (get, rd(f.kind, t, "ref", "g"))
    m_ = "let g = %s; let a = %s; " % (getm, rd(f.kind, t, "ref", "g"))
    end = " "
    if k == "OvGetGet":
        return "%s %s let h = %s; let b = %s; drop(g); Obs::List(vec![a, b])" % (o(False), g_, get, rd(f.kind, t, "ref", "h"))
    inner = {"OvGetMut": "let _x = %s;" % getm, "OvMutMut": "let _x = %s;" % getm, "OvMutGet": "let _x = %s;" % get,
             "OvGetSet": "let _x = %s;" % set_, "OvMutSet": "let _x = %s;" % set_,
             "OvGetClear": "let _x = o.%s();" % s.mname("clearer"), "OvMutHas": "let _x = o.%s();" % s.mname("predicate")}
    if k in inner:
        return "%s %s let r = { %s }; drop(g); r" % (o(False), g_ if k.startswith("OvGet") else m_, ok % inner[k])
    if k == "OvOther":
        x = other_for(D, f).sem
        return "%s %s let r = { %s }; drop(g); r" % (o(False), m_, ok % ("let _x = o.%s();" % x.mname("get_mut")))
    raise AssertionError(k)


def emit_struct_op(D, k):
    ty = "%s%s" % (D.name, inst_args(D))
    my = D.S.get("rc", {}).get("name") or "myself"
    if k == "CloneSwap":
        return "let c: %s = self.o.clone(); self.o = c; Obs::U" % ty
    if k == "EqClone":
        return "let c = self.o.clone(); Obs::B(c == self.o && self.o == c)"
    if k == "DebugFmt":
        return "if format!(\"{:?}\", self.o).is_empty() { Obs::P } else { Obs::U }"
    h = "let h = &self.h[op.v as usize % self.h.len()];"
    if k == "Myself":
        return "%s let m: Option<Ptr<%s>> = h.%s(); Obs::B(m.map_or(false, |m| Ptr::ptr_eq(&m, h)))" % (h, ty, my)
    if k == "MyselfDown":
        return "%s let m: WeakPtr<%s> = h.%s_downgrade(); Obs::B(m.upgrade().map_or(false, |m| Ptr::ptr_eq(&m, h)))" % (h, ty, my)
    if k == "Counts":
        return ("%s Obs::List(vec![Obs::V(Ptr::strong_count(h) as u64), Obs::V((Ptr::weak_count(h) - self.wbase) as u64)])") % h
    if k == "RcClone":
        return "%s let c = h.clone(); self.h.push(c); Obs::U" % h
    if k == "RcDrop":
        return "if self.h.len() > 1 { let n = op.v as usize % self.h.len(); self.h.remove(n); } Obs::U"
    if k == "SerdeRt":
        return ("let j = ::rt::serde_json::to_value(&self.o).unwrap(); "
                "let l = match ::rt::serde_json::from_value::<%s>(j.clone()) { Ok(o) => { self.o = o; Obs::U } "
                "Err(_) => Obs::S(\"de-error\".into()) }; Obs::List(vec![Obs::J(j), l])") % ty
    raise AssertionError(k)


def counts_as_sync(D):
    """Decides between Rc and Arc: a struct which isn't told its mode takes it from fields."""
    return D.mode != "plain" or "mode" not in D.S and any(f.sem.mode != "plain" for f in D.fields)


def emit(D, expect_lint=False):
    ty = "%s%s" % (D.name, inst_args(D))
    out = []
    w = out.append
    w("#[allow(warnings)]")
    w("pub mod m%d {" % D.id)
    place = getattr(D, "place", None) or {}
    uses = "use ::rt::*; use ::rt::env::{self, LErr, FErr, BErr}; use ::fieldx::fxstruct;"
    if D.serde:
        uses += " use ::serde::{Serialize, Deserialize};"
    if markers(D):
        uses += " use ::std::marker::PhantomData;"
    if place.get("fn"):
        w("type Make = fn(&::rt::Spec, &::rt::Ctor, &mut Vec<::rt::Obs>) -> Option<Box<dyn ::rt::Subject>>;")
        w("pub fn make(s: &::rt::Spec, c: &::rt::Ctor, log: &mut Vec<::rt::Obs>) -> Option<Box<dyn ::rt::Subject>> { both().0(s, c, log) }")
        w("pub fn facts() -> Vec<String> { both().1() }")
        w("fn both() -> (Make, fn() -> Vec<String>) {")
    if place.get("names"):
        w("mod own {")
        w("pub mod imp {")
        w("use super::%s;" % D.name)
    w(uses)
    if not place.get("names"):
        w(struct_src(D, place))
    w(emit_user_impl(D))
    for f in D.fields:
        if f.def_expr and "dv_" in f.def_expr:
            w("pub fn dv_%s%s() -> %s { <%s as Mk>::mk(env::def(%d, %d)) }" % (f.name, used_generics(D, f.ty.rust), f.ty.rust, f.ty.rust, f.i, f.def_tok))
        if getattr(f, "sd_tok", None) is not None:
            w("pub fn sd_%s() -> %s { <%s as Mk>::mk(%d) }" % (f.name, f.ty.rust, f.ty.rust, f.sd_tok))
    if D.rc:
        sync = counts_as_sync(D)
        m = "std::sync::Arc" if sync else "std::rc::Rc"
        wk = "std::sync::Weak" if sync else "std::rc::Weak"
        w("use %s as Ptr; use %s as WeakPtr;" % (m, wk))
        w("pub struct Sub { h: Vec<Ptr<%s>>, wbase: usize }" % ty)
        my = D.S.get("rc", {}).get("name") or "myself"
        w("impl Sub { fn bx(o: Ptr<%s>) -> Box<dyn Subject> { let wbase = Ptr::weak_count(&o); Box::new(Sub { h: vec![o], wbase }) } }" % ty)
    else:
        w("pub struct Sub { o: %s }" % ty)
        w("impl Sub { fn bx(o: %s) -> Box<dyn Subject> { Box::new(Sub { o }) } }" % ty)
    w("impl Subject for Sub {")
    w("fn apply(&mut self, op: &Op) -> Obs {")
    if D.has_async:
        w("env::block_on(async {")
    w("match (op.f, op.k) {")
    for f in D.fields:
        for k in f.ops:
            if k.startswith("Plan"):
                continue
            w("(%d, K::%s) => { %s }" % (f.i, k, emit_op(D, f, k)))
    for k in D.ops:
        w("(_, K::%s) => { %s }" % (k, emit_struct_op(D, k)))
    w("_ => unreachable!(\"{:?}\", op) }")
    if D.has_async:
        w("})")
    w("}")
    if D.rc:
        w("fn finish(self: Box<Self>) -> Obs { let a = Ptr::downgrade(&self.h[0]); let b = self.h[0].%s_downgrade(); drop(self); "
          "if a.upgrade().is_some() || b.upgrade().is_some() { Obs::S(\"still upgrades\".into()) } else { Obs::U } }" % my)
    w("}")
    w("pub fn make(s: &Spec, c: &Ctor, log: &mut Vec<Obs>) -> Option<Box<dyn Subject>> {")
    w("match c {")
    if "New" in D.ctors:
        w("Ctor::New => { let o: %s = %s::new(); Some(Sub::bx(o)) }" % (
            "Ptr<%s>" % ty if D.rc else ty, D.name))
    if "Default" in D.ctors:
        w("Ctor::Default => { let o: %s = Default::default(); Some(Sub::bx(o)) }" % ty)
    if "De" in D.ctors:
        w("Ctor::De(p) => match ::rt::serde_json::from_str::<%s>(&::rt::model::de_json(s, p)) { "
          "Ok(o) => { log.push(Obs::U); Some(Sub::bx(o)) } Err(_) => { log.push(Obs::S(\"de-error\".into())); None } }" % ty)
    if D.has_builder:
        w("Ctor::Builder(steps) => {")
        w("let mut b = <%s>::builder();" % ty)
        w("for st in steps { match st {")
        for f in D.fields:
            if f.sem.inb:
                v = "::rt::In(*v)" if f.sem.b_into else "<%s as Mk>::mk(*v)" % inst_ty(f.ty)
                w("BStep::Set(%d, v) => { b = b.%s(%s); }" % (f.i, f.sem.mname("builder"), v))
        w("BStep::Set(..) => unreachable!(),")
        w("BStep::PostFail(c) => env::with(|e| e.post_fail = Some(*c)),")
        efmt = "env::fx_err(&e)" if D.ek == "Fx" else "::rt::env::plain_names(&format!(\"{:?}\", e))"
        unstash = ""
        if stashes_self(D):
            unstash = ("let me = env::unstash().and_then(|w| w.downcast::<WeakPtr<%s>>().ok()).and_then(|w| w.upgrade()); "
                       "env::check(me.map_or(false, |m| Ptr::ptr_eq(&m, &o)), \"weak pointer taken by the hook\"); ") % ty
        w("BStep::Build => match b.build() { Ok(o) => { let o: %s = o; log.push(Obs::U); %s return Some(Sub::bx(o)); } "
          "Err(e) => { let e: %s = e; let m = %s; let post = m.starts_with(\"Post(\"); log.push(Obs::S(m)); if post { return None; } } }," % (
              "Ptr<%s>" % ty if D.rc else ty, unstash, "fieldx::error::FieldXError" if D.ek == "Fx" else "BErr", efmt))
        w("} } None }")
    w("_ => unreachable!() } }")
    w("pub fn facts() -> Vec<String> { let mut v: Vec<String> = vec![];")
    for a in D.absent:
        if a == "new":
            w("if !::rt::is_mark(<%s>::new) { v.push(\"there is a constructor `new`\".into()); }" % ty)
        else:
            w("if ::rt::Probe::<%s>::DEFAULT { v.push(\"there is a Default implementation\".into()); }" % ty)
    for f in getattr(D, "facts", []):
        w(f)
    w("v }")
    if place.get("names"):
        # Macros are known from their definition on, what drives the struct comes before them
        w("}")
        w(uses)
        w("use self::imp::*;")
        w(hostile_src(place["names"]))
        w(struct_src(D, place))
        w("}")
        if not place.get("fn"):
            w("pub use own::imp::{make, facts};")
    if place.get("fn"):
        w("(own::imp::make, own::imp::facts) }" if place.get("names") else "(make, facts) }")
    w("}")
    return "\n".join(out)


def emit_entry(D):
    fs = []
    for f in D.fields:
        s = f.sem
        fl = {"lazy": "Fl::Lazy", "opt": "Fl::Opt", "ord": "Fl::Ord"}[f.kind]
        t = inst_ty(f.ty)
        ser = "None"
        if D.serde and f.ser:
            x = f.ser
            ser = "Some(SerSpec { name: %s, ser: %s, de: %s, default: SDef::%s, jv: js::<%s>, opt_ty: %s })" % (
                q(x["name"]), str(x["ser"]).lower(), str(x["de"]).lower(), x["default"], t, str(f.ty.opt).lower())
        fs.append("FieldSpec { name: %s, fl: %s, fallible: %s, def: %s, def_counted: %s, deps: &[%s], ops: &[%s], inb: %s, "
                  "req: %s, track: %d, zero_untracked: %s, ser: %s }" % (
                      q(f.name), fl, str(s.fallible).lower(), "Some(%d)" % f.def_tok if f.def_tok is not None else "None",
                      str(f.def_counted).lower(), ", ".join(str(i) for i in f.deps),
                      ", ".join("K::%s" % k for k in f.ops), str(bool(s.inb)).lower(), str(bool(s.req)).lower(),
                      f.ty.track, str(f.ty.zero_untracked).lower(), ser))
    dd = "None"
    if D.serde and D.de_default is not None:
        dd = "Some(&[%s])" % ", ".join("None" if x is None else "Some(%d)" % x for x in D.de_default)
    return ("Entry { spec: Spec { id: %d, group: %d, name: %s, src: %s, fields: &[%s], ctors: &[%s], ops: &[%s], ek: EK::%s, pb: Pb::%s, "
            "pb_sees: &[%s], de_default: %s }, make: m%d::make, facts: m%d::facts }") % (
        D.id, getattr(D, "group", 0), q(D.name), q(struct_src(D)), ",\n ".join(fs), ", ".join("CK::%s" % c for c in D.ctors),
        ", ".join("K::%s" % k for k in D.ops), D.ek, D.pb, ", ".join(map(str, D.pb_sees)), dd, D.id, D.id)


def emit_main(decls):
    out = ["#![allow(warnings)]"]
    for D in decls:
        out.append(emit(D))
    out.append("use rt::*;")
    out.append("static ENTRIES: &[Entry] = &[")
    for D in decls:
        out.append(emit_entry(D) + ",")
    out.append("];")
    out.append("fn main() { rt::main_with(ENTRIES); }")
    return "\n".join(out)
