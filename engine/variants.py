"""Several declarations which must behave the same."""
import copy
import decl, gen, rewrite
from decl import Args, resolve


def clone(D):
    E = copy.copy(D)
    E.S = Args(copy.deepcopy(dict(D.S)))
    E.fields = []
    for f in D.fields:
        g = copy.copy(f)
        g.F = Args(copy.deepcopy(dict(f.F)))
        E.fields.append(g)
    return E


def equal(rng, p, ident):
    """A declaration and others of the same documented meaning."""
    for _ in range(200):
        D = gen.gen_decl(rng, p, ident)
        out = [D]
        for _ in range(2):
            r = rewrite.rewrite(rng, D.S, [(f.name, f.F) for f in D.fields], lambda S, fs: True, frozen=("serde", "rc", "default", "no_new"))
            if r is None or all(n == "arguments shuffled" for n in r[2]):
                continue
            E = clone(D)
            E.S = r[0]
            for f, (_, F) in zip(E.fields, r[1]):
                f.F = F
            E.notes = r[2]
            out.append(E)
        if len(out) > 1:
            return out
    raise RuntimeError("nothing to rewrite")


def respell(rng, E, mode):
    """All of a declaration in the given mode."""
    S = E.S
    r = rng.random()
    at_fields = mode != "plain" and r < 0.25
    if at_fields:
        if rng.random() < 0.3:
            # The struct is of the other kind, fields know better
            gen.spelled_mode(rng, S, "sync" if mode == "async" else "async", False)
        for f in E.fields:
            gen.spelled_mode(rng, f.F, mode, True)
    else:
        gen.spelled_mode(rng, S, mode, False)
        for f in E.fields:
            if rng.random() < 0.15:
                gen.spelled_mode(rng, f.F, mode, True)
    E.S = gen.shuffled(rng, S)
    for f in E.fields:
        f.F = gen.shuffled(rng, f.F)


def modes(rng, p, ident):
    """A declaration in several concurrency modes."""
    for _ in range(400):
        D = gen.gen_decl(rng, p, ident)
        if "mode" in D.S or not D.fields:
            continue
        out = []
        for mode in ("plain", "sync", "async", rng.choice(["sync", "async"])):
            E = clone(D)
            respell(rng, E, mode)
            if meant(p, E, mode):
                out.append(E)
        if len(out) < 2:
            continue
        for f in range(len(D.fields)):
            common = [k for k in out[0].fields[f].ops if all(k in E.fields[f].ops for E in out)]
            for E in out:
                E.fields[f].ops = common
        for E in out:
            E.ops = [k for k in out[0].ops if all(k in G.ops for G in out)]
            assert E.ctors == out[0].ctors
        return out
    raise RuntimeError("no declaration fits several modes")


def meant(p, E, mode):
    smode = decl.struct_mode(E.S, None)
    if mode == "plain" and smode != "plain":
        return False
    E.mode = smode if smode != "plain" else ("sync" if mode != "plain" else "plain")
    inb = [(f.sem.inb, f.sem.req) for f in E.fields]
    for f, (b, r) in zip(E.fields, inb):
        f.fmode = mode
        f.sem = s = resolve(E.S, f.F, f.name, smode)
        kind = f.kind
        if not gen.sound(p, E, E.S, f, s) or f.kind != kind:
            return False
        if not E.has_builder:
            s.inb = s.req = False
    E.has_async = mode == "async"
    if any(f.kind == "lazy" for f in E.fields) and mode == "async":
        # There is no cloning of these
        if E.serde and E.ser_all or E.clone and E.id % 2:
            return False
        E.clone = E.eq = False
        E.derives = [d for d in E.derives if d not in ("Clone", "PartialEq")]
        E.ops = [k for k in E.ops if k not in ("CloneSwap", "EqClone", "SerdeRt")]
    for f in E.fields:
        for i in f.deps:
            if not gen.readable(E.fields[i], f):
                return False
    for f in E.fields:
        f.ops = gen.field_ops(p, E, f)
    return True


def placed(rng, p, ident):
    """A declaration found somewhere else than in an ordinary module."""
    D = gen.gen_decl(rng, p, ident)
    D.place = {}
    while not any(D.place.values()):
        D.place = gen.gen_place(rng, D)
    return [D]
