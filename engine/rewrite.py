"""Rewritings of a declaration's arguments which must not change its meaning."""
import copy, random
import decl
from decl import Args, first, resolve, struct_mode, sub

HELP = ["get", "get_mut", "set", "reader", "writer", "clearer", "predicate", "lazy", "builder"]
FLAGS = ["optional", "lock", "inner_mut", "into", "copy", "clone", "private"]
PUSH = ["get", "get_mut", "set", "reader", "writer", "clearer", "predicate", "lazy", "builder", "optional", "lock", "inner_mut", "into",
        "copy", "clone", "private", "public", "fallible"]
MODE = ["sync", "async", "mode"]
FLAG_OF = dict(get="acc", get_mut="acc_mut", set="setter", reader="reader", writer="writer", clearer="clearer", predicate="predicate",
               lazy="lazy", builder="inb")


def raws(A, k):
    return A[k].get("raw") if k in A else None


def sig(S, fields, smode=None):
    """What the declaration means, by the documentation. fields: [(name, F)]"""
    smode = effective_mode(S, fields)
    out = [smode]
    has_builder = first(S.has("builder"), any(F.has("builder") for _, F in fields), False)
    out.append(has_builder)
    b = S.get("builder", {})
    if has_builder:
        out.append([b.get(k) for k in ("vis", "attributes", "attributes_impl", "post_build", "error")])
    # turning `default` off is more than not asking for it: it overrides the implied one
    out.append((S.has("no_new") or False, S.has("default")))
    for k in ("rc", "serde", "attributes", "attributes_impl"):
        d = dict(S.get(k, {}))
        d.pop("order", None)
        out.append((k, None if S.has(k) in (None, False) else d))
    for name, F in fields:
        s = resolve(S, F, name, smode)
        x = [name, s.skip, s.mode if not s.skip else None, s.lazy, s.optional, s.inner_mut, s.locked]
        for k, fl in FLAG_OF.items():
            on = getattr(s, fl)
            if k == "builder":
                on = on and has_builder
            x.append(bool(on))
            if on:
                at = first(sub(F, k, "attrs"), raws(F, "attributes_fn"), sub(S, k, "attrs"))
                v = sub(F, "builder", "vis") if k == "builder" else s.vis(k)
                x.append((s.mname(k), v, at))
        if s.acc:
            x.append(("mode", s.acc_mode))
        if s.setter:
            x.append(("into", bool(s.set_into)))
        if s.inb and has_builder:
            x.append(("b", bool(s.b_into), bool(s.req), sub(F, "builder", "attributes")))
        x.append(("fallible", s.fallible, s.err if s.fallible else None))
        x.append(sorted((k, str({q: w for q, w in F[k].items() if q != "order"})) for k in ("default", "serde") if k in F))
        x.append(sub(F, "rename", "name"))
        out.append(x)
    return out


def effective_mode(S, fields):
    """Fields which are sync or async on their own make the struct a sync one."""
    m = struct_mode(S, None)
    if m == "plain" and "mode" not in S and any(decl.field_mode(S, F, "plain") != "plain" for _, F in fields):
        return "sync"
    return m


def contradicts(A, smode, field_mode=None):
    """Same-level arguments the macro has every right to reject, and `off` of a mode that something else implies."""
    on = [k for k in ("sync", "async", "inner_mut") if A.has(k)] + (["mode"] if "mode" in A else [])
    if len(on) > 1 or A.has("copy") and A.has("clone") or A.has("private") and "public" in A:
        return True
    if A.has("lazy") and (A.has("optional") or A.has("inner_mut")):
        return True
    if A.has("fallible") and (A.has("optional") or A.has("inner_mut") or A.has("lock")):
        return True
    if A.has("serde") and A.has("rc"):
        return True
    if (A.has("sync") is False or A.has("async") is False) and (field_mode or smode) != "plain":
        return True
    return False


def sane(S, fields):
    smode = effective_mode(S, fields)
    if contradicts(S, smode):
        return False
    # `fallible` of whatever field needs an error type
    if any(first(F.has("fallible"), S.has("fallible"), False) and not first(sub(F, "fallible", "err"), sub(S, "fallible", "err")) for _, F in fields):
        return False
    # what isn't optional nor lazy can't be cleared or asked for presence
    for _, F in fields:
        on = lambda k: first(F.has(k), S.has(k), False)
        if (on("clearer") or on("predicate")) and not on("lazy") and first(F.has("optional"), S.has("optional"), True) is False:
            return False
    # `lock(off)` overrides the implied sync mode of lazy fields
    if any(F.has("lock") is False and smode != "plain" and resolve(S, F, n, smode).lazy for n, F in fields):
        return False
    return not any(contradicts(F, smode, resolve(S, F, n, smode).mode) for n, F in fields)


def normal(d):
    return {k: v for k, v in d.items() if k not in ("order", "parens")}


# ---------------------------------------------------------------- single edits; each returns a note or None
def push_down(rng, S, fs):
    c = [k for k in S if k in PUSH]
    if not c:
        return None
    k = rng.choice(c)
    d = S.pop(k)
    smode = struct_mode(S, None)
    for name, F in fs:
        if "skip" in F:
            continue
        if k not in F:
            e = copy.deepcopy(d)
            for q in ("opt_in", "post_build", "error", "attributes", "attributes_impl"):
                e.pop(q, None)
        else:
            e = F[k]
            for q in ("vis", "mode", "into", "required", "attrs", "err", "value"):
                if q in d and q not in e:
                    e[q] = d[q]
        if d.get("name") is not None and k in HELP and (k not in F or not F[k].get("name")):
            base = sub(F, "rename", "name") or name
            e["name"] = "%s%s%s" % (d["name"], base, decl.DEFAULT_SUFFIX.get(k, ""))
        F[k] = e
    if k == "builder" and any(q in d for q in ("opt_in", "post_build", "error", "attributes", "attributes_impl", "vis")):
        # what belongs to the builder itself stays
        S[k] = {q: d[q] for q in ("opt_in", "post_build", "error", "attributes", "attributes_impl", "vis") if q in d}
    return "`%s` moved from the struct to the fields" % k


def pull_up(rng, S, fs):
    """A field's argument becomes the struct-level one, all the others having it disabled explicitly."""
    live = [F for _, F in fs if "skip" not in F]
    c = sorted(set(k for F in live for k in F if k in PUSH and k not in S and k not in ("public",)))
    if not c:
        return None
    k = rng.choice(c)
    have = [F for F in live if k in F]
    d = copy.deepcopy(rng.choice(have)[k])
    d.pop("name", None)
    for q in ("attributes",):
        d.pop(q, None)
    if d.pop("off", None):
        d = {}
    S[k] = d
    for F in live:
        if k not in F:
            F[k] = {"off": True}
        elif rng.random() < 0.5 and normal(F[k]) == normal(d):
            del F[k]
    return "`%s` moved from the fields to the struct" % k


def put(A, rng, k, v):
    ks = list(A)
    i = rng.randrange(len(ks) + 1)
    B = [(q, A[q]) for q in ks]
    B.insert(i, (k, v))
    A.clear()
    A.update(B)


def add_off(rng, S, fs):
    A = rng.choice([S] + [F for _, F in fs if "skip" not in F])
    ks = HELP + FLAGS + ["fallible", "sync", "async"] + (["rc", "serde", "no_new", "default"] if A is S else ["default", "serde"])
    k = rng.choice(ks)
    if k in A:
        return None
    d = {"off": True}
    if k in HELP and rng.random() < 0.3:
        # sub-arguments of a disabled helper mean nothing
        if rng.random() < 0.5 and A is not S:
            d["name"] = "unused_name"
        if rng.random() < 0.5:
            d["vis"] = rng.choice(["public(crate)", "private"])
        d["order"] = rng.randrange(1 << 20)
    put(A, rng, k, d)
    return "`%s(off)` added to %s" % (k, "the struct" if A is S else "a field")


def drop_off(rng, S, fs):
    c = [(A, k) for A in [S] + [F for _, F in fs] for k in A if A[k].get("off")]
    if not c:
        return None
    A, k = rng.choice(c)
    del A[k]
    return "`%s(off)` removed from %s" % (k, "the struct" if A is S else "a field")


def reorder(rng, S, fs):
    for A in [S] + [F for _, F in fs]:
        ks = list(A)
        rng.shuffle(ks)
        B = {k: A[k] for k in ks}
        A.clear()
        A.update(B)
        for k in A:
            if k not in ("attributes", "attributes_impl", "attributes_fn", "default", "rename", "mode", "skip", "public", "private"):
                A[k]["order"] = rng.randrange(1, 1 << 20)
    return "arguments shuffled"


def respell(rng, S, fs):
    c = [(A, k) for A in [S] + [F for _, F in fs] for k in MODE if k in A and not A[k].get("off")]
    if not c:
        return None
    A, k = rng.choice(c)
    if k == "mode":
        w = A[k]["which"]
        if w == "plain":
            return None
        n, v = w, {}
    else:
        n, v = "mode", {"which": k}
    B = [(n, v) if q == k else (q, A[q]) for q in A]
    A.clear()
    A.update(B)
    return "concurrency mode respelled"


def spread(rng, S, fs):
    """A generic argument of a level is spelled as sub-arguments of the helpers of that level."""
    A = rng.choice([S] + [F for _, F in fs])
    c = [k for k in ("copy", "clone", "into", "public", "private") if A.has(k)]
    if not c:
        return None
    k = rng.choice(c)
    d = A.pop(k)
    if k in ("copy", "clone"):
        if "get" not in A:
            return None
        A["get"].setdefault("mode", k)
    elif k == "into":
        for h in ("set", "builder"):
            if h in A and A[h].get("into") is None:
                A[h]["into"] = True
    else:
        v = "private" if k == "private" else "public(%s)" % d["value"] if d.get("value") else "public"
        for h in HELP:
            if h in A and not A[h].get("vis") and h != "builder":
                A[h]["vis"] = v
    return "`%s` spelled as sub-arguments" % k


def gather(rng, S, fs):
    A = rng.choice([S] + [F for _, F in fs])
    c = [k for k in ("get", "set", "builder") if k in A and (A[k].get("mode") in ("copy", "clone") or A[k].get("into") is True)]
    if not c:
        return None
    k = rng.choice(c)
    w = A[k].pop("mode") if k == "get" else "into"
    if k != "get":
        A[k].pop("into")
    if w in A:
        return None
    put(A, rng, w, {})
    return "sub-argument `%s` spelled as a stand-alone one" % w


EDITS = [(push_down, 4), (pull_up, 3), (add_off, 4), (drop_off, 2), (reorder, 2), (respell, 1), (spread, 2), (gather, 1)]


def rewrite(rng, S, fields, ok, edits=None, frozen=()):
    """-> (S', fields', notes) with the same documented meaning and other arguments, or None. `ok(S, fields)` vetoes."""
    if not sane(S, fields):
        return None
    want = sig(S, fields)
    notes = []
    n = edits or rng.choice([1, 1, 2, 3, 5])
    for _ in range(n * 4):
        if len(notes) >= n:
            break
        S2, f2 = Args(copy.deepcopy(dict(S))), [(nm, Args(copy.deepcopy(dict(F)))) for nm, F in fields]
        e = rng.choices([e for e, _ in EDITS], [w for _, w in EDITS])[0]
        note = e(rng, S2, f2)
        if note is None or sig(S2, f2) != want or any(S2.get(k) != S.get(k) for k in frozen) or not sane(S2, f2) or not ok(S2, f2):
            continue
        S, fields = S2, f2
        notes.append(note)
    if not notes:
        return None
    return S, fields, notes
