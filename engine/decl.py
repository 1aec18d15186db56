"""Declarations: argument trees, their rendering as attribute text, and their documented meaning.

Nothing here looks at the macro's code: `resolve` implements what the documentation says arguments mean.
"""
import random

# ---------------------------------------------------------------- types
class Ty:
    def __init__(self, rust, copy=False, track=0, zero_untracked=False, into=True, opt=False, lit=None, serde=True,
                 thr=(True, True)):
        self.rust, self.copy, self.track, self.zero_untracked = rust, copy, track, zero_untracked
        self.into, self.opt, self.lit, self.serde = into, opt, lit, serde
        self.thr = thr               # (Send, Sync)

TYPES = {t.rust: t for t in [
    Ty("u64", copy=True, lit=lambda n: str(n)),
    Ty("Cp", copy=True),
    Ty("Nc", track=1),
    Ty("String", lit=lambda n: '"%d"' % n),
    Ty("Vec<u64>"),
    Ty("Option<u64>", copy=True, opt=True),
    Ty("Option<Nc>", track=1, zero_untracked=True, opt=True),
    Ty("(Nc, u8)", track=1),
    # Of all thread-safety classes
    Ty("OnlySend", thr=(True, False), into=False),
    Ty("OnlySync", thr=(False, True), into=False),
    Ty("Neither", thr=(False, False), into=False),
    Ty("Option<OnlySend>", thr=(True, False), into=False, opt=True),
    Ty("(OnlySync, u8)", thr=(False, True), into=False),
    Ty("[Neither; 2]", thr=(False, False), into=False),
]}

HELPERS = ["get", "get_mut", "set", "reader", "writer", "clearer", "predicate", "lazy", "builder"]
DEFAULT_PREFIX = {"get": "", "get_mut": "", "set": "set_", "reader": "read_", "writer": "write_", "clearer": "clear_",
                  "predicate": "has_", "lazy": "build_", "builder": ""}
DEFAULT_SUFFIX = {"get_mut": "_mut"}

# ---------------------------------------------------------------- argument trees
# An argument is (key, dict). Recognised dict entries:
#   off: bool; name: str; vis: str; attrs: [str]; mode: copy|clone|as_ref; into: bool or None;
#   required, opt_in, post_build (True or name), error ([..]), attributes_impl: builder
#   err: path (fallible); value: text (default); which: sync|async|plain (mode); list: text (anything else)

class Args(dict):
    """Ordered mapping key -> options."""
    def has(self, k):
        """Three-valued: True/False if the argument is given and on/off, None if it is not given."""
        if k not in self:
            return None
        return not self[k].get("off", False)

    def copy(self):
        return Args({k: dict(v) for k, v in self.items()})


def render_arg(key, d, struct):
    if key == "mode":
        return "mode(%s)" % d["which"]
    if key == "async":
        key = "r#async"
    subs = []
    if d.get("off"):
        subs.append("off")
    if d.get("name") is not None:
        subs.append('"%s"' % d["name"])
    if d.get("vis"):
        subs.append(d["vis"])
    if d.get("mode"):
        subs.append(d["mode"])
    if d.get("into") is not None:
        # the setter's `into` is a plain bool
        if key == "set":
            subs.append("into" if d["into"] else "into = false")
        else:
            subs.append("into" if d["into"] else "into(off)")
    if d.get("required") is not None:
        subs.append("required" if d["required"] else "required(off)")
    if d.get("opt_in"):
        subs.append("opt_in")
    if d.get("post_build"):
        subs.append("post_build" if d["post_build"] is True else "post_build(%s)" % d["post_build"])
    if d.get("error"):
        subs.append("error(%s)" % ", ".join(d["error"]))
    if d.get("err"):
        subs.append("error(%s)" % d["err"])
    if d.get("attrs"):
        subs.append("attributes_fn(%s)" % ", ".join(d["attrs"]))
    if d.get("attributes"):
        subs.append("attributes(%s)" % ", ".join(d["attributes"]))
    if d.get("attributes_impl"):
        subs.append("attributes_impl(%s)" % ", ".join(d["attributes_impl"]))
    if d.get("value") is not None:
        subs.append(d["value"])
    for x in d.get("raw", []):
        subs.append(x)
    if d.get("order"):
        r = random.Random(d["order"])
        # `off` may stand anywhere except in `default`
        if key != "default":
            r.shuffle(subs)
    if not subs:
        return key + ("()" if d.get("parens") else "")
    return "%s(%s)" % (key, ", ".join(subs))


def render(args, struct):
    if not args:
        return None
    return ", ".join(render_arg(k, d, struct) for k, d in args.items())


# ---------------------------------------------------------------- meaning
class Sem:
    pass


def first(*opts):
    for o in opts:
        if o is not None:
            return o() if callable(o) else o
    return None


def sub(args, key, entry):
    return args[key].get(entry) if key in args else None


def struct_mode(S, fields):
    """Concurrency mode of the struct."""
    for key, m in (("sync", "sync"), ("async", "async")):
        if S.has(key):
            return m
    if "mode" in S:
        return S["mode"]["which"]
    if S.has("lock") or S.has("reader") or S.has("writer"):
        return "sync"
    return "plain"


def field_mode(S, F, smode):
    if F.has("sync"):
        return "sync"
    if F.has("async"):
        return "async"
    if "mode" in F:
        return F["mode"]["which"]
    if F.has("inner_mut"):
        return "plain"
    if F.has("lock") is False:
        return "plain"
    if F.has("lock") or F.has("reader") or F.has("writer"):
        return "sync" if smode == "plain" else smode
    return smode


KEYWORDS = ["type", "match", "fn", "ref", "mod", "loop", "use", "move", "as", "dyn", "in", "async", "await", "try", "box", "impl", "static", "true", "yield", "gen"]
SOFT = ()


def ident(name, raw=False):
    """How a name is spelled in a program"""
    return "r#" + name if name in KEYWORDS and (raw or name not in SOFT) else name


def resolve(S, F, fname, smode):
    s = Sem()
    s.name = fname
    s.skip = "skip" in F
    s.mode = field_mode(S, F, smode)
    on = lambda k: first(F.has(k), S.has(k), False)
    s.lazy = on("lazy") and not s.skip
    s.clearer, s.predicate = on("clearer"), on("predicate")
    s.optional = (not s.skip) and first(F.has("optional"), S.has("optional"),
                                        (not s.lazy) and (s.clearer or s.predicate))
    s.inner_mut = on("inner_mut") and not s.skip
    s.reader, s.writer = on("reader"), on("writer")
    s.locked = s.mode != "plain" and not s.lazy and not s.skip and \
        first(F.has("lock"), S.has("lock"), s.reader or s.writer or s.optional)
    s.acc = first(F.has("get"), S.has("get"), s.clearer or s.predicate or s.lazy or s.inner_mut)
    s.acc_mut = on("get_mut")
    s.setter = on("set")
    cc = lambda A: "copy" if A.has("copy") else "clone" if A.has("clone") else None
    sm = first(sub(S, "get", "mode"), cc(S))
    s.acc_mode = first(sub(F, "get", "mode"), cc(F), None if sm in ("copy", "clone") and F.has(sm) is False else sm)
    s.fallible = on("fallible") and s.lazy
    s.err = first(sub(F, "fallible", "err"), sub(S, "fallible", "err"))
    s.set_into = first(sub(F, "set", "into"), F.has("into"), sub(S, "set", "into"), S.has("into"), False)
    s.b_into = first(sub(F, "builder", "into"), F.has("into"), sub(S, "builder", "into"), S.has("into"), False)
    sb = S.has("builder")
    s.inb = not s.skip and first(F.has("builder"), bool(sb) and not sub(S, "builder", "opt_in"))
    s.req = s.inb and bool(first(sub(F, "builder", "required"), sub(S, "builder", "required"), False))
    s.default = F["default"].get("tok") if F.has("default") else None
    if s.skip:
        for k in ("clearer", "predicate", "reader", "writer", "acc", "acc_mut", "setter"):
            setattr(s, k, False)
    if s.mode == "plain":
        s.reader = s.writer = False
    if not (s.lazy or s.optional):
        s.clearer = s.predicate = False
    # names
    base = sub(F, "rename", "name") or fname

    def mname(key):
        n = sub(F, key, "name")
        if n:
            return ident(n)
        p = sub(S, key, "name")
        return ident("%s%s%s" % (DEFAULT_PREFIX[key] if p is None else p, base, DEFAULT_SUFFIX.get(key, "")))
    s.mname = mname

    def vis(key):
        def pub(A):
            if A.has("private"):
                return "private"
            if "public" in A and not A["public"].get("off"):
                return A["public"].get("value") and "public(%s)" % A["public"]["value"] or "public"
            return None
        return first(sub(F, key, "vis"), pub(F), sub(S, key, "vis"), pub(S))
    s.vis = vis
    return s
