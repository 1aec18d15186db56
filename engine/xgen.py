"""Declarations for the in-process macro: free use of every argument, no need to compile."""
import random
from decl import KEYWORDS, SOFT, ident, Args, render, resolve, struct_mode, HELPERS

VIS = ["public", "private", "public(crate)", "public(super)", "public(crate::inner::deep)", "public(self::x)"]
VIS_TOK = {"public": "pub", "private": "", "public(crate)": "pub (crate)", "public(super)": "pub (super)",
           "public(crate::inner::deep)": "pub (in crate :: inner :: deep)", "public(self::x)": "pub (in self :: x)", None: None}
STRUCT_VIS = ["", "pub", "pub(crate)", "pub(super)", "pub(in crate::outer)"]
STRUCT_VIS_TOK = {"": "", "pub": "pub", "pub(crate)": "pub (crate)", "pub(super)": "pub (super)", "pub(in crate::outer)": "pub (in crate :: outer)"}
ON = ["get", "get_mut", "set", "reader", "writer", "clearer", "predicate", "lazy", "builder"]
TYPES = ["u64", "String", "Vec<u8>", "Option<bool>", "(u8, Foo)", "[u8; 4]", "crate::a::B<u8>", "&'static str"]


class X:
    """One declaration: S, [(name, F, vis, type, field attrs)], struct vis, struct attrs, generics."""
    def text(self):
        args = render(self.S, True) or ""
        out = []
        for f in self.fields:
            for a in f.attrs:
                out.append("#[%s]" % a)
            r = render(f.F, False)
            if r is not None or f.bare:
                out.append("#[fieldx%s]" % ("" if r is None else "(%s)" % r))
            out.append("%s %s: %s," % (f.vis, f.src, f.ty))
        item = "%s %s struct %s%s { %s }" % (" ".join("#[%s]" % a for a in self.attrs), self.vis, self.name, self.generics, " ".join(out))
        return args, item


class XF:
    @property
    def src(self):
        return ident(self.name)


class Marks:
    def __init__(self):
        self.n = 0

    def __call__(self, rng, p, key, d, lo=1):
        if rng.random() < p:
            d[key] = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                self.n += 1
                d[key].append(rng.choice(["mk(%d)", "mk(%d)", "mk(%d, a)", "mk(%d, (b, c))", "mk(x = %d)", "mk(\"s,t\", %d)", "mk[%d]", "mk{%d}", "mk = %d", "mk = \"%d\"", "tool::mk(%d)"]) % self.n)
        return d


def name_of(rng, used, stem, keywords=True):
    n = rng.choice(["f", "value", "x1", "_priv", "long_name_here", "get_it", "Up", "new_one"]) + str(rng.randrange(99))
    if keywords and rng.random() < 0.06:
        n = rng.choice([k for k in KEYWORDS if k not in SOFT])
    while n in used:
        n += "a"
    used.add(n)
    return n


def helper_opts(rng, key, names, marks, struct, p):
    d = {}
    if rng.random() < p["off"]:
        d["off"] = True
    if rng.random() < p["name"]:
        if struct:
            d["name"] = rng.choice(["pfx_", "do_", "q", "my_%s_" % key])
        else:
            d["name"] = names()
    if rng.random() < p["hvis"]:
        d["vis"] = rng.choice(VIS)
    if key != "lazy":
        marks(rng, p["attrs"], "attrs", d)
    if key == "get" and rng.random() < 0.35:
        d["mode"] = rng.choice(["copy", "clone", "as_ref"])
    if key in ("set", "builder") and rng.random() < 0.3:
        d["into"] = rng.random() < 0.7
    if key == "builder":
        marks(rng, p["attrs"], "attributes", d)
        if struct:
            marks(rng, p["attrs"], "attributes_impl", d)
            if rng.random() < 0.2:
                d["opt_in"] = True
            if rng.random() < 0.2:
                d["post_build"] = rng.choice([True, "fin"])
            if rng.random() < 0.2:
                d["error"] = rng.choice([["Error"], ["crate::E", "crate::E::Unset"]])
        if rng.random() < 0.2:
            d["required"] = rng.random() < 0.7
    if len(d) > 1:
        d["order"] = rng.randrange(1 << 30) if rng.random() < 0.6 else 0
    return d


P = dict(off=0.18, name=0.25, hvis=0.3, attrs=0.15, serde=0.25, mode=0.6, struct_on=0.3, field_on=0.32)


def modes(rng, A, field):
    r = rng.random()
    if r < 0.3:
        A["sync"] = {}
    elif r < 0.55:
        A["async"] = {}
    elif r < 0.9:
        A["mode"] = {"which": rng.choice(["sync", "async", "plain"])}
    else:
        A["inner_mut"] = {}


def gen(rng, p=P):
    while True:
        x = try_gen(rng, p)
        if x is not None:
            return x


def common(rng, A, p, marks, names, struct):
    if rng.random() < 0.25:
        v = rng.choice(["public", "private", "public(crate)", "public(super)", "public(crate::inner::deep)"])
        if v == "private":
            A["private"] = {}
        else:
            A["public"] = {"value": v[7:-1]} if "(" in v else {}
    for k in ON:
        if rng.random() < (p["struct_on"] if struct else p["field_on"]):
            A[k] = helper_opts(rng, k, names, marks, struct, p)
    if rng.random() < 0.12:
        A["optional"] = {"off": True} if rng.random() < 0.3 else {}
    if rng.random() < 0.12:
        A["lock"] = {"off": True} if rng.random() < 0.3 else {}
    if rng.random() < 0.15:
        A[rng.choice(["copy", "clone"])] = {}
    if rng.random() < 0.15:
        A["into"] = {"off": True} if rng.random() < 0.3 else {}


def try_gen(rng, p):
    x = X()
    marks = Marks()
    used = set()
    names = lambda: name_of(rng, used, "m")
    x.name = "Foo"
    x.vis = rng.choice(STRUCT_VIS)
    x.attrs = marks(rng, 0.3, "a", {}).get("a", [])
    if rng.random() < 0.3:
        x.attrs.insert(rng.randrange(len(x.attrs) + 1), "derive(Debug)")
    x.generics = rng.choice(["", "", "", "<T>", "<T: Clone>", "<'a, T, const N: usize>"])
    S = Args()
    if rng.random() < p["mode"]:
        modes(rng, S, False)
    common(rng, S, p, marks, names, True)
    if "lazy" in S:
        S["lazy"] = {"off": True} if rng.random() < 0.2 else {}
    S.pop("optional", None) if S.has("lazy") else None
    if S.has("lazy") and S.has("inner_mut"):
        return None
    marks(rng, 0.15, "attributes", S.setdefault("attributes", {}))
    marks(rng, 0.15, "attributes_impl", S.setdefault("attributes_impl", {}))
    for k in ("attributes", "attributes_impl"):
        l = S.pop(k).get(k)
        if l:
            S[k] = {"raw": l}
    if rng.random() < 0.25:
        S["no_new"] = {"off": True} if rng.random() < 0.3 else {}
    if rng.random() < 0.2:
        S["default"] = {"off": True} if rng.random() < 0.3 else {}
    if rng.random() < 0.12:
        S["rc"] = {}
        if rng.random() < 0.4:
            S["rc"]["name"] = name_of(rng, used, "m", False)
        if rng.random() < 0.4:
            S["rc"]["vis"] = rng.choice(VIS)
    elif rng.random() < p["serde"]:
        S["serde"] = serde_opts(rng, marks, p)
    x.S = shuffle(rng, S)
    x.fields = []
    smode = None
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        f = XF()
        f.name = names()
        f.vis = rng.choice(["", "", "pub", "pub(crate)"])
        f.ty = rng.choice(TYPES)
        f.bare = False
        f.attrs = marks(rng, 0.2, "a", {}).get("a", [])
        F = Args()
        if rng.random() < 0.75:
            if rng.random() < 0.15:
                modes(rng, F, True)
            common(rng, F, p, marks, names, False)
            a = marks(rng, 0.2, "l", {}).get("l")
            if a:
                F["attributes_fn"] = {"raw": a}
            if rng.random() < 0.2:
                F["rename"] = {"name": names()}
            if rng.random() < 0.2:
                F["default"] = {"value": "42", "tok": "42"}
            if rng.random() < 0.06:
                F["skip"] = {}
            if S.has("serde") and rng.random() < 0.35:
                F["serde"] = serde_opts(rng, marks, p, True)
        if not F and rng.random() < 0.0:
            f.bare = True
        f.F = shuffle(rng, F)
        x.fields.append(f)
    return x


def serde_opts(rng, marks, p, field=False):
    d = {}
    d["raw"] = raw = []
    if rng.random() < 0.3:
        d["name"] = "%s%d" % ("ser" if field else "Sh", rng.randrange(9))
    if rng.random() < 0.3 and not field:
        d["vis"] = rng.choice(VIS)
    if field and rng.random() < 0.2:
        d["off"] = True
    if rng.random() < 0.25:
        raw.append(rng.choice(["serialize", "serialize(off)", "deserialize", "deserialize(off)"]))
    marks(rng, 0.3, "attributes", d)
    if rng.random() < 0.35:
        d["forward"] = [a for a in ("mk", "tool::mk", "doc", "serde") if rng.random() < 0.5]
        rng.shuffle(d["forward"])
        raw.append("forward_attrs(%s)" % ", ".join(d["forward"]))
    if len(d) > 1 and rng.random() < 0.5:
        d["order"] = rng.randrange(1 << 30)
    return d


def shuffle(rng, A):
    if rng.random() < 0.6:
        k = list(A)
        rng.shuffle(k)
        return Args({a: A[a] for a in k})
    return A
