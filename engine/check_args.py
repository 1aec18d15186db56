"""C15: whatever is given to the macro is expanded into valid code or rejected; unknown, malformed, contradictory, misplaced and
disabled arguments are rejected, and switching all but one contradictory argument off makes them acceptable."""
import json, random, re
import check_names, decl, expand, run, xgen, xtool

SIZES = dict(quick=60000, thorough=1200000)

WORDS = ["off", "get", "get_mut", "set", "lazy", "reader", "writer", "clearer", "predicate", "builder", "optional", "lock", "inner_mut", "into",
         "copy", "clone", "as_ref", "public", "private", "crate", "super", "sync", "r#async", "async", "mode", "plain", "rc", "serde",
         "serialize", "deserialize", "default", "attributes", "attributes_fn", "attributes_impl", "forward_attrs", "skip", "rename", "fallible",
         "error", "no_new", "opt_in", "post_build", "required", "init", "in_mod", "Self", "self", "T", "u8", "struct", "fn", "type", "true", "r#type", "in",
         "where", "dyn", "impl", "const", "pub", "é", "compile"]
LITS = ['"a"', '""', '"a b"', '"r#x"', "42", "-1", "4.5", "1u8", "'c'", "b\"x\"", "b'x'", "true", "false", 'r#"x"#', '"\\u{0}"', '"self"', '"1"', '"a::b"', 'c"z"', "0x", "1e9999"]
PUNCT = [",", ",", ",", "=", "=", ":", "::", ";", "#", "!", "?", "<", ">", "&", "|", "->", "=>", "..", ".", "+", "-", "*", "/", "@", "$", "~", "%", "^", "'a"]
ITEMS = ["struct Foo { a: u8, b: String }", "struct Foo { #[fieldx(lazy)] a: u8, #[fieldx(get)] pub b: String }", "pub struct Foo<T> { a: T }",
         "struct Foo<'a, T: Clone + 'a, const N: usize> where T: Copy { a: &'a [T; N] }", "struct Foo {}", "#[derive(Clone)] pub(crate) struct Foo { #[doc = \"x\"] a: u8 }"]
BAD_ITEMS = ["struct Foo;", "struct Foo(u8);", "struct Foo(pub u8, #[fieldx(get)] String);", "struct Foo();", "enum Foo { A, B(u8) }", "enum Foo {}", "enum Foo<T> { A { #[fieldx(get)] x: T } }",
             "union Foo { a: u8, b: u16 }", "pub union Foo<T: Copy> { #[fieldx(lazy)] a: T }", "fn foo() {}", "impl Foo {}", "trait Foo {}",
             "const A: u8 = 1;", "type A = u8;", "mod m {}", "use a::b;", "static X: u8 = 0;", "", "struct", "struct Foo", "Foo { a: u8 }", "extern crate a;", "macro_rules! m { () => {} }"]

TOKEN = re.compile(r'''\s+|b?r#"(?:.|\n)*?"\#|[bc]?"(?:\\.|[^"\\])*"|b?'(?:\\.|[^'\\])'|'[A-Za-z_]\w*|r\#\w+|\d[\w.]*|\w+|::|->|=>|\.\.=?|.''', re.S)


def tokens(s):
    return [t for t in TOKEN.findall(s) if not t.isspace()]


def tree(toks):
    """Token list -> nested lists of [open, children, close]"""
    st = [[]]
    for t in toks:
        if t in "([{" and len(t) == 1:
            st.append([t])
        elif t in ")]}" and len(t) == 1 and len(st) > 1:
            g = st.pop()
            st[-1].append([g[0], g[1:], {"(": ")", "[": "]", "{": "}"}[g[0]]])
        else:
            st[-1].append(t)
    while len(st) > 1:
        g = st.pop()
        st[-1].append([g[0], g[1:], {"(": ")", "[": "]", "{": "}"}[g[0]]])
    return st[0]


def flat(tr):
    out = []
    for t in tr:
        if isinstance(t, list):
            out += [t[0]] + flat(t[1]) + [t[2]]
        else:
            out.append(t)
    return out


def groups(tr):
    yield tr
    for t in tr:
        if isinstance(t, list):
            yield from groups(t[1])


def rand_tree(rng, depth, n=4):
    out = []
    for _ in range(rng.randrange(n + 1)):
        r = rng.random()
        if r < 0.3 and depth > 0:
            o, c = rng.choice(["()", "()", "()", "[]", "{}"])
            out.append([o, rand_tree(rng, depth - 1, n), c])
        elif r < 0.62:
            out.append(rng.choice(WORDS))
        elif r < 0.74:
            out.append(rng.choice(LITS))
        else:
            out.append(rng.choice(PUNCT))
    return out


def mutate(rng, text):
    tr = tree(tokens(text))
    for _ in range(rng.choice([1, 1, 1, 2, 2, 3, 5])):
        gs = list(groups(tr))
        g = rng.choice(gs)
        r = rng.random()
        i = rng.randrange(len(g) + 1)
        if r < 0.25 and g:
            del g[min(i, len(g) - 1)]
        elif r < 0.4:
            g.insert(i, rng.choice(WORDS + LITS + PUNCT))
        elif r < 0.55 and g:
            g[min(i, len(g) - 1)] = rng.choice(WORDS + LITS)
        elif r < 0.65 and len(g) > 1:
            j, k = rng.randrange(len(g)), rng.randrange(len(g))
            g[j], g[k] = g[k], g[j]
        elif r < 0.75 and g:
            # copy something over from elsewhere
            h = rng.choice(gs)
            if h and h is not g:
                x = rng.choice(h)
                g.insert(i, tree(flat([x]))[0] if isinstance(x, list) else x)
        elif r < 0.82:
            o, c = rng.choice(["()", "[]", "{}"])
            g.insert(i, [o, rand_tree(rng, 2), c])
        elif r < 0.88:
            # unwrap a group
            for k, x in enumerate(g):
                if isinstance(x, list):
                    g[k:k + 1] = x[1]
                    break
        elif r < 0.94:
            for k, x in enumerate(g):
                if isinstance(x, list):
                    o, c = rng.choice(["()", "[]", "{}"])
                    x[0], x[2] = o, c
                    break
        else:
            # deep nesting
            x = rand_tree(rng, 1)
            for _ in range(rng.randrange(1, 25)):
                x = [["(", x, ")"]]
            g[i:i] = x
    return " ".join(flat(tr))


def helper_arg(rng, struct):
    """An argument of the right shape, with sub-arguments picked freely."""
    k = rng.choice(WORDS)
    subs = []
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
        r = rng.random()
        if r < 0.25:
            subs.append(rng.choice(LITS))
        elif r < 0.75:
            subs.append(rng.choice(WORDS))
        elif r < 0.9:
            subs.append("%s(%s)" % (rng.choice(WORDS), " ".join(flat(rand_tree(rng, 1, 3)))))
        else:
            subs.append("%s = %s" % (rng.choice(WORDS), rng.choice(LITS + WORDS)))
    r = rng.random()
    if r < 0.15:
        return k
    if r < 0.2:
        return "%s = %s" % (k, rng.choice(LITS))
    return "%s(%s)" % (k, ", ".join(subs))


def arg_list(rng, struct):
    return ", ".join(helper_arg(rng, struct) for _ in range(rng.choice([0, 1, 1, 2, 3, 5])))


# ---------------------------------------------------------------- cases: (class, args, item, expectation)
def sound_x(rng):
    while True:
        x = xgen.gen(rng)
        if check_names.sound(x):
            return x


UNKNOWN = ["foo", "gets", "lazzy", "sync_", "asyn", "Get", "on", "readers", "write", "pub", "vis", "naming", "prefix", "optonal", "mutable", "init", "rename_all", "skip_all", "x"]
FIELD_ONLY = ["skip", 'rename("zz")', "attributes_fn(inline)"]
STRUCT_ONLY = ["no_new", "no_new(off)", "rc", 'rc("me")', "rc(off)", "attributes(inline)", "attributes_impl(inline)",
               "builder(opt_in)", "builder(opt_in(off))", "builder(post_build)", "builder(post_build(fin))", "builder(error(E))", "builder(error(E, E::U))",
               'builder("nm", into, opt_in)', "builder(required, error(E))"]
MALFORMED = ["%(h)s = 1", "%(h)s(42)", '%(h)s("aa", "bb")', "%(h)s(off, off)", "%(h)s('c')", "%(h)s(true)", "%(h)s(off = true)", "%(h)s(private, private)",
             "%(h)s(public(crate, super))", '%(h)s(public("x"))', "%(h)s(public(zzz))", "%(h)s(private(crate))", "%(h)s(attributes_fn)", "%(h)s(private = true)",
             "%(f)s(42)", '%(f)s("aa")', "%(f)s(true)", "%(f)s = true", '%(f)s = "on"', "%(f)s(off(off))", "%(f)s(public)", "%(f)s(off, off)", "%(f)s(zzz)",
             "mode", "mode()", "mode(zzz)", 'mode("sync")', "mode(sync, async)", "mode(off)", "mode = \"sync\"", "public(zzz)", "public()", 'public("crate")', "public(crate, super)",
             "get(copy(off))", "get(into)", "set(copy)", "get_mut(copy)", "reader(into)", "lazy(into)", "get(required)", "get(mode)",
             "fallible(E)", "fallible(error)", "fallible(error())", 'fallible("E")', "fallible(error(E, F))", "builder(required(1))", "builder(into(yes))", "get(error(E))",
             'serde("A", "B")', "serde(42)", "serde(serialize(yes))", "serde(zzz)", "serde(default(1, 2, 3))", "serde(private(x))"]
MALFORMED_FIELD = ["rename", "rename(42)", 'rename("a", "b")', 'rename("a b")', 'rename("")', 'rename("1x")', 'rename = "zz"', "skip(off)", "skip = true", "default(1, 2)", "default(1, 2, 3)", "attributes_fn", "attributes_fn(,)", "attributes_fn = 1"]
MALFORMED_STRUCT = ["no_new(yes)", "default(42)", "default(Self::x())", 'rc("a", "b")', 'rc("a b")', 'rc("")', "rc(clone)", "attributes", "attributes = 1", "attributes_impl(,,)",
                    "builder(post_build(a, b))", 'builder(post_build("x"))', "builder(error())", "builder(error)", "builder(error(A, B, C))", 'builder(error("A"))', "builder(opt_in(yes))",
                    'serde("1x")', 'serde("")', 'serde("a b")']
HEL = ["get", "get_mut", "set", "reader", "writer", "clearer", "predicate", "lazy", "builder"]
FLG = ["optional", "lock", "inner_mut", "into", "copy", "clone", "sync", "r#async", "private"]

# groups of contradicting arguments: alternatives of (on forms, off forms or None)
def A(*on, off=None):
    return on, off
GROUPS = dict(
    struct=dict(
        visibility=[[A("public", "public(crate)", "public(super)", "public(a::b)")], [A("private", off="private(off)")]],
        accessor=[[A("copy", off="copy(off)")], [A("clone", off="clone(off)")]],
        concurrency=[[A("sync", off="sync(off)")], [A("r#async", off="r#async(off)")], [A("mode(sync)", "mode(async)", "mode(plain)")], [A("inner_mut", off="inner_mut(off)")]],
        lazy=[[A("lazy", "lazy()", off="lazy(off)")], [A("optional", off="optional(off)"), A("inner_mut", off="inner_mut(off)")]],
        serde=[[A("serde", 'serde("Sh")', "serde(serialize)", off="serde(off)")], [A("rc", 'rc("me")', off="rc(off)")]]),
    field=dict(
        visibility=[[A("public", "public(crate)", "public(super)", "public(a::b)")], [A("private", off="private(off)")]],
        accessor=[[A("copy", off="copy(off)")], [A("clone", off="clone(off)")]],
        concurrency=[[A("sync", off="sync(off)")], [A("r#async", off="r#async(off)")], [A("mode(sync)", "mode(async)", "mode(plain)")], [A("inner_mut", off="inner_mut(off)")]],
        lazy=[[A("lazy", 'lazy("mk")', off="lazy(off)")], [A("optional", off="optional(off)"), A("inner_mut", off="inner_mut(off)")]],
        fallible=[[A("fallible(error(E))", off="fallible(off)")], [A("optional", off="optional(off)"), A("lock", off="lock(off)"), A("inner_mut", off="inner_mut(off)")]]))
HELPER_GROUPS = dict(
    visibility=[[A("public", "public(crate)", "public(a::b)")], [A("private", off="private(off)")]])
GET_MODES = ["copy", "clone", "as_ref"]


def pick_group(rng, alts, want_conflict):
    """-> argument texts; at least two subgroups are on if a conflict is wanted, else at most one"""
    while True:
        out, on = [], set()
        for i, sub in enumerate(alts):
            for a, off in sub:
                r = rng.random()
                if r < 0.45:
                    out.append(rng.choice(a))
                    on.add(i)
                elif r < 0.75 and off is not None:
                    out.append(off)
        if len(out) < 2:
            continue
        if (len(on) >= 2) == want_conflict:
            rng.shuffle(out)
            return out


def plain_item(rng, field_args):
    fs = []
    for i in range(rng.choice([1, 1, 2])):
        fs.append("%s: %s" % ("abc"[i], rng.choice(["u8", "String", "Option<u8>"])))
    k = rng.randrange(len(fs))
    if field_args is not None:
        fs[k] = "#[fieldx(%s)] %s" % (field_args, fs[k])
    return "struct Foo { %s }" % ", ".join(fs)


def filler(rng, used, struct):
    """Harmless arguments to surround the ones under test with."""
    pool = ["get", "set", "into", "clearer(off)", "get_mut"]
    pool += ["no_new", "builder", "default"] if struct else ["builder(required)"]
    keys = set(u.split("(")[0] for u in used)
    return [p for p in pool if p.split("(")[0] not in keys and rng.random() < 0.2]


def place(rng, args, struct):
    fl = filler(rng, args, struct)
    l = list(args)
    for f in fl:
        l.insert(rng.randrange(len(l) + 1), f)
    t = ", ".join(l)
    return (t, plain_item(rng, None)) if struct else ("", plain_item(rng, t))


def case(rng):
    r = rng.random()
    if r < 0.24:
        x = sound_x(rng)
        a, i = x.text()
        if rng.random() < 0.5:
            a = mutate(rng, a)
        else:
            i = mutate(rng, i)
        return "mutated declaration", a, i, "any"
    if r < 0.36:
        it = rng.choice(ITEMS)
        fa = arg_list(rng, False)
        if rng.random() < 0.5:
            it = "struct Foo { #[fieldx(%s)] a: %s, %s b: u8 }" % (fa, rng.choice(xgen.TYPES), "#[fieldx(%s)]" % arg_list(rng, False) if rng.random() < 0.5 else "")
        return "free arguments", arg_list(rng, True) if rng.random() < 0.7 else "", it, "any"
    if r < 0.46:
        return "arbitrary tokens", " ".join(flat(rand_tree(rng, 4, 6))), rng.choice(ITEMS) if rng.random() < 0.6 else " ".join(flat(rand_tree(rng, 3, 6))), "any"
    if r < 0.54:
        x = sound_x(rng)
        a, _ = x.text()
        return "unsupported item", a if rng.random() < 0.7 else "", rng.choice(BAD_ITEMS), "rejected"
    if r < 0.66:
        x = sound_x(rng)
        w = rng.choice(UNKNOWN)
        form = rng.choice([w, w, "%s(off)" % w, "%s(\"n\")" % w, "%s = 1" % w, "%s()" % w])
        spots = [(x.S, None)] + [(f.F, None) for f in x.fields]
        hs = [(A, k) for A in [x.S] + [f.F for f in x.fields] for k in A
              if k in HEL + ["rc", "serde", "optional", "lock", "copy", "clone", "into", "sync", "async", "inner_mut", "private", "no_new"]]
        A, k = rng.choice(hs) if hs and rng.random() < 0.6 else rng.choice(spots)
        if k is None:
            # `copy`-like keys are rendered as they are
            A[form] = {}
            keys = list(A)
            keys.remove(form)
            keys.insert(rng.randrange(len(keys) + 1), form)
            B = {q: A[q] for q in keys}
            A.clear()
            A.update(B)
        else:
            A[k].setdefault("raw", []).append(form)
            A[k].setdefault("order", rng.randrange(1, 99))
        a, i = x.text()
        return "unknown argument", a, i, "rejected"
    if r < 0.72:
        x = sound_x(rng)
        # no fieldx attribute of the field under test but the malformed one
        f = rng.choice(x.fields)
        struct = rng.random() < 0.5
        pool = MALFORMED + (MALFORMED_STRUCT if struct else MALFORMED_FIELD)
        bad = rng.choice(pool)
        if "%(h)s" in bad:
            h = [q for q in HEL if not ('"' in bad and "public" not in bad and struct is None)]
            bad = bad % dict(h=rng.choice(h))
        elif "%(f)s" in bad:
            bad = bad % dict(f=rng.choice(FLG))
        if struct and "rename" in bad:
            pass
        a, i = place(rng, [bad], struct)
        return "malformed argument", a, i, "rejected"
    if r < 0.77:
        struct = rng.random() < 0.4
        a, i = place(rng, [rng.choice(FIELD_ONLY if struct else STRUCT_ONLY)], struct)
        return "misplaced argument", a, i, "rejected"
    if r < 0.8:
        struct = rng.random() < 0.5
        k = rng.choice(HEL + FLG + (["rc", "no_new", "serde", "builder"] if struct else ["skip", 'rename("zz")', "serde"]))
        second = k if k in ("skip",) or "rename" in k else rng.choice([k, k + "(off)"])
        first = rng.choice([k, k + "(off)"]) if k not in ("skip",) and "rename" not in k else k
        a, i = place(rng, [first, second], struct)
        return "duplicate argument", a, i, "rejected"
    if r < 0.95:
        conflict = rng.random() < 0.5
        exp = "rejected" if conflict else "expanded"
        cls = "contradiction" if conflict else "contradiction switched off"
        q = rng.random()
        if q < 0.15:
            struct = rng.random() < 0.5
            subs = pick_group(rng, HELPER_GROUPS["visibility"], conflict)
            if rng.random() < 0.2:
                subs.insert(rng.randrange(len(subs) + 1), "off")
            a, i = place(rng, ["%s(%s)" % (rng.choice(HEL), ", ".join(subs))], struct)
            return cls + ": helper visibility", a, i, exp
        if q < 0.25:
            struct = rng.random() < 0.5
            n = rng.choice([2, 2, 3]) if conflict else 1
            a, i = place(rng, ["get(%s)" % ", ".join(rng.sample(GET_MODES, n))], struct)
            return cls + ": get mode", a, i, exp
        if q < 0.3:
            subs = pick_group(rng, HELPER_GROUPS["visibility"], conflict)
            a, i = place(rng, ["serde(%s)" % ", ".join(subs)], True)
            return cls + ": serde visibility", a, i, exp
        level = rng.choice(["struct", "field"])
        g = rng.choice(list(GROUPS[level]))
        args = pick_group(rng, GROUPS[level][g], conflict)
        if g == "lazy" or g == "fallible":
            pass
        a, i = place(rng, args, level == "struct")
        return cls + ": %s %s" % (level, g), a, i, exp
    x = sound_x(rng)
    a, i = x.text()
    return "sound declaration", a, i, "expanded"


FEATURES = [((), "xnone"), (("sync", "serde"), "xsync"), (("sync", "async"), "xasync")]
NEEDS = {"sync": ["sync", "sync()"], "async": ["r#async", "r#async()"],
         "serde": ["serde", 'serde("Sh")', "serde(serialize)", "serde(default)", "serde(deserialize(off))"]}
OFFS = {"sync": "sync(off)", "async": "r#async(off)", "serde": "serde(off)"}


def feature_case(rng, feats):
    """For a macro built with `feats` only."""
    miss = [f for f in NEEDS if f not in feats]
    struct = rng.random() < 0.5
    f = rng.choice(miss)
    if rng.random() < 0.3:
        a, i = place(rng, [OFFS[f]], struct)
        return "disabled feature, off", a, i, "expanded"
    a, i = place(rng, [rng.choice(NEEDS[f])], struct)
    return "disabled feature", a, i, "rejected"


def verdict(r, exp, item):
    if r is None or r["r"] == "died":
        return "the macro ended or blocked the process (%s)" % (r or {}).get("msg")
    if r["r"] == "panic":
        return "the macro panicked: %s" % r.get("msg")
    if r["r"] == "untokenizable":
        return None
    if r["r"] == "expanded" and "syntax" in r:
        return "expanded into invalid syntax (%s): %s" % (r["syntax"], r.get("out", "")[:400])
    if exp == "rejected" and r["r"] != "rejected":
        return "accepted, while it had to be rejected"
    if exp == "expanded" and r["r"] != "expanded":
        return "rejected, while it had to be accepted: %s" % r.get("errors")
    return None


def user_expr(tool, a, i):
    """Is it only that what the user gave for a default value is not an expression? That's for rustc to tell."""
    def neutral(t):
        tr = tree(tokens(t))
        for g in groups(tr):
            for k in range(len(g) - 1):
                if g[k] == "default" and isinstance(g[k + 1], list):
                    g[k + 1][1][:] = ["42"]
        return " ".join(flat(tr))
    r = xtool.expand(tool, [(neutral(a), neutral(i))], full=False, jobs=1)[0]
    return bool(r) and not (r["r"] == "expanded" and "syntax" in r)


def main(prop, tier, seed, n=None):
    v = run.Verdict(prop, tier, seed)
    v.cov["rule"] = ("a case is an attribute input (struct-level arguments and item) given to the macro's own code in-process: sound declarations, their "
                     "token-level mutations, freely combined arguments, arbitrary token trees, unsupported items, injected unknown, malformed, misplaced, duplicate or "
                     "contradictory arguments, contradictory ones with all but one off, and arguments of features the macro is built without; "
                     "non-trivial: the input was tokenizable and is distinct")
    n = n or SIZES[tier]
    rng = random.Random("%s/%s" % (prop, seed))
    builds = [(expand.prepare(), None, n)] + [(expand.prepare(f, nm), f, max(200, n // 40)) for f, nm in FEATURES]
    for tool, feats, k in builds:
        cases, seen = [], set()
        while len(cases) < k:
            c = case(rng) if feats is None else feature_case(rng, feats)
            if feats is not None and len(cases) > 150 and rng.random() < 0.5:
                c = case(rng)
                c = (c[0], c[1], c[2], "any")
            if feats is None and (c[1], c[2]) in seen and rng.random() < 0.9:
                continue
            seen.add((c[1], c[2]))
            cases.append(c)
        res = []
        for o in range(0, len(cases), 20000):
            res += xtool.expand(tool, [(a, i) for _, a, i, _ in cases[o:o + 20000]], full=False)
        distinct = set()
        for (cls, a, i, exp), r in zip(cases, res):
            v.cov["evaluations"] += 1
            cl = v.cov["classes"]
            cl[cls] = cl.get(cls, 0) + 1
            if r and r["r"] != "untokenizable":
                if (a, i) not in distinct:
                    distinct.add((a, i))
                    v.cov["distinct_nontrivial"] += 1
                if exp == "any":
                    cl["outcome " + r["r"]] = cl.get("outcome " + r["r"], 0) + 1
            if len(v.cov["samples"]) < 12 and rng.random() < 0.01:
                v.cov["samples"].append("%s: #[fxstruct(%s)] %s -> %s" % (cls, a, i, r and r["r"]))
            m = verdict(r, exp, i)
            if m and m.startswith("expanded into invalid syntax") and user_expr(tool, a, i):
                cl["invalid default expression"] = cl.get("invalid default expression", 0) + 1
                m = None
            if m:
                key = cls + m[:40]
                if key in seen:
                    continue
                seen.add(key)
                a, i, m = shrink(tool, a, i, exp, m)
                v.fail(kind=cls, args=a, item=i, message="[%s%s] %s\n#[fxstruct(%s)]\n%s" % (
                    cls, "" if feats is None else ", features %s" % (list(feats),), m, a, i))
    return v


def shrink(tool, a, i, exp, m):
    """Only those with no particular expectation may be cut down freely."""
    if exp != "any":
        return a, i, m
    cur = (a, i)
    head = m[:25]
    for _ in range(60):
        cs = []
        for w in (0, 1):
            tr = tree(tokens(cur[w]))
            gs = list(groups(tr))
            for gi, g in enumerate(gs):
                for k in range(len(g)):
                    t2 = tree(tokens(cur[w]))
                    g2 = list(groups(t2))[gi]
                    if k < len(g2):
                        del g2[k]
                        c = list(cur)
                        c[w] = " ".join(flat(t2))
                        cs.append(tuple(c))
        if not cs:
            break
        res = xtool.expand(tool, cs, full=False, jobs=4)
        for c, r in zip(cs, res):
            x = verdict(r, exp, c[1])
            if x and x[:25] == head and not (head.startswith("expanded into invalid") and user_expr(tool, *c)):
                cur, m = c, x
                break
        else:
            break
    return cur[0], cur[1], m


if __name__ == "__main__":
    import sys
    v = main("C15", "quick", int(sys.argv[1]), int(sys.argv[2]) if len(sys.argv) > 2 else None)
    print(json.dumps(v.cov["classes"], indent=1))
    sys.exit(v.finish())
