"""C13: names, visibility and attributes of what the macro emits, against the documented rules."""
import json, random, re
import decl, expand, run, xgen, xtool
from xgen import VIS_TOK, STRUCT_VIS_TOK

KINDS = [("get", "acc"), ("get_mut", "acc_mut"), ("set", "setter"), ("reader", "reader"), ("writer", "writer"),
         ("clearer", "clearer"), ("predicate", "predicate")]
SIZES = dict(quick=40000, thorough=400000)


def norm(s):
    return re.sub(r"\s+", "", s)


def marks(attrs):
    return sorted(norm(a) for a in attrs if "mk" in a.split("(")[0] or a.startswith("mk") or "mk" in a[:12])


def want_attrs(l):
    return sorted(norm(a) for a in l or [])


def sem(x):
    smode = decl.struct_mode(x.S, None)
    rs = [decl.resolve(x.S, eff_field(f), f.name, smode) for f in x.fields]
    return smode, rs


def eff_field(f):
    """A bare #[fieldx] stands for `lazy, clearer, predicate`."""
    return f.F


def vis_tok(x, v):
    return STRUCT_VIS_TOK[x.vis] if v is None else VIS_TOK[v]


def raws(A, k):
    return A[k]["raw"] if k in A else None


def expected(x):
    """-> {method: (vis, attrs)}, {builder method: (vis, attrs)}, facts on the rest"""
    smode, rs = sem(x)
    first = decl.first
    m, b = [], []
    S = x.S
    for f, s in zip(x.fields, rs):
        F = f.F
        if s.skip:
            continue
        for k, flag in KINDS:
            if getattr(s, flag):
                at = first(decl.sub(F, k, "attrs"), raws(F, "attributes_fn"), decl.sub(S, k, "attrs"))
                m.append((s.mname(k), vis_tok(x, s.vis(k)), want_attrs(at)))
        if s.inb:
            at = first(decl.sub(F, "builder", "attrs"), raws(F, "attributes_fn"), decl.sub(S, "builder", "attrs"))
            v = decl.sub(F, "builder", "vis")
            b.append((s.mname("builder"), "pub" if v is None else VIS_TOK[v], want_attrs(at)))
    if S.has("rc"):
        n = S["rc"].get("name") or "myself"
        v = VIS_TOK[S["rc"].get("vis")] if S["rc"].get("vis") else ""
        m += [(decl.ident(n), v, []), (n + "_downgrade", v, [])]
    want_new = S.has("no_new") is not True and S.has("default") is not False
    if want_new:
        m.append(("new", "pub", []))
    has_builder = first(S.has("builder"), any(f.F.has("builder") for f in x.fields))
    if has_builder:
        m.append(("builder", STRUCT_VIS_TOK[x.vis], []))
    return smode, rs, m, (b if has_builder else None)


def check(x, r):
    """-> list of messages, traits of the case"""
    S = x.S
    smode, rs, want, wantb = expected(x)
    structs = {i["name"]: i for i in r["items"] if i["k"] == "struct"}
    bad = []
    def cmp(what, got, exp):
        if got != exp:
            bad.append("%s: expected %s, got %s" % (what, exp, got))
    own = [i for i in r["items"] if i["k"] == "impl" and i["trait"] is None and re.match(x.name + r"\b(?!B)", i["self"])]
    fns = [(f["name"], f["vis"], marks(f["attrs"])) for i in own for f in i["fns"] if not f["name"].startswith("__")]
    methods("the struct", fns, want, bad)
    for i in own:
        if any(f["name"] == "new" for f in i["fns"]) or len(own) == 1:
            cmp("attributes of the struct's impl", marks(i["attrs"]), want_attrs(raws(S, "attributes_impl")))
    st = structs[x.name]
    cmp("visibility of the struct", st["vis"], STRUCT_VIS_TOK[x.vis])
    cmp("attributes of the struct", marks(st["attrs"]), want_attrs([a for a in x.attrs if "mk" in a]))
    flds = {f["name"]: f for f in st["fields"]}
    for f in x.fields:
        if f.src not in flds:
            bad.append("field %s is gone" % f.name)
            continue
        g = flds[f.src]
        cmp("visibility of field " + f.name, norm(g["vis"]), norm(f.vis))
        cmp("attributes of field " + f.name, marks(g["attrs"]), want_attrs(f.attrs))
        if any("fieldx" in a for a in g["attrs"]):
            bad.append("the fieldx attribute of %s is still there" % f.name)
    # Names of hidden fields (the self-reference of a reference counted struct) are not specified.
    src = [f.src for f in x.fields]
    cmp("fields", [n for n in flds if n in src or not n.startswith("_")], src)
    bn = x.name + "Builder"
    if wantb is None:
        if bn in structs:
            bad.append("unrequested builder struct")
    else:
        if bn not in structs:
            bad.append("no builder struct")
        else:
            bs = structs[bn]
            v = decl.sub(S, "builder", "vis")
            cmp("visibility of the builder struct", bs["vis"], vis_tok(x, v))
            at = decl.first(decl.sub(S, "builder", "attributes"), raws(S, "attributes"))
            cmp("attributes of the builder struct", marks(bs["attrs"]), want_attrs(at))
            at = decl.first(decl.sub(S, "builder", "attributes_impl"), raws(S, "attributes_impl"))
            im = [i for i in r["items"] if i["k"] == "impl" and i["trait"] is None and i["self"].startswith(bn)]
            for i in im:
                cmp("attributes of the builder's impl", marks(i["attrs"]), want_attrs(at))
            got = [(f["name"], f["vis"], marks(f["attrs"])) for i in im for f in i["fns"] if not f["name"].startswith("__")]
            bv = vis_tok(x, v)
            methods("the builder", got, wantb + [("new", bv, []), ("build", bv, [])], bad)
            bf = {f["name"]: f for f in bs["fields"]}
            for f, s in zip(x.fields, rs):
                if s.inb and f.src in bf:
                    cmp("attributes of the builder's field " + f.name, [a for a in marks(bf[f.src]["attrs"])],
                        want_attrs(decl.sub(f.F, "builder", "attributes")))
    if S.has("serde"):
        sn = S["serde"].get("name") or "__%sShadow" % x.name
        if sn not in structs:
            bad.append("no shadow struct %s" % sn)
        else:
            sh = structs[sn]
            cmp("attributes of the shadow struct", marks(sh["attrs"]),
                want_attrs(decl.first(decl.sub(S, "serde", "attributes"), raws(S, "attributes"))))
            v = S["serde"].get("vis")
            cmp("visibility of the shadow struct", sh["vis"], VIS_TOK[v] if v else "")
            shadow_fields(x, rs, sh, cmp)
    return bad


def shadow_fields(x, rs, sh, cmp):
    own, there = x.S["serde"], {f["name"]: f for f in sh["fields"]}
    want = [f for f, s in zip(x.fields, rs) if f.F.has("serde") is not False and not s.skip]
    unsure = [f.src for f, s in zip(x.fields, rs) if s.skip and "serde" in f.F]
    src = [f.src for f in x.fields]
    cmp("fields of the shadow struct", [n for n in there if n not in unsure and (n in src or not n.startswith("_"))], [f.src for f in want])
    for f, s in zip(x.fields, rs):
        if f not in want or f.src not in there:
            continue
        g = there[f.src]
        ty = norm(f.ty)
        cmp("type of the shadow's field " + f.name, norm(g["ty"]).replace("::std::option::", ""), "Option<%s>" % ty if s.lazy or s.optional else ty)
        mine = f.F.get("serde")
        # Where nothing tells what to forward, or it's the struct only while the field has a `serde` of its own, it's not specified
        fwd = own.get("forward") if mine is None else mine.get("forward")
        if fwd is not None:
            cmp("attributes of the shadow's field " + f.name, marks(g["attrs"]),
                want_attrs([a for a in f.attrs if re.match(r"[\w:]*", a).group() in fwd] + ((mine or {}).get("attributes") or [])))


def methods(what, got, want, bad):
    g, w = {}, {}
    for n, v, a in got:
        g.setdefault(n, []).append((v, a))
    for n, v, a in want:
        w.setdefault(n, []).append((v, a))
    for n in sorted(set(g) | set(w)):
        if n not in g:
            bad.append("%s has no method %s" % (what, n))
        elif n not in w:
            bad.append("%s has an unrequested method %s" % (what, n))
        elif sorted(g[n]) != sorted(w[n]):
            bad.append("method %s of %s: expected (visibility, attributes) %s, got %s" % (n, what, sorted(w[n]), sorted(g[n])))


def sound(x):
    smode, rs = sem(x)
    for f, s in zip(x.fields, rs):
        if f.F.has("lazy") and (f.F.has("optional") or f.F.has("inner_mut")):
            return False
        if s.lazy and (s.optional or s.inner_mut):
            return False
        if s.inner_mut and f.F.has("lock"):
            return False
        if s.inner_mut and s.mode != "plain":
            return False
        if s.skip and len(f.F) > 2:
            return False
        # contradictory: something to clear or to test is asked for, and it's not to be optional
        on = lambda k: decl.first(f.F.has(k), x.S.has(k), False)
        if not (s.lazy or s.optional) and (on("clearer") or on("predicate")):
            return False
        if f.F.has("builder") is False and decl.sub(f.F, "builder", "name"):
            return False
        if f.F.has("inner_mut") and ("sync" in f.F or "async" in f.F or "mode" in f.F):
            return False
    if x.S.has("inner_mut") and smode != "plain":
        return False
    n = [t for t in expected(x)[2]]
    names = [t[0] for t in n]
    if len(set(names)) != len(names):
        return False
    return True


def traits(x):
    smode, rs = sem(x)
    c = set([smode])
    lev = set()
    for f, s in zip(x.fields, rs):
        for k, flag in KINDS + [("builder", "inb")]:
            if getattr(s, flag):
                c.add(k)
                lev.add("name " + ("field" if decl.sub(f.F, k, "name") else "prefix" if decl.sub(x.S, k, "name") else "default"))
                lev.add("vis " + ("helper" if decl.sub(f.F, k, "vis") else "field" if "public" in f.F or "private" in f.F else
                                  "struct helper" if decl.sub(x.S, k, "vis") else "struct" if "public" in x.S or "private" in x.S else "own"))
                if decl.sub(f.F, k, "attrs") or raws(f.F, "attributes_fn") or decl.sub(x.S, k, "attrs"):
                    lev.add("attributes")
    return c | lev, len([l for l in lev if l in ("name field", "name prefix", "vis helper", "vis field", "vis struct helper", "vis struct", "attributes")]) >= 2


def main(prop, tier, seed, n=None):
    v = run.Verdict(prop, tier, seed)
    v.cov["rule"] = ("a case is a generated declaration expanded by the macro's own code in-process; the visibility, name and marker attributes of every "
                     "method, builder method and auxiliary struct are compared with the documented rules; non-trivial: at least two of the "
                     "explicit naming, prefix, visibility and attribute levels decide about some generated method")
    tool = expand.prepare()
    rng = random.Random("%s/%s" % (prop, seed))
    n = n or SIZES[tier]
    xs, seen = [], set()
    while len(xs) < n:
        x = xgen.gen(rng)
        if sound(x):
            t = x.text()
            if t not in seen:
                seen.add(t)
                xs.append((x, t))
    res = xtool.expand(tool, [t for _, t in xs])
    shown = {}
    for (x, t), r in zip(xs, res):
        v.cov["evaluations"] += 1
        if r is None:
            raise run.Infra("no answer")
        tr, nt = traits(x)
        if nt:
            v.cov["distinct_nontrivial"] += 1
        for k in tr:
            v.cov["classes"][k] = v.cov["classes"].get(k, 0) + 1
        if len(v.cov["samples"]) < 4 and nt:
            v.cov["samples"].append("#[fxstruct(%s)] %s" % t)
        if r["r"] != "expanded" or "items" not in r:
            bad = ["not expanded: %s %s" % (r["r"], str(r.get("errors") or r.get("syntax") or r.get("msg"))[:300])]
        else:
            bad = check(x, r)
        if bad:
            key = re.sub(r"\b[a-zA-Z_]*\d+\w*", "_", bad[0])[:50]
            shown[key] = shown.get(key, 0) + 1
            if shown[key] <= 2:
                args, item, msgs = shrink(tool, x, bad)
                v.fail(kind="names, visibility or attributes", args=args, item=item,
                       message="#[fxstruct(%s)]\n%s\n  %s" % (args, item, "\n  ".join(msgs[:6])))
    v.cov["classes"]["failing declarations"] = sum(shown.values())
    return v


def shrink(tool, x, bad):
    """Greedy removal of arguments and fields while something is still wrong."""
    import copy
    cur, msgs = x, bad
    def cands(x):
        for i in range(len(x.fields)):
            if len(x.fields) > 1:
                y = copy.deepcopy(x)
                del y.fields[i]
                yield y
        for k in list(x.S):
            y = copy.deepcopy(x)
            del y.S[k]
            yield y
            for o in x.S[k]:
                y = copy.deepcopy(x)
                del y.S[k][o]
                yield y
        for i, f in enumerate(x.fields):
            for k in list(f.F):
                y = copy.deepcopy(x)
                del y.fields[i].F[k]
                yield y
                for o in f.F[k]:
                    if o not in ("value", "raw", "which"):
                        y = copy.deepcopy(x)
                        del y.fields[i].F[k][o]
                        yield y
        if x.attrs:
            y = copy.deepcopy(x)
            y.attrs = []
            yield y
    for _ in range(40):
        cs = []
        for y in cands(cur):
            try:
                if sound(y):
                    cs.append(y)
            except KeyError:
                pass
        res = xtool.expand(tool, [c.text() for c in cs], jobs=2)
        for c, r in zip(cs, res):
            if r and r["r"] == "expanded" and "items" in r:
                b = check(c, r)
            elif bad[0].startswith("not expanded"):
                b = ["not expanded: %s" % r]
            else:
                b = []
            if b:
                cur, msgs = c, b
                break
        else:
            break
    return (*cur.text(), msgs)


if __name__ == "__main__":
    import sys
    v = main("C13", "quick", int(sys.argv[1]), int(sys.argv[2]) if len(sys.argv) > 2 else None)
    print(json.dumps(v.cov["classes"], indent=1))
    sys.exit(v.finish())
