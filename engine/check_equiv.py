"""C14: declarations whose arguments mean the same by the documentation have the same interface."""
import copy, json, random, re
import check_names, decl, expand, rewrite, run, xgen, xtool

SIZES = dict(quick=24000, thorough=400000)


def rewritten(rng, x):
    def ok(S, fs):
        y = put(x, S, fs)
        return check_names.sound(y)
    r = rewrite.rewrite(rng, x.S, [(f.name, f.F) for f in x.fields], ok)
    if r is None:
        return None
    S, fs, notes = r
    return put(x, S, fs), notes


def put(x, S, fs):
    y = copy.copy(x)
    y.S = S
    y.fields = []
    for f, (_, F) in zip(x.fields, fs):
        g = copy.copy(f)
        g.F = F
        y.fields.append(g)
    return y


def api(r):
    """What's visible of an expansion."""
    out = {}
    for i in r["items"]:
        if i["k"] == "struct":
            out["struct %s" % i["name"]] = (i["vis"], sorted(i["attrs"]), i["generics"],
                                            [(f["name"], f["vis"], f["ty"], sorted(f["attrs"])) for f in i["fields"]])
        elif i["k"] == "impl":
            if i["trait"]:
                k = "impl %s for %s" % (i["trait"], i["self"])
                out[k] = (i["generics"], i["where"])
            for f in i["fns"]:
                k = "%s::%s%s" % (i["self"], "<%s>::" % i["trait"] if i["trait"] else "", f["name"])
                n = 2
                while k in out:
                    k = "%s #%d" % (k, n)
                    n += 1
                out[k] = (f["vis"], sorted(f["attrs"]), f["async"], f["recv"], f["args"], f["ret"], f["generics"])
        elif i["k"] == "other":
            out[i["text"]] = ()
    return out


def compare(a, b):
    if a is None or b is None or a["r"] != "expanded" or b["r"] != "expanded" or "items" not in a or "items" not in b:
        if a and b and a["r"] == b["r"] == "rejected":
            return None
        return ["outcomes differ: %s against %s" % tuple("%s %s" % (r and r["r"], (r or {}).get("errors") or (r or {}).get("msg") or "") for r in (a, b))]
    x, y = api(a), api(b)
    out = []
    for k in sorted(set(x) | set(y)):
        if x.get(k) != y.get(k):
            out.append("%s: %s against %s" % (k, x.get(k, "absent"), y.get(k, "absent")))
    return out or None


def shrink(tool, x, y, rng, notes):
    """Both sides lose the same field or argument while they still mean the same and still differ."""
    best = (x, y)
    def cands(p):
        a, b = p
        for i in range(len(a.fields)):
            if len(a.fields) > 1:
                c, d = copy.deepcopy(a), copy.deepcopy(b)
                del c.fields[i], d.fields[i]
                yield c, d
        ks = set(a.S) | set(b.S)
        for k in ks:
            c, d = copy.deepcopy(a), copy.deepcopy(b)
            c.S.pop(k, None), d.S.pop(k, None)
            for i in range(len(c.fields)):
                pass
            yield c, d
            e, g = copy.deepcopy(c), copy.deepcopy(d)
            for f in e.fields + g.fields:
                f.F.pop(k, None)
            yield e, g
        for i in range(len(a.fields)):
            for k in set(a.fields[i].F) | set(b.fields[i].F):
                c, d = copy.deepcopy(a), copy.deepcopy(b)
                c.fields[i].F.pop(k, None), d.fields[i].F.pop(k, None)
                yield c, d
                for o in ("name", "vis", "attrs", "mode", "into", "required", "attributes", "order"):
                    if o in c.fields[i].F.get(k, {}) or o in d.fields[i].F.get(k, {}):
                        q, w = copy.deepcopy(a), copy.deepcopy(b)
                        for z in (q, w):
                            z.fields[i].F.get(k, {}).pop(o, None)
                        yield q, w
        # undo half-way: one side takes over the other's arguments
        for i in range(len(a.fields)):
            if a.fields[i].F != b.fields[i].F:
                c = copy.deepcopy(b)
                c.fields[i].F = copy.deepcopy(a.fields[i].F)
                yield copy.deepcopy(a), c
    def same(a, b):
        g = lambda z: rewrite.sig(z.S, [(f.name, f.F) for f in z.fields])
        return g(a) == g(b)
    for _ in range(40):
        cs = []
        for a, b in cands(best):
            try:
                if all(check_names.sound(z) and rewrite.sane(z.S, [(f.name, f.F) for f in z.fields]) for z in (a, b)) and same(a, b) and (a.text() != b.text()):
                    cs.append((a, b))
            except KeyError:
                pass
        res = xtool.expand(tool, [z.text() for p in cs for z in p], jobs=2)
        for i, p in enumerate(cs):
            if compare(res[2 * i], res[2 * i + 1]):
                best = p
                break
        else:
            break
    r = xtool.expand(tool, [z.text() for z in best], jobs=1)
    return best, compare(*r)


def main(prop, tier, seed, n=None):
    v = run.Verdict(prop, tier, seed)
    v.cov["rule"] = ("a case is a pair of declarations of the same documented meaning, the second one got from the first by moving arguments between the "
                     "struct and its fields, adding or removing `off`, permuting and respelling arguments; their expansions must have the same structs, "
                     "fields, types, methods and signatures; non-trivial: some edit other than permuting was made and the macro accepted the declaration")
    expansions(v, tier, seed, n)
    if n is None:
        import check_structs
        check_structs.main(prop, tier, seed, v=v)
    return v


def expansions(v, tier, seed, n=None):
    tool = expand.prepare()
    rng = random.Random("%s/%s" % ("C14", seed))
    n = n or SIZES[tier]
    pairs = []
    while len(pairs) < n:
        x = xgen.gen(rng)
        if not check_names.sound(x):
            continue
        r = rewritten(rng, x)
        if r is None or r[0].text() == x.text():
            continue
        pairs.append((x, r[0], r[1]))
    seen = {}
    for o in range(0, len(pairs), 10000):
        part = pairs[o:o + 10000]
        res = xtool.expand(tool, [z.text() for p in part for z in p[:2]])
        for i, (x, y, notes) in enumerate(part):
            a, b = res[2 * i], res[2 * i + 1]
            v.cov["evaluations"] += 1
            for k in set(re.sub("`[^`]*`", "`..`", q) for q in notes):
                v.cov["classes"][k] = v.cov["classes"].get(k, 0) + 1
            if any(q != "arguments shuffled" for q in notes) and a and a["r"] == "expanded":
                v.cov["distinct_nontrivial"] += 1
            bad = compare(a, b)
            if len(v.cov["samples"]) < 4 and rng.random() < 0.01:
                v.cov["samples"].append("#[fxstruct(%s)] %s\n== %s (%s)" % (*x.text(), "#[fxstruct(%s)] %s" % y.text(), "; ".join(notes)))
            if bad:
                key = re.sub(r"\d+", "", bad[0])[:30] + notes[0]
                seen[key] = seen.get(key, 0) + 1
                if seen[key] > 1 or len(seen) > 8:
                    continue
                (x, y), bad = shrink(tool, x, y, rng, notes)
                v.fail(kind="interfaces differ", args=x.text()[0], item=x.text()[1], message="#[fxstruct(%s)]\n%s\nmeans the same as\n#[fxstruct(%s)]\n%s\n(%s) but\n  %s" % (
                    *x.text(), *y.text(), "; ".join(notes), "\n  ".join(b[:300] for b in (bad or [])[:6])))
    v.cov["classes"]["differing pairs"] = sum(seen.values())


if __name__ == "__main__":
    import sys
    v = main("C14", "quick", int(sys.argv[1]), int(sys.argv[2]) if len(sys.argv) > 2 else None)
    print(json.dumps(v.cov["classes"], indent=1))
    sys.exit(v.finish())
