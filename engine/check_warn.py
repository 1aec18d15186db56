"""C23: generated declarations must not make the compiler complain about what the macro makes of them."""
import collections, json, os, random, re, subprocess
import features, gen, profiles, run

# Lints which are about what the user asked for (clones of references)
HEAD = "#![warn(unsafe_code)]\n#![allow(noop_method_call, suspicious_double_ref_op)]"
USES = ("#[allow(unused_imports)] use ::rt::*; #[allow(unused_imports)] use ::rt::env::{self, LErr, FErr, BErr}; use ::fieldx::fxstruct; "
        "#[allow(unused_imports)] use ::std::marker::PhantomData;")
SETS = [("sync", "async", "serde"), (), ("sync",), ("async", "serde"), ("sync", "async", "serde", "send_guard")]
SIZES = dict(quick=dict(programs=24, per=80, sets=3), thorough=dict(programs=96, per=120, sets=5))
SHRINK = 4     # how many violations are made small


def emit(D, src=None):
    out = []
    w = out.append
    w("pub mod m%d {" % D.id)
    if D.name.startswith("r#"):
        w("#![allow(non_camel_case_types)]")
    w(USES)
    if D.serde:
        w("#[allow(unused_imports)] use ::serde::{Serialize, Deserialize};")
    w("//BEGIN")
    w(src or gen.struct_src(D))
    w("//END")
    w("#[allow(warnings)] mod user { use super::*;")
    w(gen.emit_user_impl(D))
    w("}")
    for f in D.fields:
        if f.def_expr and "dv_" in f.def_expr:
            w("pub fn dv_%s%s() -> %s { <%s as Mk>::mk(env::def(%d, %d)) }" % (
                f.name, gen.used_generics(D, f.ty.rust), f.ty.rust, f.ty.rust, f.i, f.def_tok))
        if getattr(f, "sd_tok", None) is not None:
            w("pub fn sd_%s() -> %s { <%s as Mk>::mk(%d) }" % (f.name, f.ty.rust, f.ty.rust, f.sd_tok))
    w("}")
    return "\n".join(out)


def program(chunks):
    return "\n".join([HEAD, *chunks])


def ours(text):
    """line number -> module id, of lines of declarations"""
    cur, inside, res = None, False, []
    for l in text.split("\n"):
        if l.startswith("pub mod m"):
            cur = int(l[9:].split(" ")[0])
        inside = l == "//BEGIN" or inside and l != "//END"
        res.append(cur if inside else None)
    return res


def code_of(m):
    return (m.get("code") or {}).get("code") or m["level"]


def excused(m, hidden):
    """dead_code isn't what the user asked for only where it names something nobody is expected to use"""
    return code_of(m) == "dead_code" and not set(re.findall(r"`(?:r#)?(\w+)`", m["message"])) & hidden


def hidden(D):
    my = D.S.get("rc", {}).get("name") or "myself"
    return {my, my + "_downgrade"} if D.rc else set()


def messages(d, timeout=800):
    """-> (return code, [(target, message)], stderr)"""
    e = run.env()
    e["RUSTFLAGS"] = ""
    p = subprocess.run(["cargo", "check", "--offline", "--examples", "--keep-going", "--message-format=json"], cwd=d, env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
    res = []
    for line in p.stdout.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("reason") == "compiler-message":
            res.append((m["target"]["name"], m["message"]))
    return p.returncode, res, p.stderr


def check(d, srcs, decls):
    """-> {module id: [(lint or error code, rendered)]}"""
    rc, ms, err = messages(d)
    found, seen = collections.defaultdict(list), 0
    for target, m in ms:
        if target not in srcs:
            if m["level"].startswith("error"):
                raise run.Infra("dependency doesn't build: %s" % m.get("rendered", m["message"])[:3000])
            continue
        where = ours(srcs[target])
        ks = {where[l - 1] for l in run.outer_lines(m, "%s.rs" % target) if l - 1 < len(where)} - {None}
        if not ks and m["level"].startswith("error") and m.get("spans"):
            raise run.Infra("error outside of declarations: %s" % m.get("rendered"))
        for k in ks:
            if excused(m, hidden(decls[k])):
                continue
            seen += 1
            found[k].append((code_of(m), m.get("rendered") or m["message"]))
    if rc and not seen:
        raise run.Infra("cargo check failed in %s:\n%s" % (d, err[-3000:]))
    return found


FIELD = re.compile(r"(?:^    #\[.*\n)*^    (?:pub(?:\(.*?\))? )?(?:r#)?\w+: .*,\n", re.M)


def shrink(D, code, pkg, deps):
    """Fields are left out as long as the same lint is still raised."""
    src = gen.struct_src(D)
    for rnd in range(6):
        cands = [src[:m.start()] + src[m.end():] for m in FIELD.finditer(src)]
        for m in re.finditer(r"(?<=[(,] )\w+(?:\(\w*\)|\(\"\w*\"\))?, ", src):
            cands.append(src[:m.start()] + src[m.end():])
        if not cands:
            break
        srcs = {"s%d" % i: program([emit(D, c)]) for i, c in enumerate(cands)}
        d = run.package(pkg, srcs, deps=deps, lib=True, editions=[D.edition])
        good = tolerant(d, srcs, code)
        if not good:
            break
        src = min((cands[int(b[1:])] for b in good), key=len)
    return src


def tolerant(d, srcs, code):
    """-> programs which raise the lint (or error) and no errors other than that"""
    codes = collections.defaultdict(set)
    for target, m in messages(d, 300)[1]:
        c = code_of(m)
        codes[target].add(c if m["level"] == "warning" or code == c else "E:" + c)
    return [b for b in srcs if code in codes[b] and not any(c.startswith("E:") for c in codes[b])]


def main(prop, tier, seed):
    v = run.Verdict(prop, tier, seed)
    z = SIZES[tier]
    v.cov["rule"] = ("a case is a generated struct declaration compiled, with default-on lints and unsafe_code, in a crate of one of editions 2018, "
                     "2021, 2024 with the library in some of its configurations; non-trivial: at least three kinds of helpers are asked for; "
                     "distinct by the text of the declaration, edition and configuration")
    seen, n, small = set(), 0, 0
    cls = collections.Counter()
    for si, feats in enumerate(SETS[:z["sets"]]):
        profile = dict(profiles.PROFILES["C18"]["profile"])
        profile["generics"] = 0.5
        profile["inner_mut"] = max(profile.get("inner_mut", 0), 0.2)
        profile["modes"] = dict(plain=3, sync=3 if "sync" in feats else 0, async_=3 if "async" in feats else 0)
        if "serde" not in feats:
            profile["serde"] = 0.0
        one = features.fitting(feats)
        deps = features.DEPS % (", ".join('"%s"' % f for f in feats), run.VERIF)
        deps += 'parking_lot = "0.12"\ntokio = { version = "1", features = ["sync"] }\n'
        decls, progs = {}, {}
        for i in range(z["programs"] if si == 0 else max(3, z["programs"] // 8)):
            ks = []
            for _ in range(z["per"]):
                D = one(random.Random("%s/%s/%d" % (prop, seed, n)), profile, n)[0]
                D.id = n
                D.edition = run.EDITIONS[i % 3]
                decls[n] = D
                ks.append(n)
                n += 1
            progs["w%d_%d" % (si, i)] = program([emit(decls[k]) for k in ks])
        pkg = "warn_%d" % si
        found = check(run.package(pkg, progs, deps=deps, lib=True), progs, decls)
        run.log("%d declarations checked (features: %s)" % (len(decls), ", ".join(feats) or "none"))
        for k, D in decls.items():
            src = gen.struct_src(D)
            kinds = {o.rstrip("0123456789") for f in D.fields for o in f.ops}
            key = (src.replace("S%d" % k, "S"), D.edition, feats)
            v.cov["evaluations"] += 1
            cls["edition %s" % D.edition] += 1
            cls["features %s" % ("+".join(feats) or "none")] += 1
            cls["mode %s" % D.mode] += 1
            if len(kinds) >= 3 and key not in seen:
                seen.add(key)
                if len(v.cov["samples"]) < 5:
                    v.cov["samples"].append(src)
        for k, ms in sorted(found.items()):
            D = decls[k]
            code = ms[0][0]
            src = gen.struct_src(D)
            if small < SHRINK:
                small += 1
                src = shrink(D, code, pkg + "s", deps)
            v.fail(kind="the compiler complains about what the macro makes", subject=k, lints=sorted({c for c, _ in ms}), struct=src,
                   edition=D.edition, features=list(feats), program=program([emit(D, src)]),
                   message="the compiler complains about this declaration (edition %s, features: %s):\n%s\n%s" % (
                       D.edition, ", ".join(feats) or "none", src, "\n".join(r for _, r in ms[:2])))
    v.cov["distinct_nontrivial"] = len(seen)
    v.cov["classes"] = dict(cls)
    return v
