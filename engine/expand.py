"""Runs the macro's own code in-process: a copy of fieldx_derive from /repo's current tree is built as an ordinary library."""
import json, os, re, shutil, subprocess, tomllib
import run

CRATES = ("fieldx_aux", "fieldx_derive_support")


def toml_val(v):
    if isinstance(v, dict):
        return "{ %s }" % ", ".join("%s = %s" % (k, toml_val(x)) for k, x in v.items())
    if isinstance(v, bool):
        return str(v).lower()
    if isinstance(v, list):
        return "[%s]" % ", ".join(map(toml_val, v))
    return json.dumps(v)


def derive_manifest(src):
    ws = tomllib.load(open(os.path.join(run.REPO, "Cargo.toml"), "rb"))["workspace"]["dependencies"]
    m = tomllib.load(open(os.path.join(src, "Cargo.toml"), "rb"))
    out = ['[package]', 'name = "fieldx_derive"', 'version = "0.0.0"', 'edition = "2021"', '[dependencies]']
    for k, v in m["dependencies"].items():
        d = v if isinstance(v, dict) else {"version": v}
        if d.pop("workspace", False):
            w = ws[k]
            w = dict(w) if isinstance(w, dict) else {"version": w}
            w["features"] = w.get("features", []) + d.pop("features", [])
            w.update(d)
            d = w
        if "path" in d:
            d["path"] = os.path.join(run.REPO, os.path.basename(d["path"]))
            d.pop("version", None)
        if k == "syn":
            d = {"path": os.path.join(run.VERIF, "expand", "synshim"), "package": "synshim"}
        if not d.get("features"):
            d.pop("features", None)
        out.append("%s = %s" % (k, toml_val(d)))
    out.append('proc_macro = { package = "pmshim", path = %s }' % json.dumps(os.path.join(run.VERIF, "expand", "pmshim")))
    out.append("[features]")
    for k, v in m.get("features", {}).items():
        out.append("%s = %s" % (k, toml_val(v)))
    return "\n".join(out) + "\n"


def prepare(features=("sync", "async", "serde"), name="expand"):
    """-> path of the tool's binary"""
    d = os.path.join(run.WORK, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    src = os.path.join(run.REPO, "fieldx_derive")
    shutil.copytree(os.path.join(src, "src"), os.path.join(d, "derive", "src"))
    run.write_if_changed(os.path.join(d, "derive", "Cargo.toml"), derive_manifest(src))
    for root, _, files in os.walk(os.path.join(d, "derive", "src")):
        for f in files:
            if f.endswith(".rs"):
                p = os.path.join(root, f)
                t = open(p).read()
                n = re.sub(r"#\[\s*proc_macro(_attribute|_derive\s*\([^]]*\))?\s*\]", "", t)
                if n != t:
                    open(p, "w").write(n)
    shutil.copytree(os.path.join(run.VERIF, "expand", "tool", "src"), os.path.join(d, "src"))
    run.write_if_changed(os.path.join(d, "Cargo.toml"), '''[package]
name = "%s"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
fieldx_derive = { path = "derive", features = %s }
proc-macro2 = { version = "1.0", features = ["span-locations"] }
quote = "1.0"
syn = { version = "2.0", features = ["full", "extra-traits", "parsing", "visit"] }
serde_json = "1"
[profile.dev]
opt-level = 1
debug = false
''' % (name, json.dumps(list(features))))
    shutil.copy(os.path.join(run.VERIF, "engine", "expand.lock"), os.path.join(d, "Cargo.lock"))
    ok, errs = run.cargo_build(d, ())
    if not ok:
        raise run.Infra("the in-process macro doesn't build:\n%s" % "\n".join((m.get("rendered") or m["message"]) for _, m in errs)[:4000])
    return run.binpath(name)
