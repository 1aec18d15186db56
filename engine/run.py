"""Builds generated programs from /repo's current tree, runs them and turns the outcome into a verdict."""
import hashlib, json, os, random, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TARGET = os.environ.get("VERIF_TARGET", os.path.join(VERIF, ".target"))
WORK = os.environ.get("VERIF_WORK", os.path.join(VERIF, ".work"))
REPO = "/repo"


def env():
    e = dict(os.environ)
    e["HOME"] = e.get("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:" + e["PATH"]
    e.update(RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0",
             CARGO_TARGET_DIR=TARGET, RUSTC_WRAPPER="", RUSTFLAGS="-Awarnings")
    return e


def log(*a):
    print(time.strftime("[%H:%M:%S]"), *a, file=sys.stderr, flush=True)


class Infra(Exception):
    """Something outside of the property went wrong: no verdict."""


PROFILE = """
[profile.dev]
opt-level = 0
debug = false
incremental = false
[profile.dev.package.proptest]
opt-level = 2
[profile.dev.package.rt]
opt-level = 1
[profile.dev.build-override]
opt-level = 0
debug = false
"""

DEPS = """
[dependencies]
fieldx = { path = "/repo/fieldx", features = ["sync", "async", "serde"] }
rt = { path = "%s/rt" }
parking_lot = "0.12"
tokio = { version = "1", features = ["sync"] }
serde = { version = "1", features = ["derive"] }
serde_json = "1"
""" % VERIF


def write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)


EDITIONS = ["2021", "2024", "2018"]  # of the crates using fieldx


def package(name, sources, deps=DEPS, extra="", editions=EDITIONS, lib=False):
    """A package with one binary per source."""
    d = os.path.join(WORK, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "src", "bin"))
    for b, text in sources.items():
        write_if_changed(os.path.join(d, "src", "bin", b + ".rs"), text)
    kind = '[[example]]\ncrate-type = ["lib"]' if lib else "[[bin]]"
    bins = "".join('%s\nname = "%s"\npath = "src/bin/%s.rs"\nedition = "%s"\n' % (kind, b, b, editions[i % len(editions)]) for i, b in enumerate(sources))
    write_if_changed(os.path.join(d, "Cargo.toml"),
                     '[package]\nname = "%s"\nversion = "0.0.0"\nedition = "2021"\nautobins = false\n%s[workspace]\n%s%s%s' % (name, bins, deps, PROFILE, extra))
    shutil.copy(os.path.join(VERIF, "engine", "Cargo.lock"), os.path.join(d, "Cargo.lock"))
    return d


def cargo_build(d, args=("--bins", "--keep-going"), timeout=800):
    """-> (ok, [compiler messages of level error])"""
    cmd = ["cargo", "build", "--offline", "--message-format=json", *args]
    p = subprocess.run(cmd, cwd=d, env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
    errs = []
    for line in p.stdout.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("reason") == "compiler-message" and m["message"]["level"].startswith("error"):
            errs.append((m["target"]["name"], m["message"]))
    if p.returncode and not errs:
        raise Infra("cargo build failed in %s:\n%s" % (d, p.stderr[-3000:]))
    return p.returncode == 0, errs


def outer_lines(msg, fname):
    """Lines of the source file a message is about."""
    res = []
    for s in msg.get("spans", []):
        x = s
        while x:
            if x["file_name"].endswith(fname):
                res.append((x["line_start"], s["is_primary"]))
            x = (x.get("expansion") or {}).get("span")
    prim = [l for l, p in res if p]
    return prim or [l for l, _ in res]


def binpath(name):
    return os.path.join(TARGET, "debug", name)


class Program:
    """One binary with several subjects; `chunks` is a list of (key, source); offending ones can be dropped."""
    def __init__(self, name, keys, emit):
        self.name, self.keys, self.emit = name, list(keys), emit

    def source(self):
        return self.emit(self.keys)


def locate(text):
    """line number -> module id"""
    cur, res = None, []
    for l in text.split("\n"):
        if l.startswith("pub mod m"):
            cur = int(l[9:].split(" ")[0])
        res.append(cur)
    return res


def build_programs(pkg, programs, rounds=6, **kw):
    """Compiles programs; subjects which don't compile are dropped and reported. -> {key: [rendered errors]}"""
    bad = {}
    d = None
    for rnd in range(rounds):
        srcs = {p.name: p.source() for p in programs if p.keys}
        d = package(pkg, srcs, **kw)
        ok, errs = cargo_build(d)
        if ok:
            return bad
        found = {}
        for target, m in errs:
            if target not in srcs:
                raise Infra("dependency doesn't build: %s" % m.get("rendered", m["message"])[:3000])
            where = locate(srcs[target])
            for l in outer_lines(m, "%s.rs" % target):
                k = where[l - 1] if l - 1 < len(where) else None
                if k is not None:
                    found.setdefault(k, []).append(m.get("rendered") or m["message"])
        if not found:
            raise Infra("can't attribute compile errors: %s" % "\n".join((m.get("rendered") or m["message"]) for _, m in errs)[:4000])
        for k, v in found.items():
            bad.setdefault(k, []).extend(v)
        for p in programs:
            p.keys = [k for k in p.keys if k not in bad]
        log("round %d: %d declarations don't compile" % (rnd, len(found)))
    raise Infra("still not compiling after %d rounds" % rounds)


def run_bins(cmds, timeout=600, jobs=8):
    """cmds: [(key, argv)] -> {key: (rc, stderr)}; run `jobs` at a time."""
    res, running, todo = {}, [], list(cmds)
    t0 = time.time()
    while todo or running:
        while todo and len(running) < jobs:
            k, argv = todo.pop(0)
            ef = open(os.path.join(WORK, "stderr-%s-%s" % (os.getpid(), k)), "w+")
            running.append((k, subprocess.Popen(argv, stdout=subprocess.DEVNULL, stderr=ef, env=env()), ef))
        for r in list(running):
            k, p, ef = r
            if p.poll() is not None:
                ef.seek(0)
                res[k] = (p.returncode, ef.read()[-4000:])
                ef.close()
                os.unlink(ef.name)
                running.remove(r)
        if time.time() - t0 > timeout:
            for _, p, ef in running:
                p.kill()
            raise Infra("running took over %d s" % timeout)
        time.sleep(0.02)
    return res


# ---------------------------------------------------------------- verdicts
class Verdict:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": [], "classes": {}}
        self.violations = []     # dicts with a `message` and whatever is needed for a replay
        self.known = []
        self.assumptions = []

    def merge(self, rep):
        for k in ("evaluations", "distinct_nontrivial"):
            self.cov[k] += rep[k]
        for k, v in rep.get("classes", {}).items():
            self.cov["classes"][k] = self.cov["classes"].get(k, 0) + v
        if len(self.cov["samples"]) < 6:
            self.cov["samples"] += rep.get("samples", [])[: 6 - len(self.cov["samples"])]

    def fail(self, **kw):
        self.violations.append(kw)

    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level="exploration", coverage=self.cov,
                  wall_s=round(time.time() - self.t0, 1), violations=len(self.violations), assumptions=self.assumptions)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        log("%s: %d evaluations, %d distinct non-trivial, %d violations, %.1f s" % (
            self.prop, self.cov["evaluations"], self.cov["distinct_nontrivial"], len(self.violations), time.time() - self.t0))
        if self.violations:
            rdir = os.path.join(WORK, "replay")
            os.makedirs(rdir, exist_ok=True)
            for v in self.violations[:10]:
                h = hashlib.sha1(json.dumps(v, sort_keys=True).encode()).hexdigest()[:10]
                path = os.path.join(rdir, "%s-%s.json" % (self.prop, h))
                with open(path, "w") as f:
                    json.dump(dict(property=self.prop, seed=self.seed, tier=self.tier, **v), f, indent=1)
                log(v.get("message", "")[:1500])
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        return 0
