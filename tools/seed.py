#!/usr/bin/env python3
"""tools/seed.py take ID PROPERTY   the change now in /repo's tree becomes seeded/ID (needs /verif/seeded/ID/demo.rs), is
confirmed (builds, stable tests pass, demo fails with and passes without it), and PROPERTY's check is run against it.
tools/seed.py try ID [PROPERTY...]   runs the checks against an existing one.  Development aid; no check uses it."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, cwd="/repo", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def undo():
    sh("git checkout -- .")


def stable():
    r = sh("bash /opt/vp/build.sh")
    if r.returncode:
        return "build failed\n" + r.stdout[-1500:]
    for _ in range(3):      # Some tests depend on timing
        sh("bash /opt/vp/test.sh /tmp/seed_t.json")
        r = sh("python3 /tmp/bl.py /tmp/seed_t.json")
        if "missing: set()" in r.stdout:
            return None
    return "tests: " + r.stdout[:600]


def demo(i):
    d = "/tmp/seeddemo"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(os.path.join(S, i), d)
    for f in ("patch.diff", "meta.json"):
        if os.path.exists(os.path.join(d, f)):
            os.remove(os.path.join(d, f))
    r = sh("sh %s/demo.sh" % d, timeout=300)
    shutil.rmtree(d)
    return r.returncode, r.stdout[-800:]


def run_check(i, prop):
    r = subprocess.run([os.path.join(V, "check"), prop, "quick"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                       env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
    vio = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    print("%s: %s check exit %d %s" % (i, prop, r.returncode, "CAUGHT" if r.returncode == 1 and vio else "NOT CAUGHT"), vio[:1])
    if r.returncode not in (0, 1):
        print(r.stderr[-800:])
    return r.returncode == 1 and bool(vio)


def main():
    cmd, i = sys.argv[1], sys.argv[2]
    d = os.path.join(S, i)
    patch = os.path.join(d, "patch.diff")
    if cmd == "take":
        diff = sh("git diff").stdout
        assert diff, "no change in /repo"
        open(patch, "w").write(diff)
        if not os.path.exists(d + "/demo.sh"):
            shutil.copy(os.path.join(V, "tools/seedtpl/demo.sh"), d)
            shutil.copy(os.path.join(V, "engine/Cargo.lock"), d + "/demo.lock")
        try:
            bad = stable()
            if bad:
                print(i, "REJECTED:", bad); return 1
            rc, out = demo(i)
            print("demo with:", rc, out.strip()[-300:])
            if rc == 0:
                print(i, "REJECTED: demo passes with the change"); return 1
            if not os.environ.get("NOCHECK"):
                run_check(i, sys.argv[3])
        finally:
            undo()
        rc, out = demo(i)
        print("demo without:", rc, out.strip()[-300:] if rc else "")
        if rc:
            print(i, "REJECTED: demo fails on the unchanged tree"); return 1
        m = json.load(open(d + "/meta.json"))
        assert m["property"] == sys.argv[3] and m["needs"] and m["what_it_breaks"]
        print(i, "ACCEPTED")
    else:
        props = sys.argv[3:] or [json.load(open(d + "/meta.json"))["property"]]
        r = sh("git apply %s" % patch)
        if r.returncode:
            print(i, "does not apply", r.stdout); return 1
        try:
            for p in props:
                run_check(i, p)
        finally:
            undo()


sys.exit(main())
