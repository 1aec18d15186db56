"""Feeds the in-process macro from several processes."""
import json, os, subprocess, tempfile
import run


def expand(binpath, items, full=True, jobs=8, timeout=300):
    """items: [(args, item)] -> [result]"""
    n = max(1, min(jobs, (len(items) + 499) // 500))
    parts = [list(range(i, len(items), n)) for i in range(n)]
    procs = []
    for i, ix in enumerate(parts):
        inf = os.path.join(run.WORK, "x-%d-%d.in" % (os.getpid(), i))
        outf = inf[:-3] + ".out"
        with open(inf, "w") as f:
            for k in ix:
                f.write(json.dumps({"id": k, "args": items[k][0], "item": items[k][1]}) + "\n")
        procs.append((subprocess.Popen([binpath] + (["--full"] if full else []), stdin=open(inf), stdout=open(outf, "w"),
                                       stderr=subprocess.PIPE), inf, outf, ix))
    res = [None] * len(items)
    for p, inf, outf, ix in procs:
        try:
            _, err = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
        for l in open(outf):
            try:
                r = json.loads(l)
            except ValueError:
                continue
            res[r["id"]] = r
        os.unlink(inf)
        os.unlink(outf)
        if p.returncode != 0:
            # the first input without an answer ended or blocked the process
            lost = [k for k in ix if res[k] is None]
            res[lost[0]] = {"r": "died", "msg": "exit %s: %s" % (p.returncode, err[-300:] if err else "")}
    return res
