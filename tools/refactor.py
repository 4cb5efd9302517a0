#!/usr/bin/env python3
"""Apply behaviour-preserving edits to scratch copies of the headers and run
the checks on each: all of them have to stay quiet.
usage: refactor.py spec.py [ids...]
With MUT=1 the edits break something and one of the checks has to say so."""
import sys, os, shutil, subprocess, tempfile, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = {}
exec(open(sys.argv[1]).read(), spec)
REFS = [r for r in spec["REFS"] if len(sys.argv) < 3 or r["id"] in sys.argv[2:]]


def one(r):
    d = tempfile.mkdtemp(prefix="ref.", dir="/tmp")
    try:
        os.mkdir(d + "/r")
        for x in ("include", "scripts"):
            shutil.copytree("/repo/" + x, d + "/r/" + x)
        for e in r["edits"]:
            f, old, new = e if len(e) == 3 else (r["file"],) + tuple(e)
            p = d + "/r/" + f
            s = open(p).read()
            n = s.count(old)
            if n != 1 and not (r.get("all") and n):
                return ["%s: %d matches in %s of %r" % (r["id"], n, f, old[:60])]
            open(p, "w").write(s.replace(old, new))
        out = []
        for c in r["checks"].split():
            q = subprocess.run([sys.executable, VERIF + "/check.py", c], cwd=VERIF, env=dict(os.environ, VERIF_REPO=d + "/r", VERIF_EVID=d + "/ev"), capture_output=True, text=True)
            if q.returncode:
                out.append("%s %s rc=%d %s" % (r["id"], c, q.returncode, " | ".join(l for l in (q.stdout + q.stderr).splitlines()[:6])[:900]))
        if os.environ.get("MUT"):
            hit = [o for o in out if " rc=1 " in o]
            bad = [o for o in out if " rc=1 " not in o]
            return bad + (["%s caught %s" % (r["id"], " ".join(o.split()[1] for o in hit))] if hit else ["%s MISSED by %s" % (r["id"], r["checks"])])
        return out or ["%s ok (%s)" % (r["id"], r["checks"])]
    finally:
        shutil.rmtree(d)


with cf.ThreadPoolExecutor(int(os.environ.get("J", "2"))) as ex:
    for o in ex.map(one, REFS):
        print("\n".join(o), flush=True)
