"""Confirms and stores planted bugs.  A spec file is Python: PLANTS = [dict(id,
property, file, edits=[(old, new)...], needs, breaks, demo (C++), flags='', cxx='g++')].
Each is confirmed in a scratch copy: builds, passes the 200 tests, demo passes
on /repo and fails with the change.  usage: plant.py spec.py [id...]"""
import json
import os
import shutil
import subprocess
import sys

W = "/tmp/plant/base"
SEED = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
DEMO = """#!/bin/bash
# run in /repo: exit 0 when the property holds
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 99
trap 'rm -rf "$tmp"' EXIT
%s
"""
RUN = """%s %s -I"$PWD/include" "$here/demo.cpp" -o "$tmp/demo" || exit 1
timeout 120 "$tmp/demo"
"""


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def base():
    if not os.path.exists(W + "/.git"):
        sh("mkdir -p /tmp/plant && git -C /repo worktree prune; cp -a /repo %s && rm -rf %s/_build %s/_b" % (W, W, W))
    sh("git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD" % (W, W))
    return build()


def build():
    r = sh("export CC=/usr/bin/gcc CXX=/usr/bin/g++; cmake -S {0} -B {0}/_b -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo "
           "-DCMAKE_POLICY_VERSION_MINIMUM=3.5 -DWITH_EXAMPLES=ON -DCMAKE_PROJECT_libembedded_INCLUDE=/opt/vp/cmake/top-hook.cmake "
           "-DCMAKE_PROJECT_libembedded-test_INCLUDE=/opt/vp/cmake/tests-hook.cmake >/dev/null 2>&1; ninja -C {0}/_b -j8 libembedded_test filter".format(W))
    return r


def main():
    spec = {}
    exec(open(sys.argv[1]).read(), spec)
    only = sys.argv[2:]
    r = base()
    if r.returncode:
        print(r.stdout[-3000:])
        return 1
    stable = set(json.load(open("/opt/vp/BASELINE.json")).get("passed") or json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for p in spec["PLANTS"]:
        if only and p["id"] not in only:
            continue
        sh("git -C %s checkout -q -- ." % W)
        bad = None
        for e in p["edits"]:
            f, old, new = e if len(e) == 3 else (p["file"],) + tuple(e)
            path = os.path.join(W, f)
            s = open(path).read()
            if s.count(old) != 1:
                bad = "pattern occurs %d times: %r" % (s.count(old), old)
                break
            open(path, "w").write(s.replace(old, new))
        if bad:
            print(p["id"], "FAIL", bad)
            continue
        patch = sh("git -C %s diff" % W).stdout
        r = sh("ninja -C %s/_b -j8 libembedded_test filter" % W)
        if r.returncode:
            print(p["id"], "FAIL does not build", r.stdout[-1500:])
            continue
        r = sh("%s/_b/tests/libembedded_test --gtest_brief=1" % W)
        if r.returncode:
            print(p["id"], "FAIL tests fail", [l for l in r.stdout.splitlines() if "Failure" in l or "rror" in l or "Abort" in l][:4])
            continue
        d = "/tmp/plant/demo-" + p["id"]
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + "/demo.cpp", "w").write(p.get("demo", ""))
        body = p.get("run") or RUN % (p.get("cxx", "g++"), p.get("flags", "-std=c++17"))
        open(d + "/demo.sh", "w").write(DEMO % body)
        os.chmod(d + "/demo.sh", 0o755)
        for n, t in p.get("files", {}).items():
            os.makedirs(os.path.dirname(os.path.join(d, n)), exist_ok=True)
            open(os.path.join(d, n), "w").write(t)
        good = sh("bash %s/demo.sh" % d, cwd="/repo")
        badr = sh("bash %s/demo.sh" % d, cwd=W)
        if good.returncode != 0 or badr.returncode == 0:
            print(p["id"], "FAIL demo: clean=%d patched=%d" % (good.returncode, badr.returncode), good.stdout[-1500:])
            continue
        out = os.path.join(SEED, p["id"])
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(d, out)
        if not p.get("demo"):
            os.remove(out + "/demo.cpp")
        shutil.rmtree(d)
        open(out + "/patch.diff", "w").write(patch)
        json.dump(dict(property=p["property"], needs=p["needs"], what_it_breaks=p["breaks"]), open(out + "/meta.json", "w"), indent=1)
        print(p["id"], "ok; patched demo:", badr.stdout.strip()[-120:].replace("\n", " | "))
    sh("git -C %s checkout -q -- ." % W)


if __name__ == "__main__":
    sys.exit(main())
