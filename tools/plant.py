#!/usr/bin/env python3
"""Keeps a planted bug under seeded/ after confirming it in a scratch copy.

  plant.py SPEC.py [ID...]   SPEC.py fills BUGS: id -> dict(property, needs, breaks, edits, demo)
edits: [(file, old, new)] each old text occurs exactly once; demo: text of main.go
"""
import json, os, subprocess, sys, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/plant/repo"
DEMO = '''#!/bin/bash
# exit 0: the property holds for what main.go tries; nonzero: it does not
dir=$(cd "$(dirname "$0")" && pwd); repo=$(pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
cp "$dir"/main.go "$tmp/main.go" || exit 3
printf 'module demo\\n\\ngo 1.21\\n\\nrequire github.com/cloudwego/prutal v0.0.0\\n\\nreplace github.com/cloudwego/prutal => %s\\n' "$repo" > "$tmp/go.mod"
cd "$tmp" && GOFLAGS=-mod=mod GOSUMDB=off go run@RACE@ . 2>&1 | tail -40
exit "${PIPESTATUS[0]}"
'''


def sh(cmd, cwd=W, timeout=600):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace")
    return p.returncode, p.stdout


def fresh():
    shutil.rmtree(W, ignore_errors=True)
    subprocess.check_call(["git", "clone", "-q", "/repo", W])


def tests():
    t = open("/opt/vp/test.sh").read().replace("/repo", W)
    open("/tmp/plant/test.sh", "w").write(t)
    rc, o = sh("bash /tmp/plant/test.sh /tmp/plant/out.json")
    r = json.load(open("/tmp/plant/out.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    return sorted(set(base) - set(r["passed"]))


def not_original():
    """lines the change removes that are not of the first commit (None: it removes none)"""
    base = subprocess.check_output("git log --format=%H | tail -1", shell=True, cwd=W, text=True).strip()
    out, some, f, n = [], False, "", 0
    for l in subprocess.check_output(["git", "diff", "-U0"], cwd=W, text=True).splitlines():
        if l.startswith("--- "):
            f = l[6:]
        elif l.startswith("@@"):
            n = int(l.split()[1][1:].split(",")[0])
        elif l.startswith("-"):
            some = True
            b = subprocess.check_output(["git", "blame", "-l", "-s", "-L", "%d,%d" % (n, n), "HEAD", "--", f], cwd=W, text=True)
            if not b.lstrip("^").startswith(base[:30]):
                out.append("%s:%d %s" % (f, n, l))
            n += 1
    return out if some else None


def main():
    g = {}
    exec(open(sys.argv[1]).read(), g)
    todo = sys.argv[2:] or list(g["BUGS"])
    for id in todo:
        b = g["BUGS"][id]
        fresh()
        bad = None
        for f, old, new in b["edits"]:
            p = os.path.join(W, f)
            s = open(p).read()
            if s.count(old) != 1:
                bad = "%s: %d matches of %r" % (f, s.count(old), old[:60])
                break
            open(p, "w").write(s.replace(old, new))
        if bad:
            print(id, "BAD", bad)
            continue
        rc, o = sh(". /opt/vp/env.sh; go build ./... && gofmt -l $(git diff --name-only)")
        if rc or o.strip():
            print(id, "BUILD/GOFMT", o[-800:])
            if rc:
                continue
        late = not_original()
        if late is None or late:
            print(id, "NOT ORIGINAL LINES", late)
            continue
        fail = tests()
        if fail:
            print(id, "TESTS FAIL", len(fail), fail[:3])
            continue
        patch = subprocess.check_output(["git", "diff"], cwd=W, text=True)
        d = os.path.join(HERE, "seeded", id)
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(patch)
        if "demo_sh" in b:
            open(d + "/demo.sh", "w").write(b["demo_sh"])
        else:
            open(d + "/demo.sh", "w").write(DEMO.replace("@RACE@", " -race" if b.get("race") else ""))
        for name, text in list(b.get("files", {}).items()) + ([("main.go", b["demo"])] if "demo" in b else []):
            os.makedirs(os.path.dirname(d + "/" + name), exist_ok=True)
            open(d + "/" + name, "w").write(text)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        rc1, o1 = sh("bash %s/demo.sh" % d)
        sh("git checkout -q -- .")
        rc0, o0 = sh("bash %s/demo.sh" % d)
        ok = rc0 == 0 and rc1 != 0
        print(id, "kept" if ok else "DEMO clean=%d patched=%d" % (rc0, rc1))
        if not ok or os.environ.get("V"):
            print("--clean\n", o0[-800:], "\n--patched\n", o1[-800:])
        if not ok:
            shutil.rmtree(d)


main()
