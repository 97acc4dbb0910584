#!/usr/bin/env python3
"""mkbug.py SPECS.py [ID...]: creates seeded/<id>/ from specs and confirms each in a scratch copy.

A spec: dict(id, prop, file, edits=[(old,new),...] or files={file:[(old,new)]}, needs, breaks, test, pkg='.')
`test` is the body of func TestZZSeeded in package decimal_test-less in-package test file."""
import json, os, subprocess, sys, shutil, tempfile, runpy
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
specs = runpy.run_path(sys.argv[1])["B"]
want = set(sys.argv[2:])
DEMO = '''#!/bin/bash
# Exits 0 if the demonstration passes on the code in the working directory.
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%%s/zz_seeded_test.go":"%%s/demo_test.go.txt"}}' "$PWD/%(dir)s" "$d" > "$t/o.json"
export HOME=/root GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
go test -vet=off -count=1 -timeout 120s -overlay "$t/o.json" -run '^TestZZSeeded$' ./%(dir)s
'''
def sh(cmd, cwd):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
base = json.load(open('/opt/vp/BASELINE.json'))["stable"]
testsh = open('/opt/vp/test.sh').read()
def one(b):
    i = b["id"]; d = os.path.join(V, "seeded", i); os.makedirs(d, exist_ok=True)
    sc = "/tmp/bug/" + i
    shutil.rmtree(sc, ignore_errors=True); os.makedirs("/tmp/bug", exist_ok=True)
    sh("cp -a /repo " + sc, "/"); sh("git checkout -q -- .", sc)
    dr = b.get("pkg", "")
    open(d + "/demo.sh", "w").write(DEMO % {"dir": dr})
    hdr = b.get("head") or 'package decimal\n\nimport "testing"\n'
    body = b["test"] if "func TestZZSeeded" in b["test"] else "func TestZZSeeded(t *testing.T) {\n%s\n}\n" % b["test"]
    open(d + "/demo_test.go.txt", "w").write(hdr + "\n" + body)
    r0 = sh("bash %s/demo.sh" % d, sc)
    if r0.returncode: shutil.rmtree(sc); return i, "demo fails on the original: " + r0.stdout[-800:]
    files = b.get("files") or {b["file"]: b["edits"]}
    for f, eds in files.items():
        s = open(sc + "/" + f).read()
        for o, n in eds:
            if s.count(o) != 1: shutil.rmtree(sc); return i, "edit matches %d times: %r" % (s.count(o), o)
            s = s.replace(o, n)
        open(sc + "/" + f, "w").write(s)
    r = sh("go build ./... && go vet . ", sc)
    rb = sh("go build ./...", sc)
    if rb.returncode: shutil.rmtree(sc); return i, "does not build: " + rb.stdout[-500:]
    open(d + "/patch.diff", "w").write(sh("git diff", sc).stdout)
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    r1 = sh("bash %s/demo.sh" % d, sc)
    if r1.returncode == 0: shutil.rmtree(sc); return i, "demo passes with the change"
    t = testsh.replace("cd /repo", "cd " + sc)
    open("/tmp/bug/%s.sh" % i, "w").write(t)
    sh("bash /tmp/bug/%s.sh /tmp/bug/%s.json" % (i, i), "/")
    o = json.load(open("/tmp/bug/%s.json" % i))
    miss = set(base) - set(o["passed"])
    shutil.rmtree(sc)
    if miss: return i, "existing tests fail: %s" % sorted(miss)[:3]
    return i, "ok"
with ThreadPoolExecutor(3) as ex:
    for i, m in ex.map(one, [b for b in specs if not want or b["id"] in want]):
        print(i, m, flush=True)
        if m != "ok": shutil.rmtree(os.path.join(V, "seeded", i), ignore_errors=True)
