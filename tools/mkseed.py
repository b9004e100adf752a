#!/usr/bin/env python3
"""Build the planted bugs: tools/mkseed.py [id ...]

Each seed is a directory tools/seeds/<id>/ with
  edit.py       EDITS = [(file, old, new)], META = {...}, PKG = package directory
  demo_test.go.txt  test TestZZDemo, put into PKG through an overlay
The script applies the edit to a scratch copy of /repo, checks that it builds,
passes the stable tests, and that the demo passes without and fails with it,
then writes seeded/<id>/.
"""
import json, os, runpy, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS="-mod=mod -buildvcs=false" GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
cat > "$d/overlay.json" <<EOF
{"Replace": {"$PWD/%(pkg)s/zz_demo_test.go": "$here/demo_test.go.txt"}}
EOF
cd "$PWD/%(mod)s" && go test -count=1 -timeout 120s -vet=off %(flags)s -overlay "$d/overlay.json" -run '^TestZZDemo$' ./%(rel)s
'''
def sh(cmd, cwd=None, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, executable="/bin/bash", **kw)
def runtests(repo):
    out = os.path.join(tempfile.mkdtemp(), "o.json")
    s = open("/opt/vp/test.sh").read().replace("/repo", repo)
    p = subprocess.run(["bash", "-c", s, "test.sh", out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    r = json.load(open(out)); shutil.rmtree(os.path.dirname(out))
    return r, p.stdout
def one(sid):
    src = os.path.join(V, "tools/seeds", sid)
    ns = runpy.run_path(os.path.join(src, "edit.py"))
    repo = tempfile.mkdtemp(prefix="seed-" + sid + "-")
    try:
        sh("cp -a /repo/. " + repo)
        out = os.path.join(V, "seeded", sid)
        shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
        shutil.copy(os.path.join(src, "demo_test.go.txt"), out)
        pkg = ns["PKG"]; mod = ns.get("MOD", ".")
        rel = os.path.relpath(pkg, mod)
        open(os.path.join(out, "demo.sh"), "w").write(DEMO % dict(flags=ns.get('FLAGS',''), pkg=pkg, mod=mod, rel=rel))
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        json.dump(ns["META"], open(os.path.join(out, "meta.json"), "w"), indent=1)
        demo = "bash %s/demo.sh" % out
        p = sh(demo, cwd=repo)
        if p.returncode != 0: return "demo fails on the clean tree:\n" + p.stdout[-1500:]
        for f, old, new in ns["EDITS"]:
            fn = os.path.join(repo, f); s = open(fn).read()
            if s.count(old) < 1: return "edit does not apply: %r" % old
            if s.count(old) > 1: return "edit is ambiguous: %r" % old
            open(fn, "w").write(s.replace(old, new))
        p = sh("git add -AN . ; git diff", cwd=repo)
        open(os.path.join(out, "patch.diff"), "w").write(p.stdout)
        p = sh(". /opt/vp/env.sh; go build ./... ./testdata && cd internal/gen && go build ./...", cwd=repo)
        if p.returncode: return "does not build:\n" + p.stdout
        p = sh("gofmt -l " + " ".join(f for f, _, _ in ns["EDITS"]), cwd=repo)
        if p.stdout.strip(): print("gofmt:", p.stdout)
        p = sh(demo, cwd=repo)
        if p.returncode == 0: return "demo passes with the change"
        if "TestZZDemo" not in p.stdout: return "demo fails for another reason:\n" + p.stdout[-1500:]
        r, log = runtests(repo)
        stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        st = r.get("passed", r)
        ok = set(st if isinstance(st, list) else [k for k, v in st.items() if v in (True, "pass", "passed")])
        missing = [t for t in stable if t not in ok]
        if missing: return "tests notice: %d, e.g. %s" % (len(missing), missing[:3])
        return None
    finally:
        shutil.rmtree(repo, ignore_errors=True)
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(V, "tools/seeds")))
bad = 0
for sid in ids:
    e = one(sid)
    print(sid, "OK" if e is None else "REJECTED " + e)
    if e:
        bad = 1; shutil.rmtree(os.path.join(V, "seeded", sid), ignore_errors=True)
sys.exit(bad)
