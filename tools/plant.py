#!/usr/bin/env python3
"""plant.py ID PROPERTY PKGDIR EDITS.py DEMO_test.go  -> makes and confirms seeded/ID

EDITS.py defines edits = [(file, old, new), ...], needs = "...", breaks = "...".
The demo is a Go test file of the package in PKGDIR with tests TestDemo*."""
import json, os, re, shutil, subprocess, sys, tempfile
ident, prop, pkg, edits_py, demo = sys.argv[1:6]
race = "race" in sys.argv[6:]
ns = {}
exec(open(edits_py).read(), ns)
out = os.path.join("/verif/seeded", ident)
d = tempfile.mkdtemp(prefix="plant-")
try:
    r = d + "/repo"
    subprocess.run(["git", "clone", "-q", "/repo", r], check=True)
    base = subprocess.run(["git", "-C", r, "log", "--format=%h", "--grep=^base$"], stdout=subprocess.PIPE, text=True).stdout.split()[-1]
    for f, old, new in ns["edits"]:
        p = os.path.join(r, f)
        s = open(p).read()
        if s.count(old) != 1:
            sys.exit("%s: old text found %d times:\n%s" % (f, s.count(old), old))
        open(p, "w").write(s.replace(old, new))
        subprocess.run(["gofmt", "-w", p], check=True)
    diff = subprocess.run(["git", "-C", r, "diff"], stdout=subprocess.PIPE, text=True).stdout
    # at least one removed line must be one of the original repository
    orig = False
    for f in {e[0] for e in ns["edits"]}:
        h = subprocess.run(["git", "-C", r, "diff", "-U0", "--", f], stdout=subprocess.PIPE, text=True).stdout
        bl = subprocess.run(["git", "-C", r, "blame", "-s", "HEAD", "--", f], stdout=subprocess.PIPE, text=True).stdout.split("\n")
        for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", h, re.M):
            n = int(m.group(2) or 1)
            for k in range(int(m.group(1)), int(m.group(1)) + n):
                if bl[k - 1].lstrip("^").startswith(base[:7]):
                    orig = True
                    print("original line:", bl[k - 1][10:])
    print("changes original lines:", orig)
    tmp = d + "/seed"
    os.makedirs(tmp)
    open(tmp + "/patch.diff", "w").write(diff)
    shutil.copy(demo, tmp + "/demo_test.go.txt")
    open(tmp + "/demo.sh", "w").write('''#!/bin/bash
# run with cwd = the repository
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 99
trap 'rm -rf "$t"' EXIT
export TMPDIR=$t GOPROXY=off GOSUMDB=off GOFLAGS= GOWORK=$t/go.work%s
printf 'go 1.22.2\\nuse (\\n%%s\\n%%s/bencode\\n)\\n' "$PWD" "$PWD" > "$t/go.work"
cp "$d/demo_test.go.txt" "$t/zz_demo_test.go"
printf '{"Replace":{"%%s/%s/zz_demo_test.go":"%%s/zz_demo_test.go"}}' "$PWD" "$t" > "$t/ov.json"
cd "$PWD/%s" && go test -vet=off -count=1 -timeout 120s%s -overlay "$t/ov.json" -run '^TestDemo' .
''' % (" CGO_ENABLED=1" if race else "", pkg, pkg, " -race" if race else ""))
    os.chmod(tmp + "/demo.sh", 0o755)
    open(tmp + "/meta.json", "w").write(json.dumps({"property": prop, "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, indent=1) + "\n")
    # confirm
    env = dict(os.environ, GOPROXY="off", GOSUMDB="off", GOFLAGS="")
    a = subprocess.run(["bash", tmp + "/demo.sh"], cwd="/repo", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    b = subprocess.run(["bash", tmp + "/demo.sh"], cwd=r, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    print("demo: unchanged", a.returncode, "patched", b.returncode)
    if a.returncode != 0: print(a.stdout[-1500:])
    print("  patched says:", b.stdout[-600:])
    # the repository's tests, on the clone (never touch /repo: a vcheck may be looking at it)
    open(d + "/go.work", "w").write("go 1.22.2\nuse (\n%s\n%s/bencode\n)\n" % (r, r))
    st = subprocess.run(["go", "test", "-count=1", "./...", "./bencode/..."], cwd=r, env=dict(env, GOWORK=d + "/go.work"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    print("tests", "ok" if st.returncode == 0 else st.stdout[-800:])
    if a.returncode == 0 and b.returncode != 0 and st.returncode == 0 and orig and "build failed" not in b.stdout:
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(tmp, out)
        print("KEPT", out)
    else:
        print("REJECTED")
        sys.exit(1)
finally:
    shutil.rmtree(d)
