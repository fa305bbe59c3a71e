#!/usr/bin/env python3
"""plant.py SPEC.py [ID...]: builds seeded/<id>/ from a table of edits and demonstrations,
and keeps an entry only when it builds, passes the stable tests and its demonstration
separates the changed tree from the unchanged one."""
import sys, os, json, subprocess, shutil, tempfile
root = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
spec = {}
exec(open(sys.argv[1]).read(), spec)
want = sys.argv[2:]
DEMO = '''#!/bin/bash
# Runs the demonstration test against the tree in the current directory.
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GO111MODULE=on
tmp="$(mktemp -d)" || exit 2
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%s/PKG/zz_demo_test.go":"%s/demo_test.go.txt"EXTRA}}' "$PWD" "$here" > "$tmp/overlay.json"
go test -overlay "$tmp/overlay.json" -vet=off -count=1 RACE-timeout 60s -run '^TestDemo$' ./PKG
'''
def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **k)
def stable(cwd):
    r = sh(". /opt/vp/env.sh; go build ./... && go test -json ./...", cwd)
    ok, bad = set(), set()
    for l in r.stdout.splitlines():
        try: e = json.loads(l)
        except Exception: continue
        if e.get("Test") and e["Action"] in ("pass", "fail"):
            (ok if e["Action"] == "pass" else bad).add((e["Package"], e["Test"]))
    return len(ok), bad, r.stderr
for b in spec["BUGS"]:
    if want and b["id"] not in want: continue
    work = tempfile.mkdtemp(prefix="plant.")
    try:
        sh(f"git -C /repo archive HEAD | tar x -C {work}", "/")
        sh("git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm x", work)
        d = os.path.join(root, "seeded", b["id"])
        tmpd = tempfile.mkdtemp(prefix="seed.")
        open(f"{tmpd}/demo.sh", "w").write(DEMO.replace("PKG", b["pkg"]).replace("RACE", "-race " if b.get("race") else "").replace("EXTRA", "".join(',"%s/' + b["pkg"] + '/' + n + '":"%s/' + n + '.txt"' for n in b.get("extra", {}))).replace('"$PWD" "$here" >', '"$PWD" "$here"' + ' "$PWD" "$here"' * len(b.get("extra", {})) + " >"))
        os.chmod(f"{tmpd}/demo.sh", 0o755)
        open(f"{tmpd}/demo_test.go.txt", "w").write(b["demo"])
        for n, c in b.get("extra", {}).items(): open(f"{tmpd}/{n}.txt", "w").write(c)
        r0 = sh(f"bash {tmpd}/demo.sh", work)
        err = None
        src = {f: open(os.path.join(work, f)).read() for f, _, _ in b["edits"]}
        for f, old, new in b["edits"]:
            if src[f].count(old) != 1: err = f"{f}: {src[f].count(old)} matches of {old!r}"; break
        for f in {} if err else src:
            s = src[f]  # all edits apply to the text as it was
            for at, old, new in sorted(((src[f].index(o), o, n) for g, o, n in b["edits"] if g == f), reverse=True):
                s = s[:at] + new + s[at + len(old):]
            open(os.path.join(work, f), "w").write(s)
        if not err:
            sh(". /opt/vp/env.sh; gofmt -l .", work)
            diff = sh("git diff", work).stdout
            n, bad, e = stable(work)
            r1 = sh(f"bash {tmpd}/demo.sh", work)
            if r0.returncode: err = "demo fails on the unchanged tree:\n" + r0.stdout[-1500:] + r0.stderr[-800:]
            elif bad or n < 17: err = f"tests: {n} pass, {bad} fail {e[-500:]}"
            elif not r1.returncode: err = "demo passes with the change"
            elif "build failed" in r1.stdout or "setup failed" in r1.stdout: err = "demo does not build: " + r1.stdout + r1.stderr
        if err:
            print(b["id"], "REJECTED:", err); shutil.rmtree(tmpd); continue
        open(f"{tmpd}/patch.diff", "w").write(diff)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what"]}, open(f"{tmpd}/meta.json", "w"), indent=1)
        shutil.rmtree(d, ignore_errors=True); os.makedirs(os.path.dirname(d), exist_ok=True); shutil.copytree(tmpd, d); shutil.rmtree(tmpd)
        print(b["id"], "kept:", str([l for l in (r1.stdout + r1.stderr).splitlines() if l.strip()][:4][1:3])[:300])
    finally:
        shutil.rmtree(work)
