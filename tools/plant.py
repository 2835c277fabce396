#!/usr/bin/env python3
"""Plants a bug: plant.py SPEC.py [id...]  (SPEC.py calls bug(id, prop, edits, demo, needs, breaks)).
Each is confirmed in scratch copies outside /repo (compiles, stable tests pass, demo passes without and fails with it)
and, when confirmed, kept as /verif/seeded/<id>/."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUGS = []
def bug(id, prop, edits, demo, needs, breaks, prelude=True):
    BUGS.append((id, prop, edits, demo, needs, breaks, prelude))

DEMO_SH = '''#!/bin/bash
# Runs the demonstration beside this file against the library in the current directory.
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
export TMPDIR=$tmp DEMO_TMP=$tmp
{
  printf '{"Replace":{'
  sep=
  for f in "$here"/*.go.txt; do
    printf '%s"%s/zzdemo/%s_test.go":"%s"' "$sep" "$PWD" "$(basename "$f" .go.txt)" "$f"
    sep=,
  done
  printf '}}'
} > "$tmp/overlay.json"
go test -c -o "$tmp/demo" -overlay "$tmp/overlay.json" -vet=off ./zzdemo || { echo "build failed"; exit 2; }
cd "$tmp" && ./demo -test.timeout 200s -test.run '^TestDemo'
'''
ENV = dict(os.environ)
def sh(cmd, cwd, **kw):
    return subprocess.run(["bash", "-c", ". /opt/vp/env.sh; " + cmd], cwd=cwd, capture_output=True, text=True, errors="replace", **kw)

def main():
    spec = sys.argv[1]
    only = sys.argv[2:]
    exec(compile(open(spec).read(), spec, "exec"), {"bug": bug})
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = set(base.get("stable") or base.get("passed") or base.get("tests") or base) if isinstance(base, dict) else set(base)
    for (id, prop, edits, demo, needs, breaks, prelude) in BUGS:
        if only and id not in only: continue
        tmp = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
        try:
            r = os.path.join(tmp, "repo")
            subprocess.run(["git", "-C", "/repo", "worktree", "prune"], capture_output=True)
            subprocess.run(["cp", "-a", "/repo", r], check=True)
            subprocess.run(["git", "checkout", "-q", "--", "."], cwd=r, check=True)
            d = os.path.join(tmp, "seed"); os.makedirs(d)
            open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH); os.chmod(os.path.join(d, "demo.sh"), 0o755)
            open(os.path.join(d, "demo.go.txt"), "w").write(demo)
            if prelude: shutil.copy(os.path.join(V, "tools", "plants", "prelude.go.txt"), d)
            x = sh(os.path.join(d, "demo.sh"), r)
            if x.returncode != 0:
                print(id, "DEMO FAILS ON CLEAN TREE\n" + (x.stdout + x.stderr)[-1500:]); continue
            bad = False
            for (f, old, new) in edits:
                p = os.path.join(r, f); s = open(p).read()
                if s.count(old) != 1:
                    print(id, "EDIT does not match once:", f, s.count(old), repr(old[:60])); bad = True; break
                open(p, "w").write(s.replace(old, new))
            if bad: continue
            x = sh("gofmt -l . ; go build ./... && go vet ./... >/dev/null 2>&1; go build ./...", r)
            if x.returncode != 0: print(id, "DOES NOT BUILD", x.stdout + x.stderr); continue
            if x.stdout.strip(): print(id, "gofmt:", x.stdout.strip())
            x = sh("go test -vet=off -count=1 ./...", r)
            if x.returncode != 0:
                print(id, "EXISTING TESTS FAIL\n" + "\n".join(l for l in x.stdout.splitlines() if "FAIL" in l or "panic" in l or ".go:" in l)[:900]); continue
            x = sh(os.path.join(d, "demo.sh"), r)
            if x.returncode == 0: print(id, "DEMO PASSES WITH THE BUG"); continue
            if "build failed" in x.stdout or "setup failed" in x.stdout: print(id, "DEMO DOES NOT BUILD", x.stdout[-800:]); continue
            diff = subprocess.run(["git", "diff"], cwd=r, capture_output=True, text=True).stdout
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
            dst = os.path.join(V, "seeded", id)
            if os.path.exists(dst): shutil.rmtree(dst)
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            shutil.copytree(d, dst)
            print(id, "planted")
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
main()
