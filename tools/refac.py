#!/usr/bin/env python3
"""refac.py SPEC.py [name...]: applies behaviour-preserving edits to scratch copies of /repo and says which checks raise an alarm."""
import os, shutil, subprocess, sys, tempfile, re
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = []
def refac(name, *edits): R.append((name, edits))
def sh(cmd, cwd): return subprocess.run(["bash", "-c", ". /opt/vp/env.sh; " + cmd], cwd=cwd, capture_output=True, text=True)
def one(x):
    name, edits = x
    tmp = tempfile.mkdtemp(prefix="refac-", dir="/tmp"); r = os.path.join(tmp, "repo"); out = os.path.join(tmp, "out")
    try:
        os.makedirs(r); os.makedirs(out)
        subprocess.run("git -C /repo archive HEAD | tar -x -C " + r, shell=True, check=True)
        shutil.copy(os.path.join(V, "known-findings.txt"), out)
        for e in edits:
            f, old, new = e[:3]
            p = os.path.join(r, f); s = open(p).read() if os.path.exists(p) else ""
            if old is None: open(p, "w").write(new); continue
            if len(e) > 3 and e[3] == "re":
                if not re.search(old, s): return name + ": EDIT does not match " + repr(old[:60])
                s = re.sub(old, new, s)
            elif len(e) > 3 and e[3] == "all":
                if old not in s: return name + ": EDIT does not match " + repr(old[:60])
                s = s.replace(old, new)
            else:
                if s.count(old) != 1: return name + ": EDIT matches %d times %r" % (s.count(old), old[:60])
                s = s.replace(old, new)
            open(p, "w").write(s)
        if os.environ.get("REFAC_APPLY"):  # only show the edited tree
            shutil.copytree(r, os.path.join(os.environ["REFAC_APPLY"], name), dirs_exist_ok=True); return name + ": applied"
        b = sh("gofmt -w . && go build ./...", r)
        if b.returncode: return name + ": DOES NOT BUILD\n" + b.stdout + b.stderr
        t = os.environ.get("REFAC_BIN") or sh("go test -vet=off -count=1 ./... 2>&1", r)
        if t != os.environ.get("REFAC_BIN") and t.returncode: return name + ": TESTS FAIL\n" + "\n".join(l for l in t.stdout.splitlines() if "FAIL" in l)[:500]
        c = sh("timeout 600 %s check -prop %s -repo %s -out %s" % (BIN, os.environ.get("REFAC_PROP", "all"), r, out), r)
        v = [l for l in c.stdout.splitlines() if not l.startswith("KNOWN") and "obligations discharged" not in l and not l.startswith("VIOLATION")]
        ids = [l.split("property=")[1].split()[0] for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
        if not ids and c.returncode == 0: return name + ": quiet"
        seen = set(); lines = []
        for l in v:
            k = l.split(": ", 1)[-1]
            if k not in seen: seen.add(k); lines.append("    " + l[:330])
        return name + ": ALARM " + " ".join(ids) + "\n" + "\n".join(lines[:14]) + (c.stderr[-500:] if not ids else "")
    finally: shutil.rmtree(tmp, ignore_errors=True)
spec = sys.argv[1]; only = sys.argv[2:]
exec(compile(open(spec).read(), spec, "exec"), {"refac": refac})
BIN = os.environ.get("REFAC_BIN", "/tmp/d1static-refac")  # a binary given is used as it is, and the tests are not run
if "REFAC_BIN" not in os.environ:
    b = sh("go build -o /tmp/d1static-refac .", os.path.join(V, "analyzer"))
    if b.returncode: sys.exit(b.stderr)
with ThreadPoolExecutor(4) as ex:
    for m in ex.map(one, [x for x in R if not only or x[0] in only]): print(m, flush=True)
