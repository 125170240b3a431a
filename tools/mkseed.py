#!/usr/bin/env python3
"""developer helper: mkseed.py ID [--nocheck]  builds seeded/ID/patch.diff from seeded/ID's
edit description (read from stdin as python: edits=[(file,old,new)], meta={...}) in a scratch
copy, and confirms: builds, stable tests pass, demo passes without and fails with the change."""
import sys, os, subprocess, shutil, json
sid = sys.argv[1]
ns = {}
exec(sys.stdin.read(), ns)
out = f"/verif/seeded/{sid}"
os.makedirs(out, exist_ok=True)
d = f"/tmp/sd/{sid}"
shutil.rmtree(d, ignore_errors=True)
subprocess.run(["cp", "-a", "/repo", d], check=True)
def sh(cmd, **k): return subprocess.run(["bash", "-c", cmd], cwd=d, capture_output=True, text=True, **k)
def demo():
    # as the gate does: the demo beside no diff and no meta, in another folder
    e = d + "-demo"; shutil.rmtree(e, ignore_errors=True)
    shutil.copytree(out, e, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    r = sh(f"timeout 300 bash {e}/demo.sh"); shutil.rmtree(e); return r
try:
    r = demo()
    print("demo unpatched:", r.returncode, (r.stdout + r.stderr)[-1500:] if r.returncode else "")
    for f, old, new in ns["edits"]:
        p = os.path.join(d, f); s = open(p).read()
        assert s.count(old) >= 1, ("no match", f, old)
        if s.count(old) > 1: print("warning:", s.count(old), "matches in", f)
        open(p, "w").write(s.replace(old, new, 1))
    diff = sh("git diff").stdout
    open(out + "/patch.diff", "w").write(diff)
    json.dump(ns["meta"], open(out + "/meta.json", "w"), indent=1)
    # lines changed must be of the original repository
    base = sh("git log --format=%H | tail -1").stdout.strip()
    for f in {e[0] for e in ns["edits"]}:
        blame = sh(f"git blame -s HEAD -- {f}").stdout.splitlines()
        hd = sh(f"git diff -U0 -- {f}").stdout
        import re
        for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", hd, re.M):
            a, n = int(m[1]), int(m[2] if m[2] is not None else 1)
            for l in range(a, a + n):
                if not blame[l-1].startswith("^"): print("NOT ORIGINAL:", f, blame[l-1][:120])
            if n == 0: print("pure insertion at", f, a)
    env = ". /opt/vp/env.sh; "
    r = sh(env + "go build ./...")
    print("build:", r.returncode, r.stderr[-800:])
    r = sh(env + """mapfile -t pkgs < <(go list -e ./... | grep -vxFf /opt/vp/broker-packages.txt); go test -vet=off -count=1 "${pkgs[@]}" 2>&1 | grep -v "^ok\\|no test files" """)
    print("tests:", r.stdout[-1500:] or "ok")
    r = demo()
    print("demo patched:", r.returncode, (r.stdout + r.stderr)[-600:])
finally:
    shutil.rmtree(d, ignore_errors=True)
