#!/usr/bin/env python3
"""tools/mut.py [-t tier] CHECK FILE OLD NEW [FILE OLD NEW ...] : run a check against a mutated scratch copy of /repo.
(developer aid; no check uses it)"""
import sys, os, shutil, subprocess, tempfile
a = sys.argv[1:]
tier = "quick"; extra = []
while a and a[0].startswith("-"):
    if a[0] == "-t": tier = a[1]; a = a[2:]
    elif a[0] == "-only": extra += a[:2]; a = a[2:]
    else: break
check, a = a[0], a[1:]
d = tempfile.mkdtemp(prefix="gosym-mut-")
try:
    r = os.path.join(d, "repo")
    shutil.copytree(os.environ.get("MUTREPO","/repo"), r, ignore=shutil.ignore_patterns(".git", "docs", "integration"), symlinks=True)
    while a:
        f, old, new = a[:3]; a = a[3:]
        p = os.path.join(r, f.lstrip("/")); s = open(p).read()
        if s.count(old) < 1:
            print("NOT FOUND in", f, ":", old); sys.exit(3)
        open(p, "w").write(s.replace(old, new, 1))
    e = dict(os.environ)
    q = subprocess.run(["bash", "-c", "ulimit -v 26000000; exec timeout 400 /verif/bin/check %s %s -no-evidence -repo %s %s" % (check, tier, r, " ".join(extra))], capture_output=True, text=True)
    out = q.stdout + q.stderr
    lines = [l for l in out.splitlines() if any(k in l for k in ("VIOLATION", "INCOMPLETE", "UNCONF", "NOT REACHED", "  Verif", "exit"))]
    print("exit", q.returncode, "|", " | ".join(l.strip()[:160] for l in lines[:5]))
finally:
    shutil.rmtree(d)
