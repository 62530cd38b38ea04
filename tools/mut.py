#!/usr/bin/env python3
"""usage: mut.py CHECK FILE OLD NEW [FILE OLD NEW ...]  (development aid: runs a check against a changed scratch copy)"""
import os, shutil, subprocess, sys, tempfile
chk, rest = sys.argv[1], sys.argv[2:]
d = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
try:
    shutil.copytree("/repo/src", d + "/src", symlinks=True)
    for i in range(0, len(rest), 3):
        f = d + "/src/lib/sup/oac-tree/" + rest[i]
        if not os.path.exists(f):
            f = d + "/" + rest[i]
        s = open(f).read()
        old, new = rest[i + 1].replace("\\n", "\n"), rest[i + 2].replace("\\n", "\n")
        if s.count(old) < 1:
            print("NO MATCH"); sys.exit(2)
        open(f, "w").write(s.replace(old, new, 1))
    r = subprocess.run(["python3", "/verif/tools/check.py", chk], env=dict(os.environ, OAC_REPO=d), capture_output=True, text=True)
    print(chk, "CAUGHT" if r.returncode == 1 else "MISSED rc=%d" % r.returncode, "|", rest[0], "|", rest[1][:60].replace("\n", " "), "->", rest[2][:60].replace("\n", " "))
    for l in r.stdout.splitlines()[:3] if r.returncode else []:
        print("   ", l[:230])
    if r.returncode not in (0, 1): print(r.stderr[-1500:])
finally:
    shutil.rmtree(d)
