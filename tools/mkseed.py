#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE NEEDS WHAT  < edits   -- plants a bug in a scratch copy and stores it under seeded/ID
stdin: OLD\n====\nNEW  (exactly one match of OLD; or '@n@' first line selects the n-th match)
then a line '%%%%' and the demo.cpp"""
import os, subprocess, sys, json, tempfile, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sid, prop, fn, needs, what = sys.argv[1:6]
txt = sys.stdin.read()
edit, demo = txt.split("\n%%%%\n")
nth = None
if edit.startswith("@"):
    l, edit = edit.split("\n", 1); nth = int(l.strip("@"))
scratch = tempfile.mkdtemp(prefix="seed", dir="/tmp")
try:
    wt = scratch + "/r"
    subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", wt, "HEAD"])
    for ed in edit.split("\n&&&&\n"):
        f = fn
        if ed.startswith("FILE "): l, ed = ed.split("\n", 1); f = l[5:].strip()
        old, new = ed.split("\n====\n")
        p = os.path.join(wt, "include/sfl", f); s = open(p).read()
        k = s.count(old)
        if nth is None:
            if k != 1: sys.exit("OLD matches %d times" % k)
            s = s.replace(old, new)
        else:
            i = -1
            for _ in range(nth): i = s.index(old, i + 1)
            s = s[:i] + new + s[i + len(old):]
        open(p, "w").write(s)
    d = os.path.join(HERE, "seeded", sid); os.makedirs(d, exist_ok=True)
    diff = subprocess.check_output(["git", "-C", wt, "diff"], text=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.cpp", "w").write(demo)
    open(d + "/demo.sh", "w").write('#!/bin/bash\n# exit 0: behaves; 1: broken\nd=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d) || exit 99\n'
        'g++ -std=c++11 -O0 -w -I include "$d/demo.cpp" -o "$t/demo" || { rm -rf "$t"; exit 98; }\ntimeout 60 "$t/demo"; r=$?\nrm -rf "$t"; exit $r\n')
    json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(d + "/meta.json", "w"), indent=1)
    r0 = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo").returncode
    r1 = subprocess.run(["bash", d + "/demo.sh"], cwd=wt).returncode
    print(sid, "clean", r0, "planted", r1, "OK" if r0 == 0 and r1 not in (0, 98, 99) else "BAD")
    if len(sys.argv) > 6: # run the container's own test (both compilers' default) on the planted tree
        name = os.path.basename(fn)[:-4]
        for cxx, std in (("g++", "c++11"), ("clang++", "c++20")):
            t = subprocess.run("%s -std=%s -O0 -w -I include test/%s.cpp -o %s/t" % (cxx, std, sys.argv[6], scratch), cwd=wt, shell=True)
            print(cxx, "build", t.returncode, "run", subprocess.run([scratch + "/t"], stdout=subprocess.DEVNULL).returncode if t.returncode == 0 else None)
finally:
    subprocess.call(["git", "-C", "/repo", "worktree", "remove", "--force", scratch + "/r"])
    shutil.rmtree(scratch, ignore_errors=True)
