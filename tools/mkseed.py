"""mkseed(id, property, edits=[(file, old, new)], demo=C++ source, needs, breaks, flags): writes seeded/<id>/"""
import os, subprocess, json, shutil
def mkseed(id, prop, edits, demo, needs, breaks, flags="", libs=""):
    d = f"/verif/seeded/{id}"; os.makedirs(d, exist_ok=True)
    w = "/tmp/mkseed_wt"; shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
    subprocess.check_call("git -C /repo archive HEAD include python app | tar x -C " + w, shell=True)
    subprocess.check_call("git init -q . && git add -A && git -c user.name=a -c user.email=a commit -qm x", shell=True, cwd=w)
    for f, o, n in edits:
        p = os.path.join(w, f); s = open(p).read(); assert s.count(o) == 1, (id, f, s.count(o)); open(p, "w").write(s.replace(o, n))
    open(d + "/patch.diff", "w").write(subprocess.check_output("git diff", shell=True, cwd=w, text=True))
    shutil.rmtree(w)
    open(d + "/demo.cpp", "w").write(demo)
    open(d + "/demo.sh", "w").write(f'''#!/bin/bash
# compiles the demonstration against ./include (cwd = the repository) and runs it in a scratch directory
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
t="$(mktemp -d)"; trap 'rm -rf "$t"' EXIT
g++ -std=c++20 -O1 -g -march=native -fno-access-control {flags} -I"$repo/include" -isystem /usr/include/concurrentqueue/moodycamel -isystem /usr/include/eigen3 "$here/demo.cpp" -o "$t/demo" {libs} || exit 3
cd "$t" && timeout 120 ./demo
''')
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
