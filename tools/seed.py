#!/usr/bin/env python3
"""seed.py new ID PROPERTY "needs" "what it breaks"   - makes seeded/ID from the change now in the worktree /tmp/wt and /tmp/demo.cpp
   seed.py verify ID...                               - demo on the unchanged tree and with the patch, build, stable tests
   seed.py caught ID... [--also P1,P2]                - runs the check of its property (in /repo, undone afterwards)"""
import json, os, shutil, subprocess, sys, fcntl
V = "/verif"; S = V + "/seeded"; KIT = V + "/tools/seedkit"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def new(id, prop, needs, breaks):
    d = f"{S}/{id}"; os.makedirs(d, exist_ok=True)
    diff = subprocess.run("git -C /tmp/wt diff", shell=True, stdout=subprocess.PIPE, text=True).stdout
    assert diff.strip(), "no change in /tmp/wt"
    open(d + "/patch.diff", "w").write(diff)
    shutil.copy("/tmp/demo.cpp", d + "/demo.cpp")
    if os.path.exists(d + "/stubs"): shutil.rmtree(d + "/stubs")
    shutil.copytree(V + "/stubs", d + "/stubs")
    shutil.copy(KIT + "/kit.sh", d + "/demo.sh"); os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    sh("git -C /tmp/wt checkout -- .")
def verify(ids):
    for id in ids:
        d = f"{S}/{id}"
        sh("git -C /tmp/wt checkout -- .")
        a = sh(f"bash {d}/demo.sh", cwd="/tmp/wt")
        p = sh(f"git -C /tmp/wt apply {d}/patch.diff")
        b = sh(f"bash {d}/demo.sh", cwd="/tmp/wt")
        sh("git -C /tmp/wt checkout -- .")
        ok = a.returncode == 0 and p.returncode == 0 and b.returncode not in (0, 3)
        # stable tests
        q = sh(f"git -C /repo apply {d}/patch.diff && bash /opt/vp/build.sh >/tmp/seedbuild.log 2>&1; echo build $?; bash /opt/vp/test.sh /tmp/seedtest.json; cat /tmp/seedtest.json; git -C /repo checkout -- .")
        t = "unit03" in q.stdout.split('"failed"')[0] if '"failed"' in q.stdout else None
        print(id, "OK" if ok else "BAD", a.returncode, b.returncode, "| tests:", q.stdout[-300:].replace("\n", " "))
        if not ok: print(a.stdout[-1500:], p.stdout, b.stdout[-1500:])
    sh("bash /opt/vp/build.sh")
def caught(ids, also=()):
    for id in ids:
        d = f"{S}/{id}"; prop = json.load(open(d + "/meta.json"))["property"]
        assert sh("git -C /repo status --short -uno").stdout.strip() == "", "repo not clean"
        assert sh(f"git -C /repo apply {d}/patch.diff").returncode == 0
        try:
            for p in [prop] + list(also):
                r = sh(f"cd {V} && python3 check.py {p}")
                print(id, p, "CAUGHT" if r.returncode == 1 and f"VIOLATION property={p}" in r.stdout else f"missed ({r.returncode})"); print("   ", r.stdout[-500:].replace("\n", "\n    "))
        finally:
            sh("git -C /repo checkout -- .")
if __name__ == "__main__":
    if not os.path.exists("/tmp/wt"): sh("git -C /repo worktree prune; cp -a /repo /tmp/wt; rm -rf /tmp/wt/_build")
    sh("cd /tmp/wt && git fetch -q /repo HEAD && git checkout -q --detach FETCH_HEAD") if not sh("git -C /tmp/wt status --short -uno").stdout.strip() else None
    c = sys.argv[1]
    if c == "new": new(*sys.argv[2:6])
    elif c == "verify": verify(sys.argv[2:])
    else:
        a = [x for x in sys.argv[2:] if not x.startswith("--")]
        also = [x[7:] for x in sys.argv if x.startswith("--also=")]
        caught(a, also[0].split(",") if also else ())
