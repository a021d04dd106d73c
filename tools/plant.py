"""Plants a bug: plant.py ID PROPERTY FILE  (reads {"old":..,"new":..,"needs":..,"breaks":..,"demo":..} from stdin as a
Python literal).  Confirms in a scratch copy that it builds, passes the stable tests, and that the demonstration tells
the changed tree from the unchanged one; then writes seeded/ID."""
import ast
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/plant"


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def main():
    sid, prop, file = sys.argv[1:4]
    s = ast.literal_eval(sys.stdin.read())
    shutil.rmtree(W, ignore_errors=True)
    sh(f"cp -a /repo {W}")
    try:
        edits = s["edits"] if "edits" in s else [(file, s["old"], s["new"])]
        for f, old, new in edits:
            p = f"{W}/aas_test_engines/{f}"
            t = open(p).read()
            assert t.count(old) == 1, (f, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        d = f"{V}/seeded/{sid}"
        os.makedirs(d, exist_ok=True)
        open(f"{d}/patch.diff", "wb").write(sh(f"git -C {W} diff").stdout)
        demo = "#!/bin/bash\n# exit 0: the property holds here\n" + s.get("sh", "exec /opt/venv/bin/python -B \"$(dirname \"$0\")/demo.py\"\n")
        open(f"{d}/demo.sh", "w").write(demo)
        if "demo" in s:
            pre = 'import sys, os, io, json\nsys.path.insert(0, os.getcwd())\nsys.dont_write_bytecode = True\n'
            open(f"{d}/demo.py", "w").write(pre + s["demo"].strip() + "\n")
        json.dump({"property": prop, "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
        ok = True
        for scr in ("build", "test"):
            sh(f"sed 's#/repo#{W}#g' /opt/vp/{scr}.sh > {W}/{scr}.tmp.sh")
        r = sh(f"bash {W}/build.tmp.sh")
        if r.returncode:
            ok = False
            print(r.stdout.decode()[-500:])
        r = sh(f"bash {W}/test.tmp.sh {W}/o.json")
        o = json.load(open(f"{W}/o.json"))
        b = json.load(open("/opt/vp/BASELINE.json"))
        key = [k for k in ("passed", "stable", "tests", "pass") if k in b][0]
        keyo = [k for k in ("passed", "stable", "tests", "pass") if k in o][0]
        miss = set(b[key]) - set(o[keyo])
        a = sh(f"bash {d}/demo.sh", cwd="/repo", timeout=300)
        c = sh(f"bash {d}/demo.sh", cwd=W, timeout=300)
        ok = ok and not miss and a.returncode == 0 and c.returncode != 0
        print(sid, "KEPT" if ok else "REJECTED", "tests missing:", sorted(miss)[:5], "demo:", a.returncode, c.returncode)
        if not ok:
            print(a.stdout.decode()[-600:], "\n--\n", c.stdout.decode()[-600:])
            shutil.rmtree(d)
    finally:
        shutil.rmtree(W, ignore_errors=True)


main()
