"""Build /verif/seeded/<id>/ from tools/seeds/<id>.py, confirm it in a scratch copy, and run the property's check.
usage: mkseed.py [--nocheck] ID...      (nothing of this is used by the checks)"""
import json, os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def one(sid, nocheck):
    ns = {}
    exec(open(os.path.join(here, "seeds", sid + ".py")).read(), ns)
    d = os.path.join(root, "seeded", sid)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    tmp = tempfile.mkdtemp(prefix="seed_")
    try:
        rp = os.path.join(tmp, "repo")
        sh("git clone -q /repo %s" % rp)
        clean = os.path.join(tmp, "clean")
        sh("git clone -q /repo %s" % clean)
        for f, old, new in ns["edits"]:
            p = os.path.join(rp, f)
            s = open(p).read()
            cnt = ns.get("count", {}).get(f, 1)
            if s.count(old) < 1 or (s.count(old) != cnt):
                print(sid, "EDIT DOES NOT MATCH", s.count(old), repr(old)[:80])
                return False
            open(p, "w").write(s.replace(old, new))
        diff = sh("git -C %s diff" % rp).stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.cxx"), "w").write(ns["demo"]) if "demo" in ns else None
        if "mini.hxx" in ns.get("demo", ""):
            shutil.copy(os.path.join(here, "seeds", "mini.hxx"), d)
        if "loopmini.hxx" in ns.get("demo", ""):
            shutil.copy(os.path.join(here, "seeds", "loopmini.hxx"), d)
        if "lsolmini.hxx" in ns.get("demo", ""):
            shutil.copy(os.path.join(here, "seeds", "lsolmini.hxx"), d)
            shutil.copytree(os.path.join(root, "harness", "stubs", "tpp"), os.path.join(d, "tpp"))
        if any(x in ns.get("demo", "") for x in ("geometry/", "node_descriptor/")) or "topology/" in ns.get("demo", ""):
            shutil.copytree(os.path.join(root, "harness", "stubs", "tpcc"), os.path.join(d, "tpcc"))
        for k, v in ns.get("files", {}).items():
            open(os.path.join(d, k), "w").write(v)
        if "demo_py" in ns:
            open(os.path.join(d, "demo.py"), "w").write(ns["demo_py"].lstrip())
            lib = "bindemo.py" if "bindemo" in ns["demo_py"] else "pydemo.py"
            shutil.copy(os.path.join(here, "seeds", lib), d)
            shutil.copy(os.path.join(here, "seeds", "demo_py.sh"), os.path.join(d, "demo.sh"))
        elif "demo_sh" in ns:
            open(os.path.join(d, "demo.sh"), "w").write(ns["demo_sh"])
        else:
            shutil.copy(os.path.join(here, "seeds", "demo_cxx.sh"), os.path.join(d, "demo.sh"))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump(dict(property=ns["property"], needs=ns["needs"], what_it_breaks=ns["breaks"]),
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        a = sh("bash %s/demo.sh" % d, cwd=clean)
        b = sh("bash %s/demo.sh" % d, cwd=rp)
        # the repository's stable test
        t = sh("g++ -std=c++20 -w -I%s/include -include %s/include/HyperHDG/dense_la.hxx -include algorithm -include memory %s/tests_c++/point_functions.cxx -o %s/pf -llapack && %s/pf" % (rp, rp, rp, tmp, tmp))
        ok = a.returncode == 0 and b.returncode not in (0, 2) and t.returncode == 0
        res = "-"
        if not nocheck:
            c = sh("python3 %s/vf/check.py %s" % (root, ns["property"]), env=dict(os.environ, VERIF_REPO=rp))
            res = "caught" if c.returncode == 1 and "VIOLATION property=%s" % ns["property"] in c.stdout else "MISSED rc=%d" % c.returncode
            lines = [x for x in c.stdout.splitlines() if "VIOLATION" in x]
            res += " " + (lines[0][:150] if lines else c.stdout[-300:])
        print("%-28s %s clean=%d bug=%d test=%d %s" % (sid, "ok " if ok else "BAD", a.returncode, b.returncode, t.returncode, res), flush=True)
        if not ok:
            print(a.stdout[-1500:], b.stdout[-500:], t.stdout[-500:])
        return ok
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


args = [a for a in sys.argv[1:] if not a.startswith("--")]
if "--all" in sys.argv:
    args = sorted(f[:-3] for f in os.listdir(os.path.join(here, "seeds")) if f.endswith(".py") and "-" in f)
for a in args:
    one(a, "--nocheck" in sys.argv)
