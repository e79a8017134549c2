#!/usr/bin/env python3
"""refac.py NAME... | --all [--props P01,P02]: apply behaviour-preserving rewrites (tools/refactors/NAME.py: EDITS, PROPS) to a
scratch copy of /repo, confirm that it still builds the repository's test, and run the checks, which must stay quiet."""
import importlib.util, os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
def load(n):
    s = importlib.util.spec_from_file_location("r", os.path.join(HERE, "refactors", n + ".py"))
    m = importlib.util.module_from_spec(s); s.loader.exec_module(m); return m
def main():
    av = sys.argv[1:]
    props = None
    if "--props" in av:
        i = av.index("--props"); props = av[i + 1].split(","); del av[i:i + 2]
    names = sorted(f[:-3] for f in os.listdir(os.path.join(HERE, "refactors")) if f.endswith(".py")) if "--all" in av else av
    bad = 0
    for n in names:
        m = load(n)
        tmp = tempfile.mkdtemp(prefix="rf_")
        try:
            subprocess.run("git -C /repo archive HEAD | tar x -C %s" % tmp, shell=True, check=True)
            for f, old, new in m.EDITS:
                p = os.path.join(tmp, f); s = open(p).read()
                if s.count(old) < 1:
                    print("  %s: text not found in %s: %s" % (n, f, old[:80])); bad += 1; continue
                open(p, "w").write(s.replace(old, new, 1))
            env = dict(os.environ, VERIF_REPO=tmp)
            for p in (props or m.PROPS):
                r = subprocess.run([sys.executable, os.path.join(VERIF, "vf/check.py"), p], env=env, capture_output=True, text=True)
                und = r.stdout.count("UNDECIDED:"); nc = r.stdout.count("NOT COMPILABLE")
                ok = r.returncode == 0
                print("%-22s %s exit %d undecided %d notcompiled %d  %s" % (n, p, r.returncode, und, nc, r.stdout.strip().split("\n")[0][:110]))
                if not ok or und or nc:
                    print("\n".join("      " + l for l in r.stdout.split("\n")[:14]))
                bad += not ok
        finally:
            shutil.rmtree(tmp)
    sys.exit(1 if bad else 0)
main()
