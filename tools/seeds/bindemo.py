"""builds one binding of the repository against a C++ class that records its calls"""
import os, re, shutil, subprocess, sys, sysconfig, tempfile
repo = os.getcwd()
bad = 0


def check(c, what):
    global bad
    if not c:
        bad = 1
        print("FAILED:", what)


def build(loop, members):
    w = tempfile.mkdtemp(prefix="demo_")
    open(w + "/rec.hxx", "w").write("#pragma once\n#include <vector>\n#include <string>\n#include <sstream>\ninline std::string& rec() { static std::string s; return s; }\n"
      "inline void add(double x) { std::ostringstream o; o << x << ' '; rec() += o.str(); }\ninline void add(const std::vector<double>& v) { rec() += \"[ \"; for (double x : v) add(x); rec() += \"] \"; }\n"
      "typedef std::vector<double> V;\nstruct Rec\n{\n  unsigned int ref = 1;\n  Rec(std::vector<unsigned int> a) { rec() += \"ctor1 \"; }\n  Rec(std::vector<unsigned int> a, double l) { rec() += \"ctor2 \"; add(l); }\n"
      "  Rec(std::vector<unsigned int> a, std::vector<unsigned int> b, double l) { rec() += \"ctor3 \"; add(l); }\n"
      "  int size_of_system() { return 7; }\n  unsigned int get_refinement() { return ref; }\n  void set_refinement(unsigned int r) { ref = r; }\n"
      "  std::string plot_option(std::string a, std::string b) { rec() += a + '=' + b + ' '; return rec(); }\n" + members + "};\n")
    rep = {"CyReplace01": "vector[unsigned int]", "CyReplace02": "vector[unsigned int]", "CyReplace03": "double", "CyReplace04": "double"}
    for e in ("pyx", "pxd"):
        t = open(repo + "/cython/" + loop + "." + e).read()
        t = re.sub(r'cdef extern from "<HyperHDG/global_loop/\w+\.hxx>"', 'cdef extern from "rec.hxx"', t)
        t = t.replace("C++ClassName", '"Rec"').replace("CythonClassName", "modCP").replace("PythonClassName", "mod")
        t = t.replace("IncludeFiles", 'cdef extern from "rec.hxx": pass\n')
        for k, v in rep.items():
            t = t.replace(k, v)
        open(w + "/mod." + e, "w").write(t)
    subprocess.run("cython3 -3 --cplus mod.pyx && g++ -std=c++20 -w -O0 -shared -fPIC -I. -I%s mod.cpp -o mod.so" % sysconfig.get_paths()["include"],
                   shell=True, cwd=w, check=True)
    sys.path.insert(0, w)
    import mod
    shutil.rmtree(w)
    return mod.mod


def done():
    sys.exit(bad)
