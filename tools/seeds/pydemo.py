"""common part of the Python demonstrations: a scratch copy of the package with stand-ins for compilation and import"""
import os, shutil, sys, tempfile, types, warnings
warnings.simplefilter("ignore")
repo = os.getcwd()
work = tempfile.mkdtemp(prefix="demo_")
for x in ("import", "cython", "include"):
    shutil.copytree(os.path.join(repo, x), os.path.join(work, x))
sys.dont_write_bytecode = True
sys.modules["fiber_network"] = types.ModuleType("fiber_network")
sys.path.insert(0, work + "/import")
import HyperHDG
from HyperHDG.import_cxx import names, cpp, compile_prep, config as configmod
inc = sys.modules["HyperHDG.import_cxx.include"]
B = work + "/build/"
os.makedirs(B + "cython_files", exist_ok=True)
os.makedirs(B + "shared_objects", exist_ok=True)
open(B + "Python.h", "w").close()
with open(B + "cmake_cython.cfg", "w") as f:
    f.write("[compiler]\ncommand=CXX\nincludes=-I%s\nflags=-F\nstandard=20\n[linker]\ncommand=LD\nflags=-L\nlibs=-l\n[cython]\ncommand=CY\n"
            "flags=-3\n[python]\nver_maj=%d\nver_min=%d\ndir=%s\n" % (B, sys.version_info.major, sys.version_info.minor, B))
commands, status, imported = [], {}, []


def system(c):
    if c.startswith("mkdir"):
        return 0
    commands.append(c)
    k = "link" if "LD " in c else "compile" if "CXX " in c else "cython"
    if status.get(k, 0) == 0 and k == "link":
        n = [x for x in c.split() if x.endswith(".so")][0].split("/")[-1]
        open(B + "shared_objects/" + n, "w").close()
    return status.get(k, 0)


class Mod:
    def __init__(self, n):
        self.n = n

    def __getattr__(self, k):
        return self.n


def import_module(n):
    if not os.path.isfile(B + "shared_objects/" + n + ".so"):
        raise ImportError(n)
    imported.append(n)
    return Mod(n)


inc.os.system = system
inc.importlib = types.SimpleNamespace(import_module=import_module, invalidate_caches=lambda: None)


def conf(**kw):
    c = HyperHDG.config()
    c.global_loop, c.local_solver = "Elliptic", "DiffusionUniform < 1, 1, 2 * 1 >"
    c.topology, c.geometry, c.node_descriptor = "Cubic< 1, 3 >", "UnitCube< 1, 3 >", "Cubic< 1, 3 >"
    c.cython_replacements = ["vector[unsigned int]", "vector[unsigned int]"]
    for k, v in kw.items():
        setattr(c, k, v)
    return c


def include(c):
    """run include; returns (name or None if it raised, commands run)"""
    del commands[:]
    try:
        n = HyperHDG.include(c)
    except (AssertionError, RuntimeError, ImportError, ValueError) as e:
        n = None
    return n, list(commands)


def old(name):
    """everything older than the shared object of this name"""
    for dp, dn, fn in os.walk(work):
        for f in fn:
            os.utime(os.path.join(dp, f), (1000, 1000))
    os.utime(B + "shared_objects/" + name + ".so", (2000, 2000))


bad = 0


def check(c, what):
    global bad
    if not c:
        bad = 1
        print("FAILED:", what)


def done():
    shutil.rmtree(work)
    sys.exit(bad)
