property = "P26"
needs = "a dependency header that shares its file name with a header that is already in the list, newer than the module"
breaks = "of two included headers with the same file name in different directories only the first one is followed, so changes of the other do not lead to recompilation"
edits = [("import/HyperHDG/import_cxx/compile_prep.py",
"""      if name not in dependent_files:
        dependent_files.append(name)""",
"""      if name.split("/")[-1] not in [x.split("/")[-1] for x in dependent_files]:
        dependent_files.append(name)""")]
demo_py = r'''
from pydemo import *
h = work + "/include/HyperHDG/local_solver/diffusion_uniform_ldgh.hxx"
s = open(h).read()
os.makedirs(work + "/include/HyperHDG/detail")
open(work + "/include/HyperHDG/detail/cubic.hxx", "w").write("#pragma once\n")
open(h, "w").write(s.replace("#pragma once", "#pragma once\n#include <HyperHDG/detail/cubic.hxx>", 1))
n, c = include(conf())
check(n is not None and len(c) == 3, "first import compiles")
old(n)
m, c = include(conf())
check(m == n and len(c) == 0, "unchanged files are not compiled again")
for f in ("detail/cubic.hxx", "dense_la.hxx", "topology/cubic.hxx", "node_descriptor/cubic.hxx"):
    old(n)
    os.utime(work + "/include/HyperHDG/" + f, (3000, 3000))
    m, c = include(conf())
    check(len(c) == 3, f + " is newer, but nothing is compiled")
done()
'''
