property = "P26"
needs = "a build directory configured for another minor version of Python"
breaks = "the settings of a build directory are accepted if either the major or the minor version of Python agrees"
edits = [("import/HyperHDG/import_cxx/cmake.py",
"""  assert int(opt.py_ver_maj) == sys.version_info.major and \\
    int(opt.py_ver_min) == sys.version_info.minor, "Python version is not CMAKE's Python version!"
""",
"""  if int(opt.py_ver_maj) != sys.version_info.major:
    assert int(opt.py_ver_min) == sys.version_info.minor, "Python version is not CMAKE's Python version!"
""")]
demo_py = r'''
from pydemo import *
n, c = include(conf())
check(n is not None, "settings of this Python version are refused")
p = work + "/build/cmake_cython.cfg"
t = open(p).read()
import re
t2 = re.sub(r"(?m)^ver_min\s*=.*$", "ver_min = %d" % (sys.version_info.minor + 1), t)
check(t2 != t, "no minor version in the settings")
open(p, "w").write(t2)
m, c = include(conf())
check(m is None, "settings of another minor version of Python are used")
done()
'''
