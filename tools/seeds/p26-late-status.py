property = "P26"
needs = "a failing compilation while an old object file lets the link step succeed"
breaks = "only the status of the last build step is checked, so a failed compilation goes unnoticed"
edits = [("import/HyperHDG/import_cxx/include.py",
"""    assert os.system(cython_command) == 0
    assert os.system(compile_command) == 0
    assert os.system(link_command) == 0
""",
"""    for command in [cython_command, compile_command, link_command]:
      status = os.system(command)
    assert status == 0
""")]
demo_py = r'''
from pydemo import *
n, c = include(conf())
check(n is not None, "first import")
for k in ("cython", "compile", "link"):
    old(n)
    os.utime(work + "/include/HyperHDG/dense_la.hxx", (3000, 3000))
    status.clear()
    status[k] = 256
    m, c = include(conf())
    check(m is None, "the %s step fails and the module is imported" % k)
done()
'''
