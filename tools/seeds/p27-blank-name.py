property = "P27"
needs = "a class name with blanks before its template arguments in the configuration"
breaks = "the class name keeps its trailing blank, so its header is not found and a valid configuration is refused"
edits = [("import/HyperHDG/import_cxx/cpp.py",
"""  index = re.search('\\<|\\ ', fullname)
""",
"""  index = re.search('\\<', fullname)
""")]
demo_py = r'''
from pydemo import *
for s in ("DiffusionUniform<1,1,2>", "DiffusionUniform < 1, 1, 2 >", "DiffusionUniform  <1,1,2>"):
    check(cpp.extract_classname(s) == "DiffusionUniform", s)
    n, c = include(conf(local_solver=s))
    check(n is not None, s + " is refused")
done()
'''
