property = "P27"
needs = "a configuration that gives an empty text for one replacement and a type for a later one"
breaks = "empty replacements are skipped before counting, so later types are used for the wrong hole"
edits = [("import/HyperHDG/import_cxx/config.py",
"""  for i in range(n_replacements):
    if i < len(conf.cython_replacements) and conf.cython_replacements[i] != "":
      cy_replace.append(conf.cython_replacements[i])
""",
"""  given = [x for x in conf.cython_replacements if x != ""]
  for i in range(n_replacements):
    if i < len(given):
      cy_replace.append(given[i])
""")]
demo_py = r'''
from pydemo import *
c = conf(cython_replacements=["string", "string", "", "vector[double]"])
r = configmod.generate_cy_replace(c)
check(r == ["string", "string", "double", "vector[double]"], "types are %s" % r)
r = configmod.generate_cy_replace(conf())
check(r == ["vector[unsigned int]", "vector[unsigned int]", "double", "double"], "types are %s" % r)
done()
'''
