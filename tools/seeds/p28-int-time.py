property = "P28"
needs = "a time that is not an integer, handed to the error computation of the parabolic loop"
breaks = "the declaration truncates the time of errors to an integer"
edits = [("cython/parabolic.pxd",
"""    vector[ CyReplace03 ] errors (vector[ CyReplace03 ], CyReplace03 )""",
"""    vector[ CyReplace03 ] errors (vector[ CyReplace03 ], long )""")]
demo_py = r'''
from bindemo import *
f = lambda n: "  V %s(V v, double t) { rec() = \"%s \"; add(v); add(t); return v; }\n" % (n, n)
g = lambda n: "  void %s(V v, double t) { rec() = \"%s \"; add(v); add(t); }\n" % (n, n)
M = build("parabolic", "  V zero_vector() { return V(); }\n" + "".join(map(f, ("trace_to_flux", "residual_flux", "make_initial", "errors"))) + "".join(map(g, ("set_data", "plot_solution"))))
m = M([2])
for n in ("trace_to_flux", "residual_flux", "make_initial", "errors", "set_data", "plot_solution"):
    try:
        getattr(m, n)([1., 2.], 0.75)
    except TypeError as e:
        check(False, str(e))
        continue
    r = m.plot_option("a", "b")
    check(r.startswith(n + " [ 1 2 ] 0.75"), r)
done()
'''
