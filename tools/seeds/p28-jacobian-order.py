property = "P28"
needs = "a Newton step of the nonlinear eigenvalue problem through Python with a linearisation point different from the direction"
breaks = "direction and linearisation point of the Jacobian are exchanged on the way to C++"
edits = [("cython/nonlinear_eigenvalue.pyx",
"""    return self.thisptr.jacobian_of_trace_to_flux (vec, eig, vec_val, eig_val)""",
"""    return self.thisptr.jacobian_of_trace_to_flux (vec_val, eig_val, vec, eig)""")]
demo_py = r'''
from bindemo import *
M = build("nonlinear_eigenvalue", """
  V trace_to_flux(V v, double t) { rec() = "ttf "; add(v); add(t); return v; }
  V jacobian_of_trace_to_flux(V v, double e, V w, double f) { rec() = "jac "; add(v); add(e); add(w); add(f); return v; }
  V make_initial(V v, double t) { rec() = "init "; add(v); add(t); return v; }
  void plot_solution(V v, double t) { rec() = "plot "; add(v); add(t); }
""")
m = M([2])
m.jacobian_of_trace_to_flux([1., 2.], 3., [4., 5.], 6.)
r = m.plot_option("a", "b")
check(r.startswith("jac [ 1 2 ] 3 [ 4 5 ] 6"), r)
m.plot_solution([1.], 0.5)
check(m.plot_option("a", "b").startswith("plot [ 1 ] 0.5"), "plot")
done()
'''
