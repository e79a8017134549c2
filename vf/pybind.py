"""Python bindings (cython/*.pyx, *.pxd, *.cfg): gated analysis of the wrapper methods and compile-time witness of the declarations."""
import builtins
import configparser
import os
import os.path as osp
import re
import shutil
import subprocess
import tempfile

import pyai
from pyai import AND, NOT, OR, TRUE, FALSE, Builtin, Sym, Undecided, Interp, atom, show
from pyjit import Spec, guarded, possible

HERE = osp.dirname(osp.abspath(__file__))
V, S, U_, STR, I = "vector[R]", "R", "unsigned int", "string", "int"

# name -> (parameters of the Python method with defaults, C++ parameter types, C++ result)
COMMON = {"size_of_system": ((), (), I), "plot_option": (("option", "value"), (STR, STR), STR)}
TIME = ("vec", ("time", 0.0))
LOOPS = {
    "elliptic": dict(COMMON, read_dirichlet_indices=(("indices",), ("vector[unsigned int]",), "void"), zero_vector=((), (), V),
                     trace_to_flux=(("vec",), (V,), V), residual_flux=(("vec",), (V,), V), errors=(("vec",), (V,), V),
                     plot_solution=(("vec",), (V,), "void")),
    "parabolic": dict(COMMON, zero_vector=((), (), V), trace_to_flux=(TIME, (V, S), V), residual_flux=(TIME, (V, S), V),
                      set_data=(TIME, (V, S), "void"), make_initial=(TIME, (V, S), V), errors=(TIME, (V, S), V),
                      plot_solution=(TIME, (V, S), "void")),
    "nonlinear_eigenvalue": dict(COMMON, trace_to_flux=(TIME, (V, S), V), make_initial=(TIME, (V, S), V), plot_solution=(TIME, (V, S), "void"),
                                 jacobian_of_trace_to_flux=(("vec", "eig", "vec_val", "eig_val"), (V, S, V, S), V)),
    "mass_approx_eigenvalue": dict(COMMON, dirichlet_indices=((), (), "vector[unsigned int]"), trace_to_flux=(TIME, (V, S), V),
                                   trace_to_mass_flux=(TIME, (V, S), V), plot_solution=(TIME, (V, S), "void")),
    "shifted_inverse_eigenvalue": dict(COMMON, dirichlet_indices=((), (), "vector[unsigned int]"), trace_to_flux=(TIME, (V, S), V),
                                       plot_solution=(TIME, (V, S), "void")),
}
REFINE = {"get_refinement": ((), U_), "set_refinement": ((U_,), "void")}
MATRIX = {"trace_to_flux_mat": ((), "sparse_mat")}


def translate(t):
    """Cython source to Python source: one class with a pointer member"""
    t = re.sub(r'^(\s*)cdef\s+class\b', r'\1class', t, flags=re.M)
    t = re.sub(r'^(\s*)c(?:p)?def\s+(?:\w+\s+)?(\w+\s*\(.*\)\s*(?:except\s*[+*?\w-]*\s*)?:)', r'\1def \2', t, flags=re.M)
    t = re.sub(r'^(\s*)cdef\s+[\w\[\], ]+?[\s*]\*?\s*\w+\s*(#.*)?$', r'\1pass', t, flags=re.M)
    t = re.sub(r'^(\s*)cdef\s+[\w\[\], ]+?[\s*]\*?\s*(\w+\s*=)', r'\1\2', t, flags=re.M)
    t = re.sub(r'^(\s*)(from\s+\S+\s+)?cimport\b.*$', r'\1pass', t, flags=re.M)
    t = re.sub(r'\bnew\s+CythonClassName\b', 'CythonClassName', t)
    t = re.sub(r'\bdel\s+(self\.\w+)', r'cpp_delete(\1)', t)
    return t


class CyWorld:
    def __init__(self, src, path):
        self.src, self.path = src, path
        self.fs = {}

    def is_builtin(self, name):
        return True

    def module_source(self, name):
        return (translate(self.src), self.path) if name == "binding" else (None, None)

    def name(self, it, n):
        if n in ("CythonClassName", "cpp_delete", "NULL"):
            return None if n == "NULL" else Builtin("cpp." + n)
        if hasattr(builtins, n):
            raise Undecided("builtin %s" % n)
        it.throw("NameError", n)
        return None

    def attr(self, it, o, name):
        raise Undecided("attribute %s" % name)

    def setattr(self, it, o, name, v):
        raise Undecided("assignment to %s" % name)

    def item(self, it, o, k):
        raise Undecided("item of %s" % show(o))

    def contains(self, it, a, b):
        raise Undecided("in %s" % show(b))

    def distinct(self, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Sym) and x.op in ("cpp", "result") and not isinstance(y, Sym):
                return True
        return False

    def less(self, it, x, y):
        return atom("%r < %r" % (x, y))

    def literal_free(self, a, b):
        return False

    def inside(self, pat):
        return True

    def symattr(self, it, x, name):
        return None

    def symtype(self, it, x, n):
        if x.op == "encode":
            return n == "bytes"
        if x.op == "decode":
            return n == "str"
        if x.op in ("result", "cpp"):
            return n == "bytes" and x.op == "result" and x.args[0] == "plot_option"
        return atom("isinstance(%r, %s)" % (x, n))

    def symmethod(self, it, x, name, args, kw):
        if x.op == "cpp" or x.op == "result" and x.args[0] == "trace_to_flux_mat":
            it.event("call", x, name, tuple(args))
            return Sym("result", name, x, *args)
        if name in ("encode", "decode"):
            return Sym(name, x)
        raise Undecided("%s of %r" % (name, x))

    def refmethod(self, it, o, name, args, kw):
        raise Undecided("%s.%s" % (o.kind, name))

    def call(self, it, name, args, kw):
        if name == "cpp.CythonClassName":
            def nw(*a):
                it.event("new", tuple(a))
                return Sym("cpp", *a)
            return it.lift(nw, *args)
        if name == "cpp.cpp_delete":
            it.event("delete", args[0])
            return None
        raise Undecided("call of %s" % name)


def start(src, path):
    pyai.BDD.table.clear()
    pyai.BDD.names.clear()
    pyai.BDD.index.clear()
    pyai._ite.clear()
    it = Interp(CyWorld(src, path))
    m = it.load("binding")
    cls = m.env.get("PythonClassName")
    if cls is None:
        raise Undecided("no class PythonClassName")
    return it, cls


def run(it, cls, obj, name, args, kw=None):
    k = len(it.events)
    it.g, it.exc = TRUE, []
    f = it.clsattr(cls, name)
    if not f:
        return None
    v = it.call(f[0], [obj] + list(args), dict(kw or {}))
    return v, it.g, [e for e in it.events[k:] if e[1] != "print"]


def same(a, b):
    return pyai.same(a, b)


def enc(x):
    """cases of a text argument: encoded if it is a Python string"""
    a = atom("isinstance(%r, str)" % x)
    return [(a, Sym("encode", x)), (NOT(a), x)]


def wrapper(sp, src, path, loop):
    rel = "cython/%s.pyx" % loop
    new = lambda it, cls: it.new("obj", {"__class__": cls})
    arg = lambda n: Sym("arg", n)

    def ctor(names, kw=()):
        it, cls = start(src, rel)
        o = new(it, cls)
        a = {n: arg(n) for n in names}
        r = run(it, cls, o, "__cinit__", [a[n] for n in names if n not in kw], {n: a[n] for n in kw})
        if r is None:
            sp.ok(False, "%s: constructor" % loop, "missing", rel)
            return
        v, ok, ev = r
        given = AND(*[NOT(it.equal(a[n], "default")) for n in names if n != "topo_constr"])
        news = [e for e in ev if e[1] == "new"]
        label = "%s: constructor with %s" % (loop, ", ".join(names))
        if names == ["topo_constr", "geom_constr"]:
            anynew = OR(*[e[0] for e in news]) if news else FALSE
            bad = possible(AND(given, ok, NOT(anynew)))
            sp.ok(bad is FALSE, label, "returns an object without C++ instance: every method call on it dereferences a null pointer", rel)
            return
        bad = possible(AND(given, NOT(ok)))
        sp.ok(bad is FALSE, label + " succeeds", "raises", rel)
        total = FALSE
        for g, k, data, wh in news:
            sp.ok(AND(g, total) is FALSE or AND(AND(g, total), given) is FALSE, label + " creates one C++ object", "creates several", rel)
            total = OR(total, g)
            g = AND(g, given)
            cs = [(g, ())]
            for n in names:
                opts = enc(a[n]) if n != "lsol_constr" else [(TRUE, a[n])]
                cs = [(AND(c, d), t + (x,)) for c, t in cs for d, x in opts]
            for c, t in cs:
                if c is not FALSE:
                    sp.ok(len(t) == len(data[0]) and all(same(x, y) for x, y in zip(t, data[0])), label + " passes its arguments",
                          "other arguments", rel, got=str(data[0]), expected=str(t))
        sp.ok(AND(given, NOT(total)) is FALSE, label + " creates a C++ object", "none is created", rel)
        ptr = it.heap[o].get("thisptr") if isinstance(it.heap[o], dict) else None
        for c, x in it.cases(ptr, given) if ptr is not None else []:
            sp.ok(isinstance(x, Sym) and x.op == "cpp", label + " keeps the object", "keeps %s" % show(x), rel)
        sp.ok(ptr is not None, label + " keeps the object", "is not stored", rel)
        sp.analysed.update(it.analysed)
    guarded(sp, lambda: ctor(["topo_constr"]))
    guarded(sp, lambda: ctor(["topo_constr", "geom_constr", "lsol_constr"]))
    guarded(sp, lambda: ctor(["topo_constr", "lsol_constr"], ("lsol_constr",)))
    guarded(sp, lambda: ctor(["topo_constr", "geom_constr"]))

    def obj():
        it, cls = start(src, rel)
        o = new(it, cls)
        it.setattr(o, "thisptr", Sym("cpp", "this"))
        return it, cls, o

    def method(n, shape, types, ret, nargs):
        it, cls, o = obj()
        ps = [p if isinstance(p, str) else p[0] for p in shape]
        dflt = [None if isinstance(p, str) else p[1] for p in shape]
        a = [arg(p) for p in ps[:nargs]]
        r = run(it, cls, o, n, a)
        label = "%s: %s(%s)" % (loop, n, ", ".join(ps[:nargs]))
        if r is None:
            sp.ok(False, label, "the method is missing", rel)
            return
        v, ok, ev = r
        sp.ok(ok is TRUE, label + " succeeds", "raises", rel)
        calls = [e for e in ev if e[1] == "call"]
        want = a + dflt[nargs:]
        total = FALSE
        exp = []
        cs = [(TRUE, ())]
        for x, t in zip(want, types):
            opts = enc(x) if t == STR else [(TRUE, x)]
            cs = [(AND(c, d), s + (y,)) for c, s in cs for d, y in opts]
        for g, k, data, wh in calls:
            sp.ok(same(data[0], Sym("cpp", "this")) and data[1] == n, label + " calls the C++ member of the same name", "calls %s" % data[1], rel)
            sp.ok(AND(g, total) is FALSE, label + " calls it once", "calls it several times", rel)
            total = OR(total, g)
            for c, s in cs:
                if AND(c, g) is not FALSE:
                    sp.ok(len(s) == len(data[2]) and all(same(x, y) for x, y in zip(s, data[2])), label + " passes its arguments",
                          "other arguments", rel, got=str(data[2]), expected=str(s))
        sp.ok(total is TRUE, label + " calls the C++ member", "is not called", rel)
        for c, x in it.cases(v, TRUE):
            if ret == "void":
                continue
            for d, s in cs:
                if AND(c, d) is FALSE:
                    continue
                e = Sym("result", n, Sym("cpp", "this"), *s)
                if ret == STR:
                    e = Sym("decode", e)
                sp.ok(same(x, e), label + " returns the result", "returns something else", rel, got=str(x), expected=str(e))
        sp.analysed.update(it.analysed)
    for n, (shape, types, ret) in sorted(LOOPS[loop].items()):
        need = len([p for p in shape if isinstance(p, str)])
        for k in range(need, len(shape) + 1):
            guarded(sp, lambda: method(n, shape, types, ret, k))

    def refine():
        it, cls, o = obj()
        this = Sym("cpp", "this")
        r = run(it, cls, o, "refine", [])
        if r is None:
            return sp.ok(False, "%s: refine" % loop, "missing", rel)
        sp.ok([(e[2][1], e[2][2]) for e in r[2]] == [("get_refinement", ())] and same(r[0], Sym("result", "get_refinement", this)),
              "%s: refine() returns the refinement" % loop, "does something else", rel, got=str([e[2] for e in r[2]]))
        n = arg("n_ref")
        v, ok, ev = run(it, cls, o, "refine", [n])
        given = NOT(it.equal(n, "default"))
        ev = [(AND(g, given), k, d, w) for g, k, d, w in ev if AND(g, given) is not FALSE]
        sp.ok(len(ev) == 1 and ev[0][0] is given and ev[0][2][1] == "set_refinement" and same(ev[0][2][2][0], n),
              "%s: refine(n) sets the refinement" % loop, "does something else", rel, got=str([e[2] for e in ev]))
        for c, x in it.cases(v, given):
            sp.ok(same(x, n), "%s: refine(n) returns n" % loop, "returns something else", rel, got=str(x))
        sp.analysed.update(it.analysed)
    guarded(sp, refine)

    def matrix():
        it, cls, o = obj()
        r = run(it, cls, o, "sparse_stiff_mat", [])
        if r is None:
            return sp.ok(False, "%s: sparse_stiff_mat" % loop, "missing", rel)
        m = Sym("result", "trace_to_flux_mat", Sym("cpp", "this"))
        want = tuple(Sym("result", k, m) for k in ("get_cols", "get_rows", "get_values"))
        got = r[0]
        if isinstance(got, pyai.Ref) and got.kind == "list":
            got = it.heap[got]
        sp.ok(isinstance(got, tuple) and len(got) == 3 and all(same(x, y) for x, y in zip(got, want)),
              "%s: sparse_stiff_mat returns columns, rows and values of one matrix" % loop, "returns something else", rel, got=str(got))
        sp.analysed.update(it.analysed)
    if loop == "elliptic":
        guarded(sp, matrix)

    def dealloc():
        it, cls, o = obj()
        r = run(it, cls, o, "__dealloc__", [])
        d = [e for e in r[2] if e[1] == "delete"] if r else []
        sp.ok(r is not None and len(d) == 1 and d[0][0] is TRUE and same(d[0][2][0], Sym("cpp", "this")), "%s: the C++ object is deleted once" % loop,
              "is not", rel)
    guarded(sp, dealloc)


def canon(t):
    t = re.sub(r'\bconst\b|&', ' ', t)
    t = re.sub(r'\bCyReplace03\b', 'R', t)
    t = re.sub(r'\bunsigned\b(?!\s*int)', 'unsigned int', t)
    return re.sub(r'\s*([\[\],])\s*', r'\1', re.sub(r'\s+', ' ', t)).strip()


def split(t):
    out, d, cur = [], 0, ""
    for c in t:
        if c == "," and d == 0:
            out.append(cur)
            cur = ""
            continue
        d += (c in "[(<") - (c in "])>")
        cur += c
    return out + [cur] if cur.strip() else out


def declarations(sp, text, loop):
    rel = "cython/%s.pxd" % loop
    found, ctors = {}, []
    cur = None
    for no, line in enumerate(text.splitlines(), 1):
        m = re.match(r'\s*cdef cppclass (\w+)', line)
        if m:
            cur = m.group(1)
            continue
        m = re.match(r'\s+(?:(.*?[\s\]])\s*)??(\w+)\s*\((.*)\)\s*(?:except\s*\S*)?\s*(?:nogil)?\s*(?:#.*)?$', line)
        if not m or cur is None:
            continue
        ps = []
        for p in split(m.group(3)):
            p = canon(p)
            k = re.match(r'(.*\]|unsigned int|R|string|CyReplace\d\d|int|float|double|\w+)(?:\s+\w+)?$', p)
            ps.append(k.group(1) if k else p)
        if m.group(2) == cur:
            if cur == "CythonClassName":
                ctors.append((tuple(ps), no))
        else:
            found[cur, m.group(2)] = (tuple(ps), canon(m.group(1) or ""), no)
    want = {("CythonClassName", n): (x[1], x[2]) for n, x in LOOPS[loop].items()}
    want.update({("CythonClassName", n): x for n, x in REFINE.items()})
    if loop == "elliptic":
        want.update({("CythonClassName", n): x for n, x in MATRIX.items()})
        want.update({("sparse_mat", n): ((), t) for n, t in (("get_cols", "vector[unsigned int]"), ("get_rows", "vector[unsigned int]"),
                                                             ("get_values", V))})
    for k, (ps, ret) in sorted(want.items()):
        f = found.get(k)
        sp.ok(f is not None, "%s: declaration of %s" % (loop, k[1]), "missing", rel)
        if f:
            r = f[1]
            okr = r == ret or ret == I and r in ("unsigned int", "long", "size_t", "long long", "unsigned long")
            sp.ok(f[0] == tuple(ps), "%s: parameters of %s" % (loop, k[1]), "declared as (%s)" % ", ".join(f[0]), "%s:%d" % (rel, f[2]),
                  got=f[0], expected=ps)
            sp.ok(okr, "%s: result of %s" % (loop, k[1]), "declared as %s" % r, "%s:%d" % (rel, f[2]), got=r, expected=ret)
    have = {c for c, no in ctors}
    for c in (("CyReplace01",), ("CyReplace01", "CyReplace04"), ("CyReplace01", "CyReplace02", "CyReplace04")):
        sp.ok(c in have, "%s: constructor (%s)" % (loop, ", ".join(c)), "missing", rel, got=sorted(have))


def config(sp, text, loop):
    c = configparser.ConfigParser(interpolation=None)
    c.read_string(text)
    d = c["default"]
    rel = "cython/%s.cfg" % loop
    sp.ok(d.get("n_replacements") == "4", "%s: number of type replacements" % loop, "is %s" % d.get("n_replacements"), rel)
    for k in ("replacement03", "replacement04"):
        sp.ok(d.get(k) == "double", "%s: default of %s" % (loop, k), "is %s" % d.get(k), rel)


MOCKCODE = '''#pragma once
#include <HyperHDG/hy_assert.hxx>
#include <HyperHDG/topology/cubic.hxx>
#include <HyperHDG/geometry/unit_cube.hxx>
#include <HyperHDG/node_descriptor/cubic.hxx>
#include <HyperHDG/global_loop/%(loop)s.hxx>
struct BindingSolver
{
  typedef std::array<std::array<double, 1>, 2> L;
  struct data_type
  {
  };
  struct error_def
  {
    typedef std::array<double, 1> error_t;
    static error_t initial_error();
    static error_t sum_error(error_t, const error_t&);
    static error_t postprocess_error(error_t);
  };
  typedef double constructor_value_type;
  BindingSolver(const double& = 1.);
  static constexpr unsigned int hyEdge_dim() { return 1; }
  static constexpr unsigned int n_glob_dofs_per_node() { return 1; }
  static constexpr unsigned int system_dimension() { return 1; }
  static constexpr unsigned int node_system_dimension() { return 1; }
  template <class E> L& trace_to_flux(const L&, L&, E&, double = 0.) const;
  template <class E> L& residual_flux(const L&, L&, E&, double = 0.) const;
  template <class E> L& trace_to_mass_flux(const L&, L&, E&, double = 0.) const;
  template <class E> L& jacobian_of_trace_to_flux(const L&, L&, double, const L&, double, E&) const;
  template <class E> L& make_initial(L&, E&, double = 0.) const;
  template <class E> void set_data(const L&, E&, double = 0.) const;
  template <class E> error_def::error_t errors(const L&, E&, double = 0.) const;
  template <class E> std::array<unsigned int, 2> node_types(E&) const;
  template <class A, std::size_t m, class E> std::array<std::array<double, m>, 1> bulk_values(const std::array<A, m>&, const L&, E&, double = 0.) const;
};
typedef GlobalLoop::%(cls)s<Topology::Cubic<1, 1>, Geometry::UnitCube<1, 1>, NodeDescriptor::Cubic<1, 1>, BindingSolver> BindingClass;
'''


def witness(sp, repo, loop):
    """the binding, with all holes filled, translates and type-checks against the C++ class"""
    w = tempfile.mkdtemp(prefix="vf_bind_")
    try:
        cls = "".join(x.capitalize() for x in loop.split("_"))
        har = osp.join(osp.dirname(HERE), "harness")
        open(osp.join(w, "binding_cls.hxx"), "w").write(MOCKCODE % dict(loop=loop, cls=cls))
        rep = {"CyReplace01": "vector[unsigned int]", "CyReplace02": "vector[unsigned int]", "CyReplace03": "double", "CyReplace04": "double"}
        for e in ("pyx", "pxd"):
            t = open(osp.join(repo, "cython", loop + "." + e)).read()
            t = t.replace("C++ClassName", '"BindingClass"').replace("CythonClassName", "modCP").replace("PythonClassName", "mod")
            t = t.replace("IncludeFiles", 'cdef extern from "binding_cls.hxx": pass\n')
            for k, v in rep.items():
                t = t.replace(k, v)
            open(osp.join(w, "mod." + e), "w").write(t)
        p = subprocess.run(["cython3", "-3", "--cplus", "mod.pyx"], cwd=w, capture_output=True, text=True)
        sp.ok(p.returncode == 0, "%s: the binding translates" % loop, "cython refuses it: %s" % p.stderr[-600:], "cython/%s.pyx" % loop)
        if p.returncode:
            return
        py = subprocess.run(["python3", "-c", "import sysconfig;print(sysconfig.get_paths()['include'])"], capture_output=True, text=True).stdout.strip()
        p = subprocess.run(["/usr/bin/clang++", "-std=c++20", "-fsyntax-only", "-w", "-I", osp.join(repo, "include"), "-I", har, "-I", w,
                            "-I", osp.join(har, "stubs"), "-I", py, "mod.cpp"], cwd=w, capture_output=True, text=True)
        err = [l for l in p.stderr.splitlines() if "error" in l]
        sp.ok(p.returncode == 0, "%s: declarations agree with the C++ class" % loop, "; ".join(err[:4])[:700], "cython/%s.pxd" % loop)
        sp.analysed["type check of the generated module for " + loop] = "cython/%s.pxd" % loop
    finally:
        shutil.rmtree(w)


def bindings(repo, tier):
    """P28"""
    sp = Spec("bindings")
    for loop in sorted(LOOPS):
        f = lambda e: open(osp.join(repo, "cython", loop + "." + e)).read()
        for e in ("pyx", "pxd", "cfg"):
            if not osp.isfile(osp.join(repo, "cython", loop + "." + e)):
                sp.ok(False, "%s: binding" % loop, "cython/%s.%s is missing" % (loop, e), "cython")
                break
        else:
            wrapper(sp, f("pyx"), "cython/%s.pyx" % loop, loop)
            declarations(sp, f("pxd"), loop)
            config(sp, f("cfg"), loop)
            witness(sp, repo, loop)
    return sp.out()
