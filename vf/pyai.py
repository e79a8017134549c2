"""Gated abstract interpretation of Python source (AST), without executing it.

Every value is a union of (guard, value) cases, guards are BDDs over atoms of the unknown environment (is a file there, is one
file older than another, does a command succeed, are two texts equal ...). Branches are joined, never enumerated; what a
function does is reported as a list of gated events. Unknown texts are placeholders (private-use characters) inside strings."""
import ast
import configparser
import hashlib
import os.path as osp
import re
import warnings


class Undecided(Exception):
    pass


# ------------------------------------------------------------------------------------------------ guards
class BDD:
    __slots__ = ("v", "hi", "lo")
    table = {}
    names = []
    index = {}

    def __init__(self, v, hi, lo):
        self.v, self.hi, self.lo = v, hi, lo


TRUE, FALSE = BDD(1 << 30, None, None), BDD((1 << 30) + 1, None, None)


def mk(v, hi, lo):
    if hi is lo:
        return hi
    k = (v, id(hi), id(lo))
    r = BDD.table.get(k)
    if r is None:
        r = BDD.table[k] = BDD(v, hi, lo)
    return r


def atom(name):
    i = BDD.index.get(name)
    if i is None:
        i = BDD.index[name] = len(BDD.names)
        BDD.names.append(name)
    return mk(i, TRUE, FALSE)


_ite = {}


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    k = (id(c), id(a), id(b))
    r = _ite.get(k)
    if r is None:
        v = min(c.v, a.v, b.v)
        f = lambda x, h: (x.hi if h else x.lo) if x.v == v else x
        r = _ite[k] = mk(v, ite(f(c, 1), f(a, 1), f(b, 1)), ite(f(c, 0), f(a, 0), f(b, 0)))
    return r


def AND(*x):
    r = TRUE
    for y in x:
        r = ite(r, y, FALSE)
    return r


def OR(*x):
    r = FALSE
    for y in x:
        r = ite(r, TRUE, y)
    return r


def NOT(a):
    return ite(a, FALSE, TRUE)


def implies(a, b):
    return AND(a, NOT(b)) is FALSE


def witness(b):
    """one assignment of atoms that satisfies b"""
    out = []
    while b not in (TRUE, FALSE):
        if b.hi is not FALSE:
            out.append(BDD.names[b.v])
            b = b.hi
        else:
            out.append("not " + BDD.names[b.v])
            b = b.lo
    return ", ".join(out) or "always"


# ------------------------------------------------------------------------------------------------ values
class U:
    """union of gated cases"""
    def __init__(self, cases):
        self.cases = cases


class Ref:
    """heap object"""
    n = 0

    def __init__(self, kind):
        Ref.n += 1
        self.kind, self.id = kind, Ref.n


class Func:
    def __init__(self, node, env, mod, name, cls=None):
        self.node, self.env, self.mod, self.name, self.cls = node, env, mod, name, cls


class Bound:
    def __init__(self, fn, me):
        self.fn, self.me = fn, me


class Builtin:
    def __init__(self, name):
        self.name = name


class Cls:
    def __init__(self, name, mod):
        self.name, self.mod, self.attrs, self.bases = name, mod, {}, []


class Mod:
    def __init__(self, name):
        self.name, self.env = name, None


class Sym:
    """unknown value (not a text): a term"""
    def __init__(self, op, *args):
        self.op, self.args = op, args

    def key(self):
        return (self.op,) + tuple(a.key() if isinstance(a, Sym) else ("#", repr(a)) for a in self.args)

    def __repr__(self):
        return self.op + ("(%s)" % ", ".join(map(repr, self.args)) if self.args else "")


class Exc:
    def __init__(self, name, arg=None):
        self.name, self.arg = name, arg


def same(a, b):
    if isinstance(a, Sym) and isinstance(b, Sym):
        return a.key() == b.key()
    if a is b:
        return True
    if isinstance(a, BDD) or isinstance(b, BDD):
        return False
    if isinstance(a, (U, Ref, Func, Bound, Cls, Mod, Builtin)) or isinstance(b, (U, Ref, Func, Bound, Cls, Mod, Builtin)):
        return False
    try:
        return type(a) is type(b) and a == b
    except Exception:
        return False


PH0 = 0xE000
_ph = {}
_phn = []


def text(name):
    """an unknown text"""
    if name not in _ph:
        _ph[name] = chr(PH0 + len(_phn))
        _phn.append(name)
    return _ph[name]


def show(s):
    if isinstance(s, str):
        return "".join("<%s>" % _phn[ord(c) - PH0] if PH0 <= ord(c) < PH0 + len(_phn) else c for c in s)
    return repr(s)


def unknown(s):
    return isinstance(s, str) and any(PH0 <= ord(c) < PH0 + 6400 for c in s)


EXC = {"ImportError": "Exception", "ModuleNotFoundError": "ImportError", "AssertionError": "Exception", "KeyError": "Exception",
       "FileNotFoundError": "OSError", "OSError": "Exception", "ValueError": "Exception", "RuntimeError": "Exception",
       "TypeError": "Exception", "AttributeError": "Exception", "IOError": "OSError", "IndexError": "Exception",
       "NotImplementedError": "RuntimeError", "Exception": "BaseException"}


def exc_is(name, base):
    while name:
        if name == base:
            return True
        name = EXC.get(name)
    return False


class Frame:
    def __init__(self, env, glob, mod):
        self.env, self.glob, self.mod = env, glob, mod
        self.ret, self.brk, self.cont = [], FALSE, FALSE
        self.globals = set()


# ------------------------------------------------------------------------------------------------ interpreter
class Interp:
    def __init__(self, world, budget=400000):
        self.w = world
        self.heap = {}
        self.g = TRUE
        self.exc = []          # pending exceptions (guard, Exc)
        self.mods = {}
        self.frames = []
        self.events = []
        self.where = []
        self.steps = 0
        self.budget = budget
        self.analysed = {}

    # ---- unions
    def cases(self, v, g=None):
        g = self.g if g is None else g
        if isinstance(v, U):
            out = []
            for c, x in v.cases:
                h = AND(c, g)
                if h is not FALSE:
                    out.append((h, x))
            return out
        return [(g, v)]

    def union(self, cases):
        out = []
        for c, v in cases:
            if c is FALSE:
                continue
            for d, x in (self.cases(v, c) if isinstance(v, U) else [(c, v)]):
                if isinstance(x, BDD) and x not in (TRUE, FALSE):
                    pass
                for i, (e, y) in enumerate(out):
                    if isinstance(x, BDD) and isinstance(y, BDD) or \
                       isinstance(x, (BDD, bool)) and isinstance(y, (BDD, bool)):
                        bx = self.tobdd(x)
                        by = self.tobdd(y)
                        out[i] = (OR(e, d), ite(d, bx, by))
                        break
                    if same(x, y):
                        out[i] = (OR(e, d), y)
                        break
                else:
                    out.append((d, x))
        if not out:
            return None
        if len(out) == 1:
            v = out[0][1]
            return (True if v is TRUE else False if v is FALSE else v)
        return U([(c, True if x is TRUE else False if x is FALSE else x) for c, x in out])

    def tobdd(self, x):
        return x if isinstance(x, BDD) else TRUE if x else FALSE

    def merge(self, g, new, old):
        if g is TRUE:
            return new
        return self.union([(g, new), (NOT(g), old)])

    def lift(self, f, *vs):
        """apply f to every combination of cases; f may use self.g"""
        g0 = self.g
        combos = [(g0, ())]
        for v in vs:
            combos = [(c2, t + (x,)) for c, t in combos for c2, x in self.cases(v, c)]
        if len(combos) == 1:
            return f(*combos[0][1])
        out, left = [], FALSE
        for c, t in combos:
            self.g = c
            r = f(*t)
            out.append((self.g, r))
            left = OR(left, self.g)
        self.g = left
        return self.union(out)

    def truth(self, v):
        """guard under which v is true"""
        r = FALSE
        for c, x in self.cases(v):
            r = OR(r, AND(c, self.truth1(x)))
        return r

    def truth1(self, x):
        if isinstance(x, BDD):
            return x
        if isinstance(x, str):
            if x == "":
                return FALSE
            if unknown(x) and all(unknown(c) for c in x):
                return NOT(atom("empty(%s)" % show(x)))
            return TRUE
        if isinstance(x, Ref):
            if x.kind in ("list", "dict", "set"):
                r = FALSE
                for c, t in self.cases(self.heap[x]):
                    if len(t):
                        r = OR(r, c)
                return r
            return TRUE
        if isinstance(x, Sym):
            return atom("true(%r)" % x)
        if isinstance(x, (Func, Bound, Cls, Mod, Builtin, Exc)):
            return TRUE
        if x is None or isinstance(x, (bool, int, float, tuple, bytes)):
            return TRUE if x else FALSE
        if hasattr(x, "__class__"):
            return TRUE
        raise Undecided("truth of %r" % (x,))

    def throw(self, name, arg=None):
        self.exc.append((self.g, Exc(name, arg)))
        self.g = FALSE
        return None

    # ---- heap
    def new(self, kind, content):
        r = Ref(kind)
        self.heap[r] = content
        return r

    def put(self, r, content):
        self.heap[r] = self.merge(self.g, content, self.heap[r])

    def get(self, r):
        return self.heap[r]

    # ---- modules
    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        m = Mod(name)
        self.mods[name] = m
        src, path = self.w.module_source(name)
        if src is None:
            m.env = None
            return m
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            tree = ast.parse(src, path)
        m.env = {"__file__": path, "__name__": name}
        self.run_body(tree.body, m)
        return m

    def run_body(self, body, m):
        g0, exc0 = self.g, self.exc
        self.g, self.exc = TRUE, []
        f = Frame(m.env, m.env, m)
        self.frames.append(f)
        self.block(body, f)
        self.frames.pop()
        self.g, self.exc = g0, exc0

    def call_named(self, mod, fn, *args):
        return self.call(self.load(mod).env[fn], list(args), {})

    # ---- statements
    def block(self, body, f):
        for s in body:
            if self.g is FALSE:
                return
            self.steps += 1
            if self.steps > self.budget:
                raise Undecided("statement budget")
            self.where.append((f.mod.name if f.mod else "?", getattr(s, "lineno", 0)))
            try:
                m = getattr(self, "s_" + type(s).__name__, None)
                if m is None:
                    raise Undecided("statement %s" % type(s).__name__)
                m(s, f)
            finally:
                self.where.pop()

    def s_Pass(self, s, f):
        pass

    def s_Expr(self, s, f):
        self.eval(s.value, f)

    def s_Import(self, s, f):
        for a in s.names:
            top = a.name.split(".")[0]
            v = self.module_value(a.name)
            if v is None:
                self.throw("ModuleNotFoundError", a.name)
                return
            self.setvar(f, a.asname or top, v)

    def module_value(self, name):
        if self.w.is_builtin(name):
            return Builtin(name)
        if self.w.module_source(name)[0] is not None:
            return self.load(name)
        return None

    def s_ImportFrom(self, s, f):
        base = s.module or ""
        if s.level:
            parts = f.mod.name.split(".")
            if not f.mod.env["__file__"].endswith("__init__.py"):
                parts = parts[:-1]
            parts = parts[:len(parts) - (s.level - 1)]
            base = ".".join(parts + ([base] if base else []))
        if self.w.is_builtin(base):
            for a in s.names:
                self.setvar(f, a.asname or a.name, Builtin(base + "." + a.name))
            return
        m = self.load(base)
        if m.env is None:
            raise Undecided("import of %s" % base)
        for a in s.names:
            if a.name == "*":
                for k, v in list(m.env.items()):
                    if not k.startswith("_"):
                        self.setvar(f, k, v)
            elif a.name in m.env:
                self.setvar(f, a.asname or a.name, m.env[a.name])
            elif self.w.module_source(base + "." + a.name)[0] is not None:
                self.setvar(f, a.asname or a.name, self.load(base + "." + a.name))
            else:
                self.throw("ImportError", a.name)

    def s_FunctionDef(self, s, f):
        fn = Func(s, f, f.mod, s.name)
        fn.defaults = [self.eval(d, f) for d in s.args.defaults]
        fn.kwdefaults = [self.eval(d, f) if d is not None else None for d in s.args.kw_defaults]
        fn.deco = [ast.unparse(d) for d in s.decorator_list]
        self.setvar(f, s.name, fn)

    def s_ClassDef(self, s, f):
        c = Cls(s.name, f.mod)
        c.bases = [self.eval(b, f) for b in s.bases]
        fr = Frame(c.attrs, f.glob, f.mod)
        fr.outer = f
        self.block(s.body, fr)
        for k, v in c.attrs.items():
            if isinstance(v, Func):
                v.env, v.cls = f, c
        if any(isinstance(b, Cls) and b.attrs.get("__exc__") or isinstance(b, Builtin) and b.name in EXC for b in c.bases):
            EXC.setdefault(s.name, "Exception")
        self.setvar(f, s.name, c)

    def s_Return(self, s, f):
        v = self.eval(s.value, f) if s.value is not None else None
        f.ret.append((self.g, v))
        self.g = FALSE

    def s_Global(self, s, f):
        f.globals |= set(s.names)

    def s_Assign(self, s, f):
        v = self.eval(s.value, f)
        for t in s.targets:
            self.assign(t, v, f)

    def s_AnnAssign(self, s, f):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, f), f)

    def s_AugAssign(self, s, f):
        t = s.target
        load = ast.copy_location(ast.Name(t.id, ast.Load()), t) if isinstance(t, ast.Name) else \
            ast.copy_location(ast.Attribute(t.value, t.attr, ast.Load()), t) if isinstance(t, ast.Attribute) else \
            ast.copy_location(ast.Subscript(t.value, t.slice, ast.Load()), t)
        old = self.eval(load, f)
        new = self.eval(s.value, f)

        def op(a, b):
            if isinstance(a, Ref) and a.kind == "list" and isinstance(s.op, ast.Add):
                self.method(a, "extend", [b], {})
                return a
            return self.binop(s.op, a, b)
        self.assign(t, self.lift(op, old, new), f)

    def s_If(self, s, f):
        c = self.truth(self.eval(s.test, f))
        g = self.g
        a, b = AND(g, c), AND(g, NOT(c))
        self.g = a
        self.block(s.body, f)
        ga = self.g
        self.g = b
        self.block(s.orelse, f)
        self.g = OR(ga, self.g)

    def s_While(self, s, f):
        b0, c0 = f.brk, f.cont
        f.brk = FALSE
        n = 0
        out = FALSE
        while True:
            f.cont = FALSE
            c = self.truth(self.eval(s.test, f))
            out = OR(out, AND(self.g, NOT(c)))
            self.g = AND(self.g, c)
            if self.g is FALSE:
                break
            self.block(s.body, f)
            self.g = OR(self.g, f.cont)
            n += 1
            if n > 300:
                raise Undecided("loop")
        self.g = out
        self.block(s.orelse, f)
        self.g = OR(self.g, f.brk)
        f.brk, f.cont = b0, c0

    def s_For(self, s, f):
        it = self.eval(s.iter, f)
        b0, c0 = f.brk, f.cont
        f.brk = FALSE
        done = FALSE
        i = 0
        while self.g is not FALSE:
            cs, end = [], FALSE
            for c, x in self.items(it, i):
                if x is self.END:
                    end = OR(end, c)
                else:
                    cs.append((c, x[0]))
            done = OR(done, end)
            self.g = AND(self.g, NOT(end))
            if self.g is FALSE:
                break
            f.cont = FALSE
            self.assign(s.target, self.union(cs), f)
            self.block(s.body, f)
            self.g = OR(self.g, f.cont)
            i += 1
            if i > 2000:
                raise Undecided("loop")
        self.g = done
        self.block(s.orelse, f)
        self.g = OR(self.g, f.brk)
        f.brk, f.cont = b0, c0

    END = object()

    def items(self, it, i):
        """cases of the i-th item: (guard, (value,)) or (guard, END)"""
        out = []
        for c, x in self.cases(it):
            if isinstance(x, Ref) and x.kind in ("list", "set", "dict"):
                for d, t in self.cases(self.heap[x], c):
                    seq = list(t) if x.kind != "dict" else [k for k, _ in t]
                    out.append((d, (seq[i],) if i < len(seq) else self.END))
            elif isinstance(x, (tuple, range)) or (isinstance(x, str) and not unknown(x)):
                out.append((c, (x[i],) if i < len(x) else self.END))
            elif isinstance(x, Ref) and x.kind == "file":
                for d, t in self.cases(self.w.read(self, x), c):
                    ls = t.splitlines(True)
                    out.append((d, (ls[i],) if i < len(ls) else self.END))
            else:
                raise Undecided("iteration over %s" % show(x))
        return out

    def tolist(self, it):
        """union of tuples"""
        def one(x):
            if isinstance(x, Ref) and x.kind in ("list", "set"):
                return self.heap[x]
            if isinstance(x, Ref) and x.kind == "dict":
                return self.lift(lambda t: tuple(k for k, _ in t), self.heap[x])
            if isinstance(x, (tuple, range)):
                return tuple(x)
            if isinstance(x, str) and not unknown(x):
                return tuple(x)
            if isinstance(x, Ref) and x.kind == "file":
                return self.lift(lambda t: tuple(t.splitlines(True)), self.w.read(self, x))
            if x is None or isinstance(x, (bool, int, float)):
                self.throw("TypeError", "not a sequence")
                return ()
            raise Undecided("sequence %s" % show(x))
        return self.lift(one, it)

    def s_Break(self, s, f):
        f.brk = OR(f.brk, self.g)
        self.g = FALSE

    def s_Continue(self, s, f):
        f.cont = OR(f.cont, self.g)
        self.g = FALSE

    def s_Assert(self, s, f):
        c = self.truth(self.eval(s.test, f))
        g = self.g
        self.g = AND(g, NOT(c))
        if self.g is not FALSE:
            self.throw("AssertionError")
        self.g = AND(g, c)

    def s_Raise(self, s, f):
        if s.exc is None:
            return self.throw("Exception")
        v = self.eval(s.exc, f)
        n = v.name if isinstance(v, (Exc, Builtin, Cls)) else "Exception"
        self.throw(n)

    def s_Try(self, s, f):
        exc0, self.exc = self.exc, []
        self.block(s.body, f)
        ok = self.g
        self.g = ok
        self_exc_else = None
        mine, self.exc = self.exc, []
        if s.orelse:
            self.block(s.orelse, f)
            ok = self.g
        later = self.exc
        self.exc = []
        for h in s.handlers:
            names = ["BaseException"] if h.type is None else \
                [ast.unparse(x).split(".")[-1] for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
            hit = [(g, e) for g, e in mine if any(exc_is(e.name, n) for n in names)]
            mine = [(g, e) for g, e in mine if not any(exc_is(e.name, n) for n in names)]
            if hit:
                self.g = OR(*[g for g, e in hit])
                if h.name:
                    self.setvar(f, h.name, self.union([(g, e) for g, e in hit]))
                self.block(h.body, f)
                ok = OR(ok, self.g)
        rest = mine + later + self.exc
        self.g = ok
        self.exc = []
        if s.finalbody:
            self.g = OR(ok, *[g for g, e in rest])
            rets = [g for g, v in f.ret]
            self.block(s.finalbody, f)
            self.g = AND(self.g, ok)
        self.exc = exc0 + rest + self.exc

    def s_With(self, s, f):
        for i in s.items:
            v = self.eval(i.context_expr, f)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, f)
        self.block(s.body, f)

    def s_Delete(self, s, f):
        for t in s.targets:
            if isinstance(t, ast.Attribute):
                self.event("delete", self.eval(t, f))

    # ---- variables
    def setvar(self, f, name, v):
        env = f.glob if name in f.globals else f.env
        if name in env:
            env[name] = self.merge(self.g, v, env[name])
        else:
            env[name] = v

    def getvar(self, f, name):
        fr = f
        while fr is not None:
            if name in fr.env:
                return fr.env[name]
            fr = getattr(fr, "outer", None)
        if name in f.glob:
            return f.glob[name]
        if name in EXC or name in self.BUILTINS:
            return Builtin(name)
        return self.w.name(self, name)

    BUILTINS = {"len", "str", "int", "bool", "isinstance", "print", "open", "range", "enumerate", "zip", "any", "all", "sorted", "list",
                "tuple", "set", "dict", "getattr", "hasattr", "setattr", "repr", "float", "bytes", "max", "min", "map", "filter",
                "reversed", "type", "sum", "super", "object", "vars", "iter", "next", "frozenset", "__import__", "abs"}

    def assign(self, t, v, f):
        if self.g is FALSE:
            return
        if isinstance(t, ast.Name):
            self.setvar(f, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.tolist(v)
            if self.g is FALSE:
                return
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    raise Undecided("starred target")
                self.assign(e, self.lift(lambda x: x[i], vals), f)
        elif isinstance(t, ast.Attribute):
            for c, o in self.cases(self.eval(t.value, f)):
                g = self.g
                self.g = AND(g, c)
                self.setattr(o, t.attr, v)
                self.g = g
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, f)
            k = self.eval(t.slice, f)

            def st(o, k):
                if isinstance(o, Ref) and o.kind == "dict":
                    def upd(tup):
                        d = [(a, b) for a, b in tup if not same(a, k)]
                        return tuple(d + [(k, v)]) if len(d) == len(tup) else tuple((a, v if same(a, k) else b) for a, b in tup)
                    self.put(o, self.lift(upd, self.heap[o]))
                elif isinstance(o, Ref) and o.kind == "list" and isinstance(k, int):
                    def upl(tup):
                        tup = list(tup)
                        tup[k] = v
                        return tuple(tup)
                    self.put(o, self.lift(upl, self.heap[o]))
                else:
                    raise Undecided("item assignment")
            self.lift(st, o, k)
        else:
            raise Undecided("assignment target %s" % type(t).__name__)

    def setattr(self, o, name, v):
        if isinstance(o, Ref) and o.kind == "obj":
            d = dict(self.heap[o])
            d[name] = self.merge(self.g, v, d.get(name)) if name in d else v
            self.heap[o] = d
        elif isinstance(o, Cls):
            o.attrs[name] = self.merge(self.g, v, o.attrs.get(name))
        elif isinstance(o, Mod):
            o.env[name] = self.merge(self.g, v, o.env.get(name))
        elif isinstance(o, Builtin):
            self.w.setattr(self, o, name, v)
        else:
            raise Undecided("attribute of %s" % show(o))

    # ---- expressions
    def eval(self, e, f):
        self.steps += 1
        if self.steps > self.budget:
            raise Undecided("budget")
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Undecided("expression %s" % type(e).__name__)
        return m(e, f)

    def e_Constant(self, e, f):
        return e.value

    def e_Name(self, e, f):
        return self.getvar(f, e.id)

    def e_Tuple(self, e, f):
        return self.seq(e.elts, f)

    def e_List(self, e, f):
        return self.new("list", self.seq(e.elts, f))

    def e_Set(self, e, f):
        return self.new("set", self.seq(e.elts, f))

    def seq(self, elts, f):
        out = ()
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.tolist(self.eval(x.value, f))
                out = self.lift(lambda a, b: a + b, out, v)
            else:
                v = self.eval(x, f)
                out = self.lift(lambda a, b: a + (b,), out, v)
        return out

    def e_Dict(self, e, f):
        out = ()
        for k, v in zip(e.keys, e.values):
            if k is None:
                out = self.lift(lambda a, b: a + b, out, self.lift(lambda r: self.heap[r], self.eval(v, f)))
            else:
                out = self.lift(lambda a, x, y: a + ((x, y),), out, self.eval(k, f), self.eval(v, f))
        return self.new("dict", out)

    def e_JoinedStr(self, e, f):
        r = ""
        for x in e.values:
            v = x.value if isinstance(x, ast.Constant) else self.eval(x, f)
            r = self.lift(lambda a, b: self.plus(a, b), r, v)
        return r

    def plus(self, a, b):
        return self.tostr(a) + self.tostr(b)

    def e_FormattedValue(self, e, f):
        v = self.eval(e.value, f)
        spec = self.eval(e.format_spec, f) if e.format_spec else ""

        def fm(x, s):
            if isinstance(x, Sym):
                return text("format(%r,%s)" % (x, s))
            if s and not isinstance(x, (Ref, Sym)):
                return format(x, s)
            return self.tostr(x)
        return self.lift(fm, v, spec)

    def tostr(self, x):
        if isinstance(x, U):
            raise Undecided("text of a union")
        if isinstance(x, str):
            return x
        if isinstance(x, Sym):
            return text("str(%r)" % x)
        if isinstance(x, (int, float, bool)) or x is None:
            return str(x)
        if isinstance(x, BDD):
            return text("bool")
        if isinstance(x, Builtin):
            return getattr(self.w, "texts", {}).get(x.name) or text(x.name)
        if isinstance(x, Exc):
            return text("exception " + x.name)
        if isinstance(x, (Ref, tuple)):
            r = self.torepr(x)
            return r if isinstance(r, str) else text("object")
        return str(x)

    def torepr(self, x):
        if isinstance(x, str):
            if not unknown(x):
                return repr(x)
            return "'" + "".join(c if unknown(c) else repr(c)[1:-1] for c in x) + "'"
        seq = lambda *ys: ", ".join(y if isinstance(y, str) else text("object") for y in ys)
        if isinstance(x, tuple):
            return self.lift(lambda *ys: "(" + seq(*ys) + (",)" if len(ys) == 1 else ")"), *[self.lift(self.torepr, y) for y in x])
        if isinstance(x, Ref) and x.kind == "list":
            return self.lift(lambda t: self.lift(lambda *ys: "[" + seq(*ys) + "]", *[self.lift(self.torepr, y) for y in t]) if t else "[]",
                             self.heap[x])
        if isinstance(x, Ref) and x.kind == "dict":
            return self.lift(lambda t: self.lift(lambda *ys: "{" + ", ".join("%s: %s" % p for p in zip(ys[::2], ys[1::2])) + "}",
                                                 *[self.lift(self.torepr, y) for kv in t for y in kv]) if t else "{}", self.heap[x])
        if isinstance(x, Ref):
            return text("object %d" % x.id)
        return self.tostr(x)

    def e_BinOp(self, e, f):
        a = self.eval(e.left, f)
        b = self.eval(e.right, f)
        return self.lift(lambda x, y: self.binop(e.op, x, y), a, b)

    def binop(self, op, x, y):
        if isinstance(op, ast.Mod) and isinstance(x, str):
            args = y if isinstance(y, tuple) else (y,)
            if any(isinstance(a, U) for a in args):
                return self.lift(lambda *z: self.binop(op, x, z), *args)
            return x % tuple(self.tostr(a) if isinstance(a, (Sym, Ref, Builtin)) else a for a in args)
        if isinstance(x, Ref) and x.kind == "list" and isinstance(y, Ref) and y.kind == "list" and isinstance(op, ast.Add):
            return self.new("list", self.lift(lambda a, b: a + b, self.heap[x], self.heap[y]))
        if isinstance(x, Ref) and x.kind == "set" and isinstance(y, Ref) and y.kind == "set" and isinstance(op, ast.BitOr):
            return self.new("set", self.lift(lambda a, b: a + tuple(z for z in b if not any(same(z, w) for w in a)), self.heap[x], self.heap[y]))
        if isinstance(x, Ref) and x.kind == "list" and isinstance(op, ast.Mult):
            return self.new("list", self.lift(lambda a: a * y, self.heap[x]))
        if isinstance(op, (ast.BitAnd, ast.BitOr)) and isinstance(x, (BDD, bool)) and isinstance(y, (BDD, bool)):
            a, b = self.tobdd(x), self.tobdd(y)
            return AND(a, b) if isinstance(op, ast.BitAnd) else OR(a, b)
        if isinstance(op, ast.Div) and isinstance(x, Sym) and x.op == "path" or isinstance(op, ast.Div) and isinstance(x, Path):
            return Path(osp.join(str(x.p), y.p if isinstance(y, Path) else y))
        if isinstance(x, Sym) or isinstance(y, Sym):
            if isinstance(op, ast.Add) and isinstance(x, str) and isinstance(y, str):
                return x + y
            return Sym(type(op).__name__, x, y)
        try:
            if isinstance(op, ast.Add):
                return x + y
            if isinstance(op, ast.Sub):
                return x - y
            if isinstance(op, ast.Mult):
                return x * y
            if isinstance(op, ast.FloorDiv):
                return x // y
            if isinstance(op, ast.Div):
                return x / y
            if isinstance(op, ast.Mod):
                return x % y
            if isinstance(op, ast.Pow):
                return x ** y
            if isinstance(op, ast.BitAnd):
                return x & y
            if isinstance(op, ast.BitOr):
                return x | y
            if isinstance(op, ast.LShift):
                return x << y
            if isinstance(op, ast.RShift):
                return x >> y
        except TypeError:
            self.throw("TypeError")
            return None
        raise Undecided("operator")

    def e_UnaryOp(self, e, f):
        v = self.eval(e.operand, f)
        if isinstance(e.op, ast.Not):
            r = NOT(self.truth(v))
            return r
        return self.lift(lambda x: Sym("neg", x) if isinstance(x, Sym) else -x if isinstance(e.op, ast.USub) else +x, v)

    def e_BoolOp(self, e, f):
        """value of and/or: joins of the operands"""
        g0 = self.g
        out, dead = [], g0
        isand = isinstance(e.op, ast.And)
        raised = FALSE
        for i, x in enumerate(e.values):
            before = self.g
            v = self.eval(x, f)
            if i == len(e.values) - 1:
                out.append((self.g, v))
                last = self.g
                break
            t = self.truth(v)
            stop = AND(self.g, NOT(t) if isand else t)
            out.append((stop, v))
            self.g = AND(self.g, NOT(stop))
            if self.g is FALSE:
                last = FALSE
                break
        self.g = OR(*[c for c, _ in out])
        return self.union(out)

    def e_IfExp(self, e, f):
        c = self.truth(self.eval(e.test, f))
        g = self.g
        out = []
        self.g = AND(g, c)
        if self.g is not FALSE:
            v = self.eval(e.body, f)
            out.append((self.g, v))
        self.g = AND(g, NOT(c))
        if self.g is not FALSE:
            v = self.eval(e.orelse, f)
            out.append((self.g, v))
        self.g = OR(*[c for c, _ in out])
        return self.union(out)

    def e_NamedExpr(self, e, f):
        v = self.eval(e.value, f)
        self.assign(e.target, v, f)
        return v

    def e_Lambda(self, e, f):
        fn = Func(e, f, f.mod, "<lambda>")
        fn.defaults = [self.eval(d, f) for d in e.args.defaults]
        fn.kwdefaults, fn.deco = [], []
        return fn

    def comp(self, gens, f, emit):
        def rec(k, fr):
            if k == len(gens):
                emit(fr)
                return
            gen = gens[k]
            it = self.eval(gen.iter, fr)
            i = 0
            g0 = self.g
            end_all = FALSE
            while True:
                cs, end = [], FALSE
                for c, x in self.items(it, i):
                    if x is self.END:
                        end = OR(end, c)
                    else:
                        cs.append((c, x[0]))
                end_all = OR(end_all, end)
                self.g = AND(self.g, NOT(end))
                if self.g is FALSE:
                    break
                self.assign(gen.target, self.union(cs), fr)
                body = self.g
                c = TRUE
                for t in gen.ifs:
                    ct = self.truth(self.eval(t, fr))
                    self.g = AND(self.g, ct)
                if self.g is not FALSE:
                    inner = self.g
                    rec(k + 1, fr)
                    self.g = AND(body, OR(self.g, NOT(inner)))
                else:
                    self.g = body
                i += 1
            self.g = end_all
        fr = Frame({}, f.glob, f.mod)
        fr.outer = f
        rec(0, fr)

    def e_ListComp(self, e, f):
        r = self.new("list", ())

        def emit(fr):
            v = self.eval(e.elt, fr)
            self.put(r, self.lift(lambda t: t + (v,), self.heap[r]))
        self.comp(e.generators, f, emit)
        return r

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, f):
        r = self.new("set", ())

        def emit(fr):
            v = self.eval(e.elt, fr)
            self.method(r, "add", [v], {})
        self.comp(e.generators, f, emit)
        return r

    def e_DictComp(self, e, f):
        r = self.new("dict", ())

        def emit(fr):
            k, v = self.eval(e.key, fr), self.eval(e.value, fr)
            self.put(r, self.lift(lambda t: t + ((k, v),), self.heap[r]))
        self.comp(e.generators, f, emit)
        return r

    def e_Compare(self, e, f):
        left = self.eval(e.left, f)
        res = TRUE
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, f)
            res = AND(res, self.truth(self.lift(lambda a, b: self.compare(op, a, b), left, right)))
            left = right
        return True if res is TRUE else False if res is FALSE else res

    def equal(self, a, b):
        if isinstance(a, Path):
            a = a.p
        if isinstance(b, Path):
            b = b.p
        if isinstance(a, Sym) or isinstance(b, Sym):
            if same(a, b):
                return TRUE
            if self.w.distinct(a, b):
                return FALSE
            x, y = sorted([repr(a) if isinstance(a, Sym) else show(a), repr(b) if isinstance(b, Sym) else show(b)])
            return atom("%s == %s" % (x, y))
        if isinstance(a, (BDD, bool)) and isinstance(b, (BDD, bool)):
            x, y = self.tobdd(a), self.tobdd(b)
            return ite(x, y, NOT(y))
        if isinstance(a, str) and isinstance(b, str):
            if a == b:
                return TRUE
            if not unknown(a) and not unknown(b):
                return FALSE
            # common literal prefix / suffix differ?
            for s, t in ((a, b), (a[::-1], b[::-1])):
                for c, d in zip(s, t):
                    if unknown(c) or unknown(d):
                        break
                    if c != d:
                        return FALSE
            if a == "" or b == "":
                o = a or b
                if any(not unknown(c) for c in o):
                    return FALSE
                return atom("empty(%s)" % show(o))
            x, y = sorted([show(a), show(b)])
            return atom("%s == %s" % (x, y))
        if isinstance(a, Ref) and isinstance(b, Ref) and a.kind == b.kind and a.kind in ("list", "set"):
            def eqs(s, t):
                if len(s) != len(t):
                    return False
                r = TRUE
                for p, q in zip(s, t):
                    r = AND(r, self.truth(self.lift(self.equal, p, q)))
                return r
            return self.truth(self.lift(eqs, self.heap[a], self.heap[b]))
        if isinstance(a, (Ref, Cls, Mod, Func)) or isinstance(b, (Ref, Cls, Mod, Func)):
            return TRUE if a is b else FALSE
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return FALSE
            r = TRUE
            for p, q in zip(a, b):
                r = AND(r, self.truth(self.lift(self.equal, p, q)))
            return r
        return TRUE if a == b else FALSE

    def compare(self, op, a, b):
        if isinstance(op, ast.Eq):
            return self.equal(a, b)
        if isinstance(op, ast.NotEq):
            return NOT(self.equal(a, b))
        if isinstance(op, ast.Is):
            return self.equal(a, b) if not isinstance(a, (str, int)) or a is None or b is None else self.equal(a, b)
        if isinstance(op, ast.IsNot):
            return NOT(self.equal(a, b))
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(a, b)
            return r if isinstance(op, ast.In) else NOT(r)
        x, y = (b, a) if isinstance(op, (ast.Gt, ast.LtE)) else (a, b)
        neg = isinstance(op, (ast.GtE, ast.LtE))
        r = self.less(x, y)
        return NOT(r) if neg else r

    def less(self, x, y):
        if isinstance(x, Sym) or isinstance(y, Sym):
            return self.w.less(self, x, y)
        if isinstance(x, Ref) or isinstance(y, Ref):
            raise Undecided("comparison")
        return TRUE if x < y else FALSE

    def contains(self, a, b):
        if isinstance(b, str):
            if not isinstance(a, str):
                raise Undecided("in")
            if a in b:
                return TRUE
            if not unknown(b) and not unknown(a):
                return FALSE
            if self.w.literal_free(a, b):
                return FALSE
            return atom("%s in %s" % (show(a), show(b)))
        if isinstance(b, Ref) and b.kind in ("list", "set", "dict") or isinstance(b, (tuple, range)):
            def one(t):
                if isinstance(b, Ref) and b.kind == "dict":
                    t = [k for k, _ in t]
                r = FALSE
                for x in t:
                    r = OR(r, self.truth(self.lift(self.equal, a, x)))
                return r
            return self.truth(self.lift(one, self.heap[b] if isinstance(b, Ref) else tuple(b)))
        if isinstance(b, Builtin):
            return self.w.contains(self, a, b)
        raise Undecided("in %s" % show(b))

    def e_Subscript(self, e, f):
        o = self.eval(e.value, f)
        if isinstance(e.slice, ast.Slice):
            lo = self.eval(e.slice.lower, f) if e.slice.lower else None
            hi = self.eval(e.slice.upper, f) if e.slice.upper else None
            st = self.eval(e.slice.step, f) if e.slice.step else None

            def sl(o, lo, hi, st):
                if isinstance(o, (str, tuple)):
                    return o[lo:hi:st]
                if isinstance(o, Ref) and o.kind == "list":
                    return self.new("list", self.lift(lambda t: t[lo:hi:st], self.heap[o]))
                raise Undecided("slice of %s" % show(o))
            return self.lift(sl, o, lo, hi, st)
        k = self.eval(e.slice, f)

        def ix(o, k):
            if isinstance(o, (str, tuple, range)):
                try:
                    return o[k]
                except IndexError:
                    return self.throw("IndexError")
            if isinstance(o, Ref) and o.kind == "list":
                def at(t):
                    try:
                        return t[k]
                    except IndexError:
                        return self.throw("IndexError")
                return self.lift(at, self.heap[o])
            if isinstance(o, Ref) and o.kind == "dict":
                def lk(t):
                    for a, b in t:
                        if same(a, k):
                            return b
                    return self.throw("KeyError")
                return self.lift(lk, self.heap[o])
            if isinstance(o, Re):
                return o.group(k)
            return self.w.item(self, o, k)
        return self.lift(ix, o, k)

    def e_Attribute(self, e, f):
        o = self.eval(e.value, f)
        return self.lift(lambda x: self.getattr(x, e.attr), o)

    def getattr(self, x, name):
        if isinstance(x, Mod):
            if x.env is not None and name in x.env:
                return x.env[name]
            v = self.module_value(x.name + "." + name)
            if v is not None:
                return v
            return self.throw("AttributeError", name)
        if isinstance(x, Ref) and x.kind == "obj":
            d = self.heap[x]
            if name in d:
                return d[name]
            c = d["__class__"]
            v = self.clsattr(c, name)
            if v is None:
                return self.throw("AttributeError", name)
            v = v[0]
            if isinstance(v, Func):
                if "staticmethod" in v.deco:
                    return v
                if "property" in v.deco:
                    return self.call(v, [x], {})
                return Bound(v, c if "classmethod" in v.deco else x)
            return v
        if isinstance(x, Cls):
            v = self.clsattr(x, name)
            if v is None:
                if name == "__name__":
                    return x.name
                return self.throw("AttributeError", name)
            v = v[0]
            if isinstance(v, Func) and "classmethod" in v.deco:
                return Bound(v, x)
            return v
        if isinstance(x, Builtin):
            return self.w.attr(self, x, name)
        if isinstance(x, (str, Ref, tuple, bytes, Sym, Re, Path)) or isinstance(x, Exc):
            if isinstance(x, Path):
                r = x.attr(name)
                if r is not None:
                    return r
            if isinstance(x, Sym):
                r = self.w.symattr(self, x, name)
                if r is not None:
                    return r
            return ("method", x, name) if False else Method(x, name)
        return self.w.attr(self, x, name)

    def clsattr(self, c, name):
        if name in c.attrs:
            return (c.attrs[name],)
        for b in c.bases:
            if isinstance(b, Cls):
                r = self.clsattr(b, name)
                if r:
                    return r
        return None

    def e_Call(self, e, f):
        fn = self.eval(e.func, f)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                t = self.tolist(self.eval(a.value, f))
                if isinstance(t, U):
                    raise Undecided("starred argument")
                args += list(t)
            else:
                args.append(self.eval(a, f))
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, f)
                for a, b in self.heap[d]:
                    kw[a] = b
            else:
                kw[k.arg] = self.eval(k.value, f)
        if self.g is FALSE:
            return None
        return self.lift(lambda fx: self.call(fx, args, kw, f), fn)

    def call(self, fn, args, kw, f=None):
        if isinstance(fn, Bound):
            return self.call(fn.fn, [fn.me] + args, kw, f)
        if isinstance(fn, Method):
            return self.method(fn.me, fn.name, args, kw)
        if isinstance(fn, Func):
            return self.callf(fn, args, kw)
        if isinstance(fn, Cls):
            o = self.new("obj", {"__class__": fn})
            init = self.clsattr(fn, "__init__")
            if init:
                self.call(init[0], [o] + args, kw)
            elif args:
                fields = list(fn.attrs)
                for k, v in zip(fields, args):
                    self.setattr(o, k, v)
            return o
        if isinstance(fn, Builtin):
            if fn.name in EXC:
                return Exc(fn.name, args[0] if args else None)
            return self.builtin(fn.name, args, kw, f)
        raise Undecided("call of %s" % show(fn))

    def callf(self, fn, args, kw):
        if len(self.frames) > 60:
            raise Undecided("recursion")
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        fr = Frame(env, fn.mod.env, fn.mod)
        fr.outer = fn.env if isinstance(fn.env, Frame) and fn.env.env is not fn.mod.env else None
        for i, n in enumerate(names):
            if i < len(args):
                env[n] = args[i]
            elif n in kw:
                env[n] = kw[n]
            else:
                j = i - (len(names) - len(fn.defaults))
                if j < 0:
                    return self.throw("TypeError", "missing argument")
                env[n] = fn.defaults[j]
        if a.vararg:
            env[a.vararg.arg] = tuple(args[len(names):])
        elif len(args) > len(names):
            return self.throw("TypeError", "too many arguments")
        for n, d in zip(a.kwonlyargs, fn.kwdefaults):
            env[n.arg] = kw.get(n.arg, d)
        if a.kwarg:
            env[a.kwarg.arg] = self.new("dict", tuple((k, v) for k, v in kw.items() if k not in names))
        self.analysed["%s.%s" % (fn.mod.name, fn.name)] = "%s:%d" % (fn.mod.env["__file__"], getattr(fn.node, "lineno", 0))
        self.frames.append(fr)
        if isinstance(fn.node, ast.Lambda):
            r = self.eval(fn.node.body, fr)
            self.frames.pop()
            return r
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(fn.node)):
            fr.yields = self.new("list", ())
            self.block(fn.node.body, fr)
            self.g = OR(self.g, *[c for c, _ in fr.ret])
            self.frames.pop()
            return fr.yields
        self.block(fn.node.body, fr)
        self.frames.pop()
        rets = fr.ret + ([(self.g, None)] if self.g is not FALSE else [])
        self.g = OR(*[c for c, _ in rets])
        return self.union(rets)

    def e_Yield(self, e, f):
        v = self.eval(e.value, f) if e.value is not None else None
        self.put(f.yields, self.lift(lambda t: t + (v,), self.heap[f.yields]))
        return None

    def e_YieldFrom(self, e, f):
        v = self.tolist(self.eval(e.value, f))
        self.put(f.yields, self.lift(lambda t, w: t + w, self.heap[f.yields], v))
        return None

    def e_Starred(self, e, f):
        raise Undecided("starred")

    def event(self, kind, *data):
        self.events.append((self.g, kind, data, self.where[-1] if self.where else None))

    # ---- builtins
    def builtin(self, name, args, kw, f):
        L = self.lift
        if name == "len":
            def ln(x):
                if isinstance(x, Ref):
                    return L(len, self.heap[x])
                if isinstance(x, Sym):
                    return Sym("len", x)
                if unknown(x):
                    raise Undecided("length of an unknown text")
                return len(x)
            return L(ln, args[0])
        if name == "str":
            return L(lambda x: self.torepr(x) if isinstance(x, (Ref, tuple)) else self.tostr(x), args[0]) if args else ""
        if name in ("repr", "ascii"):
            return L(self.torepr, args[0])
        if name == "int":
            def toint(x):
                if isinstance(x, Sym):
                    return Sym("int", x)
                if unknown(x):
                    return Sym("int", show(x))
                if isinstance(x, BDD):
                    return self.union([(AND(self.g, x), 1), (AND(self.g, NOT(x)), 0)])
                try:
                    return int(x)
                except ValueError:
                    return self.throw("ValueError")
            return L(toint, args[0])
        if name == "float":
            return L(lambda x: x if isinstance(x, Sym) else float(x), args[0])
        if name == "bool":
            return self.truth(args[0])
        if name == "isinstance":
            return L(self.isinst, args[0], args[1])
        if name == "type":
            return L(lambda x: self.heap[x]["__class__"] if isinstance(x, Ref) and x.kind == "obj" else Builtin(type(x).__name__), args[0])
        if name == "print":
            return None
        if name == "range":
            return L(lambda *a: range(*a), *args)
        if name == "enumerate":
            st = args[1] if len(args) > 1 else kw.get("start", 0)
            return self.new("list", L(lambda t, s: tuple((i + s, x) for i, x in enumerate(t)), self.tolist(args[0]), st))
        if name == "zip":
            return self.new("list", L(lambda *t: tuple(zip(*t)), *[self.tolist(a) for a in args]))
        if name == "reversed":
            return self.new("list", L(lambda t: t[::-1], self.tolist(args[0])))
        if name in ("any", "all"):
            r = FALSE if name == "any" else TRUE
            for c, t in self.cases(self.tolist(args[0])):
                q = FALSE if name == "any" else TRUE
                g = self.g
                self.g = c
                for x in t:
                    b = self.truth(x)
                    q = OR(q, b) if name == "any" else AND(q, b)
                self.g = g
                r = OR(r, AND(c, q)) if name == "any" else AND(r, OR(NOT(c), q))
            return r
        if name == "sum":
            return L(lambda t: sum(t), self.tolist(args[0]))
        if name in ("max", "min"):
            seqs = self.tolist(args[0]) if len(args) == 1 else tuple(args)

            def mm(t):
                if any(isinstance(x, Sym) for x in t):
                    return Sym(name, *sorted(t, key=repr))
                if not t and "default" in kw:
                    return kw["default"]
                return (max if name == "max" else min)(t)
            return L(mm, seqs)
        if name == "sorted":
            return self.new("list", L(lambda t: tuple(sorted(t, key=lambda x: (str(type(x)), x)) if "key" not in kw else t), self.tolist(args[0])))
        if name in ("list", "tuple", "set", "frozenset"):
            t = self.tolist(args[0]) if args else ()
            if name == "tuple":
                return t
            if name in ("set", "frozenset"):
                def uniq(t):
                    o = ()
                    for x in t:
                        if not any(same(x, y) for y in o):
                            o += (x,)
                    return o
                return self.new("set", L(uniq, t))
            return self.new("list", t)
        if name == "dict":
            return self.new("dict", tuple(kw.items()) if not args else self.heap[args[0]])
        if name == "getattr":
            def ga(o, n):
                ne = len(self.exc)
                g = self.g
                r = self.getattr(o, n)
                if self.g is FALSE and len(args) > 2:
                    del self.exc[ne:]
                    self.g = g
                    return args[2]
                return r
            return L(ga, args[0], args[1])
        if name == "hasattr":
            def ha(o, n):
                ne = len(self.exc)
                g = self.g
                self.getattr(o, n)
                r = self.g is not FALSE
                del self.exc[ne:]
                self.g = g
                return r
            return L(ha, args[0], args[1])
        if name == "setattr":
            return L(lambda o, n: self.setattr(o, n, args[2]), args[0], args[1])
        if name == "map":
            out = ()
            t = self.tolist(args[1])
            return self.new("list", L(lambda t: tuple(self.call(args[0], [x], {}) for x in t), t))
        if name == "filter":
            def flt(t):
                out = ()
                for x in t:
                    c = self.truth(x if args[0] is None else self.call(args[0], [x], {}))
                    out = self.merge(c, L(lambda o: o + (x,), out), out)
                return out
            return self.new("list", L(flt, self.tolist(args[1])))
        if name == "next":
            def nx(t):
                if t:
                    return t[0]
                if len(args) > 1:
                    return args[1]
                return self.throw("StopIteration")
            return L(nx, self.tolist(args[0]))
        if name == "iter":
            return args[0]
        if name == "open":
            return self.w.open(self, args, kw)
        if name == "abs":
            return L(lambda x: Sym("abs", x) if isinstance(x, Sym) else abs(x), args[0])
        return self.w.call(self, name, args, kw)

    def isinst(self, x, c):
        if isinstance(c, tuple):
            r = FALSE
            for k in c:
                r = OR(r, self.tobdd(self.isinst(x, k)))
            return r
        if isinstance(c, Cls):
            if isinstance(x, Ref) and x.kind == "obj":
                def sub(a):
                    return a is c or any(isinstance(b, Cls) and sub(b) for b in a.bases)
                return sub(self.heap[x]["__class__"])
            return False
        if isinstance(c, Builtin):
            n = c.name
            if isinstance(x, Sym):
                return self.w.symtype(self, x, n)
            if n == "str":
                return isinstance(x, str)
            if n == "bytes":
                return isinstance(x, bytes)
            if n == "bool":
                return isinstance(x, (bool, BDD))
            if n == "int":
                return isinstance(x, (bool, int, BDD))
            if n == "float":
                return isinstance(x, float)
            if n == "list":
                return isinstance(x, Ref) and x.kind == "list"
            if n == "tuple":
                return isinstance(x, tuple)
            if n == "dict":
                return isinstance(x, Ref) and x.kind == "dict"
        if isinstance(c, Ref) and c.kind in ("obj", "list", "dict") or isinstance(c, str) or c is None:
            return self.throw("TypeError", "isinstance")
        raise Undecided("isinstance %s" % show(c))

    # ---- methods of texts, lists, ...
    def method(self, o, name, args, kw):
        L = self.lift
        if isinstance(o, Sym):
            return L(lambda *a: self.w.symmethod(self, o, name, list(a), kw), *args)
        if isinstance(o, Path):
            return self.w.pathmethod(self, o, name, args, kw)
        if isinstance(o, str):
            return L(lambda *a: self.strmethod(o, name, list(a), kw), *args)
        if isinstance(o, Re):
            if name in ("start", "end", "group", "span", "groups"):
                return L(lambda *a: getattr(o, name)(*a), *args)
        if isinstance(o, bytes):
            return getattr(o, name)(*args)
        if isinstance(o, Ref) and o.kind == "file":
            return self.w.filemethod(self, o, name, args, kw)
        if isinstance(o, Ref) and o.kind == "list":
            H = lambda: self.heap[o]
            if name == "append":
                v = args[0]
                return self.put(o, L(lambda t: t + (v,), H()))
            if name == "extend":
                return self.put(o, L(lambda t, u: t + u, H(), self.tolist(args[0])))
            if name == "insert":
                return self.put(o, L(lambda t, i: t[:i] + (args[1],) + t[i:], H(), args[0]))
            if name == "copy":
                return self.new("list", H())
            if name == "clear":
                return self.put(o, ())
            if name == "pop":
                i = args[0] if args else -1

                def pp(t):
                    if not t:
                        return self.throw("IndexError")
                    return t[i]
                v = L(pp, H())
                self.put(o, L(lambda t: tuple(list(t)[:i] + (list(t)[i + 1:] if i != -1 else [])), H()))
                return v
            if name == "remove":
                def rm(t):
                    t = list(t)
                    for i, x in enumerate(t):
                        if same(x, args[0]):
                            del t[i]
                            return tuple(t)
                    self.throw("ValueError")
                    return tuple(t)
                return self.put(o, L(rm, H()))
            if name == "index":
                return L(lambda t: [same(x, args[0]) for x in t].index(True), H())
            if name == "count":
                return L(lambda t: sum(same(x, args[0]) for x in t), H())
            if name == "sort":
                return self.put(o, L(lambda t: tuple(sorted(t)), H()))
            if name == "reverse":
                return self.put(o, L(lambda t: t[::-1], H()))
        if isinstance(o, Ref) and o.kind == "set":
            if name == "add":
                v = args[0]

                def ad(t, v):
                    return t if any(same(x, v) for x in t) else t + (v,)
                return self.put(o, L(ad, self.heap[o], v))
            if name == "update":
                def upd(t):
                    for x in t:
                        self.method(o, "add", [x], {})
                return L(upd, self.tolist(args[0]))
            if name == "discard":
                return self.put(o, L(lambda t: tuple(x for x in t if not same(x, args[0])), self.heap[o]))
        if isinstance(o, Ref) and o.kind == "dict":
            H = self.heap[o]
            if name == "get":
                def lk(t, k):
                    for a, b in t:
                        if same(a, k):
                            return b
                    return args[1] if len(args) > 1 else None
                return L(lk, H, args[0])
            if name == "items":
                return self.new("list", L(lambda t: tuple(t), H))
            if name == "keys":
                return self.new("list", L(lambda t: tuple(k for k, _ in t), H))
            if name == "values":
                return self.new("list", L(lambda t: tuple(v for _, v in t), H))
            if name == "update":
                for k, v in self.heap[args[0]]:
                    self.put(o, L(lambda t: tuple((a, b) for a, b in t if not same(a, k)) + ((k, v),), self.heap[o]))
                return None
        if isinstance(o, Ref):
            return self.w.refmethod(self, o, name, args, kw)
        raise Undecided("method %s of %s" % (name, show(o)))

    def strmethod(self, o, name, a, kw):
        if name in ("encode", "decode"):
            return o
        if name == "format":
            return o.format(*[FormatArg(self.tostr(x)) if isinstance(x, (Sym, Ref, Builtin)) else x for x in a],
                            **{k: FormatArg(self.tostr(v)) if isinstance(v, (Sym, Ref, Builtin)) else v for k, v in kw.items()})
        if name == "join":
            t = self.tolist(a[0])
            return self.lift(lambda t: self.lift(lambda *xs: o.join(xs), *t) if t else "", t)
        if name in ("startswith", "endswith"):
            x = a[0]
            if isinstance(x, tuple):
                return OR(*[self.tobdd(self.strmethod(o, name, [y], kw)) for y in x])
            if getattr(o, name)(x):
                return True
            s, t = (o, x) if name == "startswith" else (o[::-1], x[::-1])
            for c, d in zip(s, t):
                if unknown(c) or unknown(d):
                    return atom("%s %s %s" % (show(o), name, show(x)))
                if c != d:
                    return False
            return False if not unknown(o) else atom("%s %s %s" % (show(o), name, show(x)))
        if name in ("lower", "upper", "strip", "lstrip", "rstrip", "replace", "split", "rsplit", "splitlines", "find", "rfind", "index",
                    "count", "title", "capitalize", "isdigit", "isalnum", "partition", "rpartition", "removeprefix", "removesuffix",
                    "isidentifier", "zfill", "ljust", "rjust", "translate", "isspace", "islower", "isupper", "casefold"):
            if name in ("lower", "upper", "title", "capitalize", "casefold") and unknown(o):
                o = "".join(text("%s(%s)" % (name, show(c))) if unknown(c) else c for c in o)
            if name == "replace" and unknown(o) and self.w.inside(a[0]):
                o = "".join(text("replace(%s,%s,%s)" % (a[0], show(a[1]), show(c))) if unknown(c) else c for c in o)
            r = getattr(o, name)(*[x for x in a], **kw)
            if isinstance(r, list):
                return self.new("list", tuple(r))
            return r
        raise Undecided("str.%s" % name)


class FormatArg:
    """unknown value in a format call: the text keeps the format"""
    def __init__(self, s):
        self.s = s

    def __format__(self, spec):
        return self.s if spec == "" else text("format(%s, %s)" % (show(self.s), spec))

    def __str__(self):
        return self.s


class Method:
    def __init__(self, me, name):
        self.me, self.name = me, name


class Re:
    """match object on a text"""
    def __init__(self, m):
        self.m = m

    def start(self, *a):
        return self.m.start(*a)

    def end(self, *a):
        return self.m.end(*a)

    def span(self, *a):
        return self.m.span(*a)

    def group(self, *a):
        return self.m.group(*a)

    def groups(self, *a):
        return self.m.groups(*a)


class Path:
    """pathlib path"""
    def __init__(self, p):
        self.p = p

    def attr(self, n):
        if n == "parent":
            return Path(osp.dirname(self.p))
        if n == "name":
            return osp.basename(self.p)
        if n == "suffix":
            return osp.splitext(self.p)[1]
        if n == "stem":
            return osp.splitext(osp.basename(self.p))[0]
        return None
