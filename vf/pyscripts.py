"""P35: the shipped programs (scripts, notebooks, C++ drivers) denote valid instances of the library.

Constant propagation over the syntax tree of each script (loops over constant ranges unrolled, calls between the script's functions
followed, everything else unknown) yields the configurations it hands to HyperHDG.include and the calls it makes on the resulting
class; each configuration is turned into the module the just-in-time import would generate, translated by cython and type-checked by the
compiler, and each call is compared with the signatures of the binding.  Nothing of the repository is executed."""
import ast, concurrent.futures, configparser, glob, json, os, os.path as osp, re, shutil, subprocess, tempfile
HERE = osp.dirname(osp.abspath(__file__))
HAR = osp.join(osp.dirname(HERE), "harness")
BUDGET = 400000


class Top:
    def __repr__(self):
        return "?"


TOP = Top()


class Obj:
    """a config, a class made by include, or an object of such a class"""

    def __init__(self, kind, **k):
        self.kind = kind
        self.f = k


class Ret(Exception):
    pass


class Brk(Exception):
    pass


class Stop(Exception):
    pass


class Script:
    def __init__(self, repo, path, done=None):
        self.repo, self.path = repo, path
        self.rel = osp.relpath(path, repo)
        self.funcs, self.configs, self.calls, self.ctors, self.errors = {}, {}, {}, {}, []
        self.steps = 0
        self.depth = 0
        src = open(path).read()
        if path.endswith(".ipynb"):
            nb = json.loads(src)
            src = "\n".join("".join(c["source"]) for c in nb["cells"] if c["cell_type"] == "code")
            src = "\n".join(l for l in src.split("\n") if not l.lstrip().startswith(("%", "!")))
        self.tree = ast.parse(src)
        self.glob = {"__name__": "__main__", "__file__": path}
        self.active = set()

    def run(self):
        try:
            self.block(self.tree.body, self.glob)
        except (Stop, Ret, Brk):
            pass

    # ---- statements
    def block(self, body, env):
        for s in body:
            self.stmt(s, env)

    def stmt(self, s, env):
        self.steps += 1
        if self.steps > BUDGET:
            raise Stop()
        if isinstance(s, ast.FunctionDef):
            env[s.name] = ("func", s, self)
        elif isinstance(s, ast.ImportFrom):
            for a in s.names:
                env[a.asname or a.name] = self.imported(s.module, a.name)
        elif isinstance(s, ast.Import):
            for a in s.names:
                n = a.asname or a.name.split(".")[0]
                env[n] = Obj("HyperHDG") if a.name == "HyperHDG" else TOP
        elif isinstance(s, ast.Assign):
            v = self.ev(s.value, env)
            for t in s.targets:
                self.assign(t, v, env)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, env), env)
        elif isinstance(s, ast.AugAssign):
            v = self.binop(type(s.op), self.ev(s.target, env), self.ev(s.value, env))
            self.assign(s.target, v, env)
        elif isinstance(s, ast.Expr):
            self.ev(s.value, env)
        elif isinstance(s, ast.Return):
            self.ret = self.ev(s.value, env) if s.value is not None else None
            raise Ret()
        elif isinstance(s, (ast.Break, ast.Continue)):
            raise Brk()
        elif isinstance(s, ast.If):
            c = self.ev(s.test, env)
            if c is TOP:
                for b in (s.body, s.orelse):
                    e = dict(env)
                    try:
                        self.block(b, e)
                    except (Ret, Brk):
                        continue
                    for k in e:
                        if k not in env:
                            env[k] = e[k]
                        elif not (env[k] is e[k] or (type(env[k]) is type(e[k]) and env[k] == e[k])):
                            env[k] = TOP
            else:
                self.block(s.body if c else s.orelse, env)
        elif isinstance(s, ast.For):
            it = self.ev(s.iter, env)
            if isinstance(it, (list, tuple, range)) and len(it) <= 12:
                for v in it:
                    self.assign(s.target, v, env)
                    try:
                        self.block(s.body, env)
                    except Brk:
                        pass
            else:
                self.assign(s.target, TOP, env)
                self.havoc(s.body, env)
                try:
                    self.block(s.body, env)
                except Brk:
                    pass
        elif isinstance(s, ast.While):
            self.ev(s.test, env)
            self.havoc(s.body, env)
            try:
                self.block(s.body, env)
            except (Brk, Ret):
                pass
        elif isinstance(s, ast.Try):
            try:
                self.block(s.body, env)
            except Brk:
                pass
            self.block(s.orelse, env)
            self.block(s.finalbody, env)
        elif isinstance(s, ast.With):
            for i in s.items:
                self.ev(i.context_expr, env)
            self.block(s.body, env)

    def havoc(self, body, env):
        for n in ast.walk(ast.Module(body=body, type_ignores=[])):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                if not isinstance(env.get(n.id), Obj):
                    env[n.id] = TOP

    def imported(self, module, name):
        f = osp.join(osp.dirname(self.path), (module or "").replace(".", "/") + ".py")
        if osp.isfile(f) and f != self.path:
            other = Script(self.repo, f)
            for s in other.tree.body:
                if isinstance(s, ast.FunctionDef):
                    other.glob[s.name] = ("func", s, other)
            if name not in other.glob:
                self.errors.append("%s imports %s, which %s does not define" % (self.rel, name, osp.basename(f)))
            other.configs, other.calls, other.ctors, other.errors = self.configs, self.calls, self.ctors, self.errors
            return other.glob.get(name, TOP)
        return TOP

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            if isinstance(o, Obj) and o.kind == "config":
                o.f[t.attr] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                self.assign(x, v[i] if isinstance(v, (list, tuple)) and i < len(v) else TOP, env)

    # ---- expressions
    def binop(self, op, a, b):
        if a is TOP or b is TOP:
            return TOP
        try:
            return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.Div: lambda: a / b,
                    ast.FloorDiv: lambda: a // b, ast.Pow: lambda: a ** b, ast.Mod: lambda: a % b}[op]()
        except Exception:
            return TOP

    def ev(self, e, env):
        self.steps += 1
        if self.steps > BUDGET:
            raise Stop()
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, ast.Name):
            if e.id in env:
                return env[e.id]
            if e.id in self.glob:
                return self.glob[e.id]
            return TOP
        if isinstance(e, ast.Tuple):
            return tuple(self.ev(x, env) for x in e.elts)
        if isinstance(e, ast.List):
            return [self.ev(x, env) for x in e.elts]
        if isinstance(e, ast.BinOp):
            return self.binop(type(e.op), self.ev(e.left, env), self.ev(e.right, env))
        if isinstance(e, ast.UnaryOp):
            v = self.ev(e.operand, env)
            if v is TOP or isinstance(v, Obj):
                return TOP
            try:
                return -v if isinstance(e.op, ast.USub) else (not v) if isinstance(e.op, ast.Not) else v
            except Exception:
                return TOP
        if isinstance(e, ast.JoinedStr):
            r = ""
            for x in e.values:
                v = self.ev(x.value if isinstance(x, ast.FormattedValue) else x, env)
                if v is TOP or isinstance(v, Obj) or (isinstance(x, ast.FormattedValue) and (x.format_spec or x.conversion != -1)):
                    return TOP
                r += str(v)
            return r
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            a, b = self.ev(e.left, env), self.ev(e.comparators[0], env)
            if a is TOP or b is TOP:
                return TOP
            try:
                return {ast.Eq: lambda: a == b, ast.NotEq: lambda: a != b, ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b, ast.Gt: lambda: a > b,
                        ast.GtE: lambda: a >= b, ast.In: lambda: a in b, ast.NotIn: lambda: a not in b, ast.Is: lambda: a is b,
                        ast.IsNot: lambda: a is not b}[type(e.ops[0])]()
            except Exception:
                return TOP
        if isinstance(e, ast.Attribute):
            o = self.ev(e.value, env)
            if isinstance(o, Obj):
                if o.kind == "object":
                    self.note_call(o, e.attr, None, None)
                    return TOP
                if o.kind == "config":
                    return o.f.get(e.attr, TOP)
            return TOP
        if isinstance(e, ast.Subscript):
            a, i = self.ev(e.value, env), self.ev(e.slice, env)
            try:
                return a[i] if isinstance(a, (list, tuple, str)) and isinstance(i, int) else TOP
            except Exception:
                return TOP
        if isinstance(e, ast.Call):
            return self.call(e, env)
        if isinstance(e, ast.IfExp):
            c = self.ev(e.test, env)
            if c is TOP:
                self.ev(e.body, env), self.ev(e.orelse, env)
                return TOP
            return self.ev(e.body if c else e.orelse, env)
        if isinstance(e, ast.BoolOp):
            vs = [self.ev(x, env) for x in e.values]
            if any(v is TOP for v in vs):
                return TOP
            r = vs[0]
            for v in vs[1:]:
                r = (r and v) if isinstance(e.op, ast.And) else (r or v)
            return r
        if isinstance(e, ast.ListComp) and len(e.generators) == 1 and not e.generators[0].ifs:
            it = self.ev(e.generators[0].iter, env)
            if isinstance(it, (list, tuple, range)) and len(it) <= 64:
                loc, r = dict(env), []
                for v in it:
                    self.assign(e.generators[0].target, v, loc)
                    r.append(self.ev(e.elt, loc))
                return r
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.comprehension):
                self.ev(c.iter, env)
        return TOP

    def call(self, e, env):
        args = [self.ev(a, env) for a in e.args if not isinstance(a, ast.Starred)]
        star = len(args) != len(e.args) or any(k.arg is None for k in e.keywords)
        kw = {k.arg: self.ev(k.value, env) for k in e.keywords if k.arg}
        if isinstance(e.func, ast.Attribute):
            dotted = ast.unparse(e.func)
            if re.fullmatch(r'(os\.)?(path\.)?(dirname|abspath|realpath|join|normpath)', dotted) and not star and not kw and args and \
               "path" in dotted and all(isinstance(a, str) for a in args):
                return getattr(osp, e.func.attr)(*args)
            o = self.ev_obj(e.func.value, env)
            if isinstance(o, str) and not star and e.func.attr in ("format", "join", "replace", "strip", "lower", "upper"):
                vals = [x for a in args + list(kw.values()) for x in (a if isinstance(a, (list, tuple)) else [a])]
                if any(x is TOP or isinstance(x, (Obj, tuple)) for x in vals):
                    return TOP
                try:
                    return getattr(o, e.func.attr)(*args, **kw)
                except Exception:
                    return TOP
            if isinstance(o, Obj):
                if o.kind == "HyperHDG" and e.func.attr == "config":
                    return Obj("config")
                if o.kind == "HyperHDG" and e.func.attr == "include":
                    return self.include(args[0] if args else TOP, e)
                if o.kind == "HyperHDG":
                    return TOP
                if o.kind == "object":
                    self.note_call(o, e.func.attr, None if star else args, kw)
                    return TOP
            return TOP
        f = self.ev(e.func, env)
        if isinstance(f, Obj) and f.kind == "class":
            o = Obj("object", conf=f.f["conf"])
            if f.f["conf"] is not None and not star:
                self.ctors.setdefault(f.f["conf"], set()).add((len(args), tuple(sorted(kw)), e.lineno, self.rel,
                                                                args[0] if args and isinstance(args[0], str) else ""))
            return o
        if isinstance(f, tuple) and len(f) == 3 and f[0] == "func":
            return self.apply(f[1], f[2], args, kw, star, env)
        n = e.func.id if isinstance(e.func, ast.Name) else None
        if n == "str" and len(args) == 1:
            return TOP if args[0] is TOP or isinstance(args[0], Obj) else str(args[0])
        if n == "range" and all(isinstance(a, int) and not isinstance(a, bool) for a in args) and args:
            return range(*args)
        if n == "int" and len(args) == 1 and isinstance(args[0], (int, float)):
            return int(args[0])
        if n in ("list", "tuple", "sorted") and len(args) == 1 and not kw and isinstance(args[0], (list, tuple, range)):
            return {"list": list, "tuple": tuple, "sorted": sorted}[n](args[0]) if not any(x is TOP for x in args[0]) else TOP
        if n == "setattr" and len(args) == 3 and isinstance(args[0], Obj) and args[0].kind == "config":
            args[0].f[args[1] if isinstance(args[1], str) else "?"] = args[2]
        if n == "len" and args and isinstance(args[0], (list, tuple, str)):
            return len(args[0])
        return TOP

    def ev_obj(self, e, env):
        if isinstance(e, ast.Attribute):
            o = self.ev_obj(e.value, env)
            return TOP if isinstance(o, Obj) and o.kind == "HyperHDG" else self.ev(e, env) if not isinstance(o, Obj) or o.kind != "object" else TOP
        return self.ev(e, env)

    def apply(self, fn, owner, args, kw, star, env):
        a = fn.args
        names = [x.arg for x in a.posonlyargs + a.args]
        need = len(names) - len(a.defaults)
        if not star and not a.vararg and not a.kwarg:
            given = set(names[:len(args)]) | set(kw)
            if len(args) > len(names) or not set(kw) <= set(names + [x.arg for x in a.kwonlyargs]) or any(n not in given for n in names[:need]):
                owner.errors.append("%s calls %s with arguments it does not take" % (self.rel, fn.name))
                return TOP
        if self.depth > 6 or fn in self.active:
            return TOP
        loc = {}
        for n, d in zip(names[need:], a.defaults):
            loc[n] = self.ev(d, owner.glob)
        for n in names[:need]:
            loc.setdefault(n, TOP)
        for n, v in zip(names, args):
            loc[n] = v
        for k, v in kw.items():
            loc[k] = v
        outer = {k: v for k, v in env.items() if isinstance(v, (Obj,)) or (isinstance(v, tuple) and len(v) == 3 and v[0] == "func")} if owner is self else {}
        full = dict(outer)
        full.update(loc)
        owner.depth = self.depth + 1
        saved = owner.steps
        owner.steps = self.steps
        owner.active.add(fn)
        owner.ret = None
        try:
            owner.block(fn.body, full)
        except Ret:
            return owner.ret
        except Brk:
            pass
        finally:
            owner.active.discard(fn)
            if owner is not self:
                self.steps = owner.steps
            owner.depth = self.depth if owner is not self else owner.depth - 1
        return TOP

    def include(self, c, e):
        if not isinstance(c, Obj) or c.kind != "config":
            return TOP
        keys = ("global_loop", "topology", "geometry", "node_descriptor", "local_solver", "cython_replacements", "include_files", "cpp_code")
        val = {k: c.f.get(k, [] if k in ("cython_replacements", "include_files") else "") for k in keys}
        if any(v is TOP or (isinstance(v, list) and any(x is TOP for x in v)) for v in val.values()):
            return Obj("class", conf=None)
        key = json.dumps(val, sort_keys=True)
        self.configs.setdefault(key, (val, e.lineno, self.rel))
        return Obj("class", conf=key)

    def note_call(self, o, name, args, kw):
        if o.f.get("conf"):
            self.calls.setdefault(o.f["conf"], {}).setdefault((name, None if args is None else len(args), tuple(sorted(kw or ()))), self.rel)
            if name == "plot_option" and args and isinstance(args[0], str):
                self.calls[o.f["conf"]].setdefault(("plot_option " + args[0], None, ()), self.rel)


# ---- the module of a configuration
def snake(n):
    h = re.sub('(.)([A-Z][a-z]+)', r'\1_\2', n)
    return re.sub('([a-z0-9])([A-Z])', r'\1_\2', h).lower()


def base(n):
    return re.split(r"[< ]", n.strip())[0]


def headers(repo, folder, cls):
    r = []
    for f in sorted(glob.glob(osp.join(repo, "include/HyperHDG", folder, "*.hxx"))):
        if re.search(r"^(class|struct)\s+%s\b(\s*final)?\s*\{" % re.escape(cls), open(f).read(), re.M):
            r.append(osp.relpath(f, osp.join(repo, "include")))
    return r


def signatures(pyx):
    """methods of the binding class: name -> (needed, all parameter names)"""
    out = {}
    for m in re.finditer(r"^\s+def\s+(\w+)\s*\(([^)]*)\)\s*:", pyx, re.M):
        ps = [x.strip() for x in m.group(2).split(",") if x.strip()]
        ps = ps[1:]
        names = [re.split(r"[=\s]", p.strip())[-1] if "=" not in p else p.split("=")[0].split()[-1] for p in ps]
        out[m.group(1)] = (len([p for p in ps if "=" not in p]), names)
    return out


def pyinc():
    return subprocess.run(["python3", "-c", "import sysconfig;print(sysconfig.get_paths()['include'])"], capture_output=True, text=True).stdout.strip()


# names of the missing submodules: what does not resolve there is not the repository's
FOREIGN = re.compile(r"tpp/|tpcc/|TPP::|\bvp_|/stubs/|namespace 'TPP'|Tpcc|'tpcc")


def errors_of(stderr):
    return [l for l in stderr.splitlines() if re.search(r"\b(fatal )?error\b", l)]


def compile_cxx(repo, cwd, src, flags, py=None):
    cmd = ["/usr/bin/clang++", "-std=c++20", "-fsyntax-only", "-w", "-ferror-limit=4", "-I", osp.join(repo, "include"), "-I", cwd, "-I",
           osp.join(HAR, "stubs"), "-idirafter", repo] + flags + ([] if py is None else ["-I", py]) + [src]
    p = subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=300)
    return p.returncode, p.stderr


def module(repo, val, py):
    """returns (obligation text, None | error text, None | undecided text)"""
    loop = snake(base(val["global_loop"]))
    pyx = osp.join(repo, "cython", loop + ".pyx")
    if not osp.isfile(pyx):
        return "no binding for the global loop %s" % val["global_loop"], None
    inc = list(val["include_files"])
    for folder, k in (("geometry", "geometry"), ("node_descriptor", "node_descriptor"), ("topology", "topology"), ("global_loop", "global_loop"),
                      ("local_solver", "local_solver")):
        h = headers(repo, folder, base(val[k]))
        if not h:
            return "no header in %s defines %s" % (folder, base(val[k])), None
        if h[0] not in inc:
            inc.append(h[0])
    for f in val["include_files"]:
        if not osp.isfile(osp.join(repo, f)) and not osp.isfile(osp.join(repo, "include", f)):
            return "include file %s does not exist" % f, None
    c = configparser.ConfigParser(interpolation=None)
    c.read(osp.join(repo, "cython", loop + ".cfg"))
    d = c["default"]
    n = int(d.get("n_replacements", "4"))
    rep = {}
    for i in range(n):
        cr = val["cython_replacements"]
        v = cr[i] if i < len(cr) and cr[i] != "" else d.get("replacement%02d" % (i + 1))
        if v is None:
            return "no type for the replacement %d" % (i + 1), None
        rep["CyReplace%02d" % (i + 1)] = v
    cls = "GlobalLoop::%s<Topology::%s,Geometry::%s,NodeDescriptor::%s,LocalSolver::%s >" % tuple(
        val[k] for k in ("global_loop", "topology", "geometry", "node_descriptor", "local_solver"))
    w = tempfile.mkdtemp(prefix="vf_scr_")
    try:
        if val["cpp_code"]:
            open(osp.join(w, "own.hxx"), "w").write(val["cpp_code"])
            inc.append("own.hxx")
        for e in ("pyx", "pxd"):
            t = open(osp.join(repo, "cython", loop + "." + e)).read()
            t = t.replace("C++ClassName", '"%s"' % cls).replace("CythonClassName", "modCP").replace("PythonClassName", "mod")
            t = t.replace("IncludeFiles", "".join('cdef extern from "<%s>": pass\n' % x for x in inc))
            for k, v in rep.items():
                t = t.replace(k, v)
            open(osp.join(w, "mod." + e), "w").write(t)
        p = subprocess.run(["cython3", "-3", "--cplus", "mod.pyx"], cwd=w, capture_output=True, text=True, timeout=300)
        if p.returncode:
            return "cython refuses the module: " + p.stderr[-500:], None
        for flags in (["-DNDEBUG"], []):
            rc, err = compile_cxx(repo, w, "mod.cpp", flags, py)
            if rc:
                es = errors_of(err)
                if any(FOREIGN.search(l) for l in es):
                    return None, "needs a part of a missing submodule: " + "; ".join(es)[:300]
                return "the instance does not compile: " + "; ".join(es)[:500], None
        return None, None
    finally:
        shutil.rmtree(w)


OPTIONS = ("outputDir", "fileName", "fileEnding", "fileNumber", "printFileNumber", "incrementFileNumber", "plotEdges", "plotEdgeBoundaries",
           "scale", "boundaryScale")


# ---- domain files
def numbers(line, conv=float):
    out = []
    for w in line.split():
        try:
            out.append(conv(w))
        except ValueError:
            break
    return out


def domain_header(path, keys):
    """the header the reader sees: `key = value` lines in the given order, each found by its first word"""
    lines = open(path, errors="replace").read().split("\n")
    i, head = 0, {}
    for k in keys:
        while i < len(lines) and (lines[i].split() or [""])[0] != k:
            i += 1
        w = lines[i].split() if i < len(lines) else []
        m = re.match(r'[-+]?[\d.]+([eE][-+]?\d+)?', w[2]) if len(w) > 2 and w[1] == "=" else None
        if not m:
            return None, k, i, lines
        head[k] = float(m.group(0))
    return head, None, i, lines


def check_geo(sp, path, rel):
    keys = ("Space_Dim", "HyperEdge_Dim", "N_Points", "N_HyperNodes", "N_HyperEdges")
    h, bad, i, lines = domain_header(path, keys)
    if not sp.ok(h is not None, "%s: header" % rel, "no entry '%s = number' in its place" % bad, rel):
        return
    s, d, P, N, E = (int(h[k]) for k in keys)
    if not sp.ok(1 <= d <= s and P > 0 and N > 0 and E > 0, "%s: positive sizes" % rel, str(h), rel):
        return

    def table(key, rows, cols, conv):
        nonlocal i
        while i < len(lines) and (lines[i].split() or [""])[0] != key:
            i += 1
        if not sp.ok(i < len(lines), "%s: section %s" % (rel, key), "the section is missing or out of order", rel):
            return None
        out = []
        for r in range(rows):
            v = numbers(lines[i + 1 + r], conv) if i + 1 + r < len(lines) else []
            if not sp.ok(len(v) >= cols, "%s: line %d of %s" % (rel, r, key), "%d number(s) where %d are needed" % (len(v), cols), "%s:%d" % (rel, i + 2 + r)):
                return None
            out.append(tuple(v[:cols]))
        i += rows
        more = numbers(lines[i + 1], conv) if i + 1 < len(lines) else []
        sp.ok(len(more) < cols, "%s: length of %s" % (rel, key), "more lines than the header declares", "%s:%d" % (rel, i + 2))
        return out
    pts = table("POINTS:", P, s, float)
    nodes = pts and table("HYPERNODES_OF_HYPEREDGES:", E, 2 * d, int)
    types = nodes and table("TYPES_OF_HYPERFACES:", E, 2 * d, int)
    verts = types and table("POINTS_OF_HYPEREDGES:", E, 1 << d, int)
    if not verts:
        return
    sp.ok(len(set(pts)) == P, "%s: points are distinct" % rel, "a point appears twice", rel)
    for what, t, n in (("hypernodes", nodes, N), ("points", verts, P)):
        for r, v in enumerate(t):
            sp.ok(all(0 <= x < n for x in v), "%s: %s of hyperedge %d exist" % (rel, what, r), "%s of %d" % (v, n), rel)
            sp.ok(len(set(v)) == len(v), "%s: %s of hyperedge %d are distinct" % (rel, what, r), str(v), rel)
        sp.ok(len(set(t)) == E, "%s: no two hyperedges with the same %s" % (rel, what), "a line appears twice", rel)
    dirichlet = {}
    for r in range(E):
        for f in range(2 * d):
            dirichlet.setdefault(nodes[r][f], set()).add(types[r][f] == 1)
    for n, t in sorted(dirichlet.items()):
        sp.ok(len(t) == 1, "%s: type of hypernode %d" % (rel, n), "Dirichlet for one hyperedge and not for another", rel)


def check_pts(sp, path, rel):
    h, bad, i, lines = domain_header(path, ("Space_Dim", "Epsilon"))
    if not sp.ok(h is not None and h["Epsilon"] > 0 and h["Space_Dim"] >= 1, "%s: header" % rel, "no entry '%s = number' in its place" % bad, rel):
        return
    s = int(h["Space_Dim"])
    while i < len(lines) and (lines[i].split() or [""])[0] != "POINTS:":
        i += 1
    rest = lines[i + 1:]
    if rest and rest[-1] == "":
        rest.pop()
    pts = []
    for r, l in enumerate(rest):
        v = numbers(l)
        if not sp.ok(len(v) >= s, "%s: point %d" % (rel, r), "%d number(s) where %d are needed" % (len(v), s), "%s:%d" % (rel, i + 2 + r)):
            return
        pts.append(tuple(v[:s]))
    sp.ok(len(pts) > 1 and len(set(pts)) == len(pts), "%s: points are distinct" % rel, "a point appears twice or there are none", rel)


def domain_of(repo, sp, rel, val, dom, where):
    if not dom.endswith((".geo", ".pts")):
        return
    cand = [dom] if osp.isabs(dom) else [osp.join(repo, osp.dirname(rel), dom), osp.join(repo, dom)]
    path = next((osp.normpath(c) for c in cand if osp.isfile(c)), None)
    name = osp.basename(dom)
    if path is None:
        sp.analysed["%s reads %s, which is not shipped" % (rel, name)] = where
        return
    h, bad, _, _ = domain_header(path, ("Space_Dim", "HyperEdge_Dim") if dom.endswith(".geo") else ("Space_Dim",))
    if h is None:
        return
    want = (int(h.get("HyperEdge_Dim", 1)), int(h["Space_Dim"]))
    for k in ("topology", "geometry", "node_descriptor"):
        m = re.match(r'\s*File\s*<\s*(\d+)\s*,\s*(\d+)', val[k])
        if m:
            sp.ok((int(m.group(1)), int(m.group(2))) == want, "%s: %s %s of %s" % (rel, k, val[k], name),
                  "the file declares hyperedges of dimension %d in space dimension %d" % want, where)


def programs(repo, tier):
    from pyjit import Spec
    sp = Spec("shipped programs")
    for path in sorted(glob.glob(osp.join(repo, "domains/**/*"), recursive=True)):
        rel = osp.relpath(path, repo)
        if rel.endswith(".geo"):
            check_geo(sp, path, rel)
            sp.analysed["domain " + rel] = rel
        elif rel.endswith(".pts"):
            check_pts(sp, path, rel)
            sp.analysed["domain " + rel] = rel
    scripts = sorted(glob.glob(osp.join(repo, "reproducibles_python/*.py")) + glob.glob(osp.join(repo, "tests_python/*.py")) +
                     glob.glob(osp.join(repo, "jupyter/*.ipynb")))
    confs, und = {}, []
    for path in scripts:
        rel = osp.relpath(path, repo)
        try:
            s = Script(repo, path)
        except (SyntaxError, ValueError) as ex:
            sp.ok(False, "%s parses" % rel, str(ex), rel)
            continue
        s.run()
        for e in s.errors:
            sp.ok(False, "%s: calls of its functions" % rel, e, rel)
        has = any(isinstance(n, ast.Attribute) and n.attr == "include" for n in ast.walk(s.tree))
        if has and not s.configs:
            und.append("%s: no configuration resolved" % rel)
        sp.analysed["%s: %d configuration(s)" % (rel, len(s.configs))] = rel
        for k, (val, line, f) in s.configs.items():
            confs.setdefault(k, dict(val=val, where="%s:%d" % (f, line), by=set()))["by"].add(rel)
            loop = snake(base(val["global_loop"]))
            pyx = osp.join(repo, "cython", loop + ".pyx")
            if not osp.isfile(pyx):
                continue
            sig = signatures(open(pyx).read())
            for (name, n, kw), f2 in s.calls.get(k, {}).items():
                if name.startswith("plot_option "):
                    o = name.split(" ", 1)[1]
                    sp.ok(o in OPTIONS, "%s: plot option %s" % (rel, o), "there is no plot option %s" % o, f2)
                    continue
                ok = name in sig
                sp.ok(ok, "%s: method %s of %s" % (rel, name, val["global_loop"]), "the binding of %s has no method %s" % (loop, name), f2)
                if ok and n is not None:
                    need, names = sig[name]
                    got = set(names[:n]) | set(kw)
                    sp.ok(n <= len(names) and set(kw) <= set(names) and set(names[:need]) <= got,
                          "%s: arguments of %s" % (rel, name), "%s takes (%s), called with %d positional and %s" % (name, ", ".join(names), n, list(kw)), f2)
            for n, kw, line2, f2, dom in sorted(s.ctors.get(k, ())):
                domain_of(repo, sp, rel, val, dom, "%s:%d" % (f2, line2))
                need, names = sig.get("__cinit__", (0, []))
                got = set(names[:n]) | set(kw)
                sp.ok(n <= len(names) and set(kw) <= set(names) and set(names[:need]) <= got,
                      "%s: arguments of the constructor" % rel, "takes (%s), called with %d positional and %s" % (", ".join(names), n, list(kw)), "%s:%d" % (f2, line2))
    # one configuration for each shape in the quick tier: the polynomial degrees only differ in numbers
    todo = []
    seen = set()
    for k, c in sorted(confs.items(), key=lambda x: (len(x[0]), x[0])):
        v = c["val"]
        shape = (v["global_loop"], v["topology"], v["geometry"], v["node_descriptor"], base(v["local_solver"]), v["local_solver"].split(",", 3)[-1],
                 v["local_solver"].split(",")[0], tuple(v["include_files"]), tuple(v["cython_replacements"]), v["cpp_code"])
        if tier != "thorough" and shape in seen:
            continue
        seen.add(shape)
        todo.append((k, c))
    py = pyinc()
    cxx = sorted(glob.glob(osp.join(repo, "examples/*.cxx")) + glob.glob(osp.join(repo, "tests_c++/*.cxx")))
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("VERIF_JOBS", "0")) or os.cpu_count() or 4) as ex:
        fm = [(c, ex.submit(module, repo, c["val"], py)) for k, c in todo]

        def one(f, flags):
            w = tempfile.mkdtemp(prefix="vf_scr_")
            try:
                return compile_cxx(repo, w, f, flags)
            finally:
                shutil.rmtree(w)
        fc = [(f, ex.submit(one, f, fl)) for f in cxx for fl in (["-DNDEBUG"], [])]
        for c, fu in fm:
            bad, u = fu.result()
            what = "%s<%s, %s, %s>" % (c["val"]["global_loop"], c["val"]["topology"], c["val"]["geometry"], c["val"]["local_solver"])
            if u:
                und.append("%s: %s" % (what, u))
                continue
            sp.ok(bad is None, "module of %s (%s)" % (what, ", ".join(sorted(c["by"]))[:120]), bad or "", c["where"])
            sp.analysed["type check of " + what] = c["where"]
        for f, fu in fc:
            rc, err = fu.result()
            es = errors_of(err)
            rel = osp.relpath(f, repo)
            if rc and any(FOREIGN.search(l) for l in es):
                und.append("%s: %s" % (rel, "; ".join(es)[:200]))
                continue
            sp.ok(rc == 0, "%s compiles" % rel, "; ".join(es)[:500], rel)
            sp.analysed["type check of " + rel] = rel
    out = sp.out()
    out["undecided"] = list(out.get("undecided", [])) + und
    return out


if __name__ == "__main__":
    import sys
    sys.path.insert(0, HERE)
    repo = os.environ.get("VERIF_REPO", "/repo")
    for p in sys.argv[1:]:
        s = Script(repo, osp.abspath(p))
        s.run()
        print(p, len(s.configs), "configs", s.errors, s.steps)
        for k, (v, l, f) in list(s.configs.items())[:40]:
            print("   ", v["global_loop"], v["topology"], v["local_solver"], v["cython_replacements"], s.ctors.get(k), sorted(s.calls.get(k, {}), key=str))
