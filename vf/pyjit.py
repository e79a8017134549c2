"""Just-in-time import (import/HyperHDG/import_cxx): gated analysis against an unknown file system."""
import builtins
import configparser
import fnmatch
import hashlib
import itertools
import os
import os.path as osp
import re

import pyai
from pyai import (AND, NOT, OR, TRUE, FALSE, U, Ref, Builtin, Cls, Sym, Path, Re, Undecided, Interp, atom, implies, show, text, unknown,
                  witness, ite)

ROOT = "/M"
PYDIR = "/PY"
BUILTIN_MODULES = {"os", "sys", "re", "glob", "hashlib", "importlib", "datetime", "configparser", "pathlib", "subprocess", "shutil", "copy",
                   "time", "itertools", "functools", "fnmatch", "string", "collections", "tempfile", "os.path", "importlib.util",
                   "io", "typing", "warnings", "logging", "json", "errno", "platform", "dataclasses", "__future__", "shlex", "operator"}
CFG = "[compiler]\ncommand = %s\nincludes = -I%s %s\nflags = %s\nstandard = %s\n[linker]\ncommand = %s\nflags = %s\nlibs = %s\n" \
      "[cython]\ncommand = %s\nflags = %s\n[python]\nver_maj = 3\nver_min = 12\ndir = %s\n"


class World:
    def __init__(self, repo, tree=None, real=True):
        self.repo = repo
        self.static = {}
        pk = osp.join(repo, "import", "HyperHDG")
        for dp, dn, fn in os.walk(pk):
            for f in fn:
                if f.endswith(".py"):
                    p = osp.join(dp, f)
                    self.static[ROOT + "/import/HyperHDG/" + osp.relpath(p, pk)] = open(p).read()
        cy = osp.join(repo, "cython")
        for f in sorted(os.listdir(cy)):
            if f.endswith((".pyx", ".pxd", ".cfg")):
                self.static[ROOT + "/cython/" + f] = open(osp.join(cy, f)).read()
        if tree is None:
            inc = osp.join(repo, "include")
            for dp, dn, fn in os.walk(inc):
                for f in fn:
                    p = osp.join(dp, f)
                    self.static[ROOT + "/include/" + osp.relpath(p, inc)] = open(p, errors="replace").read()
        else:
            for k, v in tree.items():
                self.static[ROOT + "/" + k] = v
        self.static[PYDIR + "/Python.h"] = ""
        self.cfgtext = CFG % tuple([text("compile command"), PYDIR, text("include directories"), text("compile flags"), "20",
                                    text("link command"), text("link flags"), text("link libraries"), text("cython command"),
                                    text("cython flags"), PYDIR])
        self.fs = {}      # written files: path -> [exists, content]
        self.systems = 0
        self.sysmod = {}
        self.loaded = {}
        self.python(12)

    def python(self, minor):
        """the version of the running interpreter"""
        self.minor = minor
        self.texts = {"sys.version_info": "sys.version_info(major=3, minor=%d, micro=3, releaselevel='final', serial=0)" % minor,
                      "sys.version": "3.%d.3 (main)" % minor}

    # ---- source
    def is_builtin(self, name):
        return name in BUILTIN_MODULES or name.split(".")[0] in BUILTIN_MODULES

    def module_source(self, name):
        p = ROOT + "/import/" + name.replace(".", "/")
        for q in (p + ".py", p + "/__init__.py"):
            if q in self.static:
                return self.static[q], q
        return None, None

    def name(self, it, n):
        if n == "__name__":
            return "module"
        if hasattr(builtins, n):
            raise Undecided("builtin %s" % n)
        it.throw("NameError", n)
        return None

    # ---- files
    def norm(self, p):
        if isinstance(p, Path):
            p = p.p
        if not isinstance(p, str):
            raise Undecided("file name %s" % show(p))
        if not p.startswith("/"):
            p = "/cwd/" + p
        return osp.normpath(p)

    def exists(self, it, p):
        p = self.norm(p)
        if p in self.fs:
            return self.fs[p][0]
        if p in self.static:
            return TRUE
        if any(q.startswith(p + "/") for q in self.static):
            return FALSE
        if p.startswith("/home/"):
            return FALSE
        if not p.startswith(ROOT + "/build/"):
            return FALSE
        return atom("isfile(%s)" % show(p))

    def isdir(self, it, p):
        p = self.norm(p)
        if any(q.startswith(p + "/") for q in self.static):
            return TRUE
        if p.startswith(ROOT + "/build"):
            return atom("isdir(%s)" % show(p))
        return FALSE

    def content(self, it, p):
        p = self.norm(p)
        if p in self.fs:
            return self.fs[p][1]
        return self.base(p)

    def base(self, p):
        if p in self.static:
            return self.static[p]
        if p == ROOT + "/build/cmake_cython.cfg":
            return self.cfgtext
        return text("content(%s)" % show(p))

    def mtime(self, it, p):
        p = self.norm(p)
        ex = OR(self.exists(it, p), self.isdir(it, p))
        g = it.g
        it.g = AND(g, NOT(ex))
        if it.g is not FALSE:
            it.throw("FileNotFoundError", p)
        it.g = AND(g, ex)
        return Sym("mtime", p)

    def less(self, it, x, y):
        for s in (x, y):
            if not (isinstance(s, Sym) and s.op in ("mtime", "max", "min")):
                return atom("%r < %r" % (x, y))
        if x.op in ("max", "min"):
            f = AND if x.op == "max" else OR
            return f(*[self.less(it, a, y) for a in x.args])
        if y.op in ("max", "min"):
            f = OR if y.op == "max" else AND
            return f(*[self.less(it, x, b) for b in y.args])
        if x.args == y.args:
            return FALSE
        return older(x.args[0], y.args[0])

    def distinct(self, a, b):
        return False

    def literal_free(self, a, b):
        """a does not occur in the text b, which has unknown parts"""
        return False

    def inside(self, pat):
        return not re.search(r'[A-Za-z]{4,}', pat)

    def open(self, it, args, kw):
        mode = args[1] if len(args) > 1 else kw.get("mode", "r")

        def op(p, mode):
            p = self.norm(p)
            r = it.new("file", None)
            it.heap[r] = {"path": p, "mode": mode, "pos": 0}
            if "r" in mode and "+" not in mode:
                ex = self.exists(it, p)
                g = it.g
                it.g = AND(g, NOT(ex))
                if it.g is not FALSE:
                    it.throw("FileNotFoundError", p)
                it.g = AND(g, ex)
            else:
                old = self.fs.get(p) or [self.exists(it, p), self.base(p)]
                self.fs[p] = [it.tobdd(it.merge(it.g, TRUE, old[0])) if it.g is not TRUE else TRUE,
                              old[1] if "a" in mode else it.merge(it.g, "", old[1])]
            return r
        return it.lift(op, args[0], mode)

    def read(self, it, r):
        return self.content(it, it.heap[r]["path"])

    def filemethod(self, it, r, name, args, kw):
        h = it.heap[r]
        if name in ("close", "flush", "__enter__", "__exit__"):
            return None
        if name == "read":
            return self.read(it, r)
        if name == "readline":
            def rl(t):
                if unknown(t) and "\n" not in t:
                    return text("first line of (%s)" % show(t))
                ls = t.splitlines(True)
                k = h["pos"]
                h["pos"] = k + 1
                return ls[k] if k < len(ls) else ""
            return it.lift(rl, self.read(it, r))
        if name == "readlines":
            return it.new("list", it.lift(lambda t: tuple(t.splitlines(True)), self.read(it, r)))
        if name in ("write", "writelines"):
            p = h["path"]
            v = args[0]
            if name == "writelines":
                v = it.strmethod("", "join", [v], {})
            old = self.fs.get(p) or [self.exists(it, p), self.base(p)]
            new = it.lift(lambda a, b: a + it.tostr(b), old[1], v)
            self.fs[p] = [OR(old[0], it.g), it.merge(it.g, new, old[1])]
            it.event("write", p, v)
            return None
        raise Undecided("file.%s" % name)

    # ---- attributes and calls of library modules
    def attr(self, it, o, name):
        n = o.name + "." + name if isinstance(o, Builtin) else None
        if n == "sys.path":
            return self.sysobj(it, "path")
        if n == "sys.modules":
            return self.sysobj(it, "modules")
        if n == "sys.version_info":
            return Builtin("sys.version_info")
        if n == "sys.version_info.major":
            return 3
        if n == "sys.version_info.minor":
            return self.minor
        if n == "sys.version":
            return self.texts["sys.version"]
        if n in ("os.sep", "os.path.sep"):
            return "/"
        if n == "os.linesep":
            return "\n"
        if n in ("re.MULTILINE", "re.M"):
            return re.M
        if n in ("re.DOTALL", "re.S"):
            return re.S
        if n in ("re.VERBOSE",):
            return re.X
        if n == "sys.executable":
            return text("sys.executable")
        if n is None:
            raise Undecided("attribute %s of %s" % (name, show(o)))
        return Builtin(n)

    def sysobj(self, it, k):
        if k not in self.sysmod:
            self.sysmod[k] = it.new("list" if k == "path" else "dict", ("/cwd", "/usr/lib/python3") if k == "path" else ())
        return self.sysmod[k]

    def setattr(self, it, o, name, v):
        n = o.name + "." + name
        if n == "sys.path":
            r = self.sysobj(it, "path")
            it.heap[r] = it.merge(it.g, it.tolist(v), it.heap[r])
            return
        raise Undecided("assignment to %s" % n)

    def item(self, it, o, k):
        if isinstance(o, Builtin) and o.name == "sys.version_info":
            return (3, self.minor, 3, "final", 0)[k]
        if isinstance(o, Ref) and o.kind == "cfg":
            r = it.new("cfgsec", None)
            it.heap[r] = (o, k)
            return r
        if isinstance(o, Ref) and o.kind == "cfgsec":
            o, sec = it.heap[o]
            return self.cfgget(it, o, sec, k)
        if isinstance(o, Builtin) and o.name == "os.environ":
            return text("environ[%s]" % k)
        raise Undecided("item of %s" % show(o))

    def parse(self, t):
        c = configparser.ConfigParser(interpolation=None)
        c.read_string(t)
        return c

    def cfgget(self, it, o, sec, k, fallback=None, has=False):
        def one(t):
            if t is None:
                return fallback if fallback is not None or has else it.throw("KeyError", k)
            try:
                return self.parse(t)[sec][k]
            except KeyError:
                if fallback is not None:
                    return fallback
                return it.throw("KeyError", k)
        return it.lift(one, it.heap[o])

    def contains(self, it, a, b):
        if isinstance(b, Builtin) and b.name == "os.environ":
            return atom("environ has %s" % show(a))
        raise Undecided("in %s" % show(b))

    def refmethod(self, it, o, name, args, kw):
        if o.kind == "cfg":
            if name in ("read", "read_file"):
                def rd(p):
                    if isinstance(p, Ref) and p.kind == "file":
                        p = it.heap[p]["path"]
                    g = it.g
                    ex = self.exists(it, p)
                    it.g = AND(g, ex)
                    if it.g is not FALSE:
                        it.put(o, self.content(it, p))
                    it.g = g
                    return None
                a = args[0]
                if isinstance(a, Ref) and a.kind == "list":
                    for p in it.tolist(a):
                        rd(p)
                    return None
                return it.lift(rd, a)
            if name == "has_option":
                def ho(t, k):
                    if t is None:
                        return False
                    return self.parse(t).has_option(args[0], k)
                return it.lift(ho, it.heap[o], args[1])
            if name == "has_section":
                return it.lift(lambda t: t is not None and self.parse(t).has_section(args[0]), it.heap[o])
            if name == "get":
                return it.lift(lambda k: self.cfgget(it, o, args[0], k, kw.get("fallback")), args[1])
            if name == "getint":
                return it.lift(lambda k: it.builtin("int", [self.cfgget(it, o, args[0], k, kw.get("fallback"))], {}, None), args[1])
        if o.kind == "cfgsec":
            c, sec = it.heap[o]
            if name == "get":
                return it.lift(lambda k: self.cfgget(it, c, sec, k, args[1] if len(args) > 1 else kw.get("fallback")), args[0])
            if name == "getint":
                return it.lift(lambda k: it.builtin("int", [self.cfgget(it, c, sec, k)], {}, None), args[0])
        if o.kind == "hash":
            if name == "hexdigest":
                return it.lift(lambda t: getattr(hashlib, t[0])(t[1].encode("utf-8", "surrogatepass")).hexdigest(), it.heap[o])
            if name == "update":
                return it.put(o, it.lift(lambda t, x: (t[0], t[1] + x), it.heap[o], args[0]))
        if o.kind == "completed":
            pass
        raise Undecided("%s.%s" % (o.kind, name))

    def symattr(self, it, x, name):
        if x.op == "stat" and name == "st_mtime":
            return self.mtime(it, x.args[0])
        if x.op == "stat" and name in ("st_mtime_ns",):
            return self.mtime(it, x.args[0])
        if x.op == "completed" and name == "returncode":
            return x.args[0]
        return None

    def symmethod(self, it, x, name, args, kw):
        if x.op == "completed" and name == "check_returncode":
            ok = it.truth(it.equal(x.args[0], 0))
            g = it.g
            it.g = AND(g, NOT(ok))
            if it.g is not FALSE:
                it.throw("CalledProcessError")
            it.g = AND(g, ok)
            return None
        if x.op == "regex":
            return self.call(it, "re." + name, [x.args[0]] + args, dict(kw, flags=x.args[1]))
        return Sym(name, x, *args)

    def symtype(self, it, x, n):
        return atom("isinstance(%r, %s)" % (x, n))

    def pathmethod(self, it, o, name, args, kw):
        if name in ("is_file", "exists"):
            return it.builtin("os.path.isfile", [o.p], {}, None)
        if name == "stat":
            return Sym("stat", o.p)
        if name in ("resolve", "absolute"):
            return Path(self.norm(o.p))
        if name == "joinpath":
            return Path(osp.join(o.p, *args))
        if name == "read_text":
            f = self.open(it, [o.p, "r"], {})
            return self.read(it, f)
        if name == "write_text":
            f = self.open(it, [o.p, "w"], {})
            return self.filemethod(it, f, "write", args, {})
        if name == "mkdir":
            it.event("mkdir", self.norm(o.p))
            return None
        if name == "open":
            return self.open(it, [o.p] + args, kw)
        if name in ("glob", "rglob"):
            return it.new("list", tuple(Path(p) for p in self.glob(osp.join(o.p, ("**/" if name == "rglob" else "") + args[0]))))
        if name == "relative_to":
            return Path(osp.relpath(self.norm(o.p), self.norm(args[0])))
        if name == "as_posix":
            return o.p
        raise Undecided("Path.%s" % name)

    def glob(self, pat):
        """names as the library gives them: the fixed part of the pattern stays as it is written"""
        raw = pat.p if isinstance(pat, Path) else pat
        if not any(c in raw for c in "*?["):
            p = self.norm(raw)
            return [raw] if p in self.static or any(q.startswith(p + "/") for q in self.static) else []
        k = min(raw.index(c) for c in "*?[" if c in raw)
        fixed = raw[:raw.rfind("/", 0, k) + 1]
        base = self.norm(fixed).rstrip("/") + "/"
        rest = raw[len(fixed):]
        rx = re.compile("".join("(?:.*/)?" if p == "**/" else ".*" if p == "**" else "[^/]*" if p == "*" else "[^/]" if p == "?" else
                                p if p[0] == "[" else re.escape(p)
                                for p in re.findall(r'\*\*/|\*\*|\*|\?|\[[^\]]*\]|[^*?\[]+', rest)) + r"\Z")
        return sorted(fixed + p[len(base):] for p in self.static if p.startswith(base) and rx.match(p[len(base):]))

    def status(self, it, cmd, kind="system"):
        """exit status of a shell command"""
        self.systems += 1
        if isinstance(cmd, str) and re.match(r'\s*mkdir\b', cmd) and ";" not in cmd:
            it.event("mkdir", cmd)
            return 0
        it.event("system", cmd)
        return Sym("status", kindof(cmd))

    def call(self, it, name, args, kw):
        L = it.lift
        if name == "os.path.isfile" or name == "os.path.exists":
            return L(lambda p: self.exists(it, p) if name.endswith("isfile") else OR(self.exists(it, p), self.isdir(it, p)), args[0])
        if name == "os.path.isdir":
            return L(lambda p: self.isdir(it, p), args[0])
        if name == "os.path.getmtime":
            return L(lambda p: self.mtime(it, p), args[0])
        if name in ("os.stat", "os.lstat"):
            return L(lambda p: Sym("stat", self.norm(p)), args[0])
        if name in ("os.path.abspath", "os.path.realpath"):
            return L(self.norm, args[0])
        if name in ("os.path.dirname", "os.path.basename", "os.path.normpath", "os.path.splitext", "os.path.isabs", "os.path.split",
                    "os.path.normcase", "os.path.commonprefix", "os.path.splitdrive"):
            return L(lambda p: getattr(osp, name.split(".")[-1])(p.p if isinstance(p, Path) else p), args[0])
        if name in ("os.path.join", "os.path.relpath", "os.path.commonpath"):
            return L(lambda *p: getattr(osp, name.split(".")[-1])(*[x.p if isinstance(x, Path) else x for x in p]), *args)
        if name in ("os.fspath", "os.path.expanduser"):
            return L(lambda p: p.p if isinstance(p, Path) else p, args[0])
        if name in ("pathlib.Path", "pathlib.PurePath", "pathlib.PosixPath"):
            return L(lambda *p: Path(osp.join(*[x.p if isinstance(x, Path) else x for x in p])), *args)
        if name == "os.listdir":
            def ls(p):
                p = self.norm(p)
                return it.new("list", tuple(sorted({q[len(p) + 1:].split("/")[0] for q in self.static if q.startswith(p + "/")})))
            return L(ls, args[0])
        if name == "os.walk":
            def wk(p):
                p = self.norm(p)
                d = {}
                for q in self.static:
                    if q.startswith(p + "/"):
                        d.setdefault(osp.dirname(q), []).append(osp.basename(q))
                return it.new("list", tuple((k, it.new("list", ()), it.new("list", tuple(sorted(v)))) for k, v in sorted(d.items())))
            return L(wk, args[0])
        if name in ("os.makedirs", "os.mkdir"):
            it.event("mkdir", args[0])
            return None
        if name in ("os.remove", "os.unlink"):
            def rm(p):
                p = self.norm(p)
                old = self.fs.get(p) or [self.exists(it, p), self.base(p)]
                self.fs[p] = [AND(old[0], NOT(it.g)), old[1]]
                it.event("remove", p)
            return L(rm, args[0])
        if name == "os.getcwd":
            return "/cwd"
        if name in ("os.environ.get", "os.getenv"):
            return L(lambda k: text("environ[%s]" % k), args[0])
        if name == "os.system":
            return L(lambda c: self.status(it, c), args[0])
        if name.startswith("subprocess."):
            def sp(c):
                if isinstance(c, Ref):
                    c = it.strmethod(" ", "join", [c], {})
                s = self.status(it, c)
                k = name.split(".")[1]
                if k == "call":
                    return s
                if k == "check_call" or (k == "run" and kw.get("check") is True):
                    ok = it.truth(it.equal(s, 0))
                    g = it.g
                    it.g = AND(g, NOT(ok))
                    if it.g is not FALSE:
                        it.throw("CalledProcessError")
                    it.g = AND(g, ok)
                return Sym("completed", s)
            return L(sp, args[0])
        if name in ("importlib.import_module", "__import__"):
            return L(lambda n: self.do_import(it, n), args[0])
        if name == "importlib.invalidate_caches":
            return None
        if name in ("glob.glob", "glob.iglob"):
            return L(lambda p: it.new("list", tuple(self.glob(p))), args[0])
        if name == "fnmatch.fnmatch":
            return L(fnmatch.fnmatch, args[0], args[1])
        if name in ("hashlib.sha256", "hashlib.md5", "hashlib.sha1", "hashlib.sha512", "hashlib.blake2b", "hashlib.sha224", "hashlib.sha384"):
            r = it.new("hash", L(lambda s: (name.split(".")[1], s if isinstance(s, str) else s.decode()), args[0] if args else ""))
            return r
        if name == "configparser.ConfigParser" or name == "configparser.RawConfigParser":
            return it.new("cfg", None)
        if name.startswith("re."):
            k = name[3:]
            flags = kw.get("flags", 0)
            if k == "compile":
                return Sym("regex", args[0], args[1] if len(args) > 1 else flags)
            if k == "escape":
                return L(re.escape, args[0])
            args = [a.args[0] if isinstance(a, Sym) and a.op == "regex" else a for a in args]
            if k == "sub":
                def sub(p, r, s):
                    if isinstance(r, pyai.Func):
                        out, pos = "", 0
                        for m in re.finditer(p, s, flags):
                            out = L(lambda a, b: a + b, out, L(lambda x: s[pos:m.start()] + x, it.call(r, [Re(m)], {})))
                            pos = m.end()
                        return L(lambda a: a + s[pos:], out)
                    if unknown(s) and self.inside(p):
                        s = "".join(text("sub(%s,%s,%s)" % (p, show(r), show(c))) if unknown(c) else c for c in s)
                    cnt = args[3] if len(args) > 3 else kw.get("count", 0)
                    return re.sub(p, r, s, count=cnt, flags=flags)
                return L(sub, *args[:3])
            if k in ("search", "match", "fullmatch"):
                def se(p, s):
                    m = getattr(re, k)(p, s, args[2] if len(args) > 2 else flags)
                    return Re(m) if m else None
                return L(se, args[0], args[1])
            if k == "finditer":
                return it.new("list", L(lambda p, s: tuple(Re(m) for m in re.finditer(p, s, args[2] if len(args) > 2 else flags)), args[0], args[1]))
            if k == "findall":
                return it.new("list", L(lambda p, s: tuple(re.findall(p, s, args[2] if len(args) > 2 else flags)), args[0], args[1]))
            if k == "split":
                return it.new("list", L(lambda p, s: tuple(re.split(p, s)), args[0], args[1]))
        if name in ("copy.copy", "copy.deepcopy"):
            def cp(o):
                if isinstance(o, Ref) and o.kind == "obj":
                    d = dict(it.heap[o])
                    if name.endswith("deepcopy"):
                        d = {k: cp(v) if isinstance(v, Ref) else v for k, v in d.items()}
                    return it.new("obj", d)
                if isinstance(o, Ref):
                    return it.new(o.kind, it.heap[o])
                return o
            return L(cp, args[0])
        if name.startswith(("datetime.", "time.", "sys.stdout", "warnings.", "logging.", "sys.stderr")):
            return Sym(name)
        if name == "itertools.chain":
            out = ()
            for a in args:
                out = L(lambda x, y: x + y, out, it.tolist(a))
            return it.new("list", out)
        if name in ("shutil.copy", "shutil.copyfile"):
            def cpf(a, b):
                c = self.content(it, a)
                f = self.open(it, [b, "w"], {})
                self.filemethod(it, f, "write", [c], {})
            return L(cpf, args[0], args[1])
        if name == "shlex.quote":
            return args[0]
        raise Undecided("call of %s" % name)

    def do_import(self, it, n):
        """a module can be found once its directory is in sys.path (or was already), and the shared object exists"""
        found = FALSE
        for c, t in it.cases(it.heap[self.sysobj(it, "path")]):
            if any(isinstance(p, str) and not unknown(p) and osp.normpath(p) == ROOT + "/build/shared_objects" for p in t):
                found = OR(found, c)
        found = OR(found, atom("shared objects are in the initial sys.path"))
        g = it.g
        it.g = AND(g, NOT(found))
        if it.g is not FALSE:
            it.throw("ModuleNotFoundError", n)
        it.g = AND(g, found)
        it.event("import", n)
        m = pyai.Mod("@" + n)
        m.env = {n: Sym("class", n)}
        return m


def kindof(cmd):
    cmd = cmd if isinstance(cmd, str) else str(cmd)
    outs = re.findall(r'-o\s+(\S+)', cmd)
    if any(o.endswith(".so") for o in outs):
        return "link"
    if any(o.endswith(".o") for o in outs):
        return "compile"
    if ".pyx" in cmd:
        return "cython"
    return cmd


def older(a, b):
    """two atoms per pair of files, next to each other in the order of the guards"""
    a, b = show(a), show(b)
    for x, y in ((a, b), (b, a)):
        atom("%s older than %s" % (x, y))
    return atom("%s older than %s" % (a, b))


def support(x):
    seen, todo, out = set(), [x], set()
    while todo:
        y = todo.pop()
        if id(y) in seen or y is TRUE or y is FALSE:
            continue
        seen.add(id(y))
        out.add(y.v)
        todo += [y.hi, y.lo]
    return out


def possible(x):
    """x without the cases where each of two files is older than the other"""
    for v in sorted(support(x)):
        m = re.fullmatch(r'(\S+) older than (\S+)', pyai.BDD.names[v])
        if m:
            w = pyai.BDD.index.get("%s older than %s" % (m.group(2), m.group(1)))
            if w is not None and w > v:
                x = AND(x, NOT(AND(atom(pyai.BDD.names[v]), atom(pyai.BDD.names[w]))))
                if x is FALSE:
                    break
    return x


# ------------------------------------------------------------------------------------------------ specification units
FIELDS = ("global_loop", "local_solver", "topology", "geometry", "node_descriptor", "cython_replacements", "cpp_code", "include_files",
          "debug_mode")
BASE = dict(global_loop="Elliptic", local_solver="DiffusionUniform < 1, 1, 2 * 1 >", topology="Cubic< 1, 3 >", geometry="UnitCube< 1, 3 >",
            node_descriptor="Cubic< 1, 3 >", cython_replacements=["vector[unsigned int]", "vector[unsigned int]"], debug_mode=True)
FOLDER = dict(global_loop="global_loop", local_solver="local_solver", topology="topology", geometry="geometry",
              node_descriptor="node_descriptor")


class Result:
    pass


class Spec:
    def __init__(self, name):
        self.name, self.n, self.findings, self.undecided, self.analysed = name, 0, [], [], {}

    def ok(self, cond, obligation, what, where="", got=None, expected=None, wit=None):
        self.n += 1
        if not cond:
            self.findings.append(dict(obligation=obligation, what=what, where=where, got=got, expected=expected, witness=wit))
        return bool(cond)

    def implies(self, a, b, obligation, what, where=""):
        self.n += 1
        bad = possible(AND(a, NOT(b)))
        if bad is not FALSE:
            self.findings.append(dict(obligation=obligation, what=what, where=where, witness=witness(bad)))

    def out(self):
        return dict(name=self.name, obligations=self.n, findings=self.findings, undecided=self.undecided, analysed=self.analysed, tags=[])


PKG = "HyperHDG.import_cxx."


def conf_object(it, fields):
    cls = it.load(PKG + "config").env["config"]
    o = it.call(cls, [], {})
    for k, v in fields.items():
        if isinstance(v, list):
            v = it.new("list", tuple(v))
        it.setattr(o, k, v)
    return o


def run_include(it, conf):
    """analyse one import; returns a Result with the events of this import"""
    r = Result()
    k = len(it.events)
    g0, exc0 = it.g, it.exc
    it.g, it.exc = TRUE, []
    inc = it.load(PKG + "include").env["include"]
    r.value = it.call(inc, [conf], {})
    r.ok = it.g
    r.exc = OR(*[g for g, e in it.exc]) if it.exc else FALSE
    r.excs = it.exc
    r.events = it.events[k:]
    it.g, it.exc = g0, exc0
    return r


def fresh(repo, tree=None):
    pyai.BDD.table.clear()
    pyai.BDD.names.clear()
    pyai.BDD.index.clear()
    pyai._ite.clear()
    return Interp(World(repo, tree))


def deps(w, files):
    """transitive HyperHDG includes, independent of the analysed code"""
    seen, todo = [], list(files)
    while todo:
        x = todo.pop(0)
        p = ROOT + "/include/" + x
        if p not in w.static:
            p = ROOT + "/" + x
        if p in seen:
            continue
        seen.append(p)
        for m in re.finditer(r'^[ \t]*#[ \t]*include[ \t]*[<"](HyperHDG/[^>"]+)[>"]', w.static.get(p, ""), re.M):
            if ROOT + "/include/" + m.group(1) in w.static:
                todo.append(m.group(1))
    return seen


def header_of(w, folder, cls):
    for p, t in sorted(w.static.items()):
        if p.startswith(ROOT + "/include/HyperHDG/" + folder + "/") and p.count("/") == (ROOT + "/include/HyperHDG/x/y").count("/"):
            if re.search(r'^(class|struct)\s+' + re.escape(cls) + r'\s*\n\{', t, re.M):
                return p[len(ROOT + "/include/"):]
    return None


def classname(s):
    return re.split(r'[< ]', s)[0]


def snake(n):
    return re.sub(r'(?<!^)(?=[A-Z])', '_', n).lower()


def module_name(res, sp):
    names = {e[2][0] for e in res.events if e[1] == "import"}
    sp.ok(len(names) == 1 and all(isinstance(x, str) for x in names), "one module is imported", "imports %s" % sorted(map(str, names)))
    return next(iter(names)) if len(names) == 1 else None


def check_decision(sp, it, fields):
    """recompilation decision, failures and the import of one configuration"""
    w = it.w
    conf = conf_object(it, fields)
    res = run_include(it, conf)
    name = module_name(res, sp)
    if name is None:
        return
    where = "import/HyperHDG/import_cxx"
    so = ROOT + "/build/shared_objects/%s.so" % name
    headers = [header_of(w, FOLDER[k], classname(fields[k])) for k in FOLDER]
    user = [x for x in fields.get("include_files", []) if ".hxx" in x]
    d = deps(w, [h for h in headers if h] + user)
    loop = snake(fields["global_loop"])
    srcs = [ROOT + "/cython/%s.%s" % (loop, e) for e in ("pyx", "pxd", "cfg")]
    scripts = sorted(p for p in w.static if p.startswith(ROOT + "/import/HyperHDG/import_cxx/") and p.endswith(".py"))
    other = [PYDIR + "/Python.h", ROOT + "/build/cmake_cython.cfg"]
    ev = {"cython": FALSE, "compile": FALSE, "link": FALSE, "import": FALSE}
    good = {k: atom("0 == status('%s')" % k) for k in ("cython", "compile", "link")}
    for k in good:
        x = it.equal(Sym("status", k), 0)
        good[k] = x
    for g, k, data, wh in res.events:
        if k == "system":
            kk = kindof(data[0])
            sp.ok(kk in ev, "only the three build commands are run", "runs %s" % show(data[0]), where)
            if kk in ev:
                ev[kk] = OR(ev[kk], g)
        elif k == "import":
            ev["import"] = OR(ev["import"], g)
    log = atom("isfile(%s)" % show(ROOT + "/build/cython_log.txt"))
    versions = [atom(n) for n in pyai.BDD.index if "content(%s/build/cython_log.txt)" % ROOT in n]
    logok = OR(NOT(log), *versions)
    sp.ok(len(versions) > 0, "the Python version of the build directory is compared", "is never read", where)
    if len(versions) == 1:
        sp.implies(AND(log, NOT(versions[0])), res.exc, "a build directory of another Python version is refused", "is used", where)
    sane = AND(logok, *good.values())
    cfg = atom("isfile(%s/build/cmake_cython.cfg)" % ROOT)
    sane_cfg = AND(sane, cfg)
    # a sane environment never fails, and the requested class is returned
    sp.implies(sane_cfg, res.ok, "import succeeds", "raises although everything is in place: %s" % ", ".join(sorted({e.name for g, e in res.excs})), where)
    sp.implies(res.ok, ev["import"], "module is imported", "returns without importing the module", where)
    vals = it.cases(res.value, res.ok)
    sp.ok(all(isinstance(v, Sym) and v.op == "class" and v.args[0] == name for g, v in vals), "the class of the module is returned",
          "returns something else", where, got=str([v for g, v in vals])[:200])
    # commands: each failure raises before the import
    order = [kindof(x[2][0]) if x[1] == "system" else "import" for x in res.events if x[1] in ("system", "import")]
    sp.ok([k for i, k in enumerate(order) if k not in order[:i]] in (["cython", "compile", "link", "import"],), "order of the build steps",
          "runs %s" % order, where)
    for k in good:
        sp.implies(AND(ev[k], NOT(good[k])), res.exc, "a failing %s step raises" % k, "the step fails and the import goes on", where)
    sp.implies(AND(ev["compile"]), AND(ev["cython"], good["cython"]), "compile only after cython", "compiles without translated source", where)
    sp.implies(AND(ev["link"]), AND(ev["compile"], good["compile"]), "link only after compile", "links without object file", where)
    # decision
    exists = atom("isfile(%s)" % so)
    reasons = [NOT(exists)]
    for f in d + srcs + scripts + other:
        m = older(so, f)
        if f.startswith(ROOT + "/build/"):
            m = AND(m, atom("isfile(%s)" % f))
        sp.implies(AND(sane_cfg, exists, m), ev["link"], "recompiled if %s is newer" % osp.relpath(f, ROOT) if f.startswith(ROOT) else "recompiled if Python.h is newer",
                   "an outdated module is imported", where)
        reasons += [m, NOT(older(f, so))]
    sp.implies(AND(sane_cfg, NOT(exists)), ev["link"], "compiled if there is no module", "nothing to import", where)
    hxx = ROOT + "/build/cython_files/%s.hxx" % name
    if fields.get("cpp_code"):
        sp.implies(AND(sane_cfg, ev["link"]), atom_true(it, w, hxx, fields["cpp_code"]), "own code is written before compiling",
                   "compiles other code than given", where)
        same = it.equal(w.base(hxx), fields["cpp_code"])
        reasons += [NOT(same), NOT(atom("isfile(%s)" % hxx)), older(so, hxx), NOT(older(hxx, so))]
    for q in sorted({p for p in w.static if p.startswith(ROOT + "/import/")}):
        reasons += [older(so, q), NOT(older(q, so))]
    for n in list(pyai.BDD.index):  # directories of the scripts, other outputs
        m = re.fullmatch(re.escape(so) + r' older than (%s/import/\S*)' % ROOT, n)
        if m and m.group(1) not in w.static:
            reasons.append(atom(n))
    sp.implies(AND(sane_cfg, ev["link"]), OR(*reasons), "not recompiled without reason", "compiles although nothing changed", where)
    sp.analysed.update(it.analysed)
    return name, res


def atom_true(it, w, path, want):
    r = FALSE
    for c, v in it.cases(w.content(it, path), TRUE):
        r = OR(r, AND(c, it.truth(it.equal(v, want))))
    return r


def check_sources(sp, it, fields, res=None, label=""):
    w = it.w
    if res is None:
        res = run_include(it, conf_object(it, fields))
    name = module_name(res, sp)
    if name is None:
        return
    where = "import/HyperHDG/import_cxx"
    loop = snake(fields["global_loop"])
    cpp = "GlobalLoop::%s<Topology::%s,Geometry::%s,NodeDescriptor::%s,LocalSolver::%s>" % tuple(
        fields[k] for k in ("global_loop", "topology", "geometry", "node_descriptor", "local_solver"))
    nospace = lambda s: re.sub(r'\s', '', s)
    link = OR(*[g for g, k, dt, wh in res.events if k == "system" and kindof(dt[0]) == "link"]) if res.events else FALSE
    cfgtxt = w.parse(w.static[ROOT + "/cython/%s.cfg" % loop])
    repl = []
    given = fields.get("cython_replacements", [])
    for i in range(int(cfgtxt["default"]["n_replacements"])):
        repl.append(given[i] if i < len(given) and given[i] != "" else cfgtxt["default"].get("replacement%02d" % (i + 1)))
    incs = [header_of(w, FOLDER[k], classname(fields[k])) for k in FOLDER] + list(fields.get("include_files", []))
    if fields.get("cpp_code"):
        incs.append(ROOT + "/build/cython_files/%s.hxx" % name)
    incs = {osp.normpath(x) for x in incs}
    holes = r'C\+\+ClassName|CythonClassName|PythonClassName|IncludeFiles|CyReplace\d\d'
    seen = {}
    for ext in ("pyx", "pxd"):
        tmpl = w.static[ROOT + "/cython/%s.%s" % (loop, ext)]
        path = ROOT + "/build/cython_files/%s.%s" % (name, ext)
        cs = [(AND(c, link), v) for c, v in it.cases(w.content(it, path), TRUE)]
        cs = [(c, v) for c, v in cs if c is not FALSE]
        sp.ok(len(cs) >= 1 and all(isinstance(v, str) for c, v in cs), label + "generated %s" % ext, "is not written", where)
        rx, pos, grp = "", 0, {}
        for m in re.finditer(holes, tmpl):
            rx += re.escape(tmpl[pos:m.start()])
            h = re.sub(r'\W', 'p', m.group(0))
            if h in grp:
                rx += "(?P=%s)" % h
            else:
                grp[h] = m.group(0)
                rx += "(?P<%s>.*?)" % h
            pos = m.end()
        rx += re.escape(tmpl[pos:])
        for c, v in cs:
            m = re.fullmatch(rx, v, re.S)
            sp.ok(m is not None, label + "generated %s follows its template" % ext, "text differs from the template", where, got=show(v)[:300])
            if m is None:
                continue
            for h, orig in grp.items():
                t = m.group(h)
                if orig == "IncludeFiles":
                    ls = [x.strip() for x in t.splitlines() if x.strip()]
                    fs = [re.fullmatch(r'cdef extern from "<?([^">]+)>?"\s*:\s*pass', x) for x in ls]
                    sp.ok(all(fs), label + "include declarations", "unexpected line", where, got=t[:300])
                    got = [osp.normpath(x.group(1)) for x in fs if x]
                    sp.ok(set(got) == incs, label + "included headers", "differ", where, got=sorted(set(got) - incs), expected=sorted(incs - set(got)))
                    if fields.get("cpp_code") and got:
                        sp.ok(got[-1] == osp.normpath(ROOT + "/build/cython_files/%s.hxx" % name), label + "own code is included last",
                              "library headers follow it", where, got=got)
                    continue
                if orig == "C++ClassName":
                    sp.ok(nospace(t) == '"' + nospace(cpp) + '"', label + "C++ class", "another class is wrapped", where, got=show(t), expected=cpp)
                    continue
                if orig.startswith("CyReplace"):
                    k = int(orig[-2:]) - 1
                    sp.ok(k < len(repl) and t == repl[k], label + orig, "type differs", where, got=show(t), expected=repl[k] if k < len(repl) else None)
                    continue
                if orig == "PythonClassName":
                    sp.ok(t == name, label + "name of the Python class", "differs from the module", where, got=show(t), expected=name)
                sp.ok(seen.setdefault(orig, t) == t, label + orig + " is the same in both files", "differs", where)
    if "CythonClassName" in seen and "PythonClassName" in seen:
        sp.ok(seen["CythonClassName"] != seen["PythonClassName"], label + "C++ and Python class have different names", "same name", where)
    # commands
    cfg = atom("isfile(%s/build/cmake_cython.cfg)" % ROOT)
    for g, k, data, wh in res.events:
        if k != "system":
            continue
        kk, c = kindof(data[0]), data[0]
        cd = re.match(r'\s*cd\s+([^;&]+?)\s*(?:;|&&)\s*(.*)', c, re.S)
        cwd, rest = (osp.normpath(cd.group(1)), cd.group(2)) if cd else ("/cwd", c)
        toks = rest.split()
        full = [osp.normpath(osp.join(cwd, t)) for t in toks]
        want = {"cython": [name + ".pyx"], "compile": [name + ".cpp", name + ".o"], "link": [name + ".o"]}.get(kk, [])
        for f in want:
            sp.ok(ROOT + "/build/cython_files/" + f in full, label + "%s uses %s" % (kk, f.replace(name, "NAME")), "not found in the command", where, got=show(c))
        if kk == "link":
            sp.ok(ROOT + "/build/shared_objects/" + name + ".so" in full, label + "link writes the module", "not found", where, got=show(c))
        if AND(g, cfg) is not FALSE and implies(g, cfg):
            pass
        need = {"cython": ["cython command", "cython flags"], "compile": ["compile command", "include directories", "compile flags"],
                "link": ["link command", "link flags", "link libraries"]}.get(kk, [])
        if implies(g, cfg) or any(text(n) in c for n in need):
            for n in need:
                sp.ok(text(n) in c, label + "%s uses the configured %s" % (kk, n), "missing", where, got=show(c))
                sp.ok(text(n) not in c or text(n) in toks, label + "%s has the configured %s as words of its own" % (kk, n),
                      "runs into its neighbours", where, got=show(c))
            prog = {"cython": "cython command", "compile": "compile command", "link": "link command"}.get(kk)
            if prog and toks:
                sp.ok(toks[0] == text(prog), label + "%s runs the configured program" % kk, "runs another program", where, got=show(c))
        if kk == "compile":
            deb = bool(fields.get("debug_mode"))
            sp.ok(("-DNDEBUG" in toks) == (not deb), label + "assertions are compiled in exactly in debug mode", "debug_mode=%s" % deb, where, got=show(c))
            sp.ok(bool(re.search(r'-std=(gnu|c)\+\+2[0-9]', c)), label + "language standard", "missing", where, got=show(c))
    sp.analysed.update(it.analysed)
    return name


def variants():
    v = [("base", BASE)]
    for k, x in dict(global_loop="Parabolic", local_solver="BilaplacianUniform<1,2,4>", topology="File<1,3>", geometry="File<1,3>",
                     node_descriptor="File<1,3>", debug_mode=False).items():
        v.append((k, dict(BASE, **{k: x})))
    v.append(("cython_replacements", dict(BASE, cython_replacements=["string", "string", "float", "vector[double]"])))
    v.append(("include_files", dict(BASE, include_files=["params/a.hxx"])))
    v.append(("include_files of other name", dict(BASE, include_files=["params/b.hxx"])))
    v.append(("cpp_code", dict(BASE, cpp_code="#define OWN\n" + text("own code"))))
    v.append(("other cpp_code", dict(BASE, cpp_code="#define OWN\n" + text("other own code"))))
    return v


def tree():
    """a small source tree: a cycle, a diamond, a file of the user"""
    t = {"include/HyperHDG/dense_la.hxx": "#pragma once\n#include <HyperHDG/hy_assert.hxx>\n#include <cmath>\n",
         "include/HyperHDG/hy_assert.hxx": "#pragma once\n#include <string>\n",
         "include/HyperHDG/deep/a.hxx": "#include <HyperHDG/deep/b.hxx>\n", "include/HyperHDG/deep/b.hxx": "#include <HyperHDG/deep/c.hxx>\n#include <HyperHDG/hy_assert.hxx>\n",
         "include/HyperHDG/deep/c.hxx": "#include <HyperHDG/deep/a.hxx>\n", "include/HyperHDG/unused.hxx": "\n",
         "include/HyperHDG/params_dep.hxx": "\n",
         "params/a.hxx": "#pragma once\n#include <HyperHDG/params_dep.hxx>\n", "params/b.hxx": "#pragma once\n"}

    def cls(folder, file, name, inc, kind="class"):
        t["include/HyperHDG/%s/%s.hxx" % (folder, file)] = "#pragma once\n%s\nnamespace N\n{\ntemplate <unsigned int d>\n%s %s\n{\n  int x;\n};\n}\n" % (
            "".join("#include <HyperHDG/%s>\n" % i for i in inc), kind, name)
    for n, f in (("Elliptic", "elliptic"), ("Parabolic", "parabolic"), ("MassApproxEigenvalue", "mass_approx_eigenvalue"),
                 ("NonlinearEigenvalue", "nonlinear_eigenvalue"), ("ShiftedInverseEigenvalue", "shifted_inverse_eigenvalue")):
        cls("global_loop", f, n, ["hy_assert.hxx"])
    cls("local_solver", "diffusion", "Diffusion", ["deep/a.hxx"])
    cls("local_solver", "uniform", "DiffusionUniform", ["deep/c.hxx", "dense_la.hxx"])
    cls("local_solver", "bilaplacian", "BilaplacianUniform", ["dense_la.hxx"])
    cls("local_solver", "aggregate", "Aggregate", ["dense_la.hxx"], "struct")
    for f in ("topology", "geometry", "node_descriptor"):
        cls(f, "cubic", "UnitCube" if f == "geometry" else "Cubic", ["dense_la.hxx"])
        cls(f, "file", "File", ["dense_la.hxx"])
    return t


def guarded(sp, f):
    try:
        f()
    except Undecided as e:
        sp.undecided.append(str(e))
    except RecursionError:
        sp.undecided.append("recursion")
    except SyntaxError as e:
        sp.ok(False, "the source can be read", "syntax error: %s" % e, "%s:%s" % (e.filename, e.lineno))
    except Exception as e:  # a construct the analyser does not know: no verdict
        if os.environ.get("VF_TRACE"):
            raise
        sp.undecided.append("analyser error %s: %s" % (type(e).__name__, str(e)[:200]))


def loops(repo):
    return sorted(f[:-4] for f in os.listdir(osp.join(repo, "cython")) if f.endswith(".pyx"))


def camel(s):
    return "".join(x.capitalize() for x in s.split("_"))


def decision(repo, tier):
    """P26"""
    sp = Spec("import decision")
    for n, fields in variants():
        guarded(sp, lambda: check_decision(sp, fresh(repo, tree()), fields))
    for l in loops(repo):
        guarded(sp, lambda: check_decision(sp, fresh(repo, tree()), dict(BASE, global_loop=camel(l))))
    # the headers of the library itself
    w = World(repo)
    seen = []
    for p, t in sorted(w.static.items()):
        m = re.fullmatch(ROOT + r'/include/HyperHDG/local_solver/\w+\.hxx', p)
        for c in re.findall(r'^class (\w+)\n\{', t, re.M) if m else []:
            if c not in seen and c != "Template":
                seen.append(c)
    for c in seen:
        guarded(sp, lambda: check_decision(sp, fresh(repo), dict(BASE, local_solver="%s<1,1,2>" % c)))
    # own code: another code means another module, or a compilation
    guarded(sp, lambda: own_code(sp, repo))
    guarded(sp, lambda: again(sp, repo, True))
    guarded(sp, lambda: again(sp, repo, False))
    for maj, mi in ((3, 11), (3, 13), (2, 12), (4, 12), (2, 7), (3, 1)):
        guarded(sp, lambda: other_python(sp, repo, maj, mi))
    return sp.out()


def again(sp, repo, same):
    """two imports, one after the other, by the same Python version or by another one"""
    it = fresh(repo, tree())
    a = run_include(it, conf_object(it, BASE))
    if not same:
        it.w.python(13)
    b = run_include(it, conf_object(it, BASE))
    where = "import/HyperHDG/import_cxx/include.py: include"
    cfg = atom("isfile(%s/build/cmake_cython.cfg)" % ROOT)
    if same:
        sp.implies(AND(a.ok, cfg), b.ok, "an import can be repeated", "the second one raises: %s" % ", ".join(sorted({e.name for g, e in b.excs})), where)
    else:
        for c, n in ((cfg, "with"), (NOT(cfg), "without")):
            new = NOT(atom("isfile(%s)" % show(ROOT + "/build/cython_log.txt")))
            sp.implies(AND(a.ok, c, new), b.exc, "a build directory used by Python 3.12 is refused by 3.13 (%s CMake settings)" % n, "it is used", where)


def other_python(sp, repo, maj, mi):
    """settings of a build directory that CMake made for another Python version"""
    it = fresh(repo, tree())
    it.w.cfgtext = it.w.cfgtext.replace("ver_maj = 3\nver_min = 12\n", "ver_maj = %d\nver_min = %d\n" % (maj, mi))
    res = run_include(it, conf_object(it, BASE))
    where = "import/HyperHDG/import_cxx/cmake.py"
    cfg = atom("isfile(%s/build/cmake_cython.cfg)" % ROOT)
    sp.implies(cfg, res.exc, "CMake settings of Python %d.%d are refused by Python 3.12" % (maj, mi), "they are used", where)
    for g, k, data, wh in res.events:
        if k in ("system", "import"):
            sp.implies(g, NOT(cfg), "nothing is run with CMake settings of Python %d.%d" % (maj, mi), "%s before the version is compared" % k, where)


def own_code(sp, repo):
    names = {}
    for n, f in variants():
        it = fresh(repo, tree())
        res = run_include(it, conf_object(it, f))
        nm = module_name(res, sp)
        for m, k in names.items():
            if k == nm:
                # the same module serves two configurations: it must be compiled whenever the other one may have been the last
                hxx = ROOT + "/build/cython_files/%s.hxx" % nm
                ok = False
                sp.ok(ok, "configurations that differ in %s (against %s) have different modules" % (n, m),
                      "the module compiled for the one is imported for the other", "import/HyperHDG/import_cxx/names.py: files")
        names[n] = nm
    it = fresh(repo, tree())
    a = module_name(run_include(it, conf_object(it, BASE)), sp)
    b = module_name(run_include(it, conf_object(it, BASE)), sp)
    sp.ok(a == b, "the same configuration has the same module", "a module is never found again", "import/HyperHDG/import_cxx/names.py: files")


def no_default(sp, it, fields):
    res = run_include(it, conf_object(it, fields))
    label = "types %s, without default for a missing one, " % fields["cython_replacements"]
    sp.ok(res.ok is FALSE, label + "are refused", "are accepted", "import/HyperHDG/import_cxx/config.py: generate_cy_replace")
    sp.ok(not [e for e in res.events if e[1] in ("system", "import")], label + "start no compilation", "commands before the refusal",
          "import/HyperHDG/import_cxx/include.py: include")


def sources(repo, tier):
    """P27"""
    sp = Spec("generated sources")
    w0 = World(repo, tree())
    for n, fields in variants():
        guarded(sp, lambda: check_sources(sp, fresh(repo, tree()), fields))
    for l in loops(repo):
        cfg = w0.parse(w0.static[ROOT + "/cython/%s.cfg" % l])["default"]
        n = int(cfg["n_replacements"])
        has = ["replacement%02d" % (i + 1) in cfg for i in range(n)]
        for given in itertools.product((0, 1, 2), repeat=n):  # absent or empty, type A, type B
            rep = ["" if k == 0 else "type%d%s" % (i, "AB"[k - 1]) for i, k in enumerate(given)]
            if any(k == 2 for k in given) and tier == "quick" and given.count(2) != 1:
                continue
            while rep and rep[-1] == "" and sum(given) % 2:
                rep.pop()
            fields = dict(BASE, global_loop=camel(l), cython_replacements=rep)
            if all(k or h for k, h in zip(given, has)):
                guarded(sp, lambda: check_sources(sp, fresh(repo, tree()), fields))
            elif l == "elliptic" or tier != "quick":
                guarded(sp, lambda: no_default(sp, fresh(repo, tree()), fields))
    w = World(repo)
    for p, t in sorted(w.static.items()):
        m = re.fullmatch(ROOT + r'/include/HyperHDG/(local_solver|topology|geometry|node_descriptor|global_loop)/\w+\.hxx', p)
        for c in re.findall(r'^class (\w+)\n\{', t, re.M) if m else []:
            if m.group(1) == "global_loop" and ROOT + "/cython/%s.pyx" % snake(c) not in w.static:
                continue
            guarded(sp, lambda: check_sources(sp, fresh(repo), dict(BASE, **{m.group(1): c + ("" if m.group(1) == "global_loop" else "<1,2>")})))
    guarded(sp, lambda: check_sources(sp, fresh(repo, tree()), dict(BASE, local_solver="Aggregate<1>")))

    # successive imports do not influence each other
    def successive():
        it = fresh(repo, tree())
        base = {k: v for k, v in BASE.items()}
        for i, ls in enumerate(("Diffusion<1,2>", "BilaplacianUniform<1,3>", "Diffusion<1,2>")):
            f = dict(base, local_solver=ls)
            res = run_include(it, conf_object(it, f))
            check_sources(sp, it, f, res, "import %d: " % (i + 1))
    guarded(sp, successive)

    def reused():
        it = fresh(repo, tree())
        conf = conf_object(it, dict(BASE, include_files=["params/a.hxx"]))
        for i, ls in enumerate(("Diffusion<1,2>", "BilaplacianUniform<1,3>", "DiffusionUniform<1,2>")):
            it.setattr(conf, "local_solver", ls)
            res = run_include(it, conf)
            check_sources(sp, it, dict(BASE, local_solver=ls, include_files=["params/a.hxx"]), res, "reused configuration, import %d: " % (i + 1))
    guarded(sp, reused)

    # incomplete or mistyped configurations are refused before anything happens
    def refused(k, v):
        it = fresh(repo, tree())
        f = dict(BASE)
        conf = conf_object(it, f)
        it.setattr(conf, k, it.new("list", (1,)) if v == "list" else v)
        res = run_include(it, conf)
        sp.ok(res.ok is FALSE, "configuration with %s = %r is refused" % (k, v), "is accepted", "import/HyperHDG/import_cxx/config.py: consistent")
        sp.ok(not [e for e in res.events if e[1] in ("system", "import", "write")], "configuration with %s = %r has no effect" % (k, v),
              "files or commands before the refusal", "import/HyperHDG/import_cxx/include.py: include")
    for k in ("global_loop", "local_solver", "topology", "geometry", "node_descriptor"):
        guarded(sp, lambda: refused(k, ""))
        guarded(sp, lambda: refused(k, 3))
    for k, v in (("cpp_code", 3), ("cpp_code", None), ("debug_mode", 1), ("debug_mode", "True"), ("cython_replacements", "list"),
                 ("cython_replacements", "x"), ("include_files", "list"), ("include_files", "x.hxx")):
        guarded(sp, lambda: refused(k, v))
    return sp.out()


if __name__ == "__main__":
    import sys
    import json
    repo = sys.argv[1] if len(sys.argv) > 1 else "/repo"
    for f in (decision, sources):
        r = f(repo, "quick")
        print(r["name"], r["obligations"], "findings", len(r["findings"]), "undecided", r["undecided"][:5])
        for x in r["findings"][:int(os.environ.get("NF","12"))]:
            print("  ", {k: v for k, v in x.items() if v})
