"""Gated value-flow analysis on LLVM IR.

A forward abstract interpretation of one entry function (a *specification unit* of /verif/harness
that instantiates templates of /repo):

* numeric SSA values and memory cells hold value numbers in polynomial normal form (poly.py);
* calls are analysed context-sensitively; loops whose controlling condition is a compile-time
  constant of the instantiation are analysed per iteration (polyvariance), all other branches are
  analysed once per arm and the abstract states are JOINED at the immediate postdominator with a
  gate (no path enumeration, no solver);
* opaque functions (inputs, LAPACK, quadrature, streams) are uninterpreted functions or effects.

The analysis raises Undecided when it meets something it cannot represent; it never guesses.
"""
import os
import re
import subprocess
import sys
from fractions import Fraction

import ir
import poly
from poly import Poly, add, sub, mul, neg, ite, const_of

sys.setrecursionlimit(200000)
REPO = os.environ.get('VERIF_REPO', '/repo').rstrip('/') + '/include'


class Undecided(Exception):
    pass


class Ptr:
    __slots__ = ("o", "off")

    def __init__(self, o, off=0):
        self.o = o
        self.off = off

    def __eq__(self, x):
        return isinstance(x, Ptr) and self.o == x.o and self.off == x.off

    def __hash__(self):
        return hash((self.o, self.off))

    def __repr__(self):
        return "Ptr(%s+%s)" % (self.o, self.off)


NULL = Ptr(0, 0)


class PIte:
    """Pointer that depends on a condition."""
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __eq__(self, x):
        return isinstance(x, PIte) and (self.c, self.a, self.b) == (x.c, x.a, x.b)

    def __hash__(self):
        return hash((self.c, self.a, self.b))

    def __repr__(self):
        return "PIte(%s,%s,%s)" % (self.c, self.a, self.b)


class Cat:
    """Adjacent memory cells read as one scalar."""
    __slots__ = ("parts", "size")

    def __init__(self, parts, size):
        self.parts = tuple(parts)
        self.size = size

    def __eq__(self, x):
        return isinstance(x, Cat) and self.parts == x.parts and self.size == x.size

    def __hash__(self):
        return hash((self.parts, self.size))

    def __repr__(self):
        return "Cat%s" % (self.parts,)


class Undef:
    __slots__ = ("why",)

    def __init__(self, why=""):
        self.why = why

    def __repr__(self):
        return "undef(%s)" % self.why

    def __eq__(self, x):
        return isinstance(x, Undef)

    def __hash__(self):
        return 17


UNDEF = Undef()


class Obj:
    __slots__ = ("id", "name", "size", "kind", "cells", "fills", "log", "freed", "lazy", "const", "aux",
                 "site")

    def __init__(self, id_, name, size, kind):
        self.id = id_
        self.name = name
        self.size = size
        self.kind = kind
        self.cells = {}
        self.fills = []
        self.log = None
        self.freed = None
        self.lazy = None
        self.const = False
        self.aux = None
        self.site = None

    def copy(self):
        o = Obj(self.id, self.name, self.size, self.kind)
        o.cells = dict(self.cells)
        o.fills = list(self.fills)
        o.log = list(self.log) if self.log is not None else None
        o.freed = self.freed
        o.lazy = self.lazy
        o.const = self.const
        o.aux = self.aux
        o.site = self.site
        return o


class State:
    __slots__ = ("mem", "own", "known", "pc", "ev", "abst", "excstack")

    def __init__(self):
        self.mem = {}
        self.own = set()
        self.known = {}
        self.pc = 1
        self.ev = ()      # linked list of events: (prev, event)
        self.abst = {}    # abstract library objects: (obj, off) -> immutable python value
        self.excstack = ()

    def fork(self):
        s = State()
        s.mem = dict(self.mem)
        s.own = set()
        self.own = set()
        s.known = dict(self.known)
        s.pc = self.pc
        s.ev = self.ev
        s.abst = dict(self.abst)
        s.excstack = self.excstack
        return s

    def wr(self, oid):
        o = self.mem[oid]
        if oid not in self.own:
            o = o.copy()
            self.mem[oid] = o
            self.own.add(oid)
        return o

    def event(self, e):
        self.ev = (self.ev, e)

    def events(self):
        out = []
        x = self.ev
        while x:
            out.append(x[1])
            x = x[0]
        out.reverse()
        return out

    def assume(self, c, val):
        """Record that condition c has truth value val on this branch."""
        if not isinstance(c, Poly):
            return
        q = c if val else sub(1, c)
        # q == 1 here
        self.pc = mul(self.pc, q)
        self._learn(c, val)

    def _learn(self, c, val):
        t = c.t
        if len(t) == 1:
            (m, k), = t.items()
            if k == 1:
                if val:
                    for a, _ in m:
                        self.known[a] = 1
                elif len(m) == 1:
                    self.known[m[0][0]] = 0
        elif len(t) == 2 and t.get(()) == 1:
            (m, k), = [(m, k) for m, k in t.items() if m != ()]
            if k == -1:
                if not val:
                    for a, _ in m:
                        self.known[a] = 1
                elif len(m) == 1:
                    self.known[m[0][0]] = 0
        elif not val and all(k > 0 for k in t.values()):
            for m in t:
                if len(m) == 1:
                    self.known[m[0][0]] = 0


class Env:
    __slots__ = ("d", "par")

    def __init__(self, d, par=None):
        self.d = d
        self.par = par

    def get(self, n):
        v = self.d.get(n, self)
        if v is not self:
            return v
        if self.par is None:
            return UNDEF
        c, e1, e2 = self.par
        v1, v2 = e1.get(n), e2.get(n)
        v = v1 if (v1 is v2) else vite(c, v1, v2)
        self.d[n] = v
        return v

    def copy(self):
        return Env(dict(self.d), self.par)


def vite(c, a, b):
    """Gated join of arbitrary values."""
    if a is b:
        return a
    if not isinstance(c, Poly):
        return a if c else b
    if isinstance(a, Undef):
        return b
    if isinstance(b, Undef):
        return a
    pa, pb = isinstance(a, (Ptr, PIte)), isinstance(b, (Ptr, PIte))
    if pa or pb:
        if not pa:
            a = as_ptr(a)
        if not pb:
            b = as_ptr(b)
        if a == b:
            return a
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o:
            return Ptr(a.o, ite(c, a.off, b.off))
        return PIte(c, a, b)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(vite(c, x, y) for x, y in zip(a, b))
    if isinstance(a, Cat) or isinstance(b, Cat):
        if a == b:
            return a
        if isinstance(a, Cat) and isinstance(b, Cat) and \
                [p[:2] for p in a.parts] == [p[:2] for p in b.parts]:
            return Cat([(p[0], p[1], vite(c, p[2], q[2])) for p, q in zip(a.parts, b.parts)], a.size)
        if isinstance(a, Cat) and b == 0:
            return Cat([(p[0], p[1], vite(c, p[2], 0)) for p in a.parts], a.size)
        if isinstance(b, Cat) and a == 0:
            return Cat([(p[0], p[1], vite(c, 0, p[2])) for p in b.parts], b.size)
        raise Undecided("join of split values")
    return ite(c, a, b)


def as_ptr(v):
    if isinstance(v, (Ptr, PIte)):
        return v
    if isinstance(v, Undef):
        return v
    if v == 0:
        return NULL
    if isinstance(v, Poly):
        # address arithmetic that went through integers: addr(obj) + off
        for m, c in v.t.items():
            if len(m) == 1 and m[0][1] == 1 and c == 1:
                k = poly.ATOMS[m[0][0]].key
                if isinstance(k, tuple) and k[0] == "addr":
                    return Ptr(k[1], sub(v, Poly({m: 1})))
    raise Undecided("integer used as pointer: %r" % (v,))


def ptr_int(p):
    if isinstance(p, PIte):
        return ite(p.c, ptr_int(p.a), ptr_int(p.b))
    if p.o == 0:
        return p.off
    return add(poly.from_atom(poly.atom(("addr", p.o), nonneg=True, name="addr(%d)" % p.o)), p.off)


class Res:
    """Outcome of analysing a region: normal flow to the stop block, return, exceptional exits."""
    __slots__ = ("flow", "ret")

    def __init__(self):
        self.flow = None  # (pred, env, state, cond)
        self.ret = None   # (state, value, cond)


class Exc:
    __slots__ = ("ptr", "ti")

    def __init__(self, ptr, ti):
        self.ptr = ptr
        self.ti = ti


class Exits:
    """Exceptional exits gathered while analysing a call: exceptions and aborts."""
    __slots__ = ("excs", "aborts")

    def __init__(self):
        self.excs = []    # (cond, state, Exc)
        self.aborts = []  # (cond, kind, loc, state)


_MASK = {}


def mask(w):
    m = _MASK.get(w)
    if m is None:
        m = _MASK[w] = (1 << w) - 1
    return m


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


class Finding:
    def __init__(self, tag, what, got=None, want=None, loc=None, cex=None, func=None):
        self.tag, self.what, self.got, self.want, self.loc, self.cex = tag, what, got, want, loc, cex
        self.func = func

    def as_dict(self):
        return {"obligation": self.tag, "what": self.what, "got": self.got, "expected": self.want,
                "where": self.loc, "witness": self.cex, "unit": self.func}


class Engine:
    MAX_STEPS = 30_000_000

    def __init__(self, module, opts=None):
        self.m = module
        self.opts = opts or {}
        self.demangle()
        self.nobj = 0
        self.names = {}
        self.gobj = {}
        self.steps = 0
        self.findings = []
        self.obligations = []
        self.visited = {}
        self.repo_funcs = {}
        self.stack = []
        self.fail_at = None
        self.abort_expect = None
        self.typeids = {}
        self.outputs = {}
        import models
        self.models = models.Models(self)
        self._fcache = {}
        self._active = {}
        self.exc_tab = {}
        self.unit = None

    # ---------------------------------------------------------------------------------------------
    def demangle(self):
        if not hasattr(self.m, "tinames"):
            self.demangle_module(self.m)
        self.tinames = dict(self.m.tinames)

    @staticmethod
    def demangle_module(m):
        names = [n for n in m.funcs]
        raw = [n[1:].strip('"') for n in names]
        out = subprocess.run(["c++filt"], input="\n".join(raw), capture_output=True, text=True,
                             check=True).stdout.split("\n")
        for n, d in zip(names, out):
            m.funcs[n].demangled = d
        tin = [n for n in m.globals if n.startswith("@_ZTI")]
        out = subprocess.run(["c++filt"], input="\n".join(n[1:] for n in tin), capture_output=True,
                             text=True, check=True).stdout.split("\n")
        m.tinames = {n: d.replace("typeinfo for ", "") for n, d in zip(tin, out)}

    def check_leaks(self):
        """Heap blocks that are still allocated when the unit ends (units keep nothing)."""
        st = self.last_state
        if st is None:
            return
        self.obligations.append((self.unit, "no-leak"))
        for o in st.mem.values():
            if o.kind == 'heap' and not o.freed:
                self.findings.append(Finding("memory-safety", "allocated memory is never released", None, None, o.site, None, self.unit))

    # objects ---------------------------------------------------------------------------------------
    def new_obj(self, st, name, size, kind):
        self.nobj += 1
        o = Obj(self.nobj, name, size, kind)
        st.mem[o.id] = o
        st.own.add(o.id)
        return o

    def global_obj(self, st, name):
        oid = self.gobj.get(name)
        if oid is None:
            self.nobj += 1
            oid = self.nobj
            self.gobj[name] = oid
            self.names[oid] = name
        if oid not in st.mem:
            if name in self.m.funcs:
                o = Obj(oid, name, 1, 'fn')
                st.mem[oid] = o
                return oid
            txt = self.m.globals.get(name)
            if txt is None:
                raise Undecided("unknown global %s" % name)
            m = re.match(r'(.*?)\b(global|constant|alias)\b ?(.*)$', txt)
            pre, kind, rest = m.group(1), m.group(2), m.group(3)
            if kind == 'alias':
                p = ir.P(ir.tokenize(re.sub(r', ![a-z].*| comdat.*', '', rest)), self.m)
                p.type()
                p.expect(',')
                t = p.type()
                v = p.operand(t)
                if v[0] == 'g':
                    oid2 = self.global_obj(st, v[1])
                    self.gobj[name] = oid2
                    return oid2
                raise Undecided("alias")
            rest = re.sub(r', (comdat|align|!dbg).*$', '', rest)
            p = ir.P(ir.tokenize(rest), self.m)
            t = p.type()
            o = Obj(oid, name, self.m.sizeof(t) if t != ('st', (), False) else None, 'global')
            o.const = kind == 'constant'
            st.mem[oid] = o
            st.own.add(oid)
            if 'external' in pre.split() or p.i >= len(p.t):
                o.lazy = ('extern', name)
                if name == '@__libc_single_threaded':
                    o.lazy = None
                    o.fills.append((0, 1, 1))
            else:
                init = p.operand(t)
                self.init_cells(st, o, 0, t, init)
        return oid

    def init_cells(self, st, o, off, t, op):
        r = self.m.resolve(t)
        k = op[0]
        if k == 'zero':
            o.fills.append((off, off + self.m.sizeof(t), 0))
        elif k == 'undef':
            pass
        elif k == 'cstr':
            for i, b in enumerate(op[1]):
                o.cells[off + i] = (1, b)
        elif k == 'agg':
            if r[0] == 'st':
                for i, (et, eo) in enumerate(op[1]):
                    self.init_cells(st, o, off + self.m.field_offset(t, i), et, eo)
            else:
                es = self.m.sizeof(r[2])
                for i, (et, eo) in enumerate(op[1]):
                    self.init_cells(st, o, off + i * es, et, eo)
        else:
            o.cells[off] = (self.m.sizeof(t), self.const(st, t, op))

    # operands ----------------------------------------------------------------------------------------
    def const(self, st, t, op):
        k = op[0]
        if k == 'c':
            return op[1]
        if k == 'fc':
            v = op[1]
            if isinstance(v, tuple):
                return poly.from_atom(poly.atom(("fconst", v[1]), isfloat=True, name=v[1]))
            return int(v) if v.denominator == 1 else v
        if k == 'g':
            return Ptr(self.global_obj(st, op[1]), 0)
        if k == 'null':
            return NULL
        if k == 'undef':
            r = self.m.resolve(t)
            if r[0] == 'st':
                return tuple(UNDEF for _ in r[1])
            return UNDEF
        if k == 'zero':
            return self.zero(t)
        if k == 'gep':
            vals = [self.const(st, tt, o) for tt, o in op[2]]
            return self.gep(op[1], op[2], vals)
        if k == 'agg':
            return tuple(self.const(st, tt, o) for tt, o in op[1])
        if k == 'cast':
            return self.cast(op[1], op[2], self.const(st, op[2], op[3]), op[4])
        if k == 'cbin':
            (t1, o1), (t2, o2) = op[2]
            return self.binop(op[1], t1, self.const(st, t1, o1), self.const(st, t2, o2))
        if k == 'meta':
            return None
        raise Undecided("constant %r" % (op,))

    def zero(self, t):
        r = self.m.resolve(t)
        if r[0] in ('i', 'f'):
            return 0
        if r[0] == 'ptr':
            return NULL
        if r[0] == 'st':
            return tuple(self.zero(e) for e in r[1])
        if r[0] in ('arr', 'vec'):
            return tuple(self.zero(r[2]) for _ in range(r[1]))
        raise Undecided("zero of %r" % (r,))

    # memory --------------------------------------------------------------------------------------------
    def chk(self, o, off, size, what, st):
        if o.freed:
            self.report("memory-safety", "%s of released memory (%s)" % (what, o.name), st=st)
        if o.size is not None and isinstance(off, int) and isinstance(o.size, int):
            if off < 0 or off + size > o.size:
                self.report("memory-safety", "%s of %d byte(s) at offset %d outside object '%s' of %d byte(s)"
                            % (what, size, off, o.name, o.size), st=st)
                return False
        return True

    def load(self, st, p, t):
        r = self.m.resolve(t)
        p = as_ptr(p)
        if isinstance(p, PIte):
            return vite(p.c, self.load(st, p.a, t), self.load(st, p.b, t))
        if isinstance(p, Undef):
            raise Undecided("load through undefined pointer")
        if r[0] in ('st', 'arr', 'vec'):
            out = []
            if r[0] == 'st':
                for i, e in enumerate(r[1]):
                    out.append(self.load(st, Ptr(p.o, add(p.off, self.m.field_offset(t, i))), e))
            else:
                s = self.m.sizeof(r[2])
                for i in range(r[1]):
                    out.append(self.load(st, Ptr(p.o, add(p.off, i * s)), r[2]))
            return tuple(out)
        size = self.m.sizeof(t)
        if p.o == 0:
            raise Undecided("null pointer load")
        o = st.mem.get(p.o)
        if o is None:
            if p.o in self.names:
                self.global_obj(st, self.names[p.o])
                o = st.mem[p.o]
            else:
                raise Undecided("load from dead object")
        v = self.load_cell(st, o, p.off, size, r)
        if r[0] == 'ptr' and not isinstance(v, (Ptr, PIte, Undef)):
            if isinstance(v, Cat):
                raise Undecided("pointer read from split cells")
            v = as_ptr(v)
        elif r[0] == 'i' and isinstance(v, Ptr):
            v = ptr_int(v)
        return v

    def load_cell(self, st, o, off, size, r):
        off_c = off if isinstance(off, int) else const_of(off)
        if off_c is None:
            return self.load_sym(st, o, off, size, r)
        off = off_c
        if not self.chk(o, off, size, "read", st):
            return poly.from_atom(poly.atom(("oob", o.name, off), isfloat=r[0] == 'f', name="oob(%s+%d)" % (o.name, off)))
        if o.log:
            # a symbolic store may alias: resolve through the log
            return self.load_sym(st, o, off, size, r)
        return self.load_const(st, o, off, size, r)

    def load_const(self, st, o, off, size, r):
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            return c[1]
        if c is not None and c[0] > size:
            return self.part(c[1], c[0], 0, size)
        # collect overlapping cells
        parts = []
        pos = off
        end = off + size
        while pos < end:
            c = o.cells.get(pos)
            if c is not None:
                if pos + c[0] > end:
                    parts.append((pos - off, end - pos, self.part(c[1], c[0], 0, end - pos)))
                else:
                    parts.append((pos - off, c[0], c[1]))
                pos += c[0]
                continue
            # inside a bigger cell?
            found = False
            for back in range(1, 16):
                c = o.cells.get(pos - back)
                if c is not None:
                    if c[0] > back:
                        n = min(c[0] - back, end - pos)
                        parts.append((pos - off, n, self.part(c[1], c[0], back, n)))
                        pos += n
                        found = True
                    break
            if found:
                continue
            # fill or lazy or undef up to the next cell
            n = 1
            while pos + n < end and (pos + n) not in o.cells:
                n += 1
            parts.append((pos - off, n, self.background(st, o, pos, n, r if n == size else ('i', 8 * n))))
            pos += n
        if len(parts) == 1:
            return parts[0][2]
        if all(isinstance(x[2], int) for x in parts) and r[0] in ('i', 'f', 'ptr'):
            v = 0
            for po, n, x in parts:
                v |= (x & mask(8 * n)) << (8 * po)
            if r[0] == 'f' and v != 0:
                raise Undecided("float from bytes")
            return v
        if all(isinstance(x[2], Undef) for x in parts):
            return parts[0][2]
        return Cat(parts, size)

    def part(self, v, size, off, n):
        if off == 0 and n == size:
            return v
        if isinstance(v, int):
            return (v >> (8 * off)) & mask(8 * n)
        if isinstance(v, Cat):
            sub_ = []
            for po, ps, pv in v.parts:
                if po == off and ps == n:
                    return pv
                if po >= off and po + ps <= off + n:
                    sub_.append((po - off, ps, pv))
                elif po <= off and off + n <= po + ps:
                    return self.part(pv, ps, off - po, n)
            if sub_ and sum(x[1] for x in sub_) == n:
                return Cat(sub_, n)
        if isinstance(v, Undef):
            return v
        if isinstance(v, Poly) and off == 0 and poly.is_bool(v):
            return v
        if isinstance(v, Poly) and off == 0 and self.fits(v, 8 * n):
            return v
        if isinstance(v, Poly) and off > 0 and self.fits(v, 8 * off):
            return 0
        raise Undecided("partial read of a value")

    def fits(self, v, w):
        for m in v.t:
            for a, _ in m:
                if poly.ATOMS[a].isfloat or poly.ATOMS[a].bits > w:
                    return False
        return True

    def background(self, st, o, off, n, r):
        for s, e, b in reversed(o.fills):
            if s <= off and off + n <= e:
                if b == 0 or n == 1:
                    return b
                v = 0
                for i in range(n):
                    v |= b << (8 * i)
                return v
        if o.lazy:
            return self.lazy(o, off, n, r)
        return Undef("%s+%s" % (o.name, off))

    def lazy(self, o, off, n, r):
        k = o.lazy
        if k[0] == 'in':
            fl = r[0] == 'f'
            return poly.from_atom(poly.atom(("in", k[1], off, n, fl), isfloat=fl, nonneg=not fl, bits=8 * n,
                                            name="%s{%s}" % (k[1], off)))
        if k[0] == 'arr':
            # symbolic array: element size k[2], element kind k[3]
            fl = k[3] == 'f'
            idx = poly.div(off, k[2])
            if n != k[2]:
                raise Undecided("array element size")
            return poly.from_atom(poly.atom(("in", k[1], idx), isfloat=fl, nonneg=not fl, bits=8 * n,
                                            name="%s[%s]" % (k[1], poly.short(idx))))
        if k[0] == 'extern':
            return Undef("extern %s" % k[1])
        raise Undecided("lazy %r" % (k,))

    def load_sym(self, st, o, off, size, r):
        """Load at an offset that is not a constant, or from an object with non-constant stores."""
        if o.size is not None and isinstance(o.size, int) and not isinstance(off, int) and o.size <= 4096 \
                and o.log is None:
            # finite object: gate over the possible element offsets
            cand = list(range(0, o.size - size + 1, size))
            if len(cand) > 64:
                raise Undecided("symbolic index into large object")
            val = None
            for k in reversed(cand):
                v = self.load_const(st, o, k, size, r)
                if isinstance(v, Undef):
                    continue
                val = v if val is None else vite(poly.ind_eq(off, k, True), v, val)
            inr = poly.mul(poly.b_not(poly.ind_lt(off, 0, True)), poly.ind_lt(off, o.size - size + 1, True))
            inr = poly.subst_ind(inr, st.known)
            if inr != 1:
                st.event(("maybe-oob", o.name, poly.sub(1, inr), self.where()))
            return val if val is not None else Undef("sym")
        # array log
        val = None
        chain = []
        for (lo, ls, lv) in reversed(o.log or []):
            d = sub(lo, off)
            c = const_of(d)
            if c is not None:
                if c == 0 and ls == size:
                    val = lv
                    break
                if c >= size or c <= -ls:
                    continue
                raise Undecided("overlapping symbolic access")
            chain.append((poly.ind_eq(lo, off, True), lv))
        if val is None:
            if isinstance(off, int) or const_of(off) is not None:
                oc = off if isinstance(off, int) else const_of(off)
                val = self.load_const(st, o, oc, size, r)
            else:
                for co, (cs, cv) in o.cells.items():
                    e = poly.ind_eq(off, co, True)
                    if e != 0:
                        chain.append((e, cv))
                val = self.background_sym(st, o, off, size, r)
        for e, lv in reversed(chain):
            val = vite(e, lv, val)
        return val

    def background_sym(self, st, o, off, size, r):
        if o.fills and o.lazy is None:
            if all(b == 0 for _, _, b in o.fills):
                return 0
        if o.lazy:
            return self.lazy(o, off, size, r)
        return Undef("sym %s" % o.name)

    def store(self, st, p, t, v):
        r = self.m.resolve(t)
        p = as_ptr(p)
        if isinstance(p, PIte):
            # guarded store to both targets
            old = self.load(st, p.a, t)
            self.store(st, p.a, t, vite(p.c, v, old))
            old = self.load(st, p.b, t)
            self.store(st, p.b, t, vite(p.c, old, v))
            return
        if isinstance(p, Undef):
            raise Undecided("store through undefined pointer")
        if r[0] in ('st', 'arr', 'vec'):
            if isinstance(v, Undef):
                return
            if r[0] == 'st':
                for i, e in enumerate(r[1]):
                    self.store(st, Ptr(p.o, add(p.off, self.m.field_offset(t, i))), e, v[i])
            else:
                s = self.m.sizeof(r[2])
                for i in range(r[1]):
                    self.store(st, Ptr(p.o, add(p.off, i * s)), r[2], v[i])
            return
        size = self.m.sizeof(t)
        if p.o == 0:
            raise Undecided("null pointer store")
        self.store_cell(st, p.o, p.off, size, v)

    def store_cell(self, st, oid, off, size, v):
        if oid not in st.mem and oid in self.names:
            self.global_obj(st, self.names[oid])
        o = st.wr(oid)
        off_c = off if isinstance(off, int) else const_of(off)
        if o.const:
            self.report("memory-safety", "write to constant object '%s'" % o.name, st=st)
        if off_c is None:
            if o.log is None and isinstance(o.size, int) and o.size <= 4096 and o.size // size <= 64:
                # finite object: gated update of every possible element
                r = ('f', 8 * size) if poly._any_float(v) else ('i', 8 * size)
                for k in range(0, o.size - size + 1, size):
                    e = poly.ind_eq(off, k, True)
                    if e == 0:
                        continue
                    old = self.load_const(st, o, k, size, r)
                    self.put(o, k, size, vite(e, v, old))
                inr = poly.mul(poly.b_not(poly.ind_lt(off, 0, True)), poly.ind_lt(off, o.size - size + 1, True))
                inr = poly.subst_ind(inr, st.known)
                if inr != 1:
                    st.event(("maybe-oob", o.name, poly.sub(1, inr), self.where()))
                return
            if o.log is None:
                o.log = []
            o.log.append((off, size, v))
            return
        off = off_c
        if not self.chk(o, off, size, "write", st):
            return
        if o.log:
            o.log.append((off, size, v))
            return
        self.put(o, off, size, v)

    def put(self, o, off, size, v):
        cells = o.cells
        c = cells.get(off)
        if c is not None and c[0] == size:
            cells[off] = (size, v)
            return
        # split / drop overlapping cells
        for k in range(off - 15, off + size):
            c = cells.get(k)
            if c is None:
                continue
            ks, kv = c
            if k + ks <= off:
                continue
            del cells[k]
            if k < off:
                cells[k] = (off - k, self.part(kv, ks, 0, off - k))
            if k + ks > off + size:
                n = k + ks - off - size
                cells[off + size] = (n, self.part(kv, ks, off + size - k, n))
        if isinstance(v, Cat):
            for po, ps, pv in v.parts:
                cells[off + po] = (ps, pv)
            return
        cells[off] = (size, v)

    def memcpy(self, st, d, s, n):
        nc = const_of(n)
        d, s = as_ptr(d), as_ptr(s)
        if nc == 0:
            return
        if nc is None:
            raise Undecided("memcpy of non-constant size")
        if isinstance(d, PIte) or isinstance(s, PIte):
            return self.memcpy_elements(st, d, s, nc)
        if d.o == 0 or s.o == 0:
            raise Undecided("memcpy null")
        if s.o not in st.mem and s.o in self.names:
            self.global_obj(st, self.names[s.o])
        so = st.mem[s.o]
        do, dd = const_of(s.off), const_of(d.off)
        if do is None or dd is None or so.log or st.mem[d.o].log:
            return self.memcpy_elements(st, d, s, nc)
        self.chk(so, do, nc, "read", st)
        if so.log:
            raise Undecided("memcpy from symbolic array")
        # gather
        got = []
        pos = do
        end = do + nc
        cells = so.cells
        if nc <= 4 * len(cells) + 64 or so.lazy or so.fills:
            while pos < end:
                c = cells.get(pos)
                if c is not None and pos + c[0] <= end:
                    got.append((pos - do, c[0], c[1]))
                    pos += c[0]
                    continue
                nn = 1
                inb = False
                if c is not None:
                    got.append((pos - do, end - pos, self.part(c[1], c[0], 0, end - pos)))
                    break
                for back in range(1, 16):
                    c2 = cells.get(pos - back)
                    if c2 is not None:
                        if c2[0] > back:
                            k = min(c2[0] - back, end - pos)
                            got.append((pos - do, k, self.part(c2[1], c2[0], back, k)))
                            pos += k
                            inb = True
                        break
                if inb:
                    continue
                while pos + nn < end and (pos + nn) not in cells and nn < 8 and (pos + nn) % 8 != 0:
                    nn += 1
                b = self.background(st, so, pos, nn, ('i', 8 * nn)) if not (so.lazy and so.lazy[0] == 'arr') else \
                    self.lazy(so, pos, so.lazy[2], (so.lazy[3],))
                if so.lazy and so.lazy[0] == 'arr':
                    nn = so.lazy[2]
                if not isinstance(b, Undef):
                    got.append((pos - do, nn, b))
                else:
                    got.append((pos - do, nn, b))
                pos += nn
        else:
            for k, c in cells.items():
                if do <= k and k + c[0] <= end:
                    got.append((k - do, c[0], c[1]))
        o = st.wr(d.o)
        if o.const:
            self.report("memory-safety", "write to constant object '%s'" % o.name, st=st)
        if not self.chk(o, dd, nc, "write", st):
            return
        if o.log:
            raise Undecided("memcpy into symbolic array")
        for po, ps, pv in got:
            self.put(o, dd + po, ps, pv)
        ab = [(k, v) for k, v in st.abst.items() if k[0] == s.o and do <= k[1] < end]
        for k, v in ab:
            st.abst[(d.o, k[1] - do + dd)] = v

    def memcpy_elements(self, st, d, s, nc):
        """Copy at a non-constant position or through a conditional pointer, one element at a time."""
        def objs(q):
            return objs(q.a) + objs(q.b) if isinstance(q, PIte) else [q.o]
        widths, flt = set(), False
        for oid in objs(s) + objs(d):
            o = st.mem.get(oid)
            if o is None:
                raise Undecided("memcpy between unknown objects")
            for _, (cs, cv) in o.cells.items():
                widths.add(cs)
                flt = flt or poly._any_float(cv)
            for _, ls, lv in o.log or []:
                widths.add(ls)
                flt = flt or poly._any_float(lv)
            if any(k[0] == oid for k in st.abst):
                raise Undecided("memcpy of library objects at symbolic offset")
        if len(widths) != 1:
            raise Undecided("memcpy at symbolic offset")
        w = widths.pop()
        if nc % w or w not in (1, 2, 4, 8):
            raise Undecided("memcpy at symbolic offset")
        t = ('f', 8 * w) if flt and w in (4, 8) else ('i', 8 * w)
        def at(q, k):
            return PIte(q.c, at(q.a, k), at(q.b, k)) if isinstance(q, PIte) else Ptr(q.o, add(q.off, k))
        vals = [self.load(st, at(s, k), t) for k in range(0, nc, w)]
        for k, v in zip(range(0, nc, w), vals):
            self.store(st, at(d, k), t, v)

    def memset(self, st, d, val, n):
        nc, vc = const_of(n), const_of(val)
        d = as_ptr(d)
        if nc == 0:
            return
        if nc is None or vc is None or isinstance(d, PIte):
            raise Undecided("memset of non-constant size")
        dd = const_of(d.off)
        o = st.wr(d.o)
        if not self.chk(o, dd, nc, "write", st):
            return
        if o.log:
            raise Undecided("memset symbolic array")
        for k in [k for k in o.cells if k + o.cells[k][0] > dd and k < dd + nc]:
            ks, kv = o.cells.pop(k)
            if k < dd:
                o.cells[k] = (dd - k, self.part(kv, ks, 0, dd - k))
            if k + ks > dd + nc:
                m = k + ks - dd - nc
                o.cells[dd + nc] = (m, self.part(kv, ks, dd + nc - k, m))
        o.fills.append((dd, dd + nc, vc & 255))

    # joins -------------------------------------------------------------------------------------------
    def merge_state(self, c, a, b, base_known, base_pc, cond):
        """Join of states a (gate c) and b (not c)."""
        st = State()
        st.known = base_known
        st.pc = mul(base_pc, cond) if isinstance(cond, Poly) else base_pc
        ma, mb = a.mem, b.mem
        if len(ma) < len(mb):
            keys = list(mb)
        else:
            keys = list(ma)
        mem = {}
        for k in ma:
            oa = ma[k]
            ob = mb.get(k)
            if ob is None:
                mem[k] = oa
            elif oa is ob:
                mem[k] = oa
            else:
                mem[k] = self.merge_obj(st, c, oa, ob, a, b)
        for k in mb:
            if k not in ma:
                mem[k] = mb[k]
        st.mem = mem
        # events
        if a.ev is b.ev:
            st.ev = a.ev
        else:
            seen = set()
            x = a.ev
            while x:
                seen.add(id(x))
                x = x[0]
            y = b.ev
            while y and id(y) not in seen:
                y = y[0]
            ea, eb = [], []
            x = a.ev
            while x is not y and x:
                ea.append(x[1])
                x = x[0]
            x = b.ev
            while x is not y and x:
                eb.append(x[1])
                x = x[0]
            ea.reverse()
            eb.reverse()
            st.ev = y
            if ea == eb:
                for e in ea:
                    st.event(e)
            else:
                st.event(("if", c, tuple(ea), tuple(eb)))
        # abstract library objects
        st.abst = self.models.merge_abst(c, a.abst, b.abst)
        if a.excstack == b.excstack:
            st.excstack = a.excstack
        else:
            st.excstack = a.excstack if len(a.excstack) < len(b.excstack) else b.excstack
        return st

    def merge_obj(self, st, c, oa, ob, a, b):
        if oa.freed != ob.freed:
            if oa.kind == 'stack' or ob.kind == 'stack':
                return oa if oa.freed else ob
            o = oa.copy()
            o.freed = oa.freed or ob.freed
            o.aux = ("maybe-freed", c if oa.freed else sub(1, c))
            return o
        if oa.log != ob.log:
            la, lb = oa.log or [], ob.log or []
            n = 0
            while n < len(la) and n < len(lb) and la[n] == lb[n]:
                n += 1
            ta, tb = la[n:], lb[n:]
            # joinable if the logs write the same places
            o = oa.copy()
            o.log = list(la[:n])
            for off, sz, v in ta:
                old = None
                m = [x for x in tb if x[0] == off and x[1] == sz]
                if m:
                    old = m[-1][2]
                else:
                    old = self.load_sym(b, ob, off, sz, ('f', 64) if poly._any_float(v) else ('i', 8 * sz))
                o.log.append((off, sz, vite(c, v, old)))
            for off, sz, v in tb:
                if any(x[0] == off and x[1] == sz for x in ta):
                    continue
                old = self.load_sym(a, oa, off, sz, ('f', 64) if poly._any_float(v) else ('i', 8 * sz))
                o.log.append((off, sz, vite(c, old, v)))
            return o
        o = oa.copy()
        if oa.fills != ob.fills:
            # materialise: use cells
            na, nb = len(oa.fills), len(ob.fills)
            k = 0
            while k < na and k < nb and oa.fills[k] == ob.fills[k]:
                k += 1
            o.fills = oa.fills[:k]
            ext = oa.fills[k:] + ob.fills[k:]
            offs = set(oa.cells) | set(ob.cells)
            for s, e, _ in ext:
                p = s
                while p < e:
                    step = 8 if p % 8 == 0 and p + 8 <= e else (4 if p % 4 == 0 and p + 4 <= e else 1)
                    for q in (step,):
                        for other in (oa.cells, ob.cells):
                            if p in other:
                                step = other[p][0]
                    offs.add(p)
                    p += step
            cells = {}
            for k in sorted(offs):
                sz = None
                for cc in (oa.cells, ob.cells):
                    if k in cc:
                        sz = cc[k][0]
                if sz is None:
                    sz = 8 if k % 8 == 0 else 4 if k % 4 == 0 else 1
                va = self.load_const(a, oa, k, sz, ('i', sz * 8))
                vb = self.load_const(b, ob, k, sz, ('i', sz * 8))
                cells[k] = (sz, vite(c, va, vb))
            o.cells = cells
            return o
        cells = {}
        ca, cb = oa.cells, ob.cells
        for k, x in ca.items():
            y = cb.get(k)
            if y is None:
                if any((k - d) in cb and cb[k - d][0] > d for d in range(1, 16)):
                    continue  # covered by a bigger cell of the other side
                vb = self.load_const(b, ob, k, x[0], ('f', 8 * x[0]) if poly._any_float(x[1]) else ('i', 8 * x[0]))
                cells[k] = (x[0], vite(c, x[1], vb))
            elif x is y or (x[0] == y[0] and (x[1] is y[1])):
                cells[k] = x
            elif x[0] == y[0]:
                cells[k] = (x[0], vite(c, x[1], y[1]))
            else:
                sz = max(x[0], y[0])
                va = self.load_const(a, oa, k, sz, ('i', 8 * sz))
                vb = self.load_const(b, ob, k, sz, ('i', 8 * sz))
                cells[k] = (sz, vite(c, va, vb))
        for k, y in cb.items():
            if k not in ca:
                if any((k - d) in ca and ca[k - d][0] > d for d in range(1, 16)):
                    continue
                va = self.load_const(a, oa, k, y[0], ('f', 8 * y[0]) if poly._any_float(y[1]) else ('i', 8 * y[0]))
                cells[k] = (y[0], vite(c, va, y[1]))
        o.cells = cells
        return o

    def join(self, c, fa, fb, base, phis):
        """Join of two flows (pred, env, state, cond) at a join block with the given phi nodes."""
        pa, ea, sa, ca = fa
        pb, eb, sb, cb = fb
        cond = ite(c, ca, cb)
        st = self.merge_state(c, sa, sb, dict(base.known), base.pc, cond)
        d = {}
        for ph in phis:
            va = self.phi_val(ph, pa, ea, sa)
            vb = self.phi_val(ph, pb, eb, sb)
            d[ph[1]] = vite(c, va, vb)
        env = Env(d, (c, ea, eb))
        return ('<joined>', env, st, cond)

    def phi_val(self, ph, pred, env, st):
        if pred == '<joined>':
            return env.get(ph[1])
        for op, lb in ph[3]:
            if lb == pred:
                return self.val(st, env, ph[2], op)
        raise Undecided("phi without incoming edge")

    # reporting ----------------------------------------------------------------------------------------
    def where(self):
        """Innermost location inside /repo, or innermost location."""
        if not self.stack and self.fail_at:
            return self.fail_at
        for f, loc in reversed(self.stack):
            if loc:
                file, line = self.m.dbg_loc(loc)
                if REPO in file:
                    return "%s:%d" % (file, line)
        for f, loc in reversed(self.stack):
            if loc:
                return "%s:%d" % self.m.dbg_loc(loc)
        return "?"

    def report(self, tag, what, got=None, want=None, st=None, cex=None):
        if st is not None and isinstance(st.pc, int) and st.pc == 0:
            return
        f = Finding(tag, what, got, want, self.where(), cex, self.unit)
        key = (tag, what, f.loc)
        if any((x.tag, x.what, x.loc) == key for x in self.findings):
            return
        self.findings.append(f)

    # execution ----------------------------------------------------------------------------------------
    def val(self, st, env, t, op):
        k = op[0]
        if k == 'l':
            d = env.d
            n = op[1]
            if n in d:
                return d[n]
            return env.get(n)
        if k == 'c':
            return op[1]
        return self.const(st, t, op)

    def run_unit(self, name):
        """Analyse one specification unit (a C++ function of the harness)."""
        f = None
        for n, g in self.m.funcs.items():
            if not g.is_decl and (g.demangled == name + "()" or g.demangled == name):
                f = g
        if f is None:
            raise Undecided("unit %s not found" % name)
        self.unit = name
        self.abort_expect = []
        self.steps = 0
        st = State()
        ex = Exits()
        r = self.call_def(st, f, [], ex, 1)
        self.last_state = r[0] if r is not None else None
        self.last_exits = ex
        self.last_cond = r[2] if r is not None else 0
        # aborts
        total = 0
        for c, kind, loc, s in ex.aborts:
            total = add(total, c)
        exc = 0
        for c, s, e in ex.excs:
            exc = add(exc, c)
        if exc != 0:
            locs = sorted({self.tinames.get(e.ti, str(e.ti)) for c, s, e in ex.excs})
            self.report("unexpected-exception", "exception escapes: %s" % ", ".join(locs), got=poly.short(exc), want="0")
        want = 0
        for w in self.abort_expect:
            want = poly.b_or(want, w)
        tag = "abort-condition"
        if want == 0 and total == 0:
            pass
        else:
            eq, cex = self.equal(total, want, None)
            self.obligations.append((name, tag))
            if not eq:
                locs = sorted({l for _, _, l, _ in ex.aborts})
                self.findings.append(Finding(tag, "program stops under other conditions than specified",
                                             poly.show(total), poly.show(want), ", ".join(locs)[:300] or None, cex, name))
        return r

    def equal(self, a, b, st):
        """Decide equality of two value numbers (on the current branch)."""
        d = sub(a, b)
        if const_of(d) == 0:
            return True, None
        if st is not None:
            d = poly.subst_ind(d, st.known)
            if const_of(d) == 0:
                return True, None
            if isinstance(st.pc, Poly):
                d = mul(d, st.pc)
                if const_of(d) == 0:
                    return True, None
        import ident
        try:
            if st is not None and isinstance(st.pc, Poly):
                return ident.zero(d, pc=st.pc)
            sides = None
            if st is None:
                # neither side nonzero at any point would not tell anything
                sides = a if isinstance(b, int) and b == 0 else b
                if not isinstance(sides, Poly):
                    sides = None
            r = ident.zero(d)
            if r[0] and sides is not None:
                r = ident.zero(d, pc=sides)
            return r
        except ident.Vacuous:
            raise Undecided("no admissible point for the condition %s" % poly.short(st.pc if st else a)[:120])

    def call_def(self, st, f, args, ex, live):
        """Analyse a call of a defined function; returns (state, value, cond) or None."""
        self.m.parse(f)
        if len(self.stack) > 400:
            raise Undecided("recursion")
        v = self.visited.get(f.name)
        if v is None:
            if f.dbg:
                f.file, f.line = self.m.dbg_loc(f.dbg)
            self.visited[f.name] = 1
            if f.file and REPO in f.file:
                self.repo_funcs[f.demangled] = "%s:%d" % (f.file, f.line)
        env = Env({})
        d = env.d
        allocas = []
        for (t, n, byval, sret), a in zip(f.params, args):
            if byval is not None:
                sz = self.m.sizeof(byval)
                o = self.new_obj(st, "byval %s" % n, sz, 'stack')
                self.memcpy(st, Ptr(o.id, 0), a, sz)
                allocas.append(o.id)
                a = Ptr(o.id, 0)
            d[n] = a
        self.stack.append((f, None))
        try:
            r = self.exec(f, f.entry, None, env, st, None, ex, live, allocas)
        except BaseException:
            if self.fail_at is None:
                self.fail_at = self.where() + " in " + " < ".join(
                    "%s:%s" % (g.demangled[:60], self.m.dbg_loc(l)[1] if l else '?') for g, l in self.stack[:-4:-1])
            raise
        finally:
            self.stack.pop()
        if r.ret is None:
            return None
        st2 = r.ret[0]
        for oid in allocas:
            if oid in st2.mem:
                del st2.mem[oid]
                st2.own.discard(oid)
        return r.ret

    def exec(self, f, block, pred, env, st, stop, ex, live, allocas, skip=0):
        """Analyse from `block` until `stop` (or function exit)."""
        res = Res()
        blocks = f.blocks
        stack = self.stack
        while True:
            if block == stop:
                res.flow = (pred, env, st, live)
                return res
            ins_list = blocks[block]
            i = 0
            d = env.d
            # phis
            if ins_list[0][0] == 'phi' and not skip:
                vals = []
                while ins_list[i][0] == 'phi':
                    ph = ins_list[i]
                    vals.append((ph[1], self.phi_val(ph, pred, env, st)))
                    i += 1
                if pred != '<joined>' or True:
                    for n, v in vals:
                        d[n] = v
            i = max(i, skip)
            skip = 0
            n = len(ins_list)
            while i < n:
                ins = ins_list[i]
                k = ins[0]
                self.steps += 1
                if k == 'load':
                    d[ins[1]] = self.load(st, self.val(st, env, ('ptr',), ins[3]), ins[2]) \
                        if self.setloc(ins[4]) else None
                elif k == 'store':
                    self.setloc(ins[4])
                    self.store(st, self.val(st, env, ('ptr',), ins[3]), ins[1], self.val(st, env, ins[1], ins[2]))
                elif k == 'gep':
                    vals = [self.val(st, env, t, o) for t, o in ins[3]]
                    d[ins[1]] = self.gep(ins[2], ins[3], vals)
                elif k == 'bin':
                    d[ins[1]] = self.binop(ins[2], ins[3], self.val(st, env, ins[3], ins[4]),
                                           self.val(st, env, ins[3], ins[5]))
                elif k == 'icmp':
                    d[ins[1]] = self.icmp(ins[2], ins[3], self.val(st, env, ins[3], ins[4]),
                                          self.val(st, env, ins[3], ins[5]), st)
                elif k == 'fcmp':
                    d[ins[1]] = self.fcmp(ins[2], self.val(st, env, ins[3], ins[4]),
                                          self.val(st, env, ins[3], ins[5]))
                elif k == 'cast':
                    d[ins[1]] = self.cast(ins[2], ins[3], self.val(st, env, ins[3], ins[4]), ins[5])
                elif k == 'alloca':
                    cnt = const_of(self.val(st, env, ins[3], ins[4]))
                    if cnt is None:
                        raise Undecided("alloca of symbolic size")
                    o = self.new_obj(st, "local %s in %s" % (ins[1], f.demangled[:60]), self.m.sizeof(ins[2]) * cnt, 'stack')
                    allocas.append(o.id)
                    d[ins[1]] = Ptr(o.id, 0)
                elif k == 'br':
                    if ins[1] is None:
                        pred, block = block, ins[2]
                        break
                    c = self.val(st, env, ('i', 1), ins[1])
                    if isinstance(c, Undef):
                        raise Undecided("branch on undefined value")
                    c = self.simp(c, st)
                    if not isinstance(c, Poly):
                        pred, block = block, (ins[2] if c else ins[3])
                        break
                    self.setloc(ins[4])
                    r = self.branch(f, block, [(c, ins[2], None), (None, ins[3], None)], env, st, stop, ex, live, allocas)
                    if r[0] == 'done':
                        return r[1]
                    _, block, pred, env, st, live, res_ret = r
                    if res_ret is not None:
                        res.ret = res_ret
                    break
                elif k == 'call' or k == 'invoke':
                    self.setloc(ins[5])
                    r = self.do_call(f, block, i, ins, env, st, stop, ex, live, allocas)
                    if r[0] == 'next':
                        st, live = r[1], r[2]
                        if k == 'invoke':
                            pred, block = block, ins[7]
                            break
                    elif r[0] == 'dead':
                        return res
                    elif r[0] == 'done':
                        return r[1]
                    else:
                        _, block, pred, env, st, live, res_ret = r
                        break
                elif k == 'ret':
                    v = None if ins[1] is None else self.val(st, env, ins[1], ins[2])
                    res.ret = (st, v, live)
                    return res
                elif k == 'select':
                    c = self.val(st, env, ('i', 1), ins[3])
                    a = self.val(st, env, ins[2], ins[4])
                    b = self.val(st, env, ins[2], ins[5])
                    if isinstance(c, Undef):
                        d[ins[1]] = UNDEF
                    else:
                        d[ins[1]] = vite(self.simp(c, st), a, b)
                elif k == 'fneg':
                    v = self.val(st, env, ins[2], ins[3])
                    d[ins[1]] = v if isinstance(v, Undef) else neg(v)
                elif k == 'extractvalue':
                    v = self.val(st, env, ins[2], ins[3])
                    for x in ins[4]:
                        v = v[x]
                    d[ins[1]] = v
                elif k == 'insertvalue':
                    v = self.val(st, env, ins[2], ins[3])
                    b = self.val(st, env, ins[4], ins[5])
                    if isinstance(v, Undef):
                        v = tuple(UNDEF for _ in self.m.resolve(ins[2])[1])
                    d[ins[1]] = self.insv(v, ins[6], b)
                elif k == 'extractelement':
                    v = self.val(st, env, ins[2], ins[3])
                    d[ins[1]] = v[const_of(self.val(st, env, ('i', 64), ins[4]))]
                elif k == 'insertelement':
                    v = self.val(st, env, ins[2], ins[3])
                    if isinstance(v, Undef):
                        v = tuple(UNDEF for _ in range(ins[2][1]))
                    v = list(v)
                    v[const_of(self.val(st, env, ('i', 64), ins[5]))] = self.val(st, env, ins[2][2], ins[4])
                    d[ins[1]] = tuple(v)
                elif k == 'freeze':
                    d[ins[1]] = self.val(st, env, ins[2], ins[3])
                elif k == 'unreachable':
                    return res
                elif k == 'resume':
                    v = self.val(st, env, ins[1], ins[2])
                    info = self.exc_info(st, v[0])
                    ex.excs.append((live, st, info))
                    return res
                elif k == 'landingpad':
                    raise Undecided("landingpad reached by normal flow")
                elif k == 'switch':
                    v = self.val(st, env, ins[1], ins[2])
                    vc = const_of(v)
                    if vc is not None:
                        tgt = ins[3]
                        for cv, lb in ins[4]:
                            if cv == vc:
                                tgt = lb
                                break
                        pred, block = block, tgt
                        break
                    arms = []
                    for cv, lb in ins[4]:
                        arms.append((poly.ind_eq(v, cv, True), lb, None))
                    arms.append((None, ins[3], None))
                    self.setloc(ins[5])
                    r = self.branch(f, block, arms, env, st, stop, ex, live, allocas)
                    if r[0] == 'done':
                        return r[1]
                    _, block, pred, env, st, live, res_ret = r
                    break
                elif k == 'atomicrmw':
                    p = self.val(st, env, ('ptr',), ins[4])
                    old = self.load(st, p, ins[3])
                    v = self.val(st, env, ins[3], ins[5])
                    nv = {'add': lambda: self.binop('add', ins[3], old, v),
                          'sub': lambda: self.binop('sub', ins[3], old, v),
                          'xchg': lambda: v}.get(ins[2])
                    if nv is None:
                        raise Undecided("atomicrmw")
                    self.store(st, p, ins[3], nv())
                    d[ins[1]] = old
                elif k == 'nop':
                    pass
                else:
                    raise Undecided("instruction %r" % (ins[:2],))
                i += 1
            else:
                raise Undecided("block without terminator")
            if self.steps > self.MAX_STEPS:
                raise Undecided("step budget exceeded")

    def setloc(self, loc):
        if loc:
            s = self.stack
            s[-1] = (s[-1][0], loc)
        return True

    def simp(self, c, st):
        if isinstance(c, Poly):
            c = poly.subst_ind(c, st.known)
            if isinstance(c, Poly) and isinstance(st.pc, Poly):
                x = mul(st.pc, c)
                if x == 0:
                    return 0
                if x == st.pc:
                    return 1
        return c

    def insv(self, v, idx, b):
        v = list(v)
        if len(idx) == 1:
            v[idx[0]] = b
        else:
            v[idx[0]] = self.insv(v[idx[0]], idx[1:], b)
        return tuple(v)

    def branch(self, f, block, arms, env, st, stop, ex, live, allocas):
        """Analyse the arms of an undecided branch and join them at the immediate postdominator.

        arms: list of (cond | None for 'otherwise', target, prepare) ; conditions are disjoint.
        Returns ('done', Res) or ('cont', block, pred, env, state, live, ret)."""
        key = (id(f), block, len(self.stack))
        cnt = self._active.get(key, 0)
        if cnt > 200:
            raise Undecided("loop with undecided condition in %s (%s)" % (f.demangled[:100], self.where()))
        self._active[key] = cnt + 1
        try:
            return self._branch(f, block, arms, env, st, stop, ex, live, allocas)
        finally:
            self._active[key] = cnt

    def _branch(self, f, block, arms, env, st, stop, ex, live, allocas):
        J = f.ipdom.get(block)
        inner_stop = J
        flows = []
        rets = []
        rest = 1
        base_known = dict(st.known)
        base_pc = st.pc
        base = st
        loc = self.stack[-1]
        for n, (c, tgt, prep) in enumerate(arms):
            if c is None:
                g = rest
            else:
                g = mul(rest, c) if rest != 1 else c
                rest = mul(rest, sub(1, c)) if rest != 1 else sub(1, c)
            g = self.simp(g, st)
            if g == 0:
                continue
            last = n == len(arms) - 1
            s = st.fork()
            s.assume(g, 1)
            e = env.copy()
            sub_ex = Exits()
            self.stack[-1] = loc
            if prep is not None:
                r = prep(e, s)
                if r is not None:
                    e, s = r
            pa = block
            # join block reached immediately?
            r = self.exec(f, tgt, pa, e, s, inner_stop, sub_ex, 1, allocas)
            gl = mul(live, g)
            for cc, s2, info in sub_ex.excs:
                ex.excs.append((mul(gl, cc), s2, info))
            for cc, kd, lc, s2 in sub_ex.aborts:
                ex.aborts.append((mul(gl, cc), kd, lc, s2))
            if r.flow is not None:
                flows.append((g, r.flow))
            if r.ret is not None:
                rets.append((g, r.ret))
        self.stack[-1] = loc
        res_ret = None
        if rets:
            # returns that bypass the join block
            cur = rets[-1][1]
            for g, x in reversed(rets[:-1]):
                stm = self.merge_state(g, x[0], cur[0], dict(base_known), base_pc, ite(g, x[2], cur[2]))
                cur = (stm, vite(g, x[1], cur[1]) if x[1] is not None else None, ite(g, x[2], cur[2]))
            tot = 0
            for g, x in rets:
                tot = add(tot, mul(g, x[2]))
            res_ret = (cur[0], cur[1], mul(live, tot))
        if not flows:
            r = Res()
            r.ret = res_ret
            return ('done', r)
        if res_ret is not None and flows:
            raise Undecided("region with both return and join")
        phis = []
        if J is not None:
            for ins in f.blocks[J]:
                if ins[0] != 'phi':
                    break
                phis.append(ins)
        cur = flows[-1][1]
        for g, x in reversed(flows[:-1]):
            cur = self.join(g, x, cur, base, phis)
        if len(flows) == 1:
            # single surviving arm: its facts stay valid
            g, x = flows[0]
            pred, env2, st2, cond = x
            # conditions of the surviving arm hold from here on
            return ('cont', J, pred, env2, st2, mul(live, mul(g, cond)), None)
        pred, env2, st2, cond = cur
        tot = 0
        for g, x in flows:
            tot = add(tot, mul(g, x[3]))
        st2.pc = mul(base_pc, tot)
        self.relearn(st2, tot)
        return ('cont', J, pred, env2, st2, mul(live, tot), None)

    def relearn(self, st, tot):
        if isinstance(tot, Poly):
            st._learn(tot, 1)

    # calls ----------------------------------------------------------------------------------------------
    def do_call(self, f, block, idx, ins, env, st, stop, ex, live, allocas):
        args = [self.val(st, env, t, o) for t, o in ins[4]]
        callee = ins[3]
        sub_ex = Exits()
        r = self.call_value(st, ins, callee, args, sub_ex, env)
        for cc, kd, lc, s2 in sub_ex.aborts:
            ex.aborts.append((mul(live, cc), kd, lc, s2))
        normal = r  # (state, value, cond) or None
        if not sub_ex.excs:
            if normal is None:
                return ('dead',)
            st2, v, cond = normal
            if ins[1] is not None:
                env.d[ins[1]] = v
            return ('next', st2, mul(live, cond) if cond != 1 else live)
        if ins[0] == 'call':
            for cc, s2, info in sub_ex.excs:
                ex.excs.append((mul(live, cc), s2, info))
            if normal is None:
                return ('dead',)
            st2, v, cond = normal
            if ins[1] is not None:
                env.d[ins[1]] = v
            return ('next', st2, mul(live, cond))
        # invoke with exceptional outcomes: multiway branch
        J = f.ipdom.get(block)
        arms = []
        loc = self.stack[-1]
        base_known = dict(st.known)
        base_pc = st.pc
        flows, rets = [], []

        def run(g, tgt, s, prep_env):
            e = env.copy()
            se = Exits()
            self.stack[-1] = loc
            skip = 0
            if prep_env is not None:
                skip = prep_env(e, s)
            rr = self.exec(f, tgt, block, e, s, J, se, 1, allocas, skip)
            gl = mul(live, g)
            for cc, s2, info in se.excs:
                ex.excs.append((mul(gl, cc), s2, info))
            for cc, kd, lc, s2 in se.aborts:
                ex.aborts.append((mul(gl, cc), kd, lc, s2))
            if rr.flow is not None:
                flows.append((g, rr.flow))
            if rr.ret is not None:
                rets.append((g, rr.ret))

        for cc, s2, info in sub_ex.excs:
            def prep(e, s, info=info):
                return self.landing(f, ins[8], e, s, info, block)
            # the state of the exceptional exit already carries its facts
            run(cc, ins[8], s2, prep)
        if normal is not None:
            st2, v, cond = normal

            def prepn(e, s, v=v):
                if ins[1] is not None:
                    e.d[ins[1]] = v
                return 0
            run(cond, ins[7], st2, prepn)
        self.stack[-1] = loc
        if rets and not flows:
            cur = rets[-1][1]
            for g, x in reversed(rets[:-1]):
                stm = self.merge_state(g, x[0], cur[0], dict(base_known), base_pc, ite(g, x[2], cur[2]))
                cur = (stm, vite(g, x[1], cur[1]) if x[1] is not None else None, ite(g, x[2], cur[2]))
            tot = 0
            for g, x in rets:
                tot = add(tot, mul(g, x[2]))
            rr = Res()
            rr.ret = (cur[0], cur[1], mul(live, tot))
            return ('done', rr)
        if rets:
            raise Undecided("region with both return and join")
        if not flows:
            return ('done', Res())
        phis = []
        if J is not None:
            for x in f.blocks[J]:
                if x[0] != 'phi':
                    break
                phis.append(x)
        cur = flows[-1][1]

        class B:
            pass
        base = B()
        base.known, base.pc = base_known, base_pc
        if len(flows) == 1:
            g, x = flows[0]
            pred, env2, st2, cond = x
            return ('cont', J, pred, env2, st2, mul(live, mul(g, cond)), None)
        for g, x in reversed(flows[:-1]):
            cur = self.join(g, x, cur, base, phis)
        pred, env2, st2, cond = cur
        tot = 0
        for g, x in flows:
            tot = add(tot, mul(g, x[3]))
        st2.pc = mul(base_pc, tot)
        self.relearn(st2, tot)
        return ('cont', J, pred, env2, st2, mul(live, tot), None)

    def landing(self, f, block, e, s, info, pred):
        """Enter a landing pad with exception info: sets phis and the landingpad value."""
        lst = f.blocks[block]
        i = 0
        vals = []
        while lst[i][0] == 'phi':
            vals.append((lst[i][1], self.phi_val(lst[i], pred, e, s)))
            i += 1
        for n, v in vals:
            e.d[n] = v
        lp = lst[i]
        if lp[0] != 'landingpad':
            raise Undecided("landing pad expected")
        sel = 0
        for kind, op in lp[3]:
            if kind == 'catch':
                if op[0] == 'null':
                    sel = self.typeid('null')
                    break
                if self.ti_match(info.ti, op[1]):
                    sel = self.typeid(op[1])
                    break
        if sel == 0 and not lp[2]:
            # no clause matches and no cleanup: exception continues (treated as cleanup)
            pass
        e.d[lp[1]] = (info.ptr, sel)
        s.excstack = s.excstack
        self.exc_tab[info.ptr.o] = info
        return i + 1

    def exc_info(self, st, p):
        if isinstance(p, Ptr) and p.o in self.exc_tab:
            return self.exc_tab[p.o]
        raise Undecided("resume of unknown exception")

    def typeid(self, ti):
        if ti not in self.typeids:
            self.typeids[ti] = len(self.typeids) + 1
        return self.typeids[ti]

    def ti_match(self, thrown, want):
        seen = set()
        cur = [thrown]
        while cur:
            t = cur.pop()
            if t == want:
                return True
            if t in seen:
                continue
            seen.add(t)
            txt = self.m.globals.get(t, '')
            for b in re.findall(r'ptr (@_ZTI[A-Za-z0-9_]+)', txt):
                cur.append(b)
            if t in self.models.STD_BASES:
                cur.extend(self.models.STD_BASES[t])
        return False

    def call_value(self, st, ins, callee, args, ex, env):
        if callee[0] == 'g':
            name = callee[1]
        else:
            p = self.val(st, env, ('ptr',), callee)
            if isinstance(p, PIte):
                raise Undecided("call through conditional pointer")
            if not isinstance(p, Ptr) or p.o not in self.names:
                raise Undecided("indirect call")
            name = self.names[p.o]
        return self.call_name(st, name, args, ex, ins)

    def call_name(self, st, name, args, ex, ins):
        f = self.m.funcs.get(name)
        if f is None:
            raise Undecided("call of unknown %s" % name)
        h = self._fcache.get(name)
        if h is None:
            h = self.models.lookup(name, f)
            if h is None:
                if f.is_decl:
                    raise Undecided("call of external function %s" % f.demangled)
                h = False
            self._fcache[name] = h
        if h is False:
            return self.call_def(st, f, args, ex, 1)
        r = h(st, args, ex, ins, f)
        if isinstance(r, tuple) and len(r) == 3 and isinstance(r[0], State):
            return r
        if r is DEAD:
            return None
        return (st, r, 1)

    # arithmetic -------------------------------------------------------------------------------------------
    def gep(self, bt, ops, vals):
        p = as_ptr(vals[0])
        off = 0
        t = bt
        for n, ((ot, _), v) in enumerate(zip(ops[1:], vals[1:])):
            if isinstance(v, Undef):
                raise Undecided("gep with undefined index")
            if isinstance(v, int):
                v = sgn(v, ot[1])
            if n == 0:
                s = self.m.sizeof(t)
                off = add(off, mul(v, s))
            else:
                r = self.m.resolve(t)
                if r[0] == 'st':
                    off = add(off, self.m.field_offset(t, v))
                    t = r[1][v]
                else:
                    t = r[2]
                    off = add(off, mul(v, self.m.sizeof(t)))
        return self.padd(p, off)

    def padd(self, p, off):
        if off == 0:
            return p
        if isinstance(p, PIte):
            return PIte(p.c, self.padd(p.a, off), self.padd(p.b, off))
        if isinstance(p, Undef):
            return p
        return Ptr(p.o, add(p.off, off))

    def binop(self, op, t, a, b):
        r = self.m.resolve(t)
        if r[0] == 'vec':
            return tuple(self.binop(op, r[2], x, y) for x, y in zip(a, b))
        if isinstance(a, Undef) or isinstance(b, Undef):
            return UNDEF
        if r[0] == 'f':
            if op == 'fadd':
                return add(a, b)
            if op == 'fsub':
                return sub(a, b)
            if op == 'fmul':
                return mul(a, b)
            if op == 'fdiv':
                return poly.div(a, b)
            raise Undecided(op)
        w = r[1]
        if isinstance(a, int) and isinstance(b, int):
            M = mask(w)
            if op == 'add':
                return (a + b) & M
            if op == 'sub':
                return (a - b) & M
            if op == 'mul':
                return (a * b) & M
            a &= M
            b &= M
            if op == 'udiv':
                if b == 0:
                    raise Undecided("integer division by zero")
                return a // b
            if op == 'urem':
                if b == 0:
                    raise Undecided("integer division by zero")
                return a % b
            if op in ('sdiv', 'srem'):
                x, y = sgn(a, w), sgn(b, w)
                if y == 0:
                    raise Undecided("integer division by zero")
                q = abs(x) // abs(y)
                if (x < 0) != (y < 0):
                    q = -q
                return (q if op == 'sdiv' else x - q * y) & M
            if op == 'shl':
                return (a << b) & M
            if op == 'lshr':
                return a >> b
            if op == 'ashr':
                return (sgn(a, w) >> b) & M
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
            raise Undecided(op)
        if isinstance(a, (Ptr, PIte)):
            a = ptr_int(a)
        if isinstance(b, (Ptr, PIte)):
            b = ptr_int(b)
        if isinstance(a, Cat) or isinstance(b, Cat):
            return self.catop(op, w, a, b)
        if w == 1:
            if op in ('and', 'mul'):
                return mul(a, b)
            if op == 'or':
                return poly.b_or(a, b)
            if op in ('xor', 'add', 'sub'):
                return sub(add(a, b), mul(2, mul(a, b)))
            raise Undecided("i1 %s" % op)
        sa = sgn(a, w) if isinstance(a, int) else a
        sb = sgn(b, w) if isinstance(b, int) else b
        if op == 'add':
            x = add(sa, sb)
        elif op == 'sub':
            x = sub(sa, sb)
        elif op == 'mul':
            x = mul(sa, sb)
        elif op == 'shl' and isinstance(b, int):
            x = mul(sa, 1 << b)
        elif op in ('udiv', 'sdiv') and isinstance(b, int):
            x = self.idiv(sa, sb if op == 'sdiv' else b)
        elif op in ('lshr', 'ashr') and isinstance(b, int):
            x = self.idiv(sa, 1 << b)
        elif op in ('urem', 'srem') and isinstance(b, int):
            x = self.irem(sa, b)
        elif op == 'and':
            if isinstance(b, int) and (b & (b + 1)) == 0:
                x = self.irem(sa, b + 1)
            elif isinstance(a, int) and (a & (a + 1)) == 0:
                x = self.irem(sb, a + 1)
            elif poly.is_bool(a) and poly.is_bool(b):
                x = mul(a, b)
            else:
                x = self.iop('and', a, b)
        elif op == 'or' and poly.is_bool(a) and poly.is_bool(b):
            x = poly.b_or(a, b)
        elif op == 'xor' and poly.is_bool(a) and poly.is_bool(b):
            x = sub(add(a, b), mul(2, mul(a, b)))
        elif op in ('udiv', 'sdiv'):
            # (b*q)/b
            x = self.iop('idiv', sa, sb)
        elif op in ('urem', 'srem'):
            x = self.iop('irem', sa, sb)
        else:
            x = self.iop(op, sa, sb)
        if isinstance(x, int):
            x &= mask(w)
        return x

    def iop(self, op, a, b):
        return poly.from_atom(poly.atom((op, a, b), nonneg=True, name="%s(%s,%s)" % (op, poly.short(a), poly.short(b)),
                                        payload=(a, b)))

    def catop(self, op, w, a, b):
        if op == 'lshr' and isinstance(a, Cat) and isinstance(b, int) and b % 8 == 0:
            o = b // 8
            parts = [(p - o, s, v) for p, s, v in a.parts if p >= o]
            if len(parts) == 1 and parts[0][0] == 0:
                return parts[0][2]
            return Cat(parts, a.size)
        raise Undecided("operation on split value")

    def idiv(self, a, k):
        """Integer quotient of a polynomial by a positive constant."""
        if k == 1:
            return a
        t1, t2 = {}, {}
        for m, c in a.t.items():
            if isinstance(c, int) and c % k == 0 or isinstance(c, Fraction) and c.denominator == 1 and c % k == 0:
                t1[m] = c // k
            else:
                t2[m] = c
        if not t2:
            return poly.norm(t1)
        # remainder part
        rest = poly.norm(t2)
        if isinstance(rest, Poly) and () in rest.t:
            c = rest.t[()]
            q = c // k
            if q:
                t1[()] = t1.get((), 0) + int(q)
                if t1[()] == 0:
                    del t1[()]
                rest = sub(rest, q * k)
        if not isinstance(rest, Poly):
            q = rest // k
            if q:
                t1[()] = t1.get((), 0) + int(q)
            return poly.norm({m: c for m, c in t1.items() if c})
        # small bounded remainder
        hi = self.upper(rest)
        if hi is not None and hi < k and poly._sign_info(rest, True) == "nonneg":
            return poly.norm(t1)
        return add(poly.norm(t1), self.iop('idiv', rest, k))

    def upper(self, p):
        u = 0
        for m, c in p.t.items():
            if c < 0:
                continue
            x = c
            for a, e in m:
                at = poly.ATOMS[a]
                if at.ind:
                    continue
                k = at.key
                if isinstance(k, tuple) and k[0] == 'irem' and isinstance(k[2], int):
                    x *= (k[2] - 1) ** e
                else:
                    return None
            u += x
        return u

    def irem(self, a, k):
        if k == 1:
            return 0
        q = self.idiv(a, k)
        r = sub(a, mul(q, k))
        if isinstance(r, Poly):
            # a - k*idiv(rest,k)  -> canonical irem atom of the rest
            t = {}
            rest = None
            for m, c in a.t.items():
                if c % k != 0:
                    t[m] = c % k if m == () else c
            rest = poly.norm(t)
            if not isinstance(rest, Poly):
                return rest % k
            hi = self.upper(rest)
            if hi is not None and hi < k and poly._sign_info(rest, True) == "nonneg":
                return rest
            return self.iop('irem', rest, k)
        return r

    def icmp(self, pr, t, a, b, st):
        if isinstance(a, Undef) or isinstance(b, Undef):
            return UNDEF
        r = self.m.resolve(t)
        if isinstance(a, int) and isinstance(b, int) and r[0] == 'i':
            w = r[1]
            if pr[0] == 's':
                a, b = sgn(a & mask(w), w), sgn(b & mask(w), w)
            else:
                a &= mask(w)
                b &= mask(w)
            return int({'eq': a == b, 'ne': a != b, 'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b,
                        'slt': a < b, 'sle': a <= b, 'sgt': a > b, 'sge': a >= b}[pr])
        if isinstance(a, (Ptr, PIte)) or isinstance(b, (Ptr, PIte)):
            a, b = as_ptr(a), as_ptr(b)
            return self.pcmp(pr, a, b, st)
        if isinstance(a, Cat) or isinstance(b, Cat):
            return self.catcmp(pr, a, b)
        w = r[1]
        if isinstance(a, int):
            a = sgn(a, w) if pr[0] == 's' or a >> (w - 1) and pr in ('eq', 'ne') else a
        if isinstance(b, int):
            b = sgn(b, w) if pr[0] == 's' or b >> (w - 1) and pr in ('eq', 'ne') else b
        p = pr[-2:] if len(pr) == 3 else pr
        return self.cmp(p, a, b, not poly._any_float(sub(a, b)))

    def cmp(self, p, a, b, isint):
        if p == 'eq':
            return poly.ind_eq(a, b, isint)
        if p == 'ne':
            return sub(1, poly.ind_eq(a, b, isint))
        if p == 'lt':
            return poly.ind_lt(a, b, isint)
        if p == 'gt':
            return poly.ind_lt(b, a, isint)
        if p == 'le':
            return sub(1, poly.ind_lt(b, a, isint))
        if p == 'ge':
            return sub(1, poly.ind_lt(a, b, isint))
        raise Undecided("cmp %s" % p)

    def catcmp(self, pr, a, b):
        if pr not in ('eq', 'ne'):
            raise Undecided("ordering of split values")
        if not isinstance(a, Cat):
            a, b = b, a
        if isinstance(b, Cat):
            if [p[:2] for p in a.parts] != [p[:2] for p in b.parts]:
                raise Undecided("split compare")
            bp = [p[2] for p in b.parts]
        else:
            bp = [self.part(b, a.size, p[0], p[1]) for p in a.parts]
        c = 1
        for p, q in zip(a.parts, bp):
            c = mul(c, poly.ind_eq(p[2], q, True))
        return c if pr == 'eq' else sub(1, c)

    def pcmp(self, pr, a, b, st):
        if isinstance(a, Undef) or isinstance(b, Undef):
            return UNDEF
        if isinstance(a, PIte):
            return ite(a.c, self.pcmp(pr, a.a, b, st), self.pcmp(pr, a.b, b, st))
        if isinstance(b, PIte):
            return ite(b.c, self.pcmp(pr, a, b.a, st), self.pcmp(pr, a, b.b, st))
        if a.o == b.o:
            p = pr[-2:] if len(pr) == 3 else pr
            return self.cmp(p, a.off, b.off, True)
        if pr == 'eq':
            return 0
        if pr == 'ne':
            return 1
        # ordering of different objects: by id (arbitrary but fixed)
        p = pr[-2:]
        return int({'lt': a.o < b.o, 'le': a.o < b.o, 'gt': a.o > b.o, 'ge': a.o > b.o}[p])

    def fcmp(self, pr, a, b):
        if isinstance(a, Undef) or isinstance(b, Undef):
            return UNDEF
        if pr in ('uno', 'ord'):
            return 0 if pr == 'uno' else 1
        if pr == 'true':
            return 1
        if pr == 'false':
            return 0
        p = pr[1:]
        if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
            return int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p])
        return self.cmp(p, a, b, False)

    def cast(self, op, t1, v, t2):
        if isinstance(v, Undef):
            return v
        r1, r2 = self.m.resolve(t1), self.m.resolve(t2)
        if r1[0] == 'vec' and isinstance(v, tuple):
            if op == 'bitcast':
                parts = []
                s = self.m.sizeof(r1[2])
                for i, x in enumerate(v):
                    parts.append((i * s, s, x))
                return Cat(parts, s * r1[1])
            return tuple(self.cast(op, r1[2], x, r2[2]) for x in v)
        if op == 'trunc':
            w = r2[1]
            if isinstance(v, int):
                return v & mask(w)
            if isinstance(v, Cat):
                return self.part(v, v.size, 0, w // 8)
            if isinstance(v, (Ptr, PIte)):
                v = ptr_int(v)
            if w == 1:
                if poly.is_bool(v):
                    return v
                return self.irem(v, 2)
            if poly.is_bool(v) or self.fits(v, w):
                return v
            return poly.from_atom(poly.atom(("trunc", w, v), nonneg=True, bits=w, name="trunc%d(%s)" % (w, poly.short(v)),
                                            payload=v))
        if op == 'zext':
            if isinstance(v, int):
                return v
            return v
        if op == 'sext':
            if isinstance(v, int):
                return sgn(v, r1[1]) & mask(r2[1])
            if r1[1] == 1:
                return neg(v)
            return v
        if op == 'fpext':
            return v
        if op == 'fptrunc':
            return self.to_f32(v) if r2[1] == 32 else v
        if op in ('uitofp', 'sitofp'):
            if isinstance(v, int):
                v = sgn(v, r1[1]) if op == 'sitofp' else v
                if r2[1] == 32 and abs(v) > (1 << 24):
                    import struct
                    v = int(struct.unpack('f', struct.pack('f', float(v)))[0])
            return v
        if op in ('fptoui', 'fptosi'):
            c = const_of(v)
            if c is not None:
                x = int(c)
                return x & mask(r2[1])
            if isinstance(v, Poly) and not poly._any_float(v) and all(Fraction(x).denominator == 1 for x in v.t.values()):
                return v
            return poly.from_atom(poly.atom(("toint", r2[1], v), nonneg=op == 'fptoui', bits=r2[1],
                                            name="int%d(%s)" % (r2[1], poly.short(v)), payload=v))
        if op == 'ptrtoint':
            return ptr_int(as_ptr(v))
        if op == 'inttoptr':
            return as_ptr(v)
        if op == 'bitcast':
            if r1[0] in ('i', 'f') and r2[0] in ('i', 'f') and v == 0 and not isinstance(v, Cat):
                return 0
            if r2[0] == 'vec' and isinstance(v, Cat):
                return tuple(p[2] for p in v.parts)
            if r2[0] == 'vec' and v == 0:
                return tuple(0 for _ in range(r2[1]))
            return v
        raise Undecided("cast %s" % op)

    def to_f32(self, v):
        c = const_of(v)
        if c is not None:
            import struct
            return poly._cn(Fraction(struct.unpack('f', struct.pack('f', float(c)))[0]))
        import ident
        acc = set()
        ident.leaves(v, acc, set())
        if all(poly.ATOMS[a].bits == 32 or poly.ATOMS[a].ind or not poly.ATOMS[a].isfloat for a in acc):
            return v      # computed from single precision data: nothing is lost beyond rounding
        if all(poly.ATOMS[a].bits == 32 and isinstance(poly.ATOMS[a].key, tuple) and poly.ATOMS[a].key[0] == 'f32'
               for a in poly.atoms_of(v)) and isinstance(v, Poly) and len(v.t) == 1:
            return v
        return poly.from_atom(poly.atom(("f32", v), isfloat=True, bits=32, name="(float)(%s)" % poly.short(v),
                                        payload=v))


class _Dead:
    pass


DEAD = _Dead()
