"""Abstract semantics of library functions (memory management, exceptions, strings, streams, math,
LAPACK, specification API).  Everything of /repo is analysed from its own code; only functions whose
code is outside /repo are modelled here."""
import re
from fractions import Fraction

import engine as E
import poly
from engine import (DEAD, NULL, UNDEF, Exc, PIte, Ptr, Undecided, Undef, as_ptr, const_of, mask, ptr_int, vite)
from poly import Poly, add, mul, neg, sub


# ------------------------------------------------------------------------------------------------
# abstract text: tuple of pieces; piece = str | ('v', kind, value) | ('sym', name) |
#                ('ite', cond, text, text) | ('man', manipulator)
# ------------------------------------------------------------------------------------------------
def text(*ps):
    out = []
    for p in ps:
        if isinstance(p, str):
            if not p:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += p
            else:
                out.append(p)
        else:
            out.append(p)
    return tuple(out)


def cat(a, b):
    return text(*(a + b))


def fkey(t):
    return tuple(('v', 'i') + p[2:] if isinstance(p, tuple) and p[0] == 'v' and p[1] == 'u' else p for p in t)


def is_lit(t):
    return all(isinstance(p, str) for p in t)


def lit(t):
    return "".join(t)


def items(t):
    out = []
    for p in t:
        if isinstance(p, str):
            out.extend(p)
        else:
            out.append(p)
    return tuple(out)


def pack(its):
    return text(*its)


def text_ite(c, a, b):
    if a == b:
        return a
    if not isinstance(c, Poly):
        return a if c else b
    ia, ib = items(a), items(b)
    n = 0
    while n < len(ia) and n < len(ib) and ia[n] == ib[n]:
        n += 1
    # same shape with different numbers: gate the numbers
    if len(ia) == len(ib):
        res = []
        for x, y in zip(ia, ib):
            if x == y:
                res.append(x)
            elif isinstance(x, tuple) and isinstance(y, tuple) and x[0] == 'v' and y[0] == 'v' and x[1] == y[1]:
                res.append(('v', x[1], vite(c, x[2], y[2])))
            else:
                res = None
                break
        if res is not None:
            return pack(res)
    return pack(ia[:n]) + (('ite', c, pack(ia[n:]), pack(ib[n:])),)


def show_text(t):
    out = []
    for p in t:
        if isinstance(p, str):
            out.append(p)
        elif p[0] == 'v':
            out.append("<%s>" % poly.short(p[2]))
        elif p[0] == 'ite':
            out.append("{if %s: %s | %s}" % (poly.short(p[1]), show_text(p[2]), show_text(p[3])))
        elif p[0] == 'man':
            pass
        else:
            out.append("<%s>" % (p[1],))
    return "".join(out)


def exact(t):
    """The text with numbers regardless of their printed precision."""
    return tuple(('v', 'd', p[2]) if isinstance(p, tuple) and p[0] == 'v' and p[1] in 'gG' else
                 ('ite', p[1], exact(p[2]), exact(p[3])) if isinstance(p, tuple) and p[0] == 'ite' else p for p in t)


def text_eq(a, b):
    """Condition 'a == b' as 0/1 value."""
    if a == b:
        return 1
    if is_lit(a) and is_lit(b):
        return 0
    for x, y in ((a, b), (b, a)):
        for n, p in enumerate(x):
            if isinstance(p, tuple) and p[0] == 'ite':
                l, r = x[:n], x[n + 1:]
                return vite(p[1], text_eq(text(*(l + p[2] + r)), y), text_eq(text(*(l + p[3] + r)), y))
    ia, ib = items(a), items(b)
    # strip common ends
    while ia and ib and ia[0] == ib[0]:
        ia, ib = ia[1:], ib[1:]
    while ia and ib and ia[-1] == ib[-1]:
        ia, ib = ia[:-1], ib[:-1]
    if not ia and not ib:
        return 1
    for x, y in ((ia, ib), (ib, ia)):
        if not x and any(isinstance(p, str) or p[0] == 'v' for p in y):
            return 0
    if len(ia) == 1 and len(ib) == 1 and isinstance(ia[0], tuple) and isinstance(ib[0], tuple) and \
            ia[0][0] == 'v' and ib[0][0] == 'v' and ia[0][1] == ib[0][1]:
        return poly.ind_eq(ia[0][2], ib[0][2], ia[0][1] not in 'dgG')
    for x, y in ((ia, ib), (ib, ia)):
        if any(isinstance(p, tuple) and p[0] == 'v' for p in x) and all(isinstance(p, str) for p in y):
            if len(x) == 1 and x[0][0] == 'v' and x[0][1] not in 'dgG':
                try:
                    return poly.ind_eq(x[0][2], int("".join(y)), True)
                except ValueError:
                    return 0
            # numbers consist of few characters: a literal with other ones differs
            if all(isinstance(p, str) or (p[0] == 'v' and p[1] in ('d', 'g', 'G', 'i', 'u')) for p in x):
                own = {p for p in x if isinstance(p, str)}
                if any(c not in own and c not in '0123456789+-.einfa' for c in y):
                    return 0
            # a leading/trailing letter that no number has
            if isinstance(x[0], str) and y and x[0] != y[0]:
                return 0
    ka, kb = sorted((pack(ia), pack(ib)), key=repr)
    return poly.from_atom(poly.atom(("streq", ka, kb), ind=True, nonneg=True, bits=1,
                                    name="[%s == %s]" % (show_text(pack(ia)), show_text(pack(ib)))))


STRING = r'std::(?:__cxx11::)?basic_string<char, std::char_traits<char>, std::allocator<char> ?>'
STREAM = r'std::(?:__cxx11::)?basic_(?:i|o|io)?(?:f|string)?stream<char(?:, [^()]*)?>'


class Models:
    STD_BASES = {
        '@_ZTISt13runtime_error': ['@_ZTISt9exception'],
        '@_ZTISt11logic_error': ['@_ZTISt9exception'],
        '@_ZTISt12length_error': ['@_ZTISt11logic_error'],
        '@_ZTISt12out_of_range': ['@_ZTISt11logic_error'],
        '@_ZTISt16invalid_argument': ['@_ZTISt11logic_error'],
        '@_ZTISt12domain_error': ['@_ZTISt11logic_error'],
        '@_ZTISt9bad_alloc': ['@_ZTISt9exception'],
    }

    def __init__(self, eng):
        self.e = eng
        self.by_name = {}
        self.by_pat = []
        for n in dir(self):
            if n.startswith('m_'):
                f = getattr(self, n)
                for line in (f.__doc__ or '').strip().split('\n'):
                    line = line.strip()
                    if not line:
                        continue
                    if line.startswith('@'):
                        self.by_name[line] = f
                    else:
                        self.by_pat.append((re.compile(line + r'\Z'), f))

    def lookup(self, name, f):
        h = self.by_name.get(name)
        if h:
            return h
        if name.startswith('@llvm.'):
            base = re.sub(r'(\.(p0|i\d+|f\d+|v\d+[fi]\d+|sl_[^.]*))+$', '', name)
            h = self.by_name.get(base)
            if h:
                return h
            raise Undecided("intrinsic %s" % name)
        d = f.demangled
        if name.startswith('@vp_'):
            raise Undecided("unknown specification call %s" % name)
        if d.startswith(('std::', 'void std::', 'bool std::', 'operator', '__gnu', 'unsigned', 'int', 'std', 'char', 'float', 'double', 'long', 'auto std::', 'decltype')):
            for pat, h in self.by_pat:
                if pat.match(d):
                    return h
            if re.match(r'(?:[\w ]*\b)?' + STRING + r'::', d) or re.match(STREAM + r'::', d):
                raise Undecided("library function without model: %s" % d)
        return None

    def merge_abst(self, c, a, b):
        out = {}
        for k, x in a.items():
            y = b.get(k)
            if y is None:
                out[k] = x
            elif x is y or x == y:
                out[k] = x
            else:
                out[k] = self.merge_val(c, k, x, y)
        for k, y in b.items():
            if k not in a:
                out[k] = y
        return out

    def merge_val(self, c, k, x, y):
        if x[0] == 's' and y[0] == 's':
            return ('s', text_ite(c, x[1], y[1]))
        if x[0] == 'st' and y[0] == 'st':
            d1, d2 = dict(x[1]), dict(y[1])
            d = {}
            for key in set(d1) | set(d2):
                v1, v2 = d1.get(key), d2.get(key)
                if v1 is v2 or v1 == v2:
                    d[key] = v1
                elif key == 'out':
                    d[key] = text_ite(c, v1 or (), v2 or ())
                elif key in ('fail', 'eof', 'open'):
                    d[key] = vite(c, v1 or 0, v2 or 0)
                elif key == 'name':
                    d[key] = text_ite(c, v1 or (), v2 or ())
                elif key in ('in', 'pos'):
                    raise Undecided("input stream position depends on data")
                else:
                    raise Undecided("stream join on %s" % key)
            return ('st', tuple(sorted(d.items(), key=lambda z: z[0])))
        if x[0] == 'fs' and y[0] == 'fs':
            return ('fs', text_ite(c, x[1], y[1]))
        if x[0] == 'cnt' and y[0] == 'cnt':
            return ('cnt', vite(c, x[1], y[1]))
        if isinstance(x, tuple) and x[0] == 'exc':
            return x
        raise Undecided("join of abstract objects %r" % (k,))

    # ---------------------------------------------------------------------------------------------
    # intrinsics
    # ---------------------------------------------------------------------------------------------
    def m_nop(self, st, a, ex, ins, f):
        """@llvm.lifetime.start
        @llvm.lifetime.end
        @llvm.dbg.declare
        @llvm.dbg.value
        @llvm.dbg.label
        @llvm.assume
        @llvm.donothing
        @llvm.prefetch
        @llvm.experimental.noalias.scope.decl
        @llvm.stackrestore
        @llvm.invariant.start
        @llvm.va_start
        @llvm.va_end
        @__cxa_end_catch
        @__cxa_guard_abort
        @__cxa_free_exception
        """
        return None

    def m_stacksave(self, st, a, ex, ins, f):
        """@llvm.stacksave"""
        return NULL

    def m_memcpy(self, st, a, ex, ins, f):
        """@llvm.memcpy
        @llvm.memmove
        @llvm.memcpy.inline
        @memcpy
        @memmove
        """
        self.e.memcpy(st, a[0], a[1], a[2])
        return a[0]

    def m_memset(self, st, a, ex, ins, f):
        """@llvm.memset
        @memset
        """
        self.e.memset(st, a[0], a[1], a[2])
        return a[0]

    def m_expect(self, st, a, ex, ins, f):
        """@llvm.expect
        @llvm.expect.with.probability
        @llvm.launder.invariant.group
        @llvm.ssa.copy
        @llvm.arithmetic.fence
        """
        return a[0]

    def m_isconst(self, st, a, ex, ins, f):
        """@llvm.is.constant
        """
        return 0

    def m_objsize(self, st, a, ex, ins, f):
        """@llvm.objectsize"""
        return mask(64)

    def m_threadptr(self, st, a, ex, ins, f):
        """@llvm.threadlocal.address"""
        return a[0]

    def m_trap(self, st, a, ex, ins, f):
        """@llvm.trap
        @llvm.ubsantrap
        """
        ex.aborts.append((1, 'trap', self.e.where(), st))
        return DEAD

    def m_fmuladd(self, st, a, ex, ins, f):
        """@llvm.fmuladd
        @llvm.fma
        @fma
        """
        if any(isinstance(x, Undef) for x in a):
            return UNDEF
        return add(mul(a[0], a[1]), a[2])

    def m_fabs(self, st, a, ex, ins, f):
        """@llvm.fabs
        @fabs
        @fabsf
        """
        if isinstance(a[0], Undef):
            return UNDEF
        return poly.fabs(a[0])

    def m_sqrt(self, st, a, ex, ins, f):
        """@llvm.sqrt
        @sqrt
        @sqrtf
        """
        return self.sqrt(a[0])

    def sqrt(self, x):
        if isinstance(x, Undef):
            return UNDEF
        c = const_of(x)
        if c is not None:
            if c >= 0:
                from math import isqrt
                fr = Fraction(c)
                n, d = isqrt(fr.numerator), isqrt(fr.denominator)
                if n * n == fr.numerator and d * d == fr.denominator:
                    return poly._cn(Fraction(n, d))
        if isinstance(x, Poly) and len(x.t) == 1:
            (m, k), = x.t.items()
            if all(e % 2 == 0 for _, e in m) and not any(poly.ATOMS[i].ind for i, _ in m) and Fraction(k) > 0:
                r = self.sqrt(k)
                if not isinstance(r, Poly):
                    return poly.fabs(mul(Poly({tuple((i, e // 2) for i, e in m): 1}), r))
        return poly.from_atom(poly.atom(("sqrt", x), isfloat=True, nonneg=True, name="sqrt(%s)" % poly.short(x)))

    def m_pow(self, st, a, ex, ins, f):
        """@llvm.pow
        @llvm.powi
        @pow
        @powf
        """
        if any(isinstance(x, Undef) for x in a[:2]):
            return UNDEF
        c = const_of(a[1])
        if c is not None and isinstance(c, int) and 0 <= c <= 16:
            r = 1
            for _ in range(c):
                r = mul(r, a[0])
            return r
        if c == 1 / 2 or c == Fraction(1, 2):
            return self.sqrt(a[0])
        if c is not None and isinstance(c, int) and -16 <= c < 0:
            r = 1
            for _ in range(-c):
                r = mul(r, a[0])
            return poly.div(1, r)
        return self.fn("pow", a[:2])

    def fn(self, name, args, isfloat=True, nonneg=False):
        return poly.from_atom(poly.atom(("fn", name) + tuple(args), isfloat=isfloat, nonneg=nonneg,
                                        name="%s(%s)" % (name, ",".join(poly.short(x) for x in args))))

    def m_trans(self, st, a, ex, ins, f):
        """@llvm.exp
        @llvm.log
        @llvm.sin
        @llvm.cos
        @llvm.floor
        @llvm.ceil
        @llvm.trunc
        @llvm.rint
        @llvm.round
        @exp
        @log
        @sin
        @cos
        @tan
        @floor
        @ceil
        @round
        @expf
        @sinf
        @cosf
        @acos
        @atan2
        @fmod
        """
        n = f.name[1:].replace('llvm.', '').split('.')[0]
        c = const_of(a[0])
        if c is not None and n in ('floor', 'ceil', 'trunc', 'round', 'rint'):
            import math
            return {'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc,
                    'round': lambda x: math.floor(x + Fraction(1, 2)) if x >= 0 else -math.floor(-x + Fraction(1, 2)),
                    'rint': round}[n](c)
        if c == 0 and n in ('sin', 'tan'):
            return 0
        if c == 0 and n in ('exp', 'cos'):
            return 1
        return self.fn(n, a)

    def m_minmax(self, st, a, ex, ins, f):
        """@llvm.maxnum
        @llvm.minnum
        @llvm.umax
        @llvm.umin
        @llvm.smax
        @llvm.smin
        @fmax
        @fmin
        """
        n = f.name[1:].replace('llvm.', '').split('.')[0]
        x, y = a[0], a[1]
        if n in ('maxnum', 'fmax'):
            return poly.fmax(x, y)
        if n in ('minnum', 'fmin'):
            return poly.fmin(x, y)
        t = ins[4][0][0]
        c = self.e.icmp('ult' if n[0] == 'u' else 'slt', t, x, y, st)
        return vite(c, y, x) if n.endswith('max') else vite(c, x, y)

    def m_iabs(self, st, a, ex, ins, f):
        """@llvm.abs
        @abs
        @labs
        """
        t = ins[4][0][0]
        c = self.e.icmp('slt', t, a[0], 0, st)
        return vite(c, self.e.binop('sub', t, 0, a[0]), a[0])

    def m_ctlz(self, st, a, ex, ins, f):
        """@llvm.ctlz
        """
        w = ins[4][0][0][1]
        c = const_of(a[0])
        if c is None:
            raise Undecided("ctlz")
        return w - c.bit_length()

    def m_cttz(self, st, a, ex, ins, f):
        """@llvm.cttz
        """
        w = ins[4][0][0][1]
        c = const_of(a[0])
        if c is None:
            raise Undecided("cttz")
        return w if c == 0 else (c & -c).bit_length() - 1

    def m_ctpop(self, st, a, ex, ins, f):
        """@llvm.ctpop
        """
        c = const_of(a[0])
        if c is None:
            raise Undecided("ctpop")
        return bin(c).count('1')

    def m_umulo(self, st, a, ex, ins, f):
        """@llvm.umul.with.overflow
        @llvm.uadd.with.overflow
        @llvm.usub.with.overflow
        @llvm.sadd.with.overflow
        @llvm.smul.with.overflow
        """
        t = ins[4][0][0]
        n = f.name.split('.')[1]
        x, y = a[0], a[1]
        op = {'umul': 'mul', 'uadd': 'add', 'usub': 'sub', 'sadd': 'add', 'smul': 'mul'}[n]
        r = self.e.binop(op, t, x, y)
        cx, cy = const_of(x), const_of(y)
        ov = 0
        if cx is not None and cy is not None and n[0] == 'u':
            v = cx * cy if op == 'mul' else cx + cy if op == 'add' else cx - cy
            ov = int(v < 0 or v > mask(t[1]))
        return (r, ov)

    def m_typeid(self, st, a, ex, ins, f):
        """@llvm.eh.typeid.for
        """
        p = a[0]
        return self.e.typeid(self.e.names[p.o])

    # ---------------------------------------------------------------------------------------------
    # memory
    # ---------------------------------------------------------------------------------------------
    def m_new(self, st, a, ex, ins, f):
        """@_Znwm
        @_Znam
        @malloc
        @_ZnwmSt11align_val_t
        @_ZnamSt11align_val_t
        """
        n = a[0]
        if isinstance(n, Undef):
            raise Undecided("allocation of undefined size")
        c = const_of(n)
        o = self.e.new_obj(st, "heap block allocated at %s" % self.e.where(), c if c is not None else n, 'heap')
        o.aux = {'@_Znwm': 'new', '@_Znam': 'new[]', '@malloc': 'malloc'}.get(f.name, 'new')
        o.site = self.e.where()
        return Ptr(o.id, 0)

    def m_delete(self, st, a, ex, ins, f):
        """@_ZdlPv
        @_ZdaPv
        @_ZdlPvm
        @_ZdaPvm
        @free
        @_ZdlPvSt11align_val_t
        @_ZdlPvmSt11align_val_t
        """
        p = as_ptr(a[0])
        kind = {'@_ZdlPv': 'new', '@_ZdlPvm': 'new', '@_ZdaPv': 'new[]', '@_ZdaPvm': 'new[]',
                '@free': 'malloc'}.get(f.name, 'new')
        self.free(st, p, kind)
        return None

    def free(self, st, p, kind):
        if isinstance(p, PIte):
            ca, cb = p.a, p.b
            # release on one gate only: not representable for both; treat both as released under gate
            for q in (ca, cb):
                if isinstance(q, Ptr) and q.o == 0:
                    continue
                self.free(st, q, kind)
            return
        if isinstance(p, Undef):
            self.e.report("memory-safety", "release of an uninitialised pointer", st=st)
            return
        if p.o == 0:
            return
        o = st.mem.get(p.o)
        if o is None or o.kind != 'heap' or const_of(p.off) != 0:
            self.e.report("memory-safety", "release of memory that was not allocated (%s)" %
                          (o.name if o else '?'), st=st)
            return
        o = st.wr(p.o)
        if o.freed:
            self.e.report("memory-safety", "memory released twice (%s)" % o.name, st=st)
            return
        if o.aux in ('new', 'new[]', 'malloc') and o.aux != kind:
            self.e.report("memory-safety", "memory allocated with %s released with the wrong operator" % o.aux, st=st)
        o.freed = self.e.where()
        o.cells = {}
        o.fills = []

    # ---------------------------------------------------------------------------------------------
    # exceptions / termination
    # ---------------------------------------------------------------------------------------------
    def m_allocexc(self, st, a, ex, ins, f):
        """@__cxa_allocate_exception"""
        o = self.e.new_obj(st, "exception object", const_of(a[0]), 'exc')
        return Ptr(o.id, 0)

    def m_throw(self, st, a, ex, ins, f):
        """@__cxa_throw"""
        ex.excs.append((1, st, Exc(a[0], self.e.names[a[1].o])))
        return DEAD

    def m_begincatch(self, st, a, ex, ins, f):
        """@__cxa_begin_catch
        @__cxa_get_exception_ptr
        """
        st.excstack = st.excstack + (a[0],)
        return a[0]

    def m_rethrow(self, st, a, ex, ins, f):
        """@__cxa_rethrow"""
        p = st.excstack[-1]
        ex.excs.append((1, st, self.e.exc_info(st, p)))
        return DEAD

    def m_guard(self, st, a, ex, ins, f):
        """@__cxa_guard_acquire"""
        v = self.e.load(st, a[0], ('i', 8))
        return 0 if v == 1 else 1

    def m_guardrel(self, st, a, ex, ins, f):
        """@__cxa_guard_release"""
        self.e.store(st, a[0], ('i', 8), 1)
        return None

    def m_atexit(self, st, a, ex, ins, f):
        """@__cxa_atexit
        @atexit
        """
        return 0

    def m_abort(self, st, a, ex, ins, f):
        """@abort
        @_ZSt9terminatev
        @__clang_call_terminate
        @exit
        @_exit
        @__cxa_bad_cast
        @__cxa_pure_virtual
        @__assert_fail
        @_ZSt21__glibcxx_assert_failPKciS0_S0_
        """
        ex.aborts.append((1, f.name[1:], self.e.where(), st))
        return DEAD

    def m_stdthrow(self, st, a, ex, ins, f):
        r"""std::__throw_\w+\(.*\)
        """
        n = re.match(r'std::__throw_(\w+?)(_fmt)?\(', f.demangled).group(1)
        ti = {'length_error': '@_ZTISt12length_error', 'out_of_range': '@_ZTISt12out_of_range',
              'logic_error': '@_ZTISt11logic_error', 'bad_alloc': '@_ZTISt9bad_alloc',
              'bad_array_new_length': '@_ZTISt9bad_alloc', 'invalid_argument': '@_ZTISt16invalid_argument',
              'runtime_error': '@_ZTISt13runtime_error'}.get(n, '@_ZTISt9exception')
        o = self.e.new_obj(st, "exception object", 16, 'exc')
        self.e.tinames.setdefault(ti, 'std::' + n)
        ex.excs.append((1, st, Exc(Ptr(o.id, 0), ti)))
        return DEAD

    def m_excbase(self, st, a, ex, ins, f):
        r"""std::exception::~?exception\(.*\)
        std::(runtime|logic)_error::~?\w+\(.*\)
        """
        return None

    # C strings -------------------------------------------------------------------------------------
    def cstr(self, st, p):
        """Text of a C string."""
        p = as_ptr(p)
        if isinstance(p, PIte):
            return text_ite(p.c, self.cstr(st, p.a), self.cstr(st, p.b))
        if isinstance(p, Undef):
            raise Undecided("undefined C string")
        off = const_of(p.off)
        if off is None:
            raise Undecided("C string at symbolic offset")
        v = st.abst.get((p.o, off))
        if v is not None and v[0] == 's':
            return v[1]
        if p.o in self.e.names:
            self.e.global_obj(st, self.e.names[p.o])
        o = st.mem.get(p.o)
        if o is None:
            raise Undecided("C string of dead object")
        out = []
        for i in range(off, off + 100000):
            c = self.e.load_cell(st, o, i, 1, ('i', 8))
            if isinstance(c, Undef):
                raise Undecided("undefined character")
            if c == 0:
                break
            out.append(chr(c) if isinstance(c, int) else ('v', 'c', c))
        return text(*out)

    def litstr(self, st, p):
        t = self.cstr(st, p)
        if not is_lit(t):
            raise Undecided("literal string expected")
        return lit(t)

    def m_strlen(self, st, a, ex, ins, f):
        """@strlen
        """
        t = self.cstr(st, a[0])
        if is_lit(t):
            return len(lit(t))
        return self.fn("strlen", (t,), isfloat=False, nonneg=True)

    def m_chartraits(self, st, a, ex, ins, f):
        r"""std::char_traits<char>::length\(char const\*\)
        """
        return self.m_strlen(st, a, ex, ins, f)

    def m_memcmp(self, st, a, ex, ins, f):
        """@memcmp
        @bcmp
        """
        n = const_of(a[2])
        if n is None:
            raise Undecided("memcmp")
        p, q = as_ptr(a[0]), as_ptr(a[1])
        r = 1
        i = 0
        while i < n:
            w = 8 if i + 8 <= n else (4 if i + 4 <= n else 1)
            x = self.e.load(st, self.e.padd(p, i), ('i', 8 * w))
            y = self.e.load(st, self.e.padd(q, i), ('i', 8 * w))
            if isinstance(x, E.Cat) or isinstance(y, E.Cat):
                r = mul(r, self.e.catcmp('eq', x, y))
            else:
                r = mul(r, poly.ind_eq(x, y, True))
            i += w
        c = const_of(r)
        if c is not None:
            return 0 if c else 1
        return sub(1, r)

    # ---------------------------------------------------------------------------------------------
    # specification API
    # ---------------------------------------------------------------------------------------------
    def _in(self, st, a, **kw):
        tag = self.litstr(st, a[0])
        i = a[1] if len(a) > 1 else 0
        return poly.from_atom(poly.atom(("in", tag, i), name="%s[%s]" % (tag, poly.short(i)), **kw))

    # one-dimensional orthonormal Legendre polynomials on [0,1] and Gauss quadrature, as algebraic numbers
    def leg(self, a, x):
        if a == 0:
            return 1
        if a == 1:
            return mul(poly.surd(3), sub(mul(2, x), 1))
        if a == 2:
            return mul(poly.surd(5), add(mul(6, sub(mul(x, x), x)), 1))
        raise Undecided("shape function %d" % a)

    def dleg(self, a, x):
        if a == 0:
            return 0
        if a == 1:
            return mul(poly.surd(3), 2)
        if a == 2:
            return mul(poly.surd(5), sub(mul(12, x), 6))
        raise Undecided("shape function %d" % a)

    def gauss(self, n):
        if n == 1:
            return [(1, Fraction(1, 2))]
        if n == 2:
            d = mul(poly.surd(3), Fraction(1, 6))
            return [(Fraction(1, 2), sub(Fraction(1, 2), d)), (Fraction(1, 2), add(Fraction(1, 2), d))]
        if n == 3:
            d = mul(mul(poly.surd(3), poly.surd(5)), Fraction(1, 10))
            return [(Fraction(5, 18), sub(Fraction(1, 2), d)), (Fraction(4, 9), Fraction(1, 2)), (Fraction(5, 18), add(Fraction(1, 2), d))]
        raise Undecided("quadrature with %d points" % n)

    def ci(self, *xs):
        out = []
        for x in xs:
            c = const_of(x)
            if c is None:
                raise Undecided("index of a shape function is not a constant")
            out.append(int(c))
        return out

    def m_vp_phi(self, st, a, ex, ins, f):
        """@vp_phi
        @vp_dphi"""
        k, = self.ci(a[0])
        return (self.leg if f.name == '@vp_phi' else self.dleg)(k, a[1])

    def m_vp_cut(self, st, a, ex, ins, f):
        """@vp_cut"""
        k, = self.ci(a[1])
        return self.fn("cut%d" % k, (a[0],))

    def m_vp_tab(self, st, a, ex, ins, f):
        """@vp_tab"""
        # integral of the product of the d1-th derivative of phi_a and the d2-th derivative of phi_b over [0,1]
        i, d1, j, d2 = self.ci(*a[:4])
        s = 0
        for w, x in self.gauss(3):
            s = add(s, mul(w, mul((self.dleg if d1 else self.leg)(i, x), (self.dleg if d2 else self.leg)(j, x))))
        return s

    def m_vp_gauss(self, st, a, ex, ins, f):
        """@vp_gauss"""
        n, q, what = self.ci(*a[:3])
        return self.gauss(n)[q][what]

    def m_vp_lapack_fail(self, st, a, ex, ins, f):
        """@vp_lapack_fail"""
        self.lapack_fail = True

    def m_vp_lapack_ok(self, st, a, ex, ins, f):
        """@vp_lapack_ok"""
        self.lapack_ok = True
        return None

    def m_vp_in_d(self, st, a, ex, ins, f):
        """@vp_in_d"""
        return self._in(st, a, isfloat=True)

    def m_vp_in_f(self, st, a, ex, ins, f):
        """@vp_in_f"""
        return self._in(st, a, isfloat=True, bits=32)

    def m_vp_in_u(self, st, a, ex, ins, f):
        """@vp_in_u"""
        return self._in(st, a, nonneg=True, bits=32)

    def m_vp_in_i(self, st, a, ex, ins, f):
        """@vp_in_i"""
        return self._in(st, a, bits=32)

    def m_vp_in_b(self, st, a, ex, ins, f):
        """@vp_in_b"""
        return self._in(st, a, nonneg=True, bits=1, ind=True)

    def m_vp_in_s(self, st, a, ex, ins, f):
        """@vp_in_s"""
        tag = self.litstr(st, a[1])
        self.sset(st, a[0], (('sym', tag),))
        return None

    def m_vp_fn_d(self, st, a, ex, ins, f):
        """@vp_fn_d"""
        tag = self.litstr(st, a[0])
        return self.fn(tag, tuple(a[2:2 + const_of(a[1])]))

    def m_vp_fn_u(self, st, a, ex, ins, f):
        """@vp_fn_u"""
        tag = self.litstr(st, a[0])
        return self.fn(tag, tuple(a[2:2 + const_of(a[1])]), isfloat=False, nonneg=True)

    def m_vp_eq(self, st, a, ex, ins, f):
        """@vp_eq_d
        @vp_eq_u
        @vp_eq_i
        """
        tag = self.litstr(st, a[0])
        i = a[1]
        i = poly.short(i) if isinstance(i, Poly) else (E.sgn(i, 32) if isinstance(i, int) else i)
        self.oblige("%s[%s]" % (tag, i), a[2], a[3], st)
        return None

    def oblige(self, tag, got, want, st, what=None):
        e = self.e
        e.obligations.append((e.unit, tag))
        if isinstance(got, Undef) or isinstance(want, Undef):
            e.report(tag, what or "uninitialised value where a definite value is specified",
                     "uninitialised (%r)" % (got,) if isinstance(got, Undef) else poly.show(got),
                     "?" if isinstance(want, Undef) else poly.show(want), st=st)
            return
        eq, cex = e.equal(got, want, st)
        if not eq:
            e.report(tag, what or "computed value differs from the specified value", poly.show(got), poly.show(want),
                     st=st, cex=cex)

    def diff(self, p, var):
        """Partial derivative of a normal form by the input atom var (almost everywhere, for gated values)."""
        if not isinstance(p, Poly):
            return 0
        out = 0
        for m, c in p.t.items():
            for n, (a, e) in enumerate(m):
                d = self.diff_atom(a, var)
                if d == 0:
                    continue
                rest = list(m)
                if e == 1:
                    del rest[n]
                else:
                    rest[n] = (a, e - 1)
                out = add(out, mul(mul(Poly({tuple(rest): c}) if rest else c, e), d))
        return out

    def diff_atom(self, a, var):
        if a == var:
            return 1
        at = poly.ATOMS[a]
        k = at.key
        if at.ind or k[0] in ("in", "surd", "inv0"):
            return 0
        if k[0] == "inv":
            d = self.diff(at.payload, var)
            return mul(mul(-1, Poly({((a, 2),): 1})), d)
        if k[0] == "sqrt":
            d = self.diff(k[1], var)
            return mul(mul(Fraction(1, 2), Poly({((a, -1),): 1})), d)
        if k[0] == "fn":
            ds = [self.diff(x, var) for x in k[2:]]
            if all(d == 0 for d in ds):
                return 0
            n = k[1]
            if n == "sin":
                return mul(self.fn("cos", k[2:]), ds[0])
            if n == "cos":
                return mul(mul(-1, self.fn("sin", k[2:])), ds[0])
            if n == "exp":
                return mul(poly.from_atom(at), ds[0])
            if n == "log":
                return mul(poly.inv(k[2]), ds[0])
            if n == "tan":
                return mul(add(1, Poly({((a, 2),): 1})), ds[0])
        raise Undecided("derivative of %s" % at.name)

    def m_vp_diff(self, st, a, ex, ins, f):
        """@vp_diff"""
        if isinstance(a[0], Undef):
            return UNDEF
        tag = self.litstr(st, a[1])
        return self.diff(a[0], poly.atom(("in", tag, a[2]), name="%s[%s]" % (tag, poly.short(a[2])), isfloat=True).id)

    def evalf(self, p, env):
        """Value and magnitude of a normal form for the input values of env."""
        if not isinstance(p, Poly):
            return float(p), abs(float(p))
        v = s = 0.0
        for m, c in p.t.items():
            x = float(c)
            for a, e in m:
                x *= self.evalf_atom(a, env) ** e
            v += x
            s += abs(x)
        return v, s

    def evalf_atom(self, a, env):
        r = env.get(a)
        if r is None:
            import math
            at = poly.ATOMS[a]
            k = at.key
            if k[0] == "inv":
                r = 1 / self.evalf(at.payload, env)[0]
            elif k[0] == "sqrt":
                r = math.sqrt(self.evalf(k[1], env)[0])
            elif k[0] == "surd":
                r = math.sqrt(k[1])
            elif k[0] == "fabs":
                r = abs(self.evalf(k[1], env)[0])
            elif k[0] in ("max", "min"):
                r = {"max": max, "min": min}[k[0]](self.evalf(x, env)[0] for x in k[1])
            elif k[0] == "eq":
                r = float(abs(self.evalf(at.payload, env)[0]) < 1e-12)
            elif k[0] == "lt":
                r = float(self.evalf(at.payload, env)[0] < 0)
            elif k[0] == "fn" and k[1] in ("sin", "cos", "tan", "exp", "log", "acos", "floor", "ceil", "pow", "atan2"):
                r = getattr(math, k[1])(*[self.evalf(x, env)[0] for x in k[2:]])
            elif k[0] == "in":
                h = 0
                for ch in "%s|%s|%s" % (k[1], k[2], env[-1]):
                    h = (h * 131 + ord(ch)) % 1000003
                r = 0.05 + 0.9 * h / 1000003
            else:
                raise Undecided("value of %s" % at.name)
            env[a] = r
        return r

    def m_vp_near(self, st, a, ex, ins, f):
        """@vp_near_d"""
        # equality of elementary functions whose constants are rounded numbers: the normal forms are compared at generic points
        tag = "%s[%s]" % (self.litstr(st, a[0]), a[1])
        e = self.e
        got, want = a[2], a[3]
        if isinstance(got, Undef) or isinstance(want, Undef):
            return self.oblige(tag, got, want, st)
        e.obligations.append((e.unit, tag))
        for k in range(12):
            env = {-1: k}
            try:
                if isinstance(st.pc, Poly) and self.evalf(st.pc, env)[0] == 0:
                    continue
                x, sx = self.evalf(got, env)
                y, sy = self.evalf(want, env)
            except (ZeroDivisionError, ValueError, OverflowError):
                continue
            if not abs(x - y) <= 1e-8 * max(1.0, sx, sy):
                e.report(tag, "function differs from the specified function", poly.show(got), poly.show(want), st=st,
                         cex="; ".join("%s = %.3f" % (poly.ATOMS[q].name, v) for q, v in env.items()
                                       if q >= 0 and poly.ATOMS[q].key[0] == "in") + "; %.6g instead of %.6g" % (x, y))
                return None
        return None

    def m_vp_true(self, st, a, ex, ins, f):
        """@vp_true"""
        tag = self.litstr(st, a[0])
        self.oblige(tag, a[1], 1, st, "specified condition does not hold")
        return None

    def m_vp_eq_p(self, st, a, ex, ins, f):
        """@vp_eq_p"""
        tag = self.litstr(st, a[0])
        self.oblige(tag, self.e.pcmp('eq', as_ptr(a[1]), as_ptr(a[2]), st), 1, st, "pointers differ")
        return None

    def m_vp_eq_s(self, st, a, ex, ins, f):
        """@vp_eq_s"""
        tag = self.litstr(st, a[0])
        x, y = self.sget(st, a[1]), self.cstr(st, a[2]) if False else self.sget(st, a[2])
        x, y = exact(x), exact(y)
        e = self.e
        e.obligations.append((e.unit, tag))
        q = text_eq(x, y)
        if st.known and isinstance(q, Poly):
            q = poly.subst_ind(q, st.known)
        eq, cex = e.equal(q, 1, st)
        if not eq:
            e.report(tag, "text differs from the specified text", show_text(x), show_text(y), st=st, cex=cex)
        return None

    def m_vp_unreach(self, st, a, ex, ins, f):
        """@vp_unreach"""
        tag = self.litstr(st, a[0])
        e = self.e
        e.obligations.append((e.unit, tag))
        if st.pc != 0:
            ok, cex = e.equal(st.pc, 0, None)
            if not ok:
                e.report(tag, "reachable although specified unreachable", got=poly.show(st.pc), st=st, cex=cex)
        return None

    def m_vp_abort_iff(self, st, a, ex, ins, f):
        """@vp_abort_iff"""
        self.e.abort_expect.append(a[0])
        return None

    def m_vp_event(self, st, a, ex, ins, f):
        """@vp_event"""
        tag = self.litstr(st, a[0])
        st.event(("user", tag) + tuple(a[2:2 + const_of(a[1])]))
        return None

    def m_vp_assume(self, st, a, ex, ins, f):
        """@vp_assume"""
        c = self.e.simp(a[0], st)
        if isinstance(c, Poly):
            st.assume(c, 1)
        elif not c:
            return DEAD
        return None

    def m_vp_file(self, st, a, ex, ins, f):
        """@vp_file
        vp_file(name, format, values...) : content of a file as the analysed code will read it"""
        name = fkey(self.cstr(st, a[0]))
        st.abst[('fs', name)] = ('fs', self.fmt(st, a[1], a[2:]))
        return None

    def m_vp_file_s(self, st, a, ex, ins, f):
        """@vp_file_s"""
        st.abst[('fs', fkey(self.cstr(st, a[0])))] = ('fs', self.sget(st, a[1]))
        return None

    def fmt(self, st, fp, vals):
        fm = self.litstr(st, fp)
        out = []
        k = 0
        for part in re.split(r'(%[udgs])', fm):
            if re.fullmatch(r'%[udgs]', part):
                v = vals[k]
                k += 1
                if part == '%s':
                    out.extend(self.cstr(st, v))
                elif isinstance(v, int) and part == '%u':
                    out.append(str(v))
                elif isinstance(v, int) and part == '%d':
                    out.append(str(E.sgn(v & mask(32), 32)))
                else:
                    out.append(('v', 'd' if part == '%g' else 'u' if part == '%u' else 'i', v))
            else:
                out.append(part)
        return text(*out)

    def m_vp_content(self, st, a, ex, ins, f):
        """@vp_content"""
        v = st.abst.get(('fs', fkey(self.cstr(st, a[1]))))
        self.sset(st, a[0], v[1] if v else (('sym', '<no such file>'),))
        return None

    # VTU files: the abstract text is read as XML, whatever its white space
    def vtu(self, t):
        cache = self.__dict__.setdefault('_vtu', {})
        if t in cache:
            return cache[t]
        import xml.etree.ElementTree as ET
        t0 = t
        if any(isinstance(p, tuple) and p[0] == 'ite' for p in t):
            raise Undecided("structure of the written file depends on data")
        vals = []
        src = ""
        for p in t:
            if isinstance(p, str):
                src += p
            elif p[0] != 'man':
                src += "\ue000%d\ue001" % len(vals)
                vals.append(p)
        err = None
        r = {}
        num = re.compile(r'\ue000(\d+)\ue001\Z')

        def val(tok):
            m = num.match(tok)
            if m:
                p = vals[int(m.group(1))]
                if p[0] != 'v':
                    raise ValueError("text in place of a number")
                if p[1] in ('undef', 'G', 'fix'):
                    return self.fn("printed with too few digits" if p[1] != 'undef' else "uninitialised", (p[2],))
                return p[2]
            if not re.fullmatch(r'[-+]?(\d+\.?\d*|\.\d+)([eE][-+]?\d+)?', tok):
                raise ValueError("not a number: %s" % tok)
            return poly._cn(Fraction(tok))
        try:
            root = ET.fromstring(src.lstrip() if src.startswith("\n") else src)
            if root.tag != 'VTKFile' or root.get('type') != 'UnstructuredGrid':
                raise ValueError("not an unstructured VTK grid")
            pieces = root.findall('./UnstructuredGrid/Piece')
            if len(pieces) != 1:
                raise ValueError("%d pieces" % len(pieces))
            pc = pieces[0]
            r['NumberOfPoints'] = val((pc.get('NumberOfPoints') or '').strip())
            r['NumberOfCells'] = val((pc.get('NumberOfCells') or '').strip())
            for tag in ('Points', 'Cells', 'CellData', 'PointData'):
                els = pc.findall(tag)
                if len(els) > 1 or (not els and tag in ('Points', 'Cells')):
                    raise ValueError("%d elements %s" % (len(els), tag))
                for el in els:
                    for da in el:
                        nm = 'Points' if tag == 'Points' else da.get('Name')
                        if da.tag != 'DataArray' or not nm or nm in r or da.get('format') != 'ascii' or len(da):
                            raise ValueError("unexpected element in %s" % tag)
                        ty = da.get('type') or ''
                        arr = [val(x) for x in (da.text or '').split()]
                        if ty.startswith(('Int', 'UInt')):
                            if any(isinstance(x, Fraction) for x in arr):
                                raise ValueError("fraction in integer array %s" % nm)
                        elif not ty.startswith('Float'):
                            raise ValueError("type %s" % ty)
                        r[nm] = (arr, val(da.get('NumberOfComponents') or '1'), tag, ty)
        except (ET.ParseError, ValueError) as x:
            err = str(x)
        cache[t0] = (r, err)
        return cache[t0]

    def m_vp_vtu(self, st, a, ex, ins, f):
        """@vp_vtu"""
        tag = self.litstr(st, a[0])
        name = fkey(self.sget(st, a[1]))
        e = self.e
        e.obligations.append((e.unit, tag))
        v = st.abst.get(('fs', name))
        if v is None:
            names = [show_text(k[1]) for k in st.abst if k[0] == 'fs']
            e.report(tag, "the specified file is not written", "written: " + (", ".join(names) or "nothing"), show_text(name), st=st)
            return DEAD
        r, err = self.vtu(v[1])
        if err:
            e.report(tag, "the written file is not a well-formed VTU file: %s" % err, show_text(v[1])[:2000], st=st)
            return DEAD
        self.cur_vtu = r
        return None

    def m_vp_vtu_n(self, st, a, ex, ins, f):
        """@vp_vtu_n"""
        w = self.litstr(st, a[0])
        if w.startswith(('len ', 'comp ')):
            k, nm = w.split(' ', 1)
            v = self.cur_vtu.get(nm)
            if v is None:
                return mask(64)
            return len(v[0]) if k == 'len' else v[1]
        return self.cur_vtu[w]

    def m_vp_vtu_v(self, st, a, ex, ins, f):
        """@vp_vtu_d
        @vp_vtu_u"""
        v = self.cur_vtu.get(self.litstr(st, a[0]))
        i = const_of(a[1])
        if v is None or i >= len(v[0]):
            return self.fn("missing entry", (i,))
        x = v[0][i]
        if isinstance(x, Poly) and len(x.t) == 1 and const_of(x) is None:
            # displayed numbers may have been rounded to single precision
            for b in poly.atoms_of(x):
                at = poly.ATOMS[b]
                if at.key[0] == 'f32' and x == poly.from_atom(at):
                    return at.key[1]
        return x

    def m_vp_files(self, st, a, ex, ins, f):
        """@vp_files"""
        return sum(1 for k in st.abst if k[0] == 'fs')

    def m_vp_text(self, st, a, ex, ins, f):
        """@vp_text"""
        self.sset(st, a[0], self.fmt(st, a[1], a[2:]))
        return None

    # ---------------------------------------------------------------------------------------------
    # LAPACK: uninterpreted functions of the matrices they are given
    # ---------------------------------------------------------------------------------------------
    def ints(self, st, ps):
        out = []
        for p in ps:
            v = self.e.load(st, p, ('i', 32))
            c = const_of(v) if not isinstance(v, Undef) else None
            if c is None:
                raise Undecided("LAPACK call with a dimension that is not a constant")
            out.append(E.sgn(c, 32))
        return out

    def mat(self, st, p, n, ft, what):
        out = []
        p = as_ptr(p)
        for i in range(n):
            v = self.e.load(st, self.e.padd(p, i * (ft[1] // 8)), ft)
            if isinstance(v, Undef):
                self.e.report("lapack-input", "%s entry %d handed to LAPACK is uninitialised" % (what, i), st=st)
                v = poly.from_atom(poly.atom(("undef", what, i), isfloat=True))
            out.append(v)
        return out

    def m_gesv(self, st, a, ex, ins, f):
        """@dgesv_
        @sgesv_
        """
        ft = ('f', 64 if f.name[1] == 'd' else 32)
        sz = ft[1] // 8
        n, nrhs, lda, ldb = self.ints(st, [a[0], a[1], a[3], a[6]])
        e = self.e
        if lda < max(1, n) or ldb < max(1, n):
            e.report("lapack-contract", "leading dimension %d/%d smaller than order %d" % (lda, ldb, n), st=st)
            return None
        A = [self.mat(st, e.padd(a[2], j * lda * sz), n, ft, "matrix") for j in range(n)]
        B = [self.mat(st, e.padd(a[5], j * ldb * sz), n, ft, "right-hand side") for j in range(nrhs)]
        At = tuple(x for c in A for x in c)
        bits = ft[1]
        for i in range(n):
            e.store(st, e.padd(a[4], 4 * i), ('i', 32), self.fn("gesv_piv%d" % i, (n,) + At, isfloat=False))
        info = poly.from_atom(poly.atom(("fn", "gesv_info", n) + At, bits=32, name="gesv_info"))
        if getattr(self, 'lapack_ok', False):
            info = 0
        if getattr(self, 'lapack_fail', False):
            info = 1
        for j in range(nrhs):
            for i in range(n):
                x = self.solve_entry(n, i, At, B[j])
                e.store(st, e.padd(a[5], (j * ldb + i) * sz), ft, x)
        for j in range(n):
            for i in range(n):
                e.store(st, e.padd(a[2], (j * lda + i) * sz), ft, self.fn("gesv_lu%d_%d" % (i, j), At))
        e.store(st, a[7], ('i', 32), info)
        st.event(("lapack", "gesv", n, nrhs, e.where()))
        return None

    def solve_entry(self, n, i, At, b):
        """x_i of A x = b: sum_k inv(A)_ik b_k (linear in b; the inverse is uninterpreted)."""
        s = 0
        for k in range(n):
            s = add(s, mul(self.fn("inv%d_%d" % (i, k), (n,) + At), b[k]))
        return s

    def m_geqr2(self, st, a, ex, ins, f):
        """@dgeqr2_
        @sgeqr2_
        """
        ft = ('f', 64 if f.name[1] == 'd' else 32)
        sz = ft[1] // 8
        m, n, lda = self.ints(st, [a[0], a[1], a[3]])
        e = self.e
        if lda < max(1, m):
            e.report("lapack-contract", "leading dimension %d smaller than number of rows %d" % (lda, m), st=st)
            return None
        A = [self.mat(st, e.padd(a[2], j * lda * sz), m, ft, "matrix") for j in range(n)]
        At = tuple(x for c in A for x in c)
        # contract of xGEQR2: R on and above the diagonal, reflector H_i = I - tau_i v v^T below it, with
        # either tau_i = 2/(v^T v) or (column already reduced; always for the last row) tau_i = 0, v = e_i
        key = (m, n) + At
        nontriv = {}
        for i in range(min(m, n)):
            nontriv[i] = 0 if i == m - 1 else poly.from_atom(poly.atom(("fn", "reflects%d" % i) + key, ind=True, bits=1, name="reflects%d" % i))
        for j in range(n):
            for i in range(m):
                v = self.fn("qr%d_%d" % (i, j), key)
                if i > j:
                    v = poly.mul(nontriv[j], v) if j in nontriv else v
                e.store(st, e.padd(a[2], (j * lda + i) * sz), ft, v)
        for i in range(min(m, n)):
            vv = 1
            for k in range(i + 1, m):
                x = self.fn("qr%d_%d" % (k, i), key)
                vv = poly.add(vv, poly.mul(x, x))
            v = 0 if i == m - 1 else poly.mul(nontriv[i], poly.div(2, vv))
            e.store(st, e.padd(a[4], i * sz), ft, v)
        for i in range(n):
            e.store(st, e.padd(a[5], i * sz), ft, self.fn("qrwork%d" % i, (m, n) + At))
        e.store(st, a[6], ('i', 32), poly.from_atom(poly.atom(("fn", "geqr2_info", m, n) + At, bits=32, name="geqr2_info")))
        return None

    # ---------------------------------------------------------------------------------------------
    # std::string
    # ---------------------------------------------------------------------------------------------
    def skey(self, st, p):
        p = as_ptr(p)
        if isinstance(p, Undef):
            raise Undecided("undefined string pointer")
        if isinstance(p, PIte):
            raise Undecided("conditional string pointer")
        off = const_of(p.off)
        if off is None:
            raise Undecided("string at symbolic offset")
        return (p.o, off)

    def const_string(self, st, p):
        """A string object the compiler initialised itself (pointer, length, characters)."""
        e = self.e
        try:
            d = e.load(st, p, ('ptr',))
            n = e.load(st, e.padd(p, 8), ('i', 64))
            if not isinstance(d, Ptr) or not isinstance(n, int) or n > 10000:
                return None
            cs = [e.load(st, e.padd(d, i), ('i', 8)) for i in range(n)]
        except Undecided:
            return None
        return text("".join(map(chr, cs))) if all(isinstance(c, int) for c in cs) else None

    def sget(self, st, p):
        p = as_ptr(p)
        if isinstance(p, PIte):
            return text_ite(p.c, self.sget(st, p.a), self.sget(st, p.b))
        k = self.skey(st, p)
        v = st.abst.get(k)
        if v is None or v[0] != 's':
            t = self.const_string(st, p)
            if t is None:
                raise Undecided("string used before construction")
            st.abst[k] = ('s', t)
            return t
        return v[1]

    def sset(self, st, p, t):
        k = self.skey(st, p)
        o = st.mem.get(k[0])
        if o is not None and o.freed:
            self.e.report("memory-safety", "string write to released memory", st=st)
        st.abst[k] = ('s', t)

    def chpiece(self, c):
        if isinstance(c, int):
            return chr(c & 255)
        return ('v', 'c', c)

    def m_s_ctor(self, st, a, ex, ins, f):
        r"""std::(__cxx11::)?basic_string<char, .*>::basic_string\(.*\)
        std::(__cxx11::)?basic_string<char, .*>::basic_string<.*>\(.*\)
        """
        sig = f.demangled[f.demangled.rindex('basic_string', 0, self._argpos(f.demangled)):]
        args = self._args(f.demangled)
        if args == '' or args.startswith('std::allocator<char> const&'):
            t = ()
        elif re.match(r'(std::__cxx11::|std::)basic_string<.*>( const&|&&)', args):
            t = self.sget(st, a[1])
            if 'unsigned long' in args:
                t = self.substr(t, a[2], a[3] if args.count('unsigned long') > 1 else mask(64))
            elif '&&' in args:
                self.sset(st, a[1], ())
        elif args.startswith('char const*, unsigned long'):
            t = self.cstrn(st, a[1], a[2])
        elif args.startswith('char const*, char const*') or args.startswith('char*, char*'):
            p, q = as_ptr(a[1]), as_ptr(a[2])
            t = self.cstrn(st, p, sub(q.off, p.off))
        elif args.startswith('char const*'):
            t = self.cstr(st, a[1])
        elif args.startswith('unsigned long, char'):
            n = const_of(a[1])
            if n is None:
                raise Undecided("string of symbolic length")
            t = text(*([self.chpiece(a[2])] * n))
        elif args.startswith('std::initializer_list'):
            t = self.cstrn(st, a[1], a[2])
        elif 'basic_string_view' in args:
            t = self.cstrn(st, a[2], a[1])
        else:
            raise Undecided("string constructor: %s" % args)
        self.sset(st, a[0], t)
        return None

    def cstrn(self, st, p, n):
        p = as_ptr(p)
        v = st.abst.get((p.o, p.off)) if isinstance(p, Ptr) else None
        if v is not None and v[0] == 's':
            return v[1]
        n = const_of(n)
        if n is None:
            raise Undecided("text of symbolic length")
        out = []
        for i in range(n):
            c = self.e.load(st, self.e.padd(p, i), ('i', 8))
            if isinstance(c, Undef):
                raise Undecided("undefined character")
            out.append(self.chpiece(c))
        return text(*out)

    def _argpos(self, d):
        """Position of the '(' that opens the parameter list."""
        depth = 0
        i = len(d) - 1
        d2 = d
        while i >= 0 and d2[i] != ')':
            i -= 1
        while i >= 0:
            if d2[i] == ')':
                depth += 1
            elif d2[i] == '(':
                depth -= 1
                if depth == 0:
                    return i
            i -= 1
        return -1

    def _args(self, d):
        p = self._argpos(d)
        q = d.rindex(')')
        return d[p + 1:q]

    def m_s_dtor(self, st, a, ex, ins, f):
        r"""std::(__cxx11::)?basic_string<char, .*>::~basic_string\(\)
        """
        st.abst.pop(self.skey(st, a[0]), None)
        return None

    def m_s_assign(self, st, a, ex, ins, f):
        r"""std::(__cxx11::)?basic_string<char, .*>::(operator=|assign)\(.*\)
        """
        args = self._args(f.demangled)
        if 'basic_string' in args.split(',')[0]:
            t = self.sget(st, a[1])
            if '&&' in args:
                self.sset(st, a[1], ())
        elif args.startswith('char const*, unsigned long'):
            t = self.cstrn(st, a[1], a[2])
        elif args.startswith('char const*'):
            t = self.cstr(st, a[1])
        elif args == 'char':
            t = text(self.chpiece(a[1]))
        else:
            raise Undecided("string assignment: %s" % args)
        self.sset(st, a[0], t)
        return a[0]

    def m_s_append(self, st, a, ex, ins, f):
        r"""std::(__cxx11::)?basic_string<char, .*>::(operator\+=|append|push_back)\(.*\)
        """
        args = self._args(f.demangled)
        if 'basic_string' in args.split(',')[0]:
            t = self.sget(st, a[1])
        elif args.startswith('char const*, unsigned long'):
            t = self.cstrn(st, a[1], a[2])
        elif args.startswith('char const*'):
            t = self.cstr(st, a[1])
        elif args == 'char':
            t = text(self.chpiece(a[1]))
        elif args.startswith('unsigned long, char'):
            t = text(*([self.chpiece(a[2])] * const_of(a[1])))
        else:
            raise Undecided("string append: %s" % args)
        self.sset(st, a[0], cat(self.sget(st, a[0]), t))
        return a[0]

    def m_s_plus(self, st, a, ex, ins, f):
        r"""std::(__cxx11::)?basic_string<char, .*> std::operator\+ ?<char, .*>\(.*\)
        """
        args = self._args(f.demangled)
        ts = []
        for arg, v in zip(self._split(args), a[1:]):
            if 'basic_string' in arg:
                ts.append(self.sget(st, v))
            elif arg.startswith('char const*'):
                ts.append(self.cstr(st, v))
            else:
                ts.append(text(self.chpiece(v)))
        self.sset(st, a[0], cat(ts[0], ts[1]))
        return None

    def _split(self, args):
        out = []
        depth = 0
        cur = ''
        for ch in args:
            if ch in '<([{':
                depth += 1
            elif ch in '>)]}':
                depth -= 1
            if ch == ',' and depth == 0:
                out.append(cur.strip())
                cur = ''
            else:
                cur += ch
        if cur.strip():
            out.append(cur.strip())
        return out

    def m_s_eq(self, st, a, ex, ins, f):
        r"""bool std::operator(==|!=) ?<char, .*>\(.*basic_string<char.*\)
        """
        ts = []
        for arg, v in zip(self._split(self._args(f.demangled)), a):
            ts.append(self.sget(st, v) if 'basic_string' in arg else self.cstr(st, v))
        r = text_eq(ts[0], ts[1])
        return sub(1, r) if 'operator!=' in f.demangled else r

    def m_s_less(self, st, a, ex, ins, f):
        r"""bool std::operator< ?<char, .*>\(.*basic_string<char.*\)
        """
        ts = []
        for arg, v in zip(self._split(self._args(f.demangled)), a):
            ts.append(self.sget(st, v) if 'basic_string' in arg else self.cstr(st, v))
        if is_lit(ts[0]) and is_lit(ts[1]):
            return int(lit(ts[0]) < lit(ts[1]))
        raise Undecided("string ordering")

    def m_s_compare(self, st, a, ex, ins, f):
        r"""std::(__cxx11::)?basic_string<char, .*>::compare\(.*\) const
        """
        args = self._split(self._args(f.demangled))
        t = self.sget(st, a[0])
        if args[0].startswith('unsigned long'):
            t = self.substr(t, a[1], a[2])
            arg, v = args[2], a[3]
        else:
            arg, v = args[0], a[1]
        u = self.sget(st, v) if 'basic_string' in arg else self.cstr(st, v)
        r = text_eq(t, u)
        if not isinstance(r, Poly):
            if r:
                return 0
            return 1 if is_lit(t) and is_lit(u) and lit(t) > lit(u) else mask(32)
        return sub(1, r)

    def slen(self, t):
        if is_lit(t):
            return len(lit(t))
        s = 0
        for p in t:
            if isinstance(p, str):
                s = add(s, len(p))
            elif p[0] == 'ite':
                s = add(s, vite(p[1], self.slen(p[2]), self.slen(p[3])))
            elif p[0] == 'v' and p[1] == 'c':
                s = add(s, 1)
            else:
                s = add(s, self.fn("strlen", (p,), isfloat=False, nonneg=True))
        return s

    def m_s_size(self, st, a, ex, ins, f):
        r"""std::(__cxx11::)?basic_string<char, .*>::(size|length)\(\) const
        """
        return self.slen(self.sget(st, a[0]))

    def m_s_empty(self, st, a, ex, ins, f):
        r"""std::(__cxx11::)?basic_string<char, .*>::empty\(\) const
        """
        return text_eq(self.sget(st, a[0]), ())

    def m_s_clear(self, st, a, ex, ins, f):
        r"""std::(__cxx11::)?basic_string<char, .*>::clear\(\)
        """
        self.sset(st, a[0], ())
        return None

    def m_s_reserve(self, st, a, ex, ins, f):
        r"""std::(__cxx11::)?basic_string<char, .*>::(reserve|shrink_to_fit)\(.*\)
        """
        return None

    def substr(self, t, pos, n):
        pos = self.normpos(t, pos)
        if pos is None:
            raise Undecided("substring at symbolic position")
        its = items(t)
        if isinstance(pos, tuple):  # ('end', k): k characters before the end
            k = pos[1]
            if any(not isinstance(x, str) for x in its[len(its) - k:]) or len(its) < k:
                raise Undecided("substring of symbolic text")
            p = len(its) - k
        else:
            p = pos
            if any(not isinstance(x, str) for x in its[:p]):
                raise Undecided("substring of symbolic text")
        rest = its[p:]
        c = const_of(n)
        if c is None:
            # length argument >= remaining length in all uses of size(): keep the rest
            d = sub(n, self.slen(pack(rest)))
            if poly._sign_info(d, True) != "nonneg":
                raise Undecided("substring of symbolic length")
            return pack(rest)
        if c >= len(rest) and all(isinstance(x, str) for x in rest) or c >= mask(63):
            return pack(rest)
        if any(not isinstance(x, str) for x in rest[:c]):
            raise Undecided("substring of symbolic text")
        return pack(rest[:c])

    def normpos(self, t, pos):
        c = const_of(pos)
        if c is not None:
            return c
        d = sub(self.slen(t), pos)
        c = const_of(d)
        if c is not None and c >= 0:
            return ('end', c)
        return None

    def m_s_substr(self, st, a, ex, ins, f):
        r"""std::(__cxx11::)?basic_string<char, .*>::substr\(.*\) const
        """
        # sret, this, pos, n
        t = self.sget(st, a[1])
        c = const_of(a[2])
        if c is not None and is_lit(t) and c > len(lit(t)):
            o = self.e.new_obj(st, "exception object", 16, 'exc')
            self.e.tinames.setdefault('@_ZTISt12out_of_range', 'std::out_of_range')
            ex.excs.append((1, st, Exc(Ptr(o.id, 0), '@_ZTISt12out_of_range')))
            return DEAD
        self.sset(st, a[0], self.substr(t, a[2], a[3]))
        return None

    def m_s_find(self, st, a, ex, ins, f):
        r"""std::(__cxx11::)?basic_string<char, .*>::(find|rfind|find_last_of|find_first_of|find_first_not_of|find_last_not_of)\(.*\) const
        """
        t = self.sget(st, a[0])
        if not is_lit(t):
            raise Undecided("search in symbolic text")
        m = re.search(r'::(find|rfind|find_last_of|find_first_of|find_first_not_of|find_last_not_of)\(', f.demangled).group(1)
        args = self._split(self._args(f.demangled))
        if 'basic_string' in args[0]:
            u = self.sget(st, a[1])
        elif args[0].startswith('char const*'):
            u = self.cstr(st, a[1])
        else:
            u = text(self.chpiece(a[1]))
        if not is_lit(u):
            raise Undecided("search for symbolic text")
        s, u = lit(t), lit(u)
        pos = const_of(a[2]) if len(a) > 2 else (0 if m in ('find', 'find_first_of', 'find_first_not_of') else mask(64))
        if m == 'find':
            r = s.find(u, pos) if pos <= len(s) else -1
        elif m == 'rfind':
            r = s.rfind(u, 0, min(pos, len(s)) + len(u))
        elif m in ('find_first_of', 'find_first_not_of'):
            r = next((i for i in range(min(pos, len(s)), len(s)) if (s[i] in u) == (m == 'find_first_of')), -1)
        else:
            r = next((i for i in range(min(pos, len(s) - 1), -1, -1) if (s[i] in u) == (m == 'find_last_of')), -1)
        return r & mask(64)

    def m_s_ends(self, st, a, ex, ins, f):
        r"""std::(__cxx11::)?basic_string<char, .*>::(starts_with|ends_with)\(.*\) const
        """
        t = items(self.sget(st, a[0]))
        args = self._args(f.demangled)
        if args.startswith('char const*'):
            u = self.cstr(st, a[1])
        elif args == 'char':
            u = text(self.chpiece(a[1]))
        else:
            u = self.cstrn(st, a[2], a[1])
        if not is_lit(u):
            raise Undecided("prefix test with symbolic text")
        u = lit(u)
        part = t[:len(u)] if 'starts_with' in f.demangled else t[max(0, len(t) - len(u)):]
        if any(not isinstance(x, str) for x in part):
            raise Undecided("prefix test on symbolic text")
        return int("".join(part) == u)

    def m_s_cstr(self, st, a, ex, ins, f):
        r"""std::(__cxx11::)?basic_string<char, .*>::(c_str|data)\(\)( const)?
        """
        t = self.sget(st, a[0])
        o = self.e.new_obj(st, "character data", None, 'chars')
        st.abst[(o.id, 0)] = ('s', t)
        if is_lit(t):
            for i, ch in enumerate(lit(t)):
                o.cells[i] = (1, ord(ch))
            o.cells[len(lit(t))] = (1, 0)
        return Ptr(o.id, 0)

    def m_s_at(self, st, a, ex, ins, f):
        r"""std::(__cxx11::)?basic_string<char, .*>::(operator\[\]|at|front|back)\(.*\)( const)?
        """
        t = self.sget(st, a[0])
        if not is_lit(t):
            raise Undecided("character access in symbolic text")
        s = lit(t)
        if '::front(' in f.demangled:
            i = 0
        elif '::back(' in f.demangled:
            i = len(s) - 1
        else:
            i = const_of(a[1])
        if i is None:
            raise Undecided("character access at symbolic position")
        if not f.demangled.endswith('const') and False:
            raise Undecided("mutable character access")
        o = self.e.new_obj(st, "character", 1, 'chars')
        o.cells[0] = (1, ord(s[i]) if i < len(s) else 0)
        o.const = True
        return Ptr(o.id, 0)

    def m_s_str_move(self, st, a, ex, ins, f):
        r"""std::(__cxx11::)?basic_string<char, .*>::swap\(.*\)
        """
        x, y = self.sget(st, a[0]), self.sget(st, a[1])
        self.sset(st, a[0], y)
        self.sset(st, a[1], x)
        return None

    def m_to_string(self, st, a, ex, ins, f):
        r"""std::(__cxx11::)?to_string\((int|unsigned int|long|unsigned long|long long|unsigned long long|float|double)\)
        """
        args = self._args(f.demangled)
        v = a[1]
        if args in ('float', 'double'):
            t = (('v', 'fix', v),)
        elif isinstance(v, int):
            t = text(str(E.sgn(v, 32) if args == 'int' else E.sgn(v, 64) if args in ('long', 'long long') else v))
        else:
            t = (('v', 'i', v),)
        self.sset(st, a[0], t)
        return None

    def m_stoi(self, st, a, ex, ins, f):
        r"""std::(__cxx11::)?(stoi|stoul|stol|stof|stod)\(.*\)
        """
        t = self.sget(st, a[0])
        n = re.search(r'(stoi|stoul|stol|stof|stod)\(', f.demangled).group(1)
        fl = n in ('stof', 'stod')
        if is_lit(t):
            m = re.match(r'\s*([-+]?\d+(?:\.\d*)?(?:[eE][-+]?\d+)?|[-+]?\.\d+)' if fl else r'\s*([-+]?\d+)', lit(t))
            if not m:
                o = self.e.new_obj(st, "exception object", 16, 'exc')
                self.e.tinames.setdefault('@_ZTISt16invalid_argument', 'std::invalid_argument')
                ex.excs.append((1, st, Exc(Ptr(o.id, 0), '@_ZTISt16invalid_argument')))
                return DEAD
            if fl:
                v = Fraction(m.group(1))
                return self.e.to_f32(v) if n == 'stof' else poly._cn(v)
            return int(m.group(1)) & mask(32 if n == 'stoi' else 64)
        if len(t) == 1 and t[0][0] == 'v' and (t[0][1] in ('i', 'u') or fl):
            return t[0][2]
        return poly.from_atom(poly.atom(("fn", n, t), isfloat=fl, bits=32, nonneg=False, name="%s(%s)" % (n, show_text(t))))

    # ---------------------------------------------------------------------------------------------
    # filesystem
    # ---------------------------------------------------------------------------------------------
    def m_fs_path(self, st, a, ex, ins, f):
        r"""std::filesystem::__cxx11::path::path<.*>\(.*\)
        std::filesystem::__cxx11::path::path\(.*\)
        """
        args = self._args(f.demangled)
        if args == '':
            t = ()
        elif 'basic_string' in args or 'path' in args.split(',')[0]:
            t = self.sget(st, a[1])
        else:
            t = self.cstr(st, a[1])
        self.sset(st, a[0], t)
        return None

    def m_fs_dtor(self, st, a, ex, ins, f):
        r"""std::filesystem::__cxx11::path::~path\(\)
        """
        return None

    def m_fs_join(self, st, a, ex, ins, f):
        r"""std::filesystem::__cxx11::path::operator(/|\+)=(<.*>)?\(.*\)
        std::filesystem::__cxx11::operator/\(.*\)
        std::filesystem::__cxx11::path::(append|concat)(<.*>)?\(.*\)
        """
        if 'path::' not in f.demangled.split('(')[0]:
            d, x, y, sep = a[0], self.sget(st, a[1]), self.sget(st, a[2]), '/'
        else:
            args = self._args(f.demangled)
            d, x = a[0], self.sget(st, a[0])
            y = self.sget(st, a[1]) if 'basic_string' in args or 'path' in args else self.cstr(st, a[1])
            sep = '/' if 'operator/' in f.demangled or '::append' in f.demangled else ''
        if sep and (not x or (isinstance(x[-1], str) and x[-1].endswith('/'))):
            sep = ''
        self.sset(st, d, cat(cat(x, text(sep)), y))
        return d

    def m_fs_string(self, st, a, ex, ins, f):
        r"""std::filesystem::__cxx11::path::(string|generic_string)\(\) const
        """
        self.sset(st, a[0], self.sget(st, a[1]))
        return None

    def m_fs_native(self, st, a, ex, ins, f):
        r"""std::filesystem::__cxx11::path::native\(\) const
        std::filesystem::__cxx11::path::operator std::.*basic_string.*\(\) const
        """
        if 'native' in f.demangled:
            return a[0]
        self.sset(st, a[0], self.sget(st, a[1]))
        return None

    def m_fs_exists(self, st, a, ex, ins, f):
        r"""std::filesystem::exists\(std::filesystem::__cxx11::path const&\)
        """
        t = self.sget(st, a[0])
        if ('fs', t) in st.abst:
            return 1
        return self.boolatom(("exists", t), "exists(%s)" % show_text(t))

    def boolatom(self, key, name):
        return poly.from_atom(poly.atom(key, ind=True, nonneg=True, bits=1, name="[%s]" % name))

    def m_fs_mkdir(self, st, a, ex, ins, f):
        r"""std::filesystem::create_director(y|ies)\(std::filesystem::__cxx11::path const&\)
        """
        t = self.sget(st, a[0])
        st.event(("mkdir", t))
        st.abst[('dir', t)] = ('cnt', 1)
        return self.boolatom(("mkdir", t), "created(%s)" % show_text(t))

    # ---------------------------------------------------------------------------------------------
    # streams
    # ---------------------------------------------------------------------------------------------
    def vt(self, st):
        oid = getattr(self, '_vt', None)
        if oid is None or oid not in st.mem:
            o = self.e.new_obj(st, "stream vtable", None, 'vtable')
            o.fills.append((-4096, 4096, 0))
            self._vt = o.id
            oid = o.id
        return Ptr(oid, 0)

    def stkey(self, st, p):
        p = as_ptr(p)
        if isinstance(p, PIte):
            raise Undecided("conditional stream")
        if isinstance(p, Undef):
            raise Undecided("undefined stream")
        off = const_of(p.off)
        for d in (0, 16):
            k = (p.o, off - d, 'stream')
            if k in st.abst:
                return k
        if p.o in self.e.names:
            k = (p.o, 0, 'stream')
            return k
        raise Undecided("stream used before construction")

    def st_get(self, st, p):
        k = self.stkey(st, p)
        v = st.abst.get(k)
        if v is None:
            return {'kind': 'std', 'std': self.e.names[k[0]]}
        return dict(v[1])

    def st_set(self, st, p, d, new=False):
        if new:
            p = as_ptr(p)
            k = (p.o, const_of(p.off), 'stream')
        else:
            k = self.stkey(st, p)
        st.abst[k] = ('st', tuple(sorted(d.items(), key=lambda z: z[0])))

    def st_new(self, st, p, d):
        self.st_set(st, p, d, new=True)
        q = as_ptr(p)
        o = st.wr(q.o)
        v = self.vt(st)
        o = st.wr(q.o)
        self.e.put(o, const_of(q.off), 8, v)
        if d.get('kind') == 'ss':
            self.e.put(o, const_of(q.off) + 16, 8, v)

    def m_st_ctor(self, st, a, ex, ins, f):
        r"""std::(__cxx11::)?basic_(i|o|)stringstream<char, .*>::basic_(i|o|)stringstream\(.*\)
        """
        d = f.demangled
        kind = 'iss' if 'basic_istringstream' in d else 'oss' if 'basic_ostringstream' in d else 'ss'
        args = self._args(d)
        this = a[0]
        # complete-object constructors have no VTT argument; all ours are complete-object
        if 'stringstream<' in args and '&&' in args:
            s = self.st_get(st, a[1])
            self.st_new(st, this, dict(s))
            s2 = dict(s)
            s2['in'], s2['pos'], s2['out'] = (), 0, ()
            self.st_set(st, a[1], s2)
            return None
        t = ()
        if 'basic_string<char' in args:
            t = self.sget(st, a[1])
        self.st_new(st, this, {'kind': kind, 'in': items(t), 'pos': 0, 'out': t if kind == 'x' else (), 'fail': 0, 'eof': 0})
        return None

    def m_st_assign(self, st, a, ex, ins, f):
        r"""std::(__cxx11::)?basic_(i|o|)(f|string)stream<char, .*>::operator=\(.*&&\)
        """
        s = self.st_get(st, a[1])
        self.commit(st, a[0])
        self.st_set(st, a[0], dict(s))
        s2 = dict(s)
        s2.update({'in': (), 'pos': 0, 'out': (), 'open': 0, 'name': None})
        self.st_set(st, a[1], s2)
        return a[0]

    def m_st_dtor(self, st, a, ex, ins, f):
        r"""std::(__cxx11::)?basic_(i|o|)(f|string)stream<char, .*>::~basic_(i|o|)(f|string)stream\(\)
        """
        self.commit(st, a[0])
        k = self.stkey(st, a[0])
        st.abst.pop(k, None)
        return None

    def m_st_str(self, st, a, ex, ins, f):
        r"""std::(__cxx11::)?basic_(i|o|)stringstream<char, .*>::str\(.*\)( const)?( &+)?
        """
        args = self._args(f.demangled)
        if args == '':
            s = self.st_get(st, a[1])
            self.sset(st, a[0], self.clean(cat(pack(s.get('in', ())), s.get('out', ()))))
            return None
        s = self.st_get(st, a[0])
        s['in'], s['pos'], s['out'] = items(self.sget(st, a[1])), 0, ()
        self.st_set(st, a[0], s)
        return None

    def clean(self, t):
        return text(*[p for p in t if not (isinstance(p, tuple) and p[0] == 'man')])

    def m_fs_ctor(self, st, a, ex, ins, f):
        r"""std::basic_(i|o|)fstream<char, .*>::basic_(i|o|)fstream\(.*\)
        """
        d = f.demangled
        kind = 'ifs' if 'basic_ifstream' in d else 'ofs' if 'basic_ofstream' in d else 'fs'
        args = self._args(d)
        if 'fstream<' in args and '&&' in args:
            s = self.st_get(st, a[1])
            self.st_new(st, a[0], dict(s))
            s2 = dict(s)
            s2.update({'in': (), 'pos': 0, 'out': (), 'open': 0, 'name': None})
            self.st_set(st, a[1], s2)
            return None
        self.st_new(st, a[0], {'kind': kind, 'in': (), 'pos': 0, 'out': (), 'fail': 0, 'eof': 0, 'open': 0, 'name': None})
        if args == '':
            return None
        name = self.sget(st, a[1]) if ('basic_string' in args or 'path' in args) else self.cstr(st, a[1])
        mode = a[2] if len(a) > 2 else None
        self.open(st, a[0], name, mode)
        return None

    def m_fs_open(self, st, a, ex, ins, f):
        r"""std::basic_(i|o|)fstream<char, .*>::open\(.*\)
        """
        args = self._args(f.demangled)
        name = self.sget(st, a[1]) if ('basic_string' in args or 'path' in args) else self.cstr(st, a[1])
        self.open(st, a[0], name, a[2] if len(a) > 2 else None)
        return None

    def open(self, st, p, name, mode):
        name = fkey(name)
        s = self.st_get(st, p)
        if s['kind'] == 'ifs':
            v = st.abst.get(('fs', name))
            if v is None:
                s.update({'fail': 1, 'open': 0})
            else:
                s.update({'in': items(v[1]), 'pos': 0, 'open': 1, 'fail': 0, 'eof': 0, 'name': name})
        else:
            mc = const_of(mode) if mode is not None else 16
            app = bool(mc & 1) if mc is not None else False
            old = st.abst.get(('fs', name))
            ok = 1
            its = items(name)
            if '/' in its:
                d = pack(its[:len(its) - 1 - its[::-1].index('/')])
                if ('dir', d) not in st.abst and d not in ((), ('.',)):
                    ok = self.boolatom(("exists", d), "exists(%s)" % show_text(d))
            if not isinstance(ok, int):
                # without its directory the file cannot be written
                s.update({'out': (), 'name': None, 'open': ok, 'fail': sub(1, ok)})
                st.event(("open", name, "directory may be missing"))
                self.st_set(st, p, s)
                return
            s.update({'out': (old[1] if (app and old) else ()), 'name': name, 'app': app, 'open': 1})
            st.event(("open", name, "append" if app else "truncate"))
        self.st_set(st, p, s)

    def commit(self, st, p):
        s = self.st_get(st, p)
        if s['kind'] in ('ofs', 'fs') and s.get('name') is not None:
            st.abst[('fs', s['name'])] = ('fs', self.clean(s['out']))

    def m_fs_close(self, st, a, ex, ins, f):
        r"""std::basic_(i|o|)fstream<char, .*>::close\(\)
        """
        s = self.st_get(st, a[0])
        if s['kind'] != 'ifs' and s.get('name') is not None:
            self.commit(st, a[0])
            st.event(("close", s['name']))
        s['open'] = 0
        s['name'] = None
        self.st_set(st, a[0], s)
        return None

    def m_fs_isopen(self, st, a, ex, ins, f):
        r"""std::basic_(i|o|)fstream<char, .*>::is_open\(\)( const)?
        """
        return self.st_get(st, a[0]).get('open', 0)

    def m_ios_bool(self, st, a, ex, ins, f):
        r"""std::basic_ios<char, .*>::(operator bool|good|operator!|fail|eof|bad|rdstate|clear|exceptions|setstate|precision|operator void\*)\(.*\)( const)?
        std::basic_ios<char, .*>::operator bool\(\) const
        std::ios_base::(precision|flags|width|setf|unsetf)\(.*\)( const)?
        """
        d = f.demangled
        if 'ios_base::' in d or '::precision(' in d:
            if '::setf(' in d and len(a) > 1:
                v = const_of(a[1])
                if v is not None and v & 260:
                    self.floatfield(st, a[0], 'fixed' if v & 4 else 'scientific')
                return 0
            if 'precision' not in d:
                return 0
            s = self.st_get(st, a[0])
            old = s.get('prec', 6)
            if len(a) > 1 and s.get('kind') != 'std':
                s['prec'] = const_of(a[1]) or 6
                self.st_set(st, a[0], s)
            return old
        s = self.st_get(st, a[0])
        fail, eof = s.get('fail', 0), s.get('eof', 0)
        if '::operator bool(' in d:
            return sub(1, fail)
        if '::operator!(' in d or '::fail(' in d:
            return fail
        if '::eof(' in d:
            return eof
        if '::good(' in d:
            return mul(sub(1, fail), sub(1, eof))
        if '::clear(' in d:
            s['fail'] = s['eof'] = 0
            self.st_set(st, a[0], s)
            return None
        if '::bad(' in d:
            return 0
        raise Undecided(d)

    def out(self, st, p, *pieces):
        k = self.stkey(st, p)
        v = st.abst.get(k)
        if v is None:
            st.event(("console", self.e.names[k[0]], text(*pieces)))
            return
        d = dict(v[1])
        d['out'] = text(*(d.get('out', ())[-1:] + tuple(pieces))) if False else cat(d.get('out', ()), tuple(pieces))
        st.abst[k] = ('st', tuple(sorted(d.items(), key=lambda z: z[0])))

    def digits(self, v, prec, ff, fl):
        """Kind of a printed floating point number: 'd' nothing is lost, 'g' at least four significant digits remain, 'G'
        fewer may remain (ff: None | 'fixed' | 'scientific', prec: precision of the stream)."""
        if prec is None:
            return 'd'
        full = 9 if fl == 'float' else 17
        c = const_of(v)
        if c is not None:
            c = Fraction(c)
            try:
                r = Fraction(("%." + str(prec) + {'fixed': 'f', 'scientific': 'e'}.get(ff, 'g')) % float(c))
                if r == c:
                    return 'd'
            except (ValueError, OverflowError):
                pass
        if ff == 'fixed':
            return 'G'
        sig = prec + 1 if ff == 'scientific' else max(prec, 1)
        return 'd' if sig >= full else 'g' if sig >= 4 else 'G'

    def num_piece(self, args, v, prec=None, ff=None):
        if isinstance(v, Undef):
            return ('v', 'undef', poly.from_atom(poly.atom(("undef-output", self.e.where()), name="<uninitialised>")))
        if args in ('float', 'double', 'long double'):
            return ('v', self.digits(v, prec, ff, args), v)
        if args == 'bool':
            return str(v) if isinstance(v, int) else ('v', 'i', v)
        if isinstance(v, int):
            if args in ('int', 'short'):
                v = E.sgn(v & mask(32), 32)
            elif args in ('long', 'long long'):
                v = E.sgn(v, 64)
            return str(v)
        return ('v', 'i', v)

    def m_out_num(self, st, a, ex, ins, f):
        r"""std::basic_ostream<char, .*>::operator<<\((int|unsigned int|long|unsigned long|long long|unsigned long long|bool|short|unsigned short|float|double|long double|void const\*)\)
        """
        args = self._args(f.demangled)
        if args == 'void const*':
            self.out(st, a[0], ('v', 'p', 0))
        else:
            d = self.st_get(st, a[0])
            self.out(st, a[0], self.num_piece(args, a[1], d.get('prec', 6), d.get('ff')))
        return a[0]

    def m_out_fn(self, st, a, ex, ins, f):
        r"""std::basic_ostream<char, .*>::operator<<\(.*\(\*\)\(.*\)\)
        """
        p = a[1]
        n = self.e.m.funcs[self.e.names[p.o]].demangled if isinstance(p, Ptr) and p.o in self.e.names else '?'
        if 'endl' in n:
            self.out(st, a[0], "\n")
        elif 'flush' in n:
            pass
        elif 'ends' in n:
            self.out(st, a[0], "\0")
        else:
            m = re.search(r'std::(fixed|scientific|defaultfloat|boolalpha|hex|dec|left|right|noboolalpha|showpoint)\(', n)
            if m and m.group(1) in ('fixed', 'scientific', 'defaultfloat'):
                self.floatfield(st, a[0], m.group(1))
            self.out(st, a[0], ('man', m.group(1) if m else n))
        return a[0]

    def floatfield(self, st, p, what):
        d = self.st_get(st, p)
        if d.get('kind') != 'std':
            d['ff'] = None if what == 'defaultfloat' else what
            self.st_set(st, p, d)

    def m_man_direct(self, st, a, ex, ins, f):
        r"""std::(fixed|scientific|defaultfloat)\(std::ios_base&\)
        """
        self.floatfield(st, a[0], re.match(r'std::(\w+)', f.demangled).group(1))
        return a[0]

    def m_out_endl(self, st, a, ex, ins, f):
        r"""std::basic_ostream<char, .*>& std::endl<char, .*>\(.*\)
        """
        self.out(st, a[0], "\n")
        return a[0]

    def m_out_flush(self, st, a, ex, ins, f):
        r"""std::basic_ostream<char, .*>& std::flush<char, .*>\(.*\)
        std::basic_ostream<char, .*>::flush\(\)
        """
        return a[0]

    def m_out_cstr(self, st, a, ex, ins, f):
        r"""std::basic_ostream<char, .*>& std::operator<< ?<.*>\(std::basic_ostream<char, .*>&, (char const\*|char|unsigned char|signed char|std::(__cxx11::)?basic_string<.*> const&)\)
        """
        arg = self._split(self._args(f.demangled))[1]
        if arg == 'char const*':
            self.out(st, a[0], *self.cstr(st, a[1]))
        elif 'basic_string' in arg:
            self.out(st, a[0], *self.sget(st, a[1]))
        else:
            self.out(st, a[0], self.chpiece(a[1]))
        return a[0]

    def m_out_prec(self, st, a, ex, ins, f):
        r"""std::basic_ostream<char, .*>& std::operator<< ?<.*>\(std::basic_ostream<char, .*>&, std::_Set\w+(<char>)?\)
        """
        m = re.search(r'std::_Set(\w+)', f.demangled)
        v = a[1]
        if m.group(1) == 'precision' and isinstance(v, int):
            s = self.st_get(st, a[0])
            if s.get('kind') != 'std':
                s['prec'] = v
                self.st_set(st, a[0], s)
        self.out(st, a[0], ('man', m.group(1), v if isinstance(v, (int, Poly)) else 0))
        return a[0]

    def m_out_write(self, st, a, ex, ins, f):
        r"""std::basic_ostream<char, .*>& std::__ostream_insert<.*>\(.*\)
        std::basic_ostream<char, .*>::(write|put)\(.*\)
        """
        if '::put(' in f.demangled:
            self.out(st, a[0], self.chpiece(a[1]))
        else:
            self.out(st, a[0], *self.cstrn(st, a[1], a[2]))
        return a[0]

    def m_getline(self, st, a, ex, ins, f):
        r"""std::basic_istream<char, .*>& std::getline<char, .*>\(.*\)
        """
        s = self.st_get(st, a[0])
        delim = '\n'
        if 'char)' in f.demangled and len(a) > 2:
            delim = chr(a[2])
        its, pos = s.get('in', ()), s.get('pos', 0)
        if s.get('fail', 0) != 0 or s.get('eof', 0) != 0:
            s['fail'] = 1
            self.st_set(st, a[0], s)
            return a[0]
        if pos >= len(its):
            s['fail'] = s['eof'] = 1
            self.st_set(st, a[0], s)
            self.sset(st, a[1], ())
            return a[0]
        q = pos
        while q < len(its) and its[q] != delim:
            q += 1
        self.sset(st, a[1], pack(its[pos:q]))
        if q < len(its):
            q += 1
        else:
            s['eof'] = 1
        s['pos'] = q
        self.st_set(st, a[0], s)
        return a[0]

    def skipws(self, its, pos):
        while pos < len(its) and isinstance(its[pos], str) and its[pos].isspace():
            pos += 1
        return pos

    def m_in_str(self, st, a, ex, ins, f):
        r"""std::basic_istream<char, .*>& std::operator>> ?<char, .*>\(std::basic_istream<char, .*>&, std::(__cxx11::)?basic_string<.*>&\)
        """
        s = self.st_get(st, a[0])
        its, pos = s.get('in', ()), s.get('pos', 0)
        if s.get('fail', 0) != 0 or s.get('eof', 0) != 0:
            s['fail'] = 1
            self.st_set(st, a[0], s)
            return a[0]
        pos = self.skipws(its, pos)
        if pos >= len(its):
            s['fail'] = s['eof'] = 1
            s['pos'] = pos
            self.st_set(st, a[0], s)
            return a[0]
        q = pos
        while q < len(its) and not (isinstance(its[q], str) and its[q].isspace()):
            q += 1
        if q >= len(its):
            s['eof'] = 1
        s['pos'] = q
        self.sset(st, a[1], pack(its[pos:q]))
        self.st_set(st, a[0], s)
        return a[0]

    def m_in_char(self, st, a, ex, ins, f):
        r"""std::basic_istream<char, .*>& std::operator>> ?<.*>\(std::basic_istream<char, .*>&, char&\)
        """
        s = self.st_get(st, a[0])
        its, pos = s.get('in', ()), s.get('pos', 0)
        pos = self.skipws(its, pos)
        if s.get('fail', 0) != 0 or pos >= len(its):
            s['fail'] = s['eof'] = 1
        else:
            c = its[pos]
            if not isinstance(c, str):
                raise Undecided("character read from a number")
            self.e.store(st, a[1], ('i', 8), ord(c))
            s['pos'] = pos + 1
        self.st_set(st, a[0], s)
        return a[0]

    def m_in_num(self, st, a, ex, ins, f):
        r"""std::basic_istream<char, .*>::operator>>\((int|unsigned int|long|unsigned long|unsigned long long|long long|float|double|bool|short|unsigned short)&\)
        """
        ty = self._args(f.demangled)[:-1]
        t = {'int': ('i', 32), 'unsigned int': ('i', 32), 'long': ('i', 64), 'unsigned long': ('i', 64),
             'unsigned long long': ('i', 64), 'long long': ('i', 64), 'float': ('f', 32), 'double': ('f', 64),
             'bool': ('i', 8), 'short': ('i', 16), 'unsigned short': ('i', 16)}[ty]
        s = self.st_get(st, a[0])
        its, pos = s.get('in', ()), s.get('pos', 0)
        if s.get('fail', 0) != 0 or s.get('eof', 0) != 0:
            s['fail'] = 1
            self.st_set(st, a[0], s)
            return a[0]
        pos = self.skipws(its, pos)
        if pos >= len(its):
            s['fail'] = s['eof'] = 1
            s['pos'] = pos
            self.st_set(st, a[0], s)
            return a[0]
        x = its[pos]
        if isinstance(x, tuple):
            if x[0] != 'v' or (t[0] == 'i' and x[1] in 'dgG') or x[1] == 'undef':
                raise Undecided("number read from text of other kind")
            v = x[2]
            if x[1] in 'gG':
                v = self.fn("rounded when written to text", (v,))
            if t == ('f', 32):
                v = self.e.to_f32(v)
            pos += 1
            if pos < len(its) and (isinstance(its[pos], tuple) or its[pos].isdigit() or its[pos] in '.eE'):
                raise Undecided("adjacent numbers")
            if pos >= len(its):
                s['eof'] = 1
        else:
            m = re.match(r'[-+]?(\d+\.?\d*|\.\d+)([eE][-+]?\d+)?' if t[0] == 'f' else r'[-+]?\d+',
                         "".join(y if isinstance(y, str) else '\x01' for y in its[pos:]))
            if not m:
                self.e.store(st, a[1], t, 0)
                s['fail'] = 1
                s['pos'] = pos
                self.st_set(st, a[0], s)
                return a[0]
            pos += m.end()
            if pos >= len(its):
                s['eof'] = 1
            v = Fraction(m.group())
            v = poly._cn(v)
            if t[0] == 'i':
                v = int(v) & mask(t[1])
            elif t == ('f', 32):
                v = self.e.to_f32(v)
        self.e.store(st, a[1], t, v)
        s['pos'] = pos
        self.st_set(st, a[0], s)
        return a[0]

    def m_misc(self, st, a, ex, ins, f):
        r"""std::ios_base::Init::~?Init\(\)
        std::allocator<char>::~?allocator\(.*\)
        std::__new_allocator<char>::~?__new_allocator\(.*\)
        """
        return None

    def m_rb(self, st, a, ex, ins, f):
        """@pthread_mutex_lock
        @pthread_mutex_unlock
        """
        return 0
