"""Parser for the textual LLVM IR that clang 18 emits (the subset needed by the analysis)."""
import re
import struct
from fractions import Fraction

TOK = re.compile(r'''
   (?P<ws>\s+)
 | (?P<str>c?"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*")
 | (?P<loc>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>!(?:[-a-zA-Z$._0-9]+)?)
 | (?P<attr>\#[0-9]+)
 | (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
 | (?P<num>[-+]?[0-9]+(?:\.[0-9]*)?(?:[eE][-+]?[0-9]+)?)
 | (?P<word>[a-zA-Z_$][-a-zA-Z$._0-9]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[()\[\]{}<>,=*:|])
''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    m = TOK.match
    while pos < n:
        if s[pos] == ';':
            break
        g = m(s, pos)
        if g is None:
            raise ValueError("cannot tokenize: %r" % s[pos:pos + 60])
        k = g.lastgroup
        if k != 'ws':
            out.append((k, g.group()))
        pos = g.end()
    return out


# types -------------------------------------------------------------------------------------------
# ('i',n) ('f',32/64/80) ('ptr',) ('void',) ('arr',n,t) ('st',(t...),packed) ('named',name)
# ('vec',n,t) ('label',) ('metadata',) ('token',) ('fn',)
_FT = {'float': ('f', 32), 'double': ('f', 64), 'x86_fp80': ('f', 80), 'fp128': ('f', 128),
       'half': ('f', 16), 'ptr': ('ptr',), 'void': ('void',), 'label': ('label',),
       'metadata': ('metadata',), 'token': ('token',), 'opaque': ('st', (), False)}


class P:
    """Token stream."""
    __slots__ = ("t", "i", "mod")

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else (None, None)

    def nxt(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, s):
        if self.i < len(self.t) and self.t[self.i][1] == s:
            self.i += 1
            return True
        return False

    def expect(self, s):
        if not self.accept(s):
            raise ValueError("expected %r got %r in %r" % (s, self.peek(), self.t[max(0, self.i - 8):self.i + 8]))

    def is_type(self):
        k, v = self.peek()
        if k == 'word':
            return v in _FT or re.fullmatch(r'i[0-9]+', v) is not None
        return (k == 'loc') or v in ('[', '{', '<')

    def type(self):
        k, v = self.nxt()
        if k == 'word':
            if v in _FT:
                t = _FT[v]
            elif v[0] == 'i' and v[1:].isdigit():
                t = ('i', int(v[1:]))
            else:
                raise ValueError("type? %r" % v)
        elif k == 'loc':
            t = ('named', v)
        elif v == '[':
            n = int(self.nxt()[1])
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = ('arr', n, e)
        elif v == '{':
            t = ('st', tuple(self._tl('}')), False)
        elif v == '<':
            if self.peek()[1] == '{':
                self.nxt()
                t = ('st', tuple(self._tl('}')), True)
                self.expect('>')
            else:
                n = int(self.nxt()[1])
                self.expect('x')
                e = self.type()
                self.expect('>')
                t = ('vec', n, e)
        else:
            raise ValueError("type? %r" % (v,))
        # function type
        if self.peek()[1] == '(' and t[0] != 'named':
            # only in call: "ret (args...)"
            save = self.i
            try:
                self.nxt()
                self._tl(')')
                return t
            except ValueError:
                self.i = save
        return t

    def _tl(self, end):
        out = []
        if self.accept(end):
            return out
        while True:
            if self.peek()[0] == 'dots':
                self.nxt()
            else:
                out.append(self.type())
            if self.accept(end):
                return out
            self.expect(',')

    # constants / operands: ('c',int) ('fc',Fraction) ('l',name) ('g',name) ('null',) ('undef',)
    # ('zero',) ('agg',[ (type,op) ]) ('cstr',bytes) ('gep',type,[(t,op)]) ('cast',op,t,src,t2)
    # ('meta',) ('cbin',...)
    def operand(self, ty):
        k, v = self.nxt()
        if k == 'num':
            if ty[0] == 'f':
                return ('fc', _fconst(float(v), ty))
            return ('c', int(v) & ((1 << ty[1]) - 1) if ty[0] == 'i' else int(v))
        if k == 'hex':
            return ('fc', _hexf(v, ty))
        if k == 'loc':
            return ('l', v)
        if k == 'glob':
            return ('g', v)
        if k == 'str':
            return ('cstr', _cstr(v))
        if k == 'word':
            if v == 'true':
                return ('c', 1)
            if v == 'false':
                return ('c', 0)
            if v == 'null':
                return ('null',)
            if v in ('undef', 'poison'):
                return ('undef',)
            if v == 'zeroinitializer':
                return ('zero',)
            if v == 'getelementptr':
                while self.peek()[1] in ('inbounds', 'nuw', 'nusw', 'inrange') or self.peek()[0] == 'num':
                    self.nxt()
                if self.peek()[1] == 'inrange':
                    self.nxt()
                self.expect('(')
                bt = self.type()
                self.expect(',')
                ops = self._ops(')')
                return ('gep', bt, ops)
            if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
                self.expect('(')
                t1 = self.type()
                o = self.operand(t1)
                self.expect('to')
                t2 = self.type()
                self.expect(')')
                return ('cast', v, t1, o, t2)
            if v in ('sub', 'add', 'mul', 'and', 'or', 'shl', 'lshr', 'ashr', 'xor'):
                while self.peek()[1] in ('nuw', 'nsw', 'exact'):
                    self.nxt()
                self.expect('(')
                ops = self._ops(')')
                return ('cbin', v, ops)
            if v in ('dso_local_equivalent', 'no_cfi'):
                return self.operand(ty)
            if v == 'none':
                return ('undef',)
            raise ValueError("operand word %r" % v)
        if v == '{':
            return ('agg', self._ops('}'))
        if v == '[':
            return ('agg', self._ops(']'))
        if v == '<':
            if self.peek()[1] == '{':
                self.nxt()
                a = self._ops('}')
                self.expect('>')
                return ('agg', a)
            return ('agg', self._ops('>'))
        if k == 'meta':
            if self.peek()[1] == '(' or self.peek()[1] == '{':
                d = 0
                while True:
                    x = self.nxt()[1]
                    if x in '({':
                        d += 1
                    elif x in ')}':
                        d -= 1
                        if d == 0:
                            break
            return ('meta', v)
        raise ValueError("operand %r %r" % (k, v))

    def _ops(self, end):
        out = []
        if self.accept(end):
            return out
        while True:
            while self.peek()[1] in ('inrange', 'inbounds'):
                self.nxt()
                if self.peek()[1] == '(':
                    while self.nxt()[1] != ')':
                        pass
            t = self.type()
            self.attrs()
            out.append((t, self.operand(t)))
            if self.accept(end):
                return out
            self.expect(',')

    def attrs(self):
        while True:
            k, v = self.peek()
            if k == 'word' and v in _ATTR:
                self.nxt()
                if self.peek()[1] == '(':
                    d = 0
                    while True:
                        x = self.nxt()[1]
                        if x == '(':
                            d += 1
                        elif x == ')':
                            d -= 1
                            if d == 0:
                                break
                elif v == 'align' and self.peek()[0] == 'num':
                    self.nxt()
            elif k == 'attr':
                self.nxt()
            elif k == 'str':
                self.nxt()
                if self.accept('='):
                    self.nxt()
            else:
                return


_ATTR = {'noundef', 'nonnull', 'align', 'dereferenceable', 'dereferenceable_or_null', 'signext',
         'zeroext', 'noalias', 'sret', 'byval', 'writable', 'dead_on_unwind', 'nocapture', 'readonly',
         'readnone', 'returned', 'writeonly', 'immarg', 'inreg', 'nest', 'swiftself', 'inalloca',
         'noreturn', 'nounwind', 'nobuiltin', 'allocsize', 'builtin', 'preallocated', 'nofree',
         'allocptr', 'allocalign', 'initializes', 'range', 'nofpclass', 'elementtype', 'captures',
         'speculatable', 'willreturn', 'memory', 'mustprogress', 'cold', 'hot', 'convergent',
         'fastcc', 'ccc', 'coldcc', 'tail', 'musttail', 'notail', 'nnan', 'ninf', 'nsz', 'arcp',
         'contract', 'afn', 'reassoc', 'fast', 'nuw', 'nsw', 'exact', 'inbounds', 'disjoint', 'nneg',
         'nusw', 'dso_local', 'local_unnamed_addr', 'unnamed_addr', 'volatile', 'samesign'}


def _fconst(x, ty):
    if x != x or x in (float('inf'), float('-inf')):
        return ('nf', repr(x))
    return Fraction(x)


def _hexf(v, ty):
    if v[2] in 'KLMHR':
        if v[2] == 'K':
            n = int(v[3:], 16)
            sign = -1 if n >> 79 else 1
            exp = (n >> 64) & 0x7fff
            man = n & ((1 << 64) - 1)
            if exp == 0x7fff:
                return ('nf', v)
            return Fraction(sign * man) * Fraction(2) ** (exp - 16383 - 63)
        raise ValueError("fp const %s" % v)
    d = struct.unpack('>d', struct.pack('>Q', int(v, 16)))[0]
    return _fconst(d, ty)


def _cstr(v):
    v = v[v.index('"') + 1:-1]
    out = bytearray()
    i = 0
    b = v.encode('utf-8')
    while i < len(b):
        if b[i] == 0x5c:
            if b[i + 1] == 0x5c:
                out.append(0x5c)
                i += 2
            else:
                out.append(int(b[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(b[i])
            i += 1
    return bytes(out)


class Func:
    __slots__ = ("name", "text", "header", "blocks", "order", "params", "ret", "dbg", "parsed", "ipdom",
                 "mod", "entry", "demangled", "file", "line", "is_decl", "vararg", "retattr")


class Module:
    def __init__(self, text):
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.meta = {}
        self._tcache = {}
        self.metatext = {}
        self._split(text)

    def _split(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('define '):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                self._func(l, lines[i + 1:j], False)
                i = j + 1
                continue
            if l.startswith('declare '):
                self._func(l, [], True)
            elif l.startswith('%'):
                name, rest = l.split(' = type ', 1)
                self.types[name] = rest
            elif l.startswith('@'):
                name, rest = l.split(' = ', 1)
                self.globals[name] = rest
            elif l.startswith('!'):
                k = l.find(' = ')
                self.metatext[l[1:k]] = l[k + 3:]
            i += 1

    def _func(self, header, body, decl):
        m = re.search(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+))\(', header)
        f = Func()
        f.name = m.group(1)
        f.header = header
        f.text = body
        f.parsed = False
        f.is_decl = decl
        f.mod = self
        f.demangled = None
        f.dbg = None
        f.file = None
        f.line = 0
        d = re.search(r'!dbg !(\d+)', header)
        if d:
            f.dbg = d.group(1)
        self.funcs[f.name] = f

    # layout -----------------------------------------------------------------------------------
    def resolve(self, t):
        while t[0] == 'named':
            r = self._tcache.get(t[1])
            if r is None:
                txt = self.types[t[1]]
                r = P(tokenize(txt), self).type() if not txt.startswith('opaque') else ('st', (), False)
                self._tcache[t[1]] = r
            t = r
        return t

    def size_align(self, t):
        c = self._tcache.get(('sa', t))
        if c:
            return c
        r = self.resolve(t)
        k = r[0]
        if k == 'i':
            b = (r[1] + 7) // 8
            a = 1
            while a < b:
                a *= 2
            a = min(a, 16)
            res = ((b + a - 1) // a * a, a)
        elif k == 'f':
            res = {16: (2, 2), 32: (4, 4), 64: (8, 8), 80: (16, 16), 128: (16, 16)}[r[1]]
        elif k == 'ptr':
            res = (8, 8)
        elif k == 'arr':
            s, a = self.size_align(r[2])
            res = (s * r[1], a)
        elif k == 'vec':
            s, a = self.size_align(r[2])
            s = s * r[1]
            a = 1
            while a < s:
                a *= 2
            res = (a, a)
        elif k == 'st':
            off = 0
            al = 1
            for e in r[1]:
                s, a = self.size_align(e)
                if r[2]:
                    a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            res = ((off + al - 1) // al * al, al)
        elif k == 'void':
            res = (1, 1)
        else:
            raise ValueError("size of %r" % (r,))
        self._tcache[('sa', t)] = res
        return res

    def sizeof(self, t):
        return self.size_align(t)[0]

    def field_offset(self, t, idx):
        r = self.resolve(t)
        off = 0
        for n, e in enumerate(r[1]):
            s, a = self.size_align(e)
            if r[2]:
                a = 1
            off = (off + a - 1) // a * a
            if n == idx:
                return off
            off += s
        raise ValueError("field")

    # metadata -----------------------------------------------------------------------------------
    def dbg_loc(self, num):
        """(file, line) of a DILocation / DISubprogram node."""
        c = self.meta.get(num)
        if c:
            return c
        txt = self.metatext.get(num, '')
        m = re.search(r'\bline: (\d+)', txt)
        line = int(m.group(1)) if m else 0
        file = '?'
        fm = re.search(r'\bfile: !(\d+)', txt)
        if fm:
            ft = self.metatext.get(fm.group(1), '')
            g = re.search(r'filename: "([^"]*)"', ft)
            d = re.search(r'directory: "([^"]*)"', ft)
            if g:
                file = g.group(1)
                if d and not file.startswith('/'):
                    file = d.group(1) + '/' + file
        else:
            sm = re.search(r'\bscope: !(\d+)', txt)
            if sm:
                file = self.dbg_loc(sm.group(1))[0]
        c = (file, line)
        self.meta[num] = c
        return c

    # functions ----------------------------------------------------------------------------------
    def parse_header(self, f):
        h = f.header
        p = P(tokenize(re.sub(r'\bcomdat\b.*|personality .*|!dbg !\d+', '', h)), self)
        p.nxt()
        while True:
            k, v = p.peek()
            if k == 'word' and v not in _FT and not re.fullmatch(r'i[0-9]+', v):
                p.nxt()
                if p.peek()[1] == '(':
                    while p.nxt()[1] != ')':
                        pass
                elif v == 'align':
                    p.nxt()
            elif k == 'str' or k == 'attr':
                p.nxt()
            else:
                break
        f.ret = p.type_nofn()
        p.nxt()
        p.expect('(')
        params = []
        f.vararg = False
        n = 0
        if not p.accept(')'):
            while True:
                if p.peek()[0] == 'dots':
                    p.nxt()
                    f.vararg = True
                else:
                    t = p.type_nofn()
                    attrs = []
                    byval = None
                    while p.peek()[1] not in (',', ')') and p.peek()[0] != 'loc':
                        k, v = p.nxt()
                        attrs.append(v)
                        if p.peek()[1] == '(':
                            p.nxt()
                            if v == 'byval':
                                byval = p.type_nofn()
                                p.expect(')')
                            else:
                                d = 1
                                while d:
                                    x = p.nxt()[1]
                                    d += (x == '(') - (x == ')')
                        elif v == 'align':
                            p.nxt()
                    nm = None
                    if p.peek()[0] == 'loc':
                        nm = p.nxt()[1]
                    else:
                        nm = '%%%d' % n
                    n += 1
                    params.append((t, nm, byval, 'sret' in attrs))
                if p.accept(')'):
                    break
                p.expect(',')
        f.params = params

    def parse(self, f):
        if f.parsed:
            return f
        self.parse_header(f)
        if f.is_decl:
            f.parsed = True
            return f
        blocks = {}
        order = []
        cur = None
        lbl = re.compile(r'^("[^"]*"|[-a-zA-Z$._0-9]+):')
        text = f.text
        i = 0
        entry_name = '%' + str(len(f.params)) if all(re.fullmatch(r'%\d+', p[1]) for p in f.params) else None
        while i < len(text):
            l = text[i]
            i += 1
            if not l:
                continue
            if l[0] != ' ':
                m = lbl.match(l)
                if m:
                    cur = '%' + m.group(1)
                    blocks[cur] = []
                    order.append(cur)
                continue
            s = l.strip()
            if s.startswith(';'):
                continue
            # multi-line instructions
            if s.startswith('switch ') or ' switch ' in s[:20]:
                while not text[i].strip().startswith(']'):
                    s += ' ' + text[i].strip()
                    i += 1
                s += ' ' + text[i].strip()
                i += 1
            elif 'invoke ' in s.split('(')[0]:
                if i < len(text) and text[i].strip().startswith('to label'):
                    s += ' ' + text[i].strip()
                    i += 1
            elif 'landingpad' in s.split('(')[0]:
                while i < len(text) and re.match(r'\s+(catch|cleanup|filter)\b', text[i]):
                    s += ' ' + text[i].strip()
                    i += 1
            if cur is None:
                cur = entry_name or '%0'
                blocks[cur] = []
                order.append(cur)
            blocks[cur].append(self.instr(s))
        f.blocks = blocks
        f.order = order
        f.entry = order[0]
        # the implicit entry label: phi nodes use its number
        f.parsed = True
        self._fix_entry(f)
        self._ipdom(f)
        return f

    def _fix_entry(self, f):
        # find the label by which phis refer to the entry block
        names = set(f.blocks)
        for b in f.order:
            for ins in f.blocks[b]:
                if ins[0] == 'phi':
                    for op, lb in ins[3]:
                        if lb not in names:
                            blk = f.blocks.pop(f.entry)
                            f.blocks[lb] = blk
                            f.order[0] = lb
                            f.entry = lb
                            return

    def _ipdom(self, f):
        succ = {}
        for b in f.order:
            t = f.blocks[b][-1]
            k = t[0]
            if k == 'br':
                s = [t[2]] if t[1] is None else [t[2], t[3]]
            elif k == 'switch':
                s = [t[3]] + [x[1] for x in t[4]]
            elif k == 'invoke':
                s = [t[7], t[8]]
            else:
                s = []
            succ[b] = list(dict.fromkeys(s))
        # dead ends (unreachable) do not reach the exit: compute postdominators towards
        # ret/resume only; blocks that cannot reach it keep no postdominator.
        def run(kinds):
            return self._ipdom1(f, succ, [b for b in f.order if f.blocks[b][-1][0] in kinds])
        main = run(('ret',))
        exc = run(('resume',))
        both = run(('ret', 'resume'))
        # a landing pad carries a value per incoming exception: never join there, join further down
        pads = {b for b in f.order if any(i[0] == 'landingpad' for i in f.blocks[b])}
        for mp in (main, exc, both):
            full = dict(mp)
            for b in mp:
                j = full[b]
                while j in pads:
                    j = full.get(j)
                mp[b] = j
        f.ipdom = {}
        for b in f.order:
            # normal flow first: exceptional exits leave the region on their own
            if b in main:
                f.ipdom[b] = main[b]
            elif b in exc:
                f.ipdom[b] = exc[b]
            else:
                f.ipdom[b] = both.get(b)

    def _ipdom1(self, f, succ, exits):
        EXIT = '<exit>'
        pred = {b: [] for b in f.order}
        pred[EXIT] = exits
        ssucc = {b: list(s) for b, s in succ.items()}
        for b in exits:
            ssucc[b].append(EXIT)
        for b in f.order:
            for s in succ[b]:
                pred[s].append(b)
        # reverse postorder on reverse graph
        seen = {EXIT}
        post = []
        stack = [(EXIT, iter(pred[EXIT]))]
        while stack:
            n, it = stack[-1]
            adv = False
            for x in it:
                if x not in seen:
                    seen.add(x)
                    stack.append((x, iter(pred[x])))
                    adv = True
                    break
            if not adv:
                post.append(n)
                stack.pop()
        rpo = post[::-1]
        idx = {b: n for n, b in enumerate(rpo)}
        idom = {EXIT: EXIT}
        changed = True
        while changed:
            changed = False
            for b in rpo[1:]:
                new = None
                for s in ssucc[b]:
                    if s in idom:
                        if new is None:
                            new = s
                        else:
                            a, c = s, new
                            while a != c:
                                while idx[a] > idx[c]:
                                    a = idom[a]
                                while idx[c] > idx[a]:
                                    c = idom[c]
                            new = a
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    changed = True
        return {b: (None if idom[b] == EXIT else idom[b]) for b in f.order if b in idom}

    # instructions ---------------------------------------------------------------------------------
    _BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or',
            'xor', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
    _CAST = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp',
             'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'}

    def instr(self, s):
        dbg = None
        k = s.rfind('!dbg !')
        if k >= 0:
            m = re.match(r'!dbg !(\d+)', s[k:])
            dbg = m.group(1)
        # strip trailing metadata
        m = re.search(r', ![a-zA-Z]', s)
        if m:
            s = s[:m.start()] if not _in_quotes(s, m.start()) else s
        p = P(tokenize(s), self)
        res = None
        if p.peek()[0] == 'loc' and len(p.t) > 1 and p.t[1][1] == '=':
            res = p.nxt()[1]
            p.nxt()
        op = p.nxt()[1]
        while op in ('tail', 'musttail', 'notail'):
            op = p.nxt()[1]
        if op in self._BIN:
            p.attrs()
            t = p.type()
            a = p.operand(t)
            p.expect(',')
            b = p.operand(t)
            return ('bin', res, op, t, a, b, dbg)
        if op == 'fneg':
            p.attrs()
            t = p.type()
            return ('fneg', res, t, p.operand(t), dbg)
        if op in self._CAST:
            p.attrs()
            t = p.type()
            a = p.operand(t)
            p.expect('to')
            return ('cast', res, op, t, a, p.type(), dbg)
        if op == 'icmp' or op == 'fcmp':
            p.attrs()
            pr = p.nxt()[1]
            t = p.type()
            a = p.operand(t)
            p.expect(',')
            return (op, res, pr, t, a, p.operand(t), dbg)
        if op == 'load':
            at = p.accept('atomic')
            p.accept('volatile')
            t = p.type()
            p.expect(',')
            pt = p.type()
            return ('load', res, t, p.operand(pt), dbg)
        if op == 'store':
            p.accept('atomic')
            p.accept('volatile')
            t = p.type()
            v = p.operand(t)
            p.expect(',')
            pt = p.type()
            return ('store', t, v, p.operand(pt), dbg)
        if op == 'getelementptr':
            p.attrs()
            bt = p.type()
            p.expect(',')
            ops = []
            while True:
                t = p.type()
                ops.append((t, p.operand(t)))
                if not p.accept(','):
                    break
            return ('gep', res, bt, ops, dbg)
        if op == 'alloca':
            p.accept('inalloca')
            t = p.type()
            cnt = ('c', 1)
            ct = ('i', 32)
            if p.accept(','):
                if p.peek()[1] != 'align':
                    ct = p.type()
                    cnt = p.operand(ct)
            return ('alloca', res, t, ct, cnt, dbg)
        if op == 'br':
            if p.peek()[1] == 'label':
                p.nxt()
                return ('br', None, p.nxt()[1], None, dbg)
            t = p.type()
            c = p.operand(t)
            p.expect(',')
            p.expect('label')
            a = p.nxt()[1]
            p.expect(',')
            p.expect('label')
            return ('br', c, a, p.nxt()[1], dbg)
        if op == 'switch':
            t = p.type()
            v = p.operand(t)
            p.expect(',')
            p.expect('label')
            d = p.nxt()[1]
            p.expect('[')
            cases = []
            while not p.accept(']'):
                ct = p.type()
                cv = p.operand(ct)
                p.expect(',')
                p.expect('label')
                cases.append((cv[1], p.nxt()[1]))
            return ('switch', t, v, d, cases, dbg)
        if op == 'ret':
            t = p.type()
            if t[0] == 'void':
                return ('ret', None, None, dbg)
            return ('ret', t, p.operand(t), dbg)
        if op == 'unreachable':
            return ('unreachable', dbg)
        if op == 'resume':
            t = p.type()
            return ('resume', t, p.operand(t), dbg)
        if op == 'phi':
            p.attrs()
            t = p.type()
            inc = []
            while True:
                p.expect('[')
                o = p.operand(t)
                p.expect(',')
                inc.append((o, p.nxt()[1]))
                p.expect(']')
                if not p.accept(','):
                    break
            return ('phi', res, t, inc, dbg)
        if op == 'select':
            p.attrs()
            ct = p.type()
            c = p.operand(ct)
            p.expect(',')
            t = p.type()
            a = p.operand(t)
            p.expect(',')
            p.type()
            return ('select', res, t, c, a, p.operand(t), dbg)
        if op in ('call', 'invoke'):
            p.attrs()
            t = p.type_nofn()
            if p.peek()[1] == '(':  # function type (varargs)
                d = 0
                while True:
                    x = p.nxt()[1]
                    d += (x == '(') - (x == ')')
                    if d == 0:
                        break
            if p.peek()[1] == 'asm':
                return ('asm', res, t, s, dbg)
            callee = p.operand(('ptr',))
            p.expect('(')
            args = []
            if not p.accept(')'):
                while True:
                    at = p.type_nofn()
                    p.attrs()
                    args.append((at, p.operand(at)))
                    if p.accept(')'):
                        break
                    p.expect(',')
            if op == 'call':
                return ('call', res, t, callee, args, dbg)
            while p.peek()[1] != 'to':
                p.nxt()
            p.expect('to')
            p.expect('label')
            n = p.nxt()[1]
            p.expect('unwind')
            p.expect('label')
            return ('invoke', res, t, callee, args, dbg, None, n, p.nxt()[1])
        if op == 'landingpad':
            t = p.type()
            clauses = []
            cleanup = False
            while p.i < len(p.t):
                w = p.nxt()[1]
                if w == 'cleanup':
                    cleanup = True
                elif w in ('catch', 'filter'):
                    ct = p.type()
                    clauses.append((w, p.operand(ct)))
                else:
                    break
            return ('landingpad', res, cleanup, clauses, dbg)
        if op == 'extractvalue':
            t = p.type()
            a = p.operand(t)
            idx = []
            while p.accept(','):
                idx.append(int(p.nxt()[1]))
            return ('extractvalue', res, t, a, idx, dbg)
        if op == 'insertvalue':
            t = p.type()
            a = p.operand(t)
            p.expect(',')
            t2 = p.type()
            b = p.operand(t2)
            idx = []
            while p.accept(','):
                idx.append(int(p.nxt()[1]))
            return ('insertvalue', res, t, a, t2, b, idx, dbg)
        if op == 'extractelement':
            t = p.type()
            a = p.operand(t)
            p.expect(',')
            it = p.type()
            return ('extractelement', res, t, a, p.operand(it), dbg)
        if op == 'insertelement':
            t = p.type()
            a = p.operand(t)
            p.expect(',')
            t2 = p.type()
            b = p.operand(t2)
            p.expect(',')
            it = p.type()
            return ('insertelement', res, t, a, b, p.operand(it), dbg)
        if op == 'freeze':
            t = p.type()
            return ('freeze', res, t, p.operand(t), dbg)
        if op == 'atomicrmw':
            p.accept('volatile')
            o = p.nxt()[1]
            p.type()
            ptr = p.operand(('ptr',))
            p.expect(',')
            t = p.type()
            return ('atomicrmw', res, o, t, ptr, p.operand(t), dbg)
        if op == 'fence':
            return ('nop', dbg)
        return ('unknown', s, dbg)


def _in_quotes(s, pos):
    return s[:pos].count('"') % 2 == 1


def _type_nofn(self):
    k, v = self.nxt()
    self.i -= 1
    # like type(), but never consumes a following parameter list
    save = self.i
    if k == 'word' or k == 'loc':
        self.i += 1
        if k == 'loc':
            return ('named', v)
        if v in _FT:
            return _FT[v]
        if v[0] == 'i' and v[1:].isdigit():
            return ('i', int(v[1:]))
        raise ValueError("type? %r" % v)
    self.i = save
    n = self.i
    t = None
    # bracketed types cannot swallow the following '('
    if v == '[':
        self.nxt()
        c = int(self.nxt()[1])
        self.expect('x')
        e = self.type()
        self.expect(']')
        return ('arr', c, e)
    if v == '{':
        self.nxt()
        return ('st', tuple(self._tl('}')), False)
    if v == '<':
        self.nxt()
        if self.peek()[1] == '{':
            self.nxt()
            t = ('st', tuple(self._tl('}')), True)
            self.expect('>')
            return t
        c = int(self.nxt()[1])
        self.expect('x')
        e = self.type()
        self.expect('>')
        return ('vec', c, e)
    raise ValueError("type? %r at %d" % (v, n))


P.type_nofn = _type_nofn
P.type = _type_nofn
