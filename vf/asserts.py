"""P36: assertions are checks only.  Effect analysis of every hy_assert of the library: the condition, the message and the library functions
they call are searched for writes to anything that outlives the assertion.  Only the source text is inspected."""
import glob, os.path as osp, re

ASG = re.compile(r'(?<![=!<>])=(?!=)|<<=|>>=(?!=)')
INC = re.compile(r'\+\+|--')
MUT = (r'push_back|push_front|pop_back|pop_front|emplace\w*|insert|erase|clear|resize|assign|swap|reset|release|open|close|getline|ignore|putback|'
       r'fill|set_\w+|add_to_\w+')
MUTC = re.compile(r'(?:\.|->)\s*(?:template\s+)?(%s)\s*(?:<[^<>()]*>)?\s*\(' % MUT)
STDC = re.compile(r'\bstd::(?:ranges::)?(sort|stable_sort|partial_sort|nth_element|unique|remove|remove_if|replace|reverse|rotate|shuffle|partition|fill|fill_n|'
                  r'iota|copy|copy_n|copy_if|transform|generate|swap|exchange|getline|for_each|advance|iter_swap|rename|remove_all)\s*(?:<[^<>()]*>)?\s*\(')
FSC = re.compile(r'\bfilesystem::(remove\w*|rename|create_\w+|copy\w*|resize_file|permissions|current_path)\s*\(\s*(?=[^)\s])')
NEW = re.compile(r'\b(new|delete|throw)\b')
IDENT = r'[A-Za-z_]\w*'
KEY = set("if for while switch return sizeof decltype static_assert catch alignof noexcept defined hy_assert assert static_cast const_cast dynamic_cast "
          "reinterpret_cast typeid explicit operator".split())


def strip(s):
    """comments blanked, the contents of texts masked; positions are kept"""
    def f(m):
        t = m.group(0)
        return re.sub(r'[^\n]', ' ', t) if t[0] == '/' else t[0] + '_' * (len(t) - 2) + t[0]
    s = re.sub(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])+\'', f, s, flags=re.S)
    return re.sub(r'\\(?=[ \t]*\n)', ' ', s)


def close(s, i, a="(", b=")"):
    """position after the bracket that closes the one before i"""
    d = 1
    while d and i < len(s):
        d += (s[i] == a) - (s[i] == b)
        i += 1
    return i


def sites(s):
    for m in re.finditer(r'\bhy_assert\s*\(', s):
        if re.search(r'#\s*define\s+$', s[max(0, m.start() - 30):m.start()]):
            continue
        e = close(s, m.end())
        d, c = 0, None
        for k in range(m.end(), e - 1):
            d += (s[k] == "(") - (s[k] == ")")
            if s[k] == "," and d == 0:
                c = k
                break
        c = e - 1 if c is None else c
        yield s.count("\n", 0, m.start()) + 1, s[m.end():c], s[c + 1:e - 1]


def functions(s):
    """definitions: name, parameters, text between ) and {, body, line"""
    for m in re.finditer(r'(?<![\w.>])(?:%s::)*(%s)\s*\(' % (IDENT, IDENT), s):
        n = m.group(1)
        if n in KEY:
            continue
        e = close(s, m.end())
        t = re.match(r'\s*((?:const|noexcept|override|final|->\s*[\w:<>,&*\s]+|\s)*)\{', s[e:])
        if not t:
            continue
        pre = s[max(0, s.rfind(";", 0, m.start()), s.rfind("}", 0, m.start()), s.rfind("{", 0, m.start())) + 1:m.start()].strip()
        if not pre or re.search(r'\b(return|else|new|throw|case)$', pre) or pre[-1] in "=(,+-*/!|&?:<" and not re.search(r'[\w>\]]\s*&+$|[\w>]\s*\*+$', pre):
            continue
        b = e + t.end()
        yield n, s[m.end():e - 1], t.group(1), s[b:close(s, b, "{", "}") - 1], s.count("\n", 0, m.start()) + 1


def lambdas(s):
    """named lambdas"""
    for m in re.finditer(r'\b(%s)\s*(?:=|\{)\s*\[[^\[\]]*\]\s*(?:\(|(?=\{))' % IDENT, s):
        e = close(s, m.end()) if s[m.end() - 1] == "(" else m.end()
        params = s[m.end():e - 1] if s[m.end() - 1] == "(" else ""
        t = re.match(r'\s*(?:mutable|noexcept|constexpr|->\s*[\w:<>,&*\s]+|\s)*\{', s[e:])
        if t:
            b = e + t.end()
            yield m.group(1), params, "", s[b:close(s, b, "{", "}") - 1], s.count("\n", 0, m.start()) + 1


def split(p):
    out, d, k = [], 0, 0
    for i, c in enumerate(p):
        d += (c in "(<[{") - (c in ")>]}")
        if c == "," and d == 0:
            out.append(p[k:i])
            k = i + 1
    return [x for x in out + [p[k:]] if x.strip()]


def base(text):
    """the identifier an access path at the end of the text starts with"""
    t = text.rstrip()
    while True:
        if t.endswith(("]", ")")):
            a, b = ("[", "]") if t[-1] == "]" else ("(", ")")
            d, i = 0, len(t) - 1
            while i >= 0:
                d += (t[i] == b) - (t[i] == a)
                if d == 0:
                    break
                i -= 1
            inner, t = t[i + 1:-1], t[:max(i, 0)].rstrip()
            if not re.search(r'[\w>\])]$', t):
                return base(inner)
            continue
        m = re.search(r'(%s)$' % IDENT, t)
        if not m:
            return None
        rest = t[:m.start()].rstrip()
        if rest.endswith("."):
            t = rest[:-1].rstrip()
        elif rest.endswith("->"):
            t = rest[:-2].rstrip()
        else:
            return m.group(1)


def first(text):
    m = re.match(r'[\s(*&]*(?:this\s*->\s*)?(%s)' % IDENT, text)
    return m.group(1) if m else None


def local_names(params, body):
    """names a function may write without anybody noticing: own variables and parameters taken by value"""
    loc, ref = set(), set()
    for p in split(params):
        p = p.split("=")[0]
        m = re.search(r'(%s)\s*(?:\[\s*\])?\s*$' % IDENT, p)
        if m:
            (ref if re.search(r'[&*]', p) and not re.search(r'\bconst\b', p) else loc).add(m.group(1))
    for m in re.finditer(r'(?<![\w.])((?:(?:const|constexpr|unsigned|typename|static|auto)\s+)*(?:[\w:]+(?:<[^;{}()]*>)?)(?:::\w+)*)(\s*[&*]*\s*)\b(%s)\s*(?=[=;{(,:]|\[)' % IDENT, body):
        ty = m.group(1).strip()
        if ty.split()[0] in ("return", "else", "delete", "throw", "new", "case", "goto", "using", "typedef", "namespace"):
            continue
        if "static" in ty.split() or "&" in m.group(2) and "const" not in ty.split():
            ref.add(m.group(3))
            continue
        loc.add(m.group(3))
    for m in re.finditer(r'\[[^\[\]]*\]\s*\(', body):      # parameters of lambdas
        e = close(body, m.end())
        for p in split(body[m.end():e - 1]):
            q = re.search(r'(%s)\s*$' % IDENT, p)
            if q and ("&" not in p or "const" in p.split()):
                loc.add(q.group(1))
    return loc - ref, ref


class Library:
    def __init__(self, repo):
        self.files = {}
        for f in sorted(glob.glob(osp.join(repo, "include", "**", "*.hxx"), recursive=True)):
            self.files[osp.relpath(f, repo)] = strip(open(f, errors="replace").read())
        self.defs = {}
        for rel, s in self.files.items():
            for n, p, q, b, l in list(functions(s)) + list(lambdas(s)):
                self.defs.setdefault(n, []).append((rel, l, p, q, b))
        self.memo = {}

    def effects(self, text, loc, depth=0):
        """writes in an expression (or body) to names other than loc"""
        out = []
        text = re.sub(r'\[\s*[=&]\s*[,\]]', '[]', text)
        text = re.sub(r'\boperator\s*[^\s\w(]+', 'operator', text)
        for m in ASG.finditer(text):
            left = re.sub(r'(<<|>>|[-+*/%&|^])$', '', text[:m.start()])
            b = base(left)
            if re.search(r'(?:\b(?:const|auto|bool|int|double|float|unsigned|char|size_t)|[\w>]\s*[&*]?)\s+%s\s*$' % re.escape(b or "?"), left):
                continue      # initialisation
            if b is None or b not in loc:
                out.append("assigns to %s" % (b or "?"))
        for m in INC.finditer(text):
            b = base(text[:m.start()]) if re.search(r'[\w\])]\s*$', text[:m.start()]) else first(text[m.end():])
            if b is None or b not in loc:
                out.append("%s on %s" % (m.group(0), b or "?"))
        for m in MUTC.finditer(text):
            b = base(text[:m.start()])
            if b not in loc:
                out.append("%s.%s()" % (b or "?", m.group(1)))
        for m in STDC.finditer(text):
            if m.group(1) == "for_each":
                continue
            b = first(text[m.end():])
            if b not in loc:
                out.append("std::%s on %s" % (m.group(1), b or "?"))
        for m in FSC.finditer(text):
            out.append("filesystem::%s" % m.group(1))
        for m in re.finditer(r'(%s)\s*>>\s*(?=[\w(])' % IDENT, text):
            if re.search(r'stream\s*&?\s*\b%s\b' % m.group(1), self.cur) and m.group(1) not in loc:
                out.append("reads from %s" % m.group(1))
        for m in re.finditer(r'(?:(\.|->)\s*(?:template\s+)?)?(?:%s::)*\b(%s)\s*(?:<[^<>();]*>)?\s*\(' % (IDENT, IDENT), text):
            n = m.group(2)
            if n in KEY or n not in self.defs or depth > 6 or re.search(r'\bstd::$', text[:m.start(2)]):
                continue
            w = self.writes(n, depth)
            if w is None:
                continue
            kind, why = w
            if kind == "object":
                b = base(text[:m.start(1)]) if m.group(1) else None
                if b is not None and b in loc:
                    continue
            if kind == "argument":
                args = [first(a) for a in split(text[m.end():close(text, m.end()) - 1])]
                if all(a is None or a in loc for a in args):
                    continue
            out.append("calls %s, which %s" % (n, why))
        return out

    def writes(self, name, depth):
        """does every definition of this name write to its object, its arguments or something global?"""
        if name in self.memo:
            return self.memo[name]
        self.memo[name] = None
        res, kinds = [], []
        keep = self.cur
        for rel, l, params, qual, body in self.defs[name]:
            self.cur = self.files[rel]
            loc, ref = local_names(params, body)
            eff = self.effects(body, loc, depth + 1)
            if re.search(r'\bconst\b', qual):
                eff = [e for e in eff if re.search(r'(on|to|from) (%s)\b' % "|".join(map(re.escape, ref or {"?"})), e)]
            if not eff:
                self.cur = keep
                return None        # some definition is pure: which one is called is not known here
            names = {re.split(r'[ .]', e.replace("assigns to ", "").replace("reads from ", ""))[0] for e in eff}
            kinds.append("argument" if any(re.search(r'\b%s\b' % re.escape(r), " ".join(eff)) for r in ref) else "object")
            res.append("%s (%s:%d)" % (eff[0], rel, l))
        self.cur = keep
        self.memo[name] = (kinds[0], res[0])
        return self.memo[name]


def conditional(s):
    """regions of a file that are compiled in one of the two modes only"""
    stack, at = [], 0
    for line in s.split("\n"):
        m = re.match(r'\s*#\s*(ifdef|ifndef|if|elif|else|endif)\b(.*)', line)
        if m:
            k, c = m.groups()
            if k in ("if", "ifdef", "ifndef"):
                stack.append([bool(re.search(r'\bNDEBUG\b', c)), at + len(line) + 1])
            elif stack:
                own, a = stack[-1]
                if own:
                    yield s.count("\n", 0, a) + 1, s[a:at]
                stack[-1][1] = at + len(line) + 1
                if k == "endif":
                    stack.pop()
        at += len(line) + 1


def own(text):
    """variables of lambdas in the expression"""
    return local_names("", text)[0] if "{" in text else set()


def assertions(repo, tier):
    from pyjit import Spec
    sp = Spec("assertions of the library")
    lib = Library(repo)
    for rel, s in lib.files.items():
        for line, cond, msg in sites(s):
            lib.cur = s
            where = "%s:%d" % (rel, line)
            for what, t in (("condition", cond), ("message", msg)):
                eff = lib.effects(t, own(t))
                sp.ok(not eff, "%s of the assertion at %s has no side effect" % (what, where), "; ".join(eff), where,
                      got=re.sub(r'\s+', ' ', t).strip()[:200])
            sp.analysed["assertion " + where] = rel
        if rel.endswith("hy_assert.hxx"):
            continue
        for line, t in conditional(s):
            lib.cur = s
            code = re.sub(r'(?m)^\s*#.*$', '', t)
            eff = lib.effects(code, local_names("", code)[0])
            sp.ok(not eff, "code compiled in one mode only at %s:%d has no side effect" % (rel, line), "; ".join(eff), "%s:%d" % (rel, line))
    return sp.out()
