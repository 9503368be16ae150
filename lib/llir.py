"""Reader for textual LLVM IR (enough of it for clang 18 -O0 and rustc -O0 output).

Function bodies are parsed on demand. Instructions become small tuples that the
analysis in flow.py interprets abstractly.
"""
import re
import subprocess

TOK = re.compile(r'''
  (?P<str>c?"(?:[^"\\]|\\.)*")
 |(?P<loc>%(?:"(?:[^"\\]|\\.)*"|[-\w$.]+))
 |(?P<glob>@(?:"(?:[^"\\]|\\.)*"|[-\w$.]+))
 |(?P<meta>!(?:"[^"]*"|[\w.]*))
 |(?P<attr>\#[\w]+)
 |(?P<comdat>\$(?:"[^"]*"|[-\w$.]+))
 |(?P<hex>0x[0-9A-Fa-f]+|0x[KLMHR][0-9A-Fa-f]+)
 |(?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?)
 |(?P<word>[A-Za-z_][\w.]*)
 |(?P<dots>\.\.\.)
 |(?P<p>[()\[\]{}<>,=*:|])
''', re.X)


def tokenize(s):
    return [m.group() for m in TOK.finditer(s)]


def unq(name):
    """%"a b" -> %a b ; @"x" -> x"""
    n = name[1:]
    if n.startswith('"'):
        n = n[1:-1]
        n = re.sub(r'\\([0-9A-Fa-f]{2})', lambda m: chr(int(m.group(1), 16)), n)
    return n


class Ty:
    __slots__ = ('k', 'n', 'elt', 'name', 'packed', '_size', '_align')

    def __init__(self, k, n=0, elt=None, name=None, packed=False):
        self.k, self.n, self.elt, self.name, self.packed = k, n, elt, name, packed
        self._size = self._align = None

    def __repr__(self):
        if self.k == 'int':
            return 'i%d' % self.n
        if self.k == 'array':
            return '[%d x %r]' % (self.n, self.elt)
        if self.k == 'struct':
            return '{' + ', '.join(map(repr, self.elt)) + '}'
        if self.k == 'named':
            return '%' + self.name
        return self.k


INT = {}


def ity(n):
    if n not in INT:
        INT[n] = Ty('int', n)
    return INT[n]


PTR = Ty('ptr')
VOID = Ty('void')
FLOATS = {'float': 4, 'double': 8, 'x86_fp80': 16, 'half': 2, 'fp128': 16}
FTY = {k: Ty(k) for k in FLOATS}
OPAQ = Ty('opaque')
METATY = Ty('metadata')
TOKENTY = Ty('token')

PARAM_ATTRS_PAREN = {'sret', 'byval', 'byref', 'inalloca', 'preallocated', 'elementtype',
                     'dereferenceable', 'dereferenceable_or_null', 'range', 'captures',
                     'initializes', 'nofpclass', 'align', 'memory', 'allocsize',
                     'vscale_range', 'allockind'}
PARAM_ATTRS = {'noundef', 'nonnull', 'zeroext', 'signext', 'inreg', 'noalias', 'nocapture',
               'readonly', 'readnone', 'writeonly', 'returned', 'immarg', 'nest', 'swiftself',
               'swifterror', 'noext', 'dead_on_unwind', 'writable', 'nofree', 'align',
               'dead_on_return', 'allocalign', 'allocptr'} | PARAM_ATTRS_PAREN
CCS = {'ccc', 'fastcc', 'coldcc', 'tailcc', 'preserve_mostcc', 'preserve_allcc', 'swiftcc',
       'x86_stdcallcc', 'rustcoldcc'}
LINKAGE = {'private', 'internal', 'available_externally', 'linkonce', 'weak', 'common',
           'appending', 'extern_weak', 'linkonce_odr', 'weak_odr', 'external', 'dso_local',
           'dso_preemptable', 'default', 'hidden', 'protected', 'dllimport', 'dllexport',
           'unnamed_addr', 'local_unnamed_addr', 'thread_local', 'externally_initialized'}


class P:
    """Token cursor."""

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.m = mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else ''

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise SyntaxError('expected %r got %r at %s' % (x, y, ' '.join(self.t[max(0, self.i - 8):self.i + 8])))

    def skip_paren(self):
        self.expect('(')
        d = 1
        while d:
            x = self.next()
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1

    def type(self):
        x = self.next()
        t = None
        if x == 'ptr':
            t = PTR
            if self.peek() == 'addrspace':
                self.next()
                self.skip_paren()
        elif x == 'void':
            t = VOID
        elif x == 'metadata':
            t = METATY
        elif x == 'token':
            t = TOKENTY
        elif x == 'opaque':
            t = OPAQ
        elif x == 'label':
            t = Ty('label')
        elif x in FTY:
            t = FTY[x]
        elif x[0] == 'i' and x[1:].isdigit():
            t = ity(int(x[1:]))
        elif x[0] == '%':
            t = self.m.named(unq(x))
        elif x == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = Ty('array', n, e)
        elif x == '{':
            els = []
            while not self.accept('}'):
                els.append(self.type())
                self.accept(',')
            t = Ty('struct', elt=els)
        elif x == '<':
            if self.peek() == '{':
                self.next()
                els = []
                while not self.accept('}'):
                    els.append(self.type())
                    self.accept(',')
                self.expect('>')
                t = Ty('struct', elt=els, packed=True)
            else:
                n = int(self.next())
                self.expect('x')
                e = self.type()
                self.expect('>')
                t = Ty('vector', n, e)
        else:
            raise SyntaxError('type? %r in %s' % (x, ' '.join(self.t[max(0, self.i - 10):self.i + 10])))
        # function type: T (T, T, ...)
        while self.peek() == '(':
            # only when it is a type list, which the callers ensure
            save = self.i
            try:
                self.next()
                ps = []
                va = False
                while not self.accept(')'):
                    if self.accept('...'):
                        va = True
                    else:
                        ps.append(self.type())
                    self.accept(',')
                t = Ty('fn', elt=(t, ps, va))
            except (SyntaxError, ValueError, IndexError):
                self.i = save
                break
        return t

    def attrs(self):
        """Parse parameter/return attributes, returning {name: value-or-True}."""
        d = {}
        while True:
            x = self.peek()
            if x in PARAM_ATTRS:
                self.next()
                if x == 'align' and self.peek() != '(':
                    d['align'] = int(self.next())
                elif x in PARAM_ATTRS_PAREN and self.peek() == '(':
                    if x in ('sret', 'byval', 'byref', 'elementtype', 'inalloca', 'preallocated'):
                        self.next()
                        d[x] = self.type()
                        self.expect(')')
                    elif x.startswith('deref'):
                        self.next()
                        d[x] = int(self.next())
                        self.expect(')')
                    else:
                        self.skip_paren()
                        d[x] = True
                else:
                    d[x] = True
            elif x.startswith('"'):
                self.next()
                if self.accept('='):
                    self.next()
            else:
                return d

    def value(self, ty):
        """A value of known type: a constant or local reference."""
        x = self.next()
        if x[0] == '%':
            return ('L', unq(x))
        if x[0] == '@':
            return ('G', unq(x))
        if x == 'null' or x == 'none':
            return ('C', 0)
        if x == 'true':
            return ('C', 1)
        if x == 'false':
            return ('C', 0)
        if x in ('undef', 'poison'):
            return ('U',)
        if x == 'zeroinitializer':
            return ('Z', ty)
        if x[0] == 'c' and x[1:2] == '"':
            return ('B', decode_cstr(x))
        if x[0] == '-' or x[0].isdigit():
            if x.startswith('0x'):
                h = x[2:]
                if h[0] in 'KLMHR':
                    h = h[1:]
                v = int(h, 16)
                if ty.k == 'float':
                    import struct
                    v = struct.unpack('<I', struct.pack('<f', struct.unpack('<d', struct.pack('<Q', v))[0]))[0]
                return ('C', v)
            if ty.k in FLOATS:
                import struct
                if ty.k == 'float':
                    return ('C', struct.unpack('<I', struct.pack('<f', float(x)))[0])
                return ('C', struct.unpack('<Q', struct.pack('<d', float(x)))[0])
            v = int(x)
            if ty.k == 'int':
                v &= (1 << ty.n) - 1
            return ('C', v)
        if x == '{' or x == '[' or x == '<':
            packed = False
            if x == '<' and self.peek() == '{':
                self.next()
                packed = True
                x = '{'
            close = {'{': '}', '[': ']', '<': '>'}[x]
            els = []
            while not self.accept(close):
                t = self.type()
                els.append((t, self.value(t)))
                self.accept(',')
            if packed:
                self.expect('>')
            return ('A', els)
        if x == 'getelementptr':
            while self.peek() in ('inbounds', 'nuw', 'nusw'):
                self.next()
            if self.peek() == 'inrange':
                self.next()
                self.skip_paren()
            self.expect('(')
            t = self.type()
            self.expect(',')
            pt = self.type()
            base = self.value(pt)
            idx = []
            while self.accept(','):
                if self.peek() == 'inrange':
                    self.next()
                it = self.type()
                idx.append(self.value(it))
            self.expect(')')
            return ('GEP', t, base, idx)
        if x in ('bitcast', 'inttoptr', 'ptrtoint', 'trunc', 'zext', 'sext', 'addrspacecast'):
            self.expect('(')
            t = self.type()
            v = self.value(t)
            self.expect('to')
            t2 = self.type()
            self.expect(')')
            return ('CAST', x, t, v, t2)
        if x in ('add', 'sub', 'mul', 'xor', 'and', 'or', 'shl'):
            while self.peek() in ('nsw', 'nuw'):
                self.next()
            self.expect('(')
            t = self.type()
            a = self.value(t)
            self.expect(',')
            t2 = self.type()
            b = self.value(t2)
            self.expect(')')
            return ('BIN', x, t, a, b)
        if x == 'dso_local_equivalent' or x == 'no_cfi':
            return self.value(ty)
        if x == 'blockaddress':
            self.skip_paren()
            return ('U',)
        raise SyntaxError('value? %r in %s' % (x, ' '.join(self.t[max(0, self.i - 10):self.i + 10])))


def decode_cstr(x):
    s = x[2:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out += s[i].encode('utf-8')
            i += 1
    return bytes(out)


class Fn:
    __slots__ = ('mod', 'name', 'ret', 'retattrs', 'params', 'vararg', 'attrs', 'linkage',
                 'lines', 'blocks', 'order', 'line', 'header', 'defined', 'personality')

    def __repr__(self):
        return '<Fn %s>' % self.name

    def nounwind(self):
        return 'nounwind' in self.attrs

    def body(self):
        if self.blocks is None:
            parse_body(self)
        return self.blocks


class Module:
    def __init__(self, path, label=None):
        self.path = path
        self.label = label or path
        self.types = {}
        self._typesrc = {}
        self.fns = {}
        self.globals = {}
        self._globsrc = {}
        self.attrgroups = {}
        self.aliases = {}
        self.load(path)

    def named(self, n):
        t = self.types.get(n)
        if t is None:
            t = Ty('named', name=n)
            self.types[n] = t
        return t

    def resolve(self, t):
        if t.k == 'named':
            if t.elt is None:
                src = self._typesrc.get(t.name)
                if src is None:
                    t.elt = OPAQ
                else:
                    t.elt = P(tokenize(src), self).type()
            return t.elt
        return t

    def align(self, t):
        if t._align is None:
            t._align = self._al(t)
        return t._align

    def _al(self, t):
        k = t.k
        if k == 'int':
            n = (t.n + 7) // 8
            a = 1
            while a < n:
                a *= 2
            return min(a, 16)
        if k == 'ptr':
            return 8
        if k in FLOATS:
            return FLOATS[k]
        if k == 'array' or k == 'vector':
            return self.align(t.elt)
        if k == 'struct':
            if t.packed:
                return 1
            return max([self.align(e) for e in t.elt] or [1])
        if k == 'named':
            return self.align(self.resolve(t))
        return 1

    def size(self, t):
        if t._size is None:
            t._size = self._sz(t)
        return t._size

    def _sz(self, t):
        k = t.k
        if k == 'int':
            if t.n <= 8:
                return 1
            n = (t.n + 7) // 8
            a = self.align(t)
            return (n + a - 1) // a * a
        if k == 'ptr':
            return 8
        if k in FLOATS:
            return FLOATS[k]
        if k == 'array':
            return t.n * self.size(t.elt)
        if k == 'vector':
            return (t.n * (t.elt.n if t.elt.k == 'int' else self.size(t.elt) * 8) + 7) // 8
        if k == 'struct':
            off = 0
            for e in t.elt:
                a = 1 if t.packed else self.align(e)
                off = (off + a - 1) // a * a + self.size(e)
            a = self.align(t)
            return (off + a - 1) // a * a
        if k == 'named':
            return self.size(self.resolve(t))
        return 0

    def offset(self, t, i):
        t = self.resolve(t)
        if t.k in ('array', 'vector'):
            return i * self.size(t.elt), t.elt
        off = 0
        for j, e in enumerate(t.elt):
            a = 1 if t.packed else self.align(e)
            off = (off + a - 1) // a * a
            if j == i:
                return off, e
            off += self.size(e)
        raise IndexError

    def load(self, path):
        with open(path, errors='replace') as f:
            lines = f.read().split('\n')
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('define '):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                fn = self.header(l[7:], True)
                fn.lines = (lines, i + 1, j)
                fn.line = i + 1
                self.fns[fn.name] = fn
                i = j + 1
                continue
            if l.startswith('declare '):
                fn = self.header(l[8:], False)
                self.fns.setdefault(fn.name, fn)
            elif l.startswith('%'):
                m = re.match(r'(%(?:"(?:[^"\\]|\\.)*"|[-\w$.]+)) = type (.*)$', l)
                if m:
                    self._typesrc[unq(m.group(1))] = m.group(2)
            elif l.startswith('@'):
                m = re.match(r'(@(?:"(?:[^"\\]|\\.)*"|[-\w$.]+)) = (.*)$', l)
                if m:
                    self._globsrc[unq(m.group(1))] = m.group(2)
            elif l.startswith('attributes #'):
                m = re.match(r'attributes (#\d+) = \{(.*)\}', l)
                self.attrgroups[m.group(1)] = m.group(2)
            i += 1
        for fn in self.fns.values():
            s = set()
            for a in fn.attrs:
                if a.startswith('#'):
                    s |= set(re.sub(r'"[^"]*"(="[^"]*")?', '', self.attrgroups.get(a, '')).split())
                else:
                    s.add(a)
            fn.attrs = s

    def header(self, l, defined):
        p = P(tokenize(l.rstrip('{ ') if defined else l), self)
        fn = Fn()
        fn.mod = self
        fn.header = l
        fn.defined = defined
        fn.blocks = None
        fn.lines = None
        fn.line = 0
        fn.personality = None
        fn.linkage = set()
        while True:
            x = p.peek()
            if x in LINKAGE:
                fn.linkage.add(p.next())
                if p.peek() == '(':
                    p.skip_paren()
            elif x in CCS:
                p.next()
            elif x == 'cc':
                p.next()
                p.next()
            else:
                break
        fn.retattrs = p.attrs()
        # the return type, never a function type here
        save = p.i
        # find the @name
        k = p.i
        while p.t[k][0] != '@':
            k += 1
        sub = P(p.t[save:k], self)
        fn.ret = sub.type()
        p.i = k
        fn.name = unq(p.next())
        p.expect('(')
        fn.params = []
        fn.vararg = False
        while not p.accept(')'):
            if p.accept('...'):
                fn.vararg = True
            else:
                t = p.type()
                a = p.attrs()
                nm = None
                if p.peek()[:1] == '%':
                    nm = unq(p.next())
                fn.params.append((t, a, nm))
            p.accept(',')
        idx = 0
        out = []
        for (t, a, nm) in fn.params:
            if nm is None:
                nm = str(idx)
            if nm.isdigit():
                idx = int(nm) + 1
            out.append((t, a, nm))
        fn.params = out
        attrs = []
        while p.i < len(p.t):
            x = p.next()
            if x == 'personality':
                p.expect('ptr')
                fn.personality = unq(p.next())
            elif x[0] == '#' or x in ('nounwind', 'noreturn', 'unnamed_addr'):
                attrs.append(x)
        fn.attrs = set(attrs)
        return fn

    def glob(self, name):
        g = self.globals.get(name)
        if g is None:
            src = self._globsrc.get(name)
            if src is None:
                return None
            p = P(tokenize(src), self)
            ext = False
            const = False
            kind = None
            while True:
                x = p.peek()
                if x in LINKAGE:
                    if x in ('external', 'extern_weak'):
                        ext = True
                    p.next()
                    if p.peek() == '(':
                        p.skip_paren()
                elif x == 'addrspace':
                    p.next()
                    p.skip_paren()
                elif x in ('global', 'constant'):
                    const = x == 'constant'
                    kind = x
                    p.next()
                    break
                elif x == 'alias' or x == 'ifunc':
                    kind = 'alias'
                    p.next()
                    break
                else:
                    p.next()
            t = p.type() if kind != 'alias' else None
            if kind == 'alias':
                p.type()
                p.expect(',')
                pt = p.type()
                init = p.value(pt)
                g = ('alias', None, init, True)
            else:
                init = None
                if not ext and p.peek() not in ('', ','):
                    init = p.value(t)
                g = (kind, t, init, const)
            self.globals[name] = g
        return g


FLAGWORDS = {'nsw', 'nuw', 'exact', 'disjoint', 'inbounds', 'nusw', 'nneg', 'samesign', 'fast',
             'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'tail', 'musttail',
             'notail', 'volatile', 'atomic', 'inalloca', 'weak', 'acq_rel', 'acquire', 'release', 'seq_cst', 'monotonic', 'unordered'}
BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and',
          'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'trunc', 'zext', 'sext', 'bitcast', 'inttoptr', 'ptrtoint', 'fptrunc', 'fpext', 'fptoui',
         'fptosi', 'uitofp', 'sitofp', 'addrspacecast'}


def parse_body(fn):
    lines, a, b = fn.lines
    blocks = {}
    order = []
    # implicit numbering for the entry block
    n = 0
    for (t, at, nm) in fn.params:
        if nm.isdigit():
            n = int(nm) + 1
    cur = None
    i = a
    mod = fn.mod
    while i < b:
        l = lines[i]
        i += 1
        s = l.strip()
        if not s or s[0] == ';' or s.startswith('#dbg'):
            continue
        m = re.match(r'^(?:"((?:[^"\\]|\\.)*)"|([-\w$.]+)):', l)
        if m:
            name = m.group(1) if m.group(1) is not None else m.group(2)
            cur = []
            blocks[name] = cur
            order.append(name)
            continue
        if cur is None:
            cur = []
            blocks[str(n)] = cur
            order.append(str(n))
        # join continuation lines
        if ' switch ' in l or s.startswith('switch '):
            while not s.rstrip().split(' !')[0].rstrip().endswith(']'):
                s += ' ' + lines[i].strip()
                i += 1
        elif 'landingpad' in s:
            while i < b and re.match(r'\s+(catch|filter|cleanup)\b', lines[i]):
                s += ' ' + lines[i].strip()
                i += 1
        elif s.startswith('invoke') or ' = invoke' in s:
            while ' unwind label ' not in s:
                s += ' ' + lines[i].strip()
                i += 1
        elif ('call ' in s) and s.count('(') > s.count(')') and '"' not in s:
            while s.count('(') > s.count(')'):
                s += ' ' + lines[i].strip()
                i += 1
        cur.append((parse_inst(s, mod), i))
    fn.blocks = blocks
    fn.order = order


def parse_inst(s, mod):
    toks = tokenize(s)
    p = P(toks, mod)
    res = None
    if p.peek()[0] == '%' and p.peek(1) == '=':
        res = unq(p.next())
        p.next()
    op = p.next()
    while op in ('tail', 'musttail', 'notail'):
        op = p.next()
    if op == 'alloca':
        p.accept('inalloca')
        t = p.type()
        cnt = ('C', 1)
        ct = None
        if p.accept(','):
            if p.peek() != 'align' and p.peek() != 'addrspace':
                ct = p.type()
                cnt = p.value(ct)
        return ('alloca', res, t, cnt)
    if op == 'load':
        while p.peek() in ('volatile', 'atomic'):
            p.next()
        t = p.type()
        p.expect(',')
        pt = p.type()
        return ('load', res, t, p.value(pt))
    if op == 'store':
        while p.peek() in ('volatile', 'atomic'):
            p.next()
        t = p.type()
        v = p.value(t)
        p.expect(',')
        pt = p.type()
        return ('store', None, t, v, p.value(pt))
    if op == 'getelementptr':
        while p.peek() in FLAGWORDS:
            p.next()
        t = p.type()
        p.expect(',')
        pt = p.type()
        base = p.value(pt)
        idx = []
        while p.accept(','):
            if p.peek()[:1] == '!':
                break
            it = p.type()
            idx.append((it, p.value(it)))
        return ('gep', res, t, base, idx)
    if op in BINOPS:
        while p.peek() in FLAGWORDS:
            p.next()
        t = p.type()
        x = p.value(t)
        p.expect(',')
        return ('bin', res, op, t, x, p.value(t))
    if op in ('icmp', 'fcmp'):
        while p.peek() in FLAGWORDS:
            p.next()
        pred = p.next()
        t = p.type()
        x = p.value(t)
        p.expect(',')
        return (op, res, pred, t, x, p.value(t))
    if op in CASTS:
        while p.peek() in FLAGWORDS:
            p.next()
        t = p.type()
        v = p.value(t)
        p.expect('to')
        return ('cast', res, op, t, v, p.type())
    if op == 'br':
        if p.peek() == 'label':
            p.next()
            return ('jmp', None, unq(p.next()))
        t = p.type()
        c = p.value(t)
        p.expect(',')
        p.expect('label')
        x = unq(p.next())
        p.expect(',')
        p.expect('label')
        return ('br', None, c, x, unq(p.next()))
    if op == 'switch':
        t = p.type()
        v = p.value(t)
        p.expect(',')
        p.expect('label')
        d = unq(p.next())
        p.expect('[')
        cases = []
        while not p.accept(']'):
            ct = p.type()
            cv = p.value(ct)
            p.expect(',')
            p.expect('label')
            cases.append((cv[1], unq(p.next())))
        return ('switch', None, t, v, d, cases)
    if op == 'ret':
        t = p.type()
        if t.k == 'void':
            return ('ret', None, t, None)
        return ('ret', None, t, p.value(t))
    if op == 'resume':
        t = p.type()
        return ('resume', None, t, p.value(t))
    if op == 'unreachable':
        return ('unreachable', None)
    if op == 'landingpad':
        t = p.type()
        cleanup = False
        clauses = []
        while p.i < len(p.t):
            x = p.peek()
            if x == 'cleanup':
                p.next()
                cleanup = True
            elif x == 'catch':
                p.next()
                ct = p.type()
                clauses.append(('catch', p.value(ct)))
            elif x == 'filter':
                p.next()
                ct = p.type()
                clauses.append(('filter', p.value(ct)))
            else:
                break
        return ('landingpad', res, t, cleanup, clauses)
    if op == 'phi':
        while p.peek() in FLAGWORDS:
            p.next()
        t = p.type()
        inc = []
        while True:
            p.expect('[')
            v = p.value(t)
            p.expect(',')
            inc.append((unq(p.next()), v))
            p.expect(']')
            if not p.accept(','):
                break
            if p.peek()[:1] == '!':
                break
        return ('phi', res, t, inc)
    if op == 'select':
        while p.peek() in FLAGWORDS:
            p.next()
        ct = p.type()
        c = p.value(ct)
        p.expect(',')
        t = p.type()
        x = p.value(t)
        p.expect(',')
        t = p.type()
        return ('select', res, t, c, x, p.value(t))
    if op == 'extractvalue':
        t = p.type()
        v = p.value(t)
        idx = []
        while p.accept(','):
            if p.peek()[:1] == '!':
                break
            idx.append(int(p.next()))
        return ('extractvalue', res, t, v, idx)
    if op == 'insertvalue':
        t = p.type()
        v = p.value(t)
        p.expect(',')
        et = p.type()
        e = p.value(et)
        idx = []
        while p.accept(','):
            idx.append(int(p.next()))
        return ('insertvalue', res, t, v, et, e, idx)
    if op in ('call', 'invoke'):
        while p.peek() in FLAGWORDS or p.peek() in CCS:
            p.next()
        if p.peek() == 'cc':
            p.next()
            p.next()
        ra = p.attrs()
        # return type or full function type: find callee token
        # the callee is the first @glob / %loc directly followed by '(' at depth 0
        d = 0
        k = p.i
        while True:
            x = p.t[k]
            if d == 0 and x == 'asm':
                return ('asm', res)
            if d == 0 and (x[0] == '@' or x[0] == '%') and k + 1 < len(p.t) and p.t[k + 1] == '(' and k > p.i:
                break
            if x in '([{<':
                d += 1
            elif x in ')]}>':
                d -= 1
            k += 1
        sub = P(p.t[p.i:k], mod)
        rt = sub.type()
        va = False
        if rt.k == 'fn':
            va = rt.elt[2]
            rt = rt.elt[0]
        p.i = k
        callee = p.next()
        cal = ('G', unq(callee)) if callee[0] == '@' else ('L', unq(callee))
        p.expect('(')
        args = []
        while not p.accept(')'):
            t = p.type()
            if t.k == 'metadata':
                d = 0
                while not (d == 0 and p.peek() in (',', ')')):
                    x = p.next()
                    if x in '([{':
                        d += 1
                    elif x in ')]}':
                        d -= 1
                args.append((t, {}, ('U',)))
            else:
                at = p.attrs()
                args.append((t, at, p.value(t)))
            p.accept(',')
        nounwind = False
        normal = unwind = None
        while p.i < len(p.t):
            x = p.next()
            if x[0] == '#':
                g = mod.attrgroups.get(x, '')
                if 'nounwind' in g.split():
                    nounwind = True
            elif x == 'nounwind':
                nounwind = True
            elif x == 'to' and op == 'invoke':
                p.expect('label')
                normal = unq(p.next())
            elif x == 'unwind' and op == 'invoke':
                p.expect('label')
                unwind = unq(p.next())
        return ('call', res, rt, cal, args, nounwind, normal, unwind, ra)
    if op == 'freeze':
        t = p.type()
        return ('freeze', res, t, p.value(t))
    if op == 'fneg':
        while p.peek() in FLAGWORDS:
            p.next()
        t = p.type()
        return ('fneg', res, t, p.value(t))
    if op == 'fence':
        return ('nop', None)
    if op == 'atomicrmw':
        while p.peek() in ('volatile',):
            p.next()
        rop = p.next()
        pt = p.type()
        ptr = p.value(pt)
        p.expect(',')
        t = p.type()
        return ('atomicrmw', res, rop, ptr, t, p.value(t))
    if op == 'cmpxchg':
        while p.peek() in ('volatile', 'weak'):
            p.next()
        pt = p.type()
        ptr = p.value(pt)
        p.expect(',')
        t = p.type()
        x = p.value(t)
        p.expect(',')
        t2 = p.type()
        return ('cmpxchg', res, ptr, t, x, p.value(t2))
    return ('unknown', res, op, s)


_dem = {}


def demangle(names):
    """Demangle many names at once (C++ and Rust v0)."""
    todo = [n for n in names if n not in _dem]
    if todo:
        out = subprocess.run(['llvm-cxxfilt-18'], input='\n'.join(todo) + '\n', text=True,
                             capture_output=True, check=True).stdout.split('\n')
        for n, d in zip(todo, out):
            # drop crate disambiguators: core[1a2b3c]::
            _dem[n] = re.sub(r'\[[0-9a-f]{6,}\]', '', d)
    return {n: _dem[n] for n in names}
