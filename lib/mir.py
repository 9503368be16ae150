"""The MIR of the code generators: parser, and an interpreter over all paths of a function with unknown inputs.

Nothing is executed: values are terms over the function's arguments and the results of the calls it makes, every branch on an
unknown is followed both ways, and what a path assumed about a call's result (which variant, which truth value) is kept."""
import os
import re


class Fn:
    def __init__(self, name, args, ret):
        self.name, self.args, self.ret = name, args, ret
        self.types = dict(args)
        self.types['_0'] = ret
        self.blocks = {}
        self.kind = 'fn'

    def __repr__(self):
        return self.name


def split(s, sep=','):
    """Split at depth 0, outside of quotes."""
    out, depth, cur, i, n = [], 0, '', 0, len(s)
    while i < n:
        c = s[i]
        if c == '"':
            j = i + 1
            while j < n and s[j] != '"':
                j += 2 if s[j] == '\\' else 1
            cur += s[i:j + 1]
            i = j + 1
            continue
        if c == "'" and i + 2 < n and (s[i + 2] == "'" or s[i + 1] == '\\'):
            j = s.find("'", i + 2)
            cur += s[i:j + 1]
            i = j + 1
            continue
        if c in '([{<':
            depth += 1
        elif c in ')]}' or c == '>' and s[i - 1] not in '-=':
            depth -= 1
        if c == sep and depth == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
        i += 1
    if cur.strip():
        out.append(cur.strip())
    return out


def call_parts(s):
    """'callee(args)' -> callee, [args]"""
    depth, i, n, start = 0, 0, len(s), None
    while i < n:
        c = s[i]
        if c == '"':
            j = i + 1
            while j < n and s[j] != '"':
                j += 2 if s[j] == '\\' else 1
            i = j + 1
            continue
        if c == "'" and i + 2 < n and (s[i + 2] == "'" or s[i + 1] == '\\'):
            i = s.find("'", i + 2) + 1
            continue
        if c in '([{<':
            if c == '(' and depth == 0:
                start = i
            depth += 1
        elif c in ')]}' or c == '>' and s[i - 1] not in '-=':
            depth -= 1
        i += 1
    if start is None:
        return None
    return s[:start], split(s[start + 1:-1])


def bare(name):
    """A path without its generic arguments."""
    out, depth, i = '', 0, 0
    while i < len(name):
        if depth == 0 and name.startswith('::<', i):
            depth = 1
            i += 3
            continue
        c = name[i]
        if depth:
            if c == '<':
                depth += 1
            elif c == '>' and name[i - 1] not in '-=':
                depth -= 1
        else:
            out += c
        i += 1
    return out


HEAD = re.compile(r'^(?:(fn) (.*?)|(const|static|static mut) (.*?): (.*?) =) ?\{$')


def parse(text):
    fns = {}
    cur = None
    bb = None
    for l in text.splitlines():
        if cur is None:
            if l.startswith('fn ') and l.endswith('{'):
                body = l[3:-2]
                i = body.rfind(') -> ')
                # the return type may itself contain ') -> '
                depth = 0
                k = None
                for m in re.finditer(r'\((?=_1: |\))', body):
                    k = m.start()
                    break
                head, rest = body[:k], body[k:]
                depth = 0
                for j, c in enumerate(rest):
                    if c in '([{<':
                        depth += 1
                    elif c in ')]}' or c == '>' and rest[j - 1] not in '-=':
                        depth -= 1
                        if depth == 0:
                            break
                args = [tuple(a.split(': ', 1)) for a in split(rest[1:j])]
                ret = rest[j + 1:].strip()
                cur = Fn(head, args, ret[3:].strip() if ret.startswith('->') else '()')
            elif re.match(r'(const|static|static mut) ', l) and l.endswith('{'):
                m = re.match(r'(const|static mut|static) (.*): (.*?) = \{$', l)
                cur = Fn(m.group(2), [], m.group(3))
                cur.kind = m.group(1)
            continue
        if l == '}':
            fns.setdefault(cur.name, cur)
            cur = bb = None
            continue
        m = re.match(r'    bb(\d+)(?: \((cleanup)\))?: \{$', l)
        if m:
            bb = int(m.group(1))
            cur.blocks[bb] = []
            continue
        if bb is None:
            m = re.match(r'\s+let (?:mut )?(_\d+): (.*);$', l)
            if m:
                cur.types[m.group(1)] = m.group(2)
        elif l.startswith('        '):
            s = l.strip()
            if s.endswith(';'):
                s = s[:-1]
            cur.blocks[bb].append(s)
        elif l.strip() == '}':
            bb = None
    return fns


STD_ENUMS = {
    'Result': ['Ok', 'Err'], 'Option': ['None', 'Some'], 'ControlFlow': ['Continue', 'Break'],
    'Component': ['Prefix', 'RootDir', 'CurDir', 'ParentDir', 'Normal'], 'Cow': ['Borrowed', 'Owned'],
}


def base_type(t):
    t = t.strip()
    while True:
        m = re.match(r"&(?:'\w+ )?(?:mut )?|\*(?:const|mut) ", t)
        if not m:
            break
        t = t[m.end():]
    return bare(re.sub(r'<.*', '', t) if not t.startswith('<') else t)


class Crate:
    def __init__(self, text, root):
        self.fns = parse(text)
        self.root = root
        self.closures = {}
        self.impls = {}             # method -> [(trait, type, module, fn)]
        self.enums = dict((k, v) for k, v in STD_ENUMS.items())
        for f in self.fns.values():
            if f.kind == 'fn' and f.args:
                m = re.search(r'\{closure@[^}]*\}', f.args[0][1])
                if m and '{closure#' in f.name.rsplit('::', 1)[-1]:
                    self.closures[m.group(0)] = f
            m = re.match(r'(.*?)<impl at (.*?):(\d+):(\d+): [^>]*>::([\w#]+)$', f.name)
            if m:
                h = self.header(m.group(2), int(m.group(3)), int(m.group(4)))
                mm = re.match(r'(?:unsafe )?impl(?:<.*?>)?\s+(?:(.*?)\s+for\s+)?(.*?)\s*(?:where.*)?\{', h, re.S)
                if mm:
                    tr = bare(re.sub(r'<.*', '', mm.group(1) or '')).split('::')[-1]
                    ty = base_type(re.sub(r'^\w+!\s*', '', mm.group(2))).split('::')[-1]
                    self.impls.setdefault(m.group(5), []).append((tr, ty, m.group(1).rstrip(':'), f))
        self.cache = {}

    def header(self, path, line, col):
        p = os.path.join(self.root, path)
        try:
            with open(p) as f:
                ls = f.read().split('\n')
        except OSError:
            return ''
        return ls[line - 1][col - 1:] + '\n' + '\n'.join(ls[line:line + 6])

    def add_enums(self, *dirs):
        for d in dirs:
            for r, _, fs in os.walk(os.path.join(self.root, d), followlinks=False):
                for n in fs:
                    if n.endswith('.rs'):
                        with open(os.path.join(r, n)) as f:
                            t = re.sub(r'//.*', '', f.read())
                        for m in re.finditer(r'\benum (\w+)(?:<[^{]*?>)?\s*\{(.*?)\n\s*\}', t, re.S):
                            vs = [re.match(r'(?:\s*#\[[^\]]*\])*\s*(\w+)', x) for x in split(m.group(2))]
                            vs = [x.group(1) for x in vs if x]
                            if m.group(1) not in STD_ENUMS:
                                self.enums.setdefault(m.group(1), vs)

    def resolve(self, callee):
        """The function of this crate a callee names, or None."""
        if callee in self.cache:
            return self.cache[callee]
        r = self._resolve(callee)
        self.cache[callee] = r
        return r

    def _resolve(self, callee):
        c = bare(callee)
        if c in self.fns:
            return self.fns[c]
        m = re.match(r'<(.*) as (.*)>::([\w#]+)$', c)
        if m:
            ty, tr, me = m.groups()
            tr0 = re.sub(r'<.*', '', tr).split('::')[-1]
            b = base_type(ty)
        else:
            if '::' not in c:
                return None
            b, me = c.rsplit('::', 1)
            if b.startswith('<'):
                return None
            tr0 = ''
        cand = [x for x in self.impls.get(me, ()) if x[0] == tr0 and x[1] == b.split('::')[-1]]
        mod = b.rsplit('::', 1)[0] if '::' in b else ''
        exact = [x for x in cand if x[2] == mod]
        if len(exact) == 1:
            return exact[0][3]
        foreign = ('std::', 'core::', 'alloc::', 'proc_macro', 'syn::')
        if not exact and len(cand) == 1 and not (tr if m else b).startswith(foreign):
            return cand[0][3]
        return None

    def calls(self, f):
        """(block, destination, callee, arguments, return block) of every call."""
        for bb, ss in f.blocks.items():
            if not ss:
                continue
            c = parse_call(ss[-1])
            if c:
                yield (bb,) + c

    def consts(self, f):
        """Functions named as values."""
        for ss in f.blocks.values():
            for s in ss:
                for m in re.finditer(r'const ((?:[\w<>&\' ]|::)+)', s):
                    yield m.group(1)
                if ' = ' in s:
                    m = re.match(r'([<a-z][^()]*?::[^()]*) as (?:for<.*?> )?(?:unsafe )?(?:extern .*? )?fn\(', s.split(' = ', 1)[1])
                    if m:
                        yield m.group(1)
                    c = parse_call(s)
                    for a in c[2] if c else ():
                        if re.match(r'[<a-z]', a) and not a.startswith(('copy ', 'move ', 'const ')):
                            yield a


TERM = re.compile(r' -> (?:\[return: bb(\d+)(?:, unwind[^\]]*)?\]|unwind[^\]]*|bb\d+)$')


def parse_call(s):
    m = TERM.search(s)
    if not m or s.startswith(('drop(', 'assert(', 'switchInt(', 'goto', 'falseEdge')):
        return None
    body = s[:m.start()]
    if ' = ' not in body:
        return None
    d, c = body.split(' = ', 1)
    p = call_parts(c)
    if not p:
        return None
    return d, p[0], p[1], int(m.group(1)) if m.group(1) else None


# ---- places --------------------------------------------------------------------------------------------------------
PL = {}


def place(s):
    """-> (local, projections); a projection is '*', ('f', variant or '', index), ('[]', text)."""
    r = PL.get(s)
    if r is None:
        r, i = _place(s, 0)
        while i < len(s):
            if s[i] == '[':
                j = s.index(']', i)
                r = (r[0], r[1] + (('[]', s[i + 1:j]),))
                i = j + 1
            else:
                raise ValueError('place ' + s)
        PL[s] = r
    return r


def _place(s, i):
    m = re.compile(r'_\d+').match(s, i)
    if m:
        r, i = (m.group(0), ()), m.end()
    elif s.startswith('(*', i):
        r, i = _place(s, i + 2)
        r, i = idx(s, r, i)
        assert s[i] == ')', s
        r, i = (r[0], r[1] + ('*',)), i + 1
    elif s[i] == '(':
        r, i = _place(s, i + 1)
        r, i = idx(s, r, i)
        variant = ''
        m = re.compile(r' as ([\w#]+)').match(s, i)
        if m:
            variant = m.group(1)
            i = m.end()
            if s[i] == ')':
                i += 1
                return (r[0], r[1] + (('as', variant),)), i
        if s[i] == '.':
            m = re.compile(r'\.(\d+): ').match(s, i)
            i = m.end()
            depth = 0
            while True:
                c = s[i]
                if c in '([{<':
                    depth += 1
                elif c in ')]}' or c == '>' and s[i - 1] not in '-=':
                    if depth == 0:
                        break
                    depth -= 1
                i += 1
            p = r[1]
            if p and isinstance(p[-1], tuple) and p[-1][0] == 'as':
                variant = p[-1][1]
                p = p[:-1]
            r = (r[0], p + (('f', variant, int(m.group(1))),))
        assert s[i] == ')', (s, i)
        i += 1
    else:
        raise ValueError('place ' + s)
    return idx(s, r, i)


def idx(s, r, i):
    while i < len(s) and s[i] == '[':
        j = s.index(']', i)
        r = (r[0], r[1] + (('[]', s[i + 1:j]),))
        i = j + 1
    return r, i


# ---- interpreter ---------------------------------------------------------------------------------------------------
class Budget(Exception):
    pass


class State:
    __slots__ = ('cells', 'trace', 'assume', 'n', 'visits')

    def __init__(self, o=None):
        if o is None:
            self.cells, self.trace, self.assume, self.n, self.visits = {}, (), {}, 0, {}
        else:
            self.cells, self.trace, self.assume, self.n, self.visits = dict(o.cells), o.trace, dict(o.assume), o.n, dict(o.visits)


UNIT = ('adt', '', ())
PASS = re.compile(r'(AsRef<.*>>::as_ref|AsMut<.*>>::as_mut|Deref>::deref|DerefMut>::deref_mut|Borrow<.*>>::borrow|::as_path|::as_os_str|::as_str|::as_slice|::as_bytes|'
                  r'::to_owned|::to_path_buf|ToOwned>::to_owned|Clone>::clone|::into_boxed_slice|::into_bytes|'
                  r'std::boxed::Box::new|String::as_mut_str|::into_os_string|::into_path_buf|Cow<.*>>::into_owned|::as_mut_slice|::into_owned|ptr::Unique.*|'
                  r'std::convert::identity|std::hint::black_box|std::mem::ManuallyDrop::new|ToString>::to_string)$')
TOPATH = re.compile(r"<(std::path::PathBuf|std::string::String|std::vec::Vec<.*>|std::ffi::OsString|&?std::path::Path|std::boxed::Box<.*>) as std::convert::From<.*>>::from$|"
                    r"<.* as std::convert::Into<.*>>::into$|std::path::Path::new$")


class Interp:
    def __init__(self, crate, inline=None, model=None, loops=2, budget=60000, depth=12):
        self.c = crate
        self.inline = inline or (lambda f: True)
        self.model = model or (lambda it, callee, args, st: None)
        self.loops, self.budget, self.maxdepth = loops, budget, depth
        self.steps = 0
        self.cut = 0
        self.stack = []

    # values
    def term(self, v, st, d=0):
        k = v[0]
        if k == 'sym':
            return v[1]
        if k == 'const':
            return ('c', v[1])
        if k == 'ref':
            if d > 12:
                return ('deep',)
            return self.term(self.load(v[1], v[2], st), st, d + 1)
        if k == 'adt':
            return ('adt', v[1]) + tuple(self.term(x, st, d + 1) for x in v[2])
        if k == 'fn':
            return ('fn', v[1])
        if k == 'clos':
            return ('clos', v[1]) + tuple(self.term(x, st, d + 1) for x in v[2])
        return ('?',)

    def load(self, cell, proj, st):
        v = st.cells.get(cell, ('sym', ('uninit', cell)))
        for i, p in enumerate(proj):
            v = self.project(v, p, st)
        return v

    def project(self, v, p, st):
        if p == '*':
            if v[0] == 'ref':
                return self.load(v[1], v[2], st)
            return v
        if v[0] == 'ref':
            v = self.load(v[1], v[2], st)
        if p[0] == 'as':
            return v
        if p[0] == 'f':
            if v[0] == 'adt':
                if p[2] < len(v[2]):
                    return v[2][p[2]]
                return ('sym', ('nofield',))
            if v[0] == 'clos':
                return v[2][p[2]] if p[2] < len(v[2]) else ('sym', ('nofield',))
            return ('sym', ('f', self.term(v, st), p[1], p[2]))
        if v[0] == 'adt' and re.fullmatch(r'\d+ of \d+', p[1]) and int(p[1].split()[0]) < len(v[2]):
            return v[2][int(p[1].split()[0])]
        return ('sym', ('elem', self.term(v, st)))

    def store(self, cell, proj, val, st):
        if not proj:
            st.cells[cell] = val
            return
        if '*' in proj:
            i = proj.index('*')
            v = self.load(cell, proj[:i], st)
            if v[0] == 'ref':
                self.store(v[1], v[2] + proj[i + 1:], val, st)
            else:
                st.trace += (('store', self.term(v, st), proj[i + 1:], self.term(val, st)),)
            return
        st.cells[cell] = self.update(st.cells.get(cell, ('adt', '', ())), proj, val, st)

    def update(self, v, proj, val, st):
        if not proj:
            return val
        p = proj[0]
        if p[0] == 'f':
            if v[0] not in ('adt', 'clos'):
                t = self.term(v, st)
                v = ('adt', p[1], tuple(('sym', ('f', t, p[1], i)) for i in range(p[2] + 1)))
            fs = list(v[2])
            while len(fs) <= p[2]:
                fs.append(('sym', ('f', self.term(v, st), p[1], len(fs))))
            fs[p[2]] = self.update(fs[p[2]], proj[1:], val, st)
            return (v[0], v[1] or p[1], tuple(fs))
        if p[0] == 'as':
            return self.update(v, proj[1:], val, st)
        return ('sym', ('modified', self.term(v, st), self.term(val, st)))

    def fresh(self, st, what):
        st.n += 1
        return ('sym', what + (st.n,))

    # operands
    def operand(self, s, fr, st):
        s = s.strip()
        if s.startswith(('move ', 'copy ')):
            l, p = place(s[5:])
            return self.load((fr, l), p, st)
        if s.startswith('const '):
            return self.const(s[6:])
        if re.match(r'[(_]', s):
            try:
                l, p = place(s)
                return self.load((fr, l), p, st)
            except (ValueError, AssertionError, AttributeError):
                pass
        if re.match(r'[<a-z]', s):
            return self.const(s)
        return ('sym', ('operand', s))

    def const(self, s):
        s = s.strip()
        if s in ('true', 'false'):
            return ('const', int(s == 'true'))
        m = re.fullmatch(r'(-?\d+)_\w+', s)
        if m:
            return ('const', int(m.group(1)))
        if s.startswith(('"', 'b"')):
            return ('const', s)
        if s == '()':
            return UNIT
        if '::promoted[' in s or '{constant#' in s:
            f = self.c.fns.get(s)
            if f is not None:
                v = self.promoted(f)
                if v is not None:
                    return v
            return ('sym', ('const', s))
        b = bare(s)
        if re.fullmatch(r'[\w:<>& ]+::[A-Z]\w*', b) and self.variant_of(b):
            return ('adt', b.split('::')[-1], ())
        f = self.c.resolve(s)
        if f is not None and f.kind == 'fn':
            return ('fn', f.name)
        return ('fn', s) if re.match(r'[<\w]', s) else ('sym', ('const', s))

    def promoted(self, f):
        """A promoted constant: straight-line MIR."""
        st = State()
        try:
            rs = self.run(f, [], st)
        except Budget:
            return None
        rs = [r for r in rs if r[0] == 'ret']
        if len(rs) == 1:
            return self.freeze(rs[0][1], rs[0][2])
        return None

    def freeze(self, v, st, d=0):
        if v[0] == 'ref' and d < 8:
            return self.freeze(self.load(v[1], v[2], st), st, d + 1)
        if v[0] == 'adt':
            return ('adt', v[1], tuple(self.freeze(x, st, d + 1) for x in v[2]))
        return v

    def variant_of(self, path):
        """(enum, index) if path names a variant."""
        p = path.split('::')
        if len(p) >= 2 and p[-2] in self.c.enums and p[-1] in self.c.enums[p[-2]]:
            return p[-2], self.c.enums[p[-2]].index(p[-1])
        return None

    # rvalues
    def rvalue(self, s, fr, st, f):
        if s.startswith('deref_copy '):
            s = 'copy ' + s[11:]
        if s.startswith(('move ', 'copy ', 'const ')):
            m = re.match(r'(.*) as (.*) \((\w+(?:\(.*\))?)\)$', s)
            if m and not s.startswith('const "'):
                return self.operand(m.group(1), fr, st)
            return self.operand(s, fr, st)
        m = re.match(r'([<a-z].*?) as (?:for<.*?> )?(?:unsafe )?(?:extern "\w+" )?fn\(.*\(PointerCoercion\(ReifyFnPointer.*\)\)$', s)
        if m:
            return self.const(m.group(1))
        m = re.match(r'&(?:raw (?:const|mut) |mut |fake shallow |fake )?(?=[(_])', s)
        if m:
            l, p = place(s[m.end():])
            # a reference through a reference is that reference
            if p and p[-1] == '*':
                v = self.load((fr, l), p[:-1], st)
                if v[0] == 'ref':
                    return v
                return v
            if '*' in p:
                i = len(p) - 1 - p[::-1].index('*')
                v = self.load((fr, l), p[:i], st)
                if v[0] == 'ref':
                    return ('ref', v[1], v[2] + p[i + 1:])
                for q in p[i + 1:]:
                    v = self.project(v, q, st)
                return v
            return ('ref', (fr, l), p)
        m = re.match(r'discriminant\((.*)\)$', s)
        if m:
            l, p = place(m.group(1))
            v = self.load((fr, l), p, st)
            while v[0] == 'ref':
                v = self.load(v[1], v[2], st)
            return self.disc(v, st, self.ptype(f, l, p))
        m = re.match(r'(Eq|Ne|Lt|Le|Gt|Ge|Add|Sub|Mul|Div|Rem|BitAnd|BitOr|BitXor|Shl|Shr|AddWithOverflow|SubWithOverflow|MulWithOverflow|Offset|Cmp|AddUnchecked|SubUnchecked)\((.*)\)$', s)
        if m:
            a, b = [self.operand(x, fr, st) for x in split(m.group(2))]
            return self.binop(m.group(1), a, b, st)
        m = re.match(r'(Not|Neg)\((.*)\)$', s)
        if m:
            a = self.operand(m.group(2), fr, st)
            if a[0] == 'const' and m.group(1) == 'Not' and a[1] in (0, 1):
                return ('const', 1 - a[1])
            return ('sym', (m.group(1), self.term(a, st)))
        m = re.match(r'(Len|PtrMetadata)\((.*)\)$', s)
        if m:
            try:
                return ('sym', ('len', self.term(self.operand(m.group(2), fr, st), st)))
            except Exception:
                return ('sym', ('len', s))
        if s == '()':
            return UNIT
        if s.startswith('{closure@'):
            i = s.index('}') + 1
            caps = re.match(r' \{ (.*) \}$', s[i:])
            fs = tuple(self.operand(x.split(': ', 1)[1], fr, st) for x in split(caps.group(1))) if caps else ()
            return ('clos', s[:i], fs)
        if s.startswith('['):
            m = re.match(r'\[(.*); .*\]$', s)
            if m and ',' not in m.group(1):
                return ('sym', ('repeat', self.term(self.operand(m.group(1), fr, st), st)))
            return ('adt', '[]', tuple(self.operand(x, fr, st) for x in split(s[1:-1])))
        if s.startswith('('):
            return ('adt', '', tuple(self.operand(x, fr, st) for x in split(s[1:-1])))
        m = re.match(r'(.*?) \{ (.*) \}$', s)
        if m and not m.group(1).endswith(('move', 'copy')):
            v = self.variant_of(bare(m.group(1)))
            return ('adt', bare(m.group(1)).split('::')[-1], tuple(self.operand(x.split(': ', 1)[1], fr, st) for x in split(m.group(2))))
        p = call_parts(s) if s.endswith(')') else None
        if p and re.match(r'[\w<]', p[0]):
            return ('adt', bare(p[0]).split('::')[-1], tuple(self.operand(x, fr, st) for x in p[1]))
        b = bare(s)
        if re.fullmatch(r"[\w:<>&' ]+", b):
            return ('adt', b.split('::')[-1], ())
        return ('sym', ('rvalue', s))

    def binop(self, op, a, b, st):
        if a[0] == b[0] == 'const' and isinstance(a[1], int) and isinstance(b[1], int):
            x, y = a[1], b[1]
            if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
                return ('const', int({'Eq': x == y, 'Ne': x != y, 'Lt': x < y, 'Le': x <= y, 'Gt': x > y, 'Ge': x >= y}[op]))
            r = {'Add': x + y, 'Sub': x - y, 'Mul': x * y}.get(op.replace('WithOverflow', ''))
            if r is not None:
                return ('adt', '', (('const', r), ('const', 0))) if op.endswith('Overflow') else ('const', r)
        t = (op, self.term(a, st), self.term(b, st))
        if op.endswith('Overflow'):
            return ('adt', '', (('sym', t), ('const', 0)))
        return ('sym', t)

    def ptype(self, f, l, p):
        return f.types.get(l, '') if not any(x != '*' for x in p) else ''

    def disc(self, v, st, ty):
        if v[0] == 'adt':
            for e, vs in self.c.enums.items():
                if v[1] in vs and (not ty or base_type(ty).split('::')[-1] == e):
                    return ('const', vs.index(v[1]))
            if v[1] in ('Ok', 'None', 'Continue'):
                return ('const', 0)
            if v[1] in ('Err', 'Some', 'Break'):
                return ('const', 1)
            return ('sym', ('disc', self.term(v, st)))
        t = self.term(v, st)
        return ('sym', ('disc', t))

    # control
    def known(self, t, st):
        if t in st.assume:
            return st.assume[t]
        if t[0] == 'Not':
            k = self.known(t[1], st)
            if k is not None and not isinstance(k, tuple):
                return 1 - k
        return None

    def suppose(self, t, v, st):
        if t[0] == 'Not' and not isinstance(v, tuple):
            self.suppose(t[1], 1 - v, st)
        else:
            st.assume[t] = v

    def fork(self, t, st, values):
        """States for each possible value of the term."""
        k = self.known(t, st)
        out = []
        for v in values:
            if k is not None:
                if isinstance(k, tuple):
                    if v in k[1]:
                        continue
                elif k != v:
                    continue
                out.append((v, st if len(values) == 1 else State(st)))
            else:
                s2 = State(st)
                self.suppose(t, v, s2)
                out.append((v, s2))
        return out

    def result(self, v, st, what=('Ok', 'Err')):
        """Fork a Result/Option value: [(variant, payload or None, state)]."""
        while v[0] == 'ref':
            v = self.load(v[1], v[2], st)
        if v[0] == 'adt':
            return [(v[1], v[2][0] if v[2] else None, st)]
        t = self.term(v, st)
        out = []
        for n, s2 in self.fork(('disc', t), st, [0, 1]):
            var = what[n]
            out.append((var, None if var == 'None' else ('sym', ('f', t, var, 0)), s2))
        return out

    def run(self, f, args, st, start=0):
        """-> [(kind, value, state)], kind ret|diverge|cut"""
        if len(self.stack) > self.maxdepth or f in self.stack:
            raise Budget('recursion at %s' % f.name)
        self.stack.append(f)
        st.n += 1
        fr = (f.name, st.n)
        for (l, _), v in zip(f.args, args):
            st.cells[(fr, l)] = v
        out = []
        work = [(start, st)]
        while work:
            bb, st = work.pop()
            self.steps += 1
            if self.steps > self.budget:
                self.stack.pop()
                raise Budget('too many paths in %s' % f.name)
            k = (fr, bb)
            st.visits[k] = st.visits.get(k, 0) + 1
            if st.visits[k] > self.loops + 1:
                self.cut += 1
                out.append(('cut', None, st))
                continue
            ss = f.blocks[bb]
            for s in ss[:-1]:
                self.stmt(s, fr, st, f)
            nxt = self.terminator(ss[-1], fr, st, f)
            for n in nxt:
                if n[0] == 'bb':
                    work.append((n[1], n[2]))
                elif n[0] == 'ret':
                    s2 = n[1]
                    out.append(('ret', s2.cells.get((fr, '_0'), UNIT), s2))
                else:
                    out.append(('diverge', n[1], n[2]))
        self.stack.pop()
        return out

    def stmt(self, s, fr, st, f):
        if s.startswith(('Storage', 'nop', 'FakeRead', 'PlaceMention', 'AscribeUserType', 'Retag', 'Coverage', 'ConstEvalCounter', 'Deinit', 'BackwardIncompatibleDropHint', '//')):
            return
        m = re.match(r'discriminant\((.*)\) = (\d+)$', s)
        if m:
            return
        if ' = ' in s:
            d, r = s.split(' = ', 1)
            v = self.rvalue(r, fr, st, f)
            l, p = place(d)
            self.store((fr, l), p, v, st)

    def terminator(self, s, fr, st, f):
        if s == 'return':
            return [('ret', st)]
        if s.startswith('goto -> bb'):
            return [('bb', int(s[10:]), st)]
        if s in ('unreachable', 'resume') or s.startswith(('terminate', 'unwind')):
            return []
        m = re.match(r'switchInt\((.*)\) -> \[(.*)\]$', s)
        if m:
            v = self.operand(m.group(1), fr, st)
            arms = [x.split(': ') for x in m.group(2).split(', ')]
            vals = [(int(a) if a != 'otherwise' else None, int(b[2:])) for a, b in arms]
            if v[0] == 'const' and isinstance(v[1], int):
                for a, b in vals:
                    if a == v[1] or a is None:
                        return [('bb', b, st)]
            t = self.term(v, st)
            out = []
            listed = [a for a, _ in vals if a is not None]
            k = self.known(t, st)
            if k is not None and not isinstance(k, tuple):
                for a, b in vals:
                    if a == k or a is None:
                        return [('bb', b, st)]
            boolean = f.types.get(m.group(1).split()[-1]) == 'bool'
            enum = None
            for a, b in vals:
                if isinstance(k, tuple) and a in k[1]:
                    continue
                if a is None and self.dead(f, b):
                    continue
                s2 = State(st)
                if a is not None:
                    self.suppose(t, a, s2)
                elif listed == [0]:
                    self.suppose(t, 1, s2)          # (booleans, and two-variant enums)
                else:
                    self.suppose(t, ('not', tuple(listed) + (k[1] if isinstance(k, tuple) else ())), s2)
                out.append(('bb', b, s2))
            return out
        m = re.match(r'drop\((.*)\) -> \[return: bb(\d+)', s)
        if m:
            return [('bb', int(m.group(2)), st)]
        m = re.match(r'assert\((!?)(.*?), ".*success: bb(\d+)', s)
        if m:
            return [('bb', int(m.group(3)), st)]
        m = re.match(r'falseEdge -> \[real: bb(\d+)|falseUnwind -> \[real: bb(\d+)', s)
        if m:
            return [('bb', int(m.group(1) or m.group(2)), st)]
        c = parse_call(s)
        if not c:
            raise ValueError('terminator ' + s[:200])
        d, callee, args, ret = c
        vals = [self.operand(a, fr, st) for a in args]
        if callee.startswith(('move ', 'copy ')):
            fv = self.operand(callee, fr, st)
        else:
            fv = None
        outs = self.call(callee, vals, st, fv, ret is None, f)
        res = []
        l, p = place(d)
        for o in outs:
            if o[0] == 'ret':
                if ret is None:
                    continue
                self.store((fr, l), p, o[1], o[2])
                res.append(('bb', ret, o[2]))
            elif o[0] == 'diverge':
                res.append(('diverge', o[1], o[2]))
        return res

    def dead(self, f, bb):
        ss = f.blocks[bb]
        return len(ss) == 1 and ss[0] == 'unreachable'

    def apply(self, fv, args, st):
        """Call a function value."""
        while fv[0] == 'ref':
            fv = self.load(fv[1], fv[2], st)
        if fv[0] == 'clos' and fv[1] in self.c.closures:
            g = self.c.closures[fv[1]]
            cell = ('closure', st.n)
            st.n += 1
            st.cells[cell] = fv
            env = ('ref', cell, ()) if g.args[0][1].startswith('&') else fv
            return self.run(g, [env] + list(args), st)
        if fv[0] == 'fn':
            return self.call(fv[1], list(args), st, None, False, None)
        return self.opaque('<indirect>', [fv] + list(args), st)

    def call(self, callee, args, st, fv, never, f):
        if fv is not None:
            return self.apply(fv, args, st)
        r = self.model(self, callee, args, st)
        if r is not None:
            return r
        r = self.std(callee, args, st)
        if r is not None:
            return r
        g = self.c.resolve(callee)
        if g is not None and g.kind == 'fn' and g not in self.stack and len(self.stack) < self.maxdepth and self.inline(g):
            return self.run(g, args, st)
        if never:
            st.trace += (('call', callee, tuple(self.term(a, st) for a in args), None),)
            return [('diverge', callee, st)]
        return self.opaque(callee, args, st)

    def opaque(self, callee, args, st):
        ts = tuple(self.term(a, st) for a in args)
        r = self.fresh(st, ('call', bare(callee), ts))
        st.trace += (('call', callee, ts, r[1]),)
        for a in args:
            if a[0] == 'ref':
                self.havoc(a, callee, st)
        return [('ret', r, st)]

    def havoc(self, ref, callee, st):
        """What an unknown callee may have done through a reference: only mutable ones matter, which MIR's operand does not
        show any more, so callers name the callees that do."""

    # the parts of std that the control flow goes through
    def std(self, callee, args, st):
        c = bare(callee)
        if PASS.search(c) and args and self.c.resolve(callee) is None:
            return [('ret', args[0], st)]
        if TOPATH.search(c) and args and self.c.resolve(callee) is None and 'error' not in c.lower():
            return [('ret', args[0], st)]
        m = re.match(r'<std::(result::Result|option::Option)<.*> as std::ops::Try>::branch$', c)
        if m:
            what = ('Ok', 'Err') if 'result' in m.group(1) else ('None', 'Some')
            out = []
            for var, pay, s2 in self.result(args[0], st, what):
                if var in ('Ok', 'Some'):
                    out.append(('ret', ('adt', 'Continue', (pay or UNIT,)), s2))
                else:
                    out.append(('ret', ('adt', 'Break', (('adt', var, (pay,) if pay else ()),)), s2))
            return out
        if re.match(r'<std::(result::Result|option::Option)<.*> as std::ops::FromResidual<.*>>::from_residual$', c):
            v = args[0]
            if v[0] == 'adt' and v[1] == 'Err':
                v = ('adt', 'Err', (('sym', ('from', self.term(v[2][0], st))),)) if v[2] else v
            return [('ret', v, st)]
        m = re.match(r'(?:std|core)::(result::Result|option::Option)::(\w+)$', c)
        if m:
            return self.combinator(m.group(1).split('::')[1], m.group(2), args, st)
        if re.match(r'<.* as std::ops::Fn(Once|Mut)?<.*>>::call(_once|_mut)?$', c):
            tup = args[1]
            while tup[0] == 'ref':
                tup = self.load(tup[1], tup[2], st)
            return self.apply(args[0], list(tup[2]) if tup[0] == 'adt' else [tup], st)
        if c in ('std::mem::drop', 'core::mem::drop', 'std::mem::forget'):
            st.trace += (('dropped', self.term(args[0], st)),)
            return [('ret', UNIT, st)]
        if c in ('std::mem::take', 'std::mem::replace') and args[0][0] == 'ref':
            v = self.load(args[0][1], args[0][2], st)
            self.store(args[0][1], args[0][2], args[1] if len(args) > 1 else ('sym', ('default',)), st)
            return [('ret', v, st)]
        return None

    def combinator(self, kind, me, args, st):
        good, bad = ('Ok', 'Err') if kind == 'Result' else ('Some', 'None')
        what = ('Ok', 'Err') if kind == 'Result' else ('None', 'Some')
        if me in ('as_ref', 'as_mut', 'as_deref', 'as_deref_mut', 'copied', 'cloned', 'iter', 'into_iter'):
            return [('ret', args[0], st)]
        if me not in ('ok', 'err', 'is_ok', 'is_err', 'is_some', 'is_none', 'unwrap', 'expect', 'unwrap_or', 'unwrap_or_else', 'unwrap_or_default', 'map', 'map_err',
                      'and_then', 'or_else', 'ok_or', 'ok_or_else', 'map_or', 'map_or_else', 'unwrap_err', 'expect_err', 'is_some_and', 'is_ok_and', 'take', 'or',
                      'is_none_or', 'filter'):
            return None
        out = []
        if me == 'take' and args[0][0] == 'ref':
            v = self.load(args[0][1], args[0][2], st)
            self.store(args[0][1], args[0][2], ('adt', 'None', ()), st)
            return [('ret', v, st)]
        for var, pay, s in self.result(args[0], st, what):
            ok = var == good

            def then(outs, wrap):
                for o in outs:
                    out.append(('ret', ('adt', wrap, (o[1],)), o[2]) if o[0] == 'ret' and wrap else o)
            if me == 'ok':
                out.append(('ret', ('adt', 'Some', (pay or UNIT,)) if ok else ('adt', 'None', ()), s))
            elif me == 'err':
                out.append(('ret', ('adt', 'Some', (pay or UNIT,)) if not ok else ('adt', 'None', ()), s))
            elif me in ('is_ok', 'is_some'):
                out.append(('ret', ('const', int(ok)), s))
            elif me in ('is_err', 'is_none'):
                out.append(('ret', ('const', int(not ok)), s))
            elif me in ('unwrap', 'expect'):
                out.append(('ret', pay or UNIT, s) if ok else ('diverge', 'panic', s))
            elif me in ('unwrap_err', 'expect_err'):
                out.append(('ret', pay, s) if not ok else ('diverge', 'panic', s))
            elif me == 'unwrap_or':
                out.append(('ret', (pay or UNIT) if ok else args[1], s))
            elif me == 'unwrap_or_default':
                out.append(('ret', (pay or UNIT) if ok else ('sym', ('default',)), s))
            elif me == 'unwrap_or_else':
                if ok:
                    out.append(('ret', pay or UNIT, s))
                else:
                    then(self.apply(args[1], [pay] if kind == 'Result' else [], s), None)
            elif me in ('map', 'and_then'):
                if ok:
                    then(self.apply(args[1], [pay or UNIT], s), good if me == 'map' else None)
                else:
                    out.append(('ret', ('adt', bad, (pay,) if pay else ()), s))
            elif me == 'map_err':
                if ok:
                    out.append(('ret', ('adt', 'Ok', (pay or UNIT,)), s))
                else:
                    then(self.apply(args[1], [pay], s), 'Err')
            elif me == 'or_else':
                if ok:
                    out.append(('ret', ('adt', good, (pay or UNIT,)), s))
                else:
                    then(self.apply(args[1], [pay] if kind == 'Result' else [], s), None)
            elif me == 'or':
                out.append(('ret', ('adt', good, (pay or UNIT,)) if ok else args[1], s))
            elif me == 'ok_or':
                out.append(('ret', ('adt', 'Ok', (pay or UNIT,)) if ok else ('adt', 'Err', (args[1],)), s))
            elif me == 'ok_or_else':
                if ok:
                    out.append(('ret', ('adt', 'Ok', (pay or UNIT,)), s))
                else:
                    then(self.apply(args[1], [], s), 'Err')
            elif me in ('map_or', 'map_or_else'):
                if ok:
                    then(self.apply(args[2], [pay or UNIT], s), None)
                elif me == 'map_or':
                    out.append(('ret', args[1], s))
                else:
                    then(self.apply(args[1], [pay] if kind == 'Result' else [], s), None)
            elif me in ('is_some_and', 'is_ok_and', 'is_none_or'):
                if ok:
                    then(self.apply(args[1], [pay or UNIT], s), None)
                else:
                    out.append(('ret', ('const', int(me == 'is_none_or')), s))
            elif me == 'filter':
                return None
        return out
