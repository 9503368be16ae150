"""What the build helper does to the file system: every mutation on every path of its code, where the path comes from, and what was
known when it happens."""
import os
import re

import mir
from mir import bare

MUTATE = {
    'std::fs::write': ('write', 0, 1), 'std::fs::copy': ('write', 1, None), 'std::fs::rename': ('write', 1, None),
    'std::fs::File::create': ('write', 0, None), 'std::fs::File::create_new': ('new', 0, None), 'std::fs::hard_link': ('link', 1, 0),
    'std::os::unix::fs::symlink': ('link', 1, 0), 'std::fs::soft_link': ('link', 1, 0),
    'std::fs::create_dir': ('mkdir', 0, None), 'std::fs::create_dir_all': ('mkdir', 0, None),
    'std::fs::remove_file': ('remove', 0, None), 'std::fs::remove_dir': ('remove', 0, None), 'std::fs::remove_dir_all': ('remove', 0, None),
    'std::fs::set_permissions': ('chmod', 0, None), 'std::fs::OpenOptions::open': ('write', 1, None),
}
PROBES = re.compile(r'std::fs::(read|read_dir|read_to_string|metadata|symlink_metadata|canonicalize|exists|read_link|File::open|'
                    r'Metadata::\w+|DirEntry::\w+|FileType::\w+|OpenOptions::(?!open)\w+)$|<std::fs::\w+ as ')
FSMOD = re.compile(r'^(std|core)::(fs|os::\w+::fs|process::Command)\b|^<?&?(mut )?std::(fs::File|process::Command)\b|^(tempfile|fs_extra|filetime)::')


def effect(callee):
    b = bare(callee)
    if b in MUTATE:
        return MUTATE[b]
    if FSMOD.match(b) and not PROBES.search(b):
        return ('unknown', 0, None)
    return None


class Summary:
    def __init__(self):
        self.effects = set()        # (op, path, original or None, function)
        self.pending = set()        # removed, and on some path nothing put there afterwards
        self.unguarded = set()      # written without knowing that nothing is there
        self.unskipped = set()      # written without knowing that it would change
        self.reports = True         # content operations succeeded whenever it returns Ok / returns at all
        self.bad = set()            # (op, path, original, function, what was written before): success although this failed
        self.before = set()         # (link, original, what was removed before it)
        self.paths = 0

    def content(self):
        return [e for e in self.effects if e[0] in ('write', 'new', 'link')]


def walk(t):
    if isinstance(t, tuple):
        yield t
        for x in t:
            yield from walk(x)


def subst(t, args):
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] == 'arg' and isinstance(t[1], int):
            return args[t[1]] if t[1] < len(args) else ('?',)
        return norm(tuple(subst(x, args) for x in t))
    return t


def norm(t):
    if t and t[0] == 'f' and len(t) == 4 and isinstance(t[1], tuple) and t[1] and t[1][0] == 'adt':
        fs = t[1][2:]
        if t[3] < len(fs):
            return fs[t[3]]
    return t


def isparam(t):
    return any(isinstance(x, tuple) and len(x) == 2 and x[0] == 'arg' for x in walk(t))


class Fs:
    def __init__(self, crate):
        self.c = crate
        self.sum = {}
        self.okpaths = {}
        self.entry = None
        self.ret = {}
        self.undecided = []
        self.effectful = self.reach()
        self.steps = 0
        self.nmut = 0

    # which functions can reach a mutation
    def reach(self):
        direct, callers = set(), {}
        for f in self.c.fns.values():
            if f.kind != 'fn':
                continue
            outs = [x[2] for x in self.c.calls(f)] + list(self.c.consts(f))
            for ss in f.blocks.values():
                for s in ss:
                    for m in re.finditer(r'\{closure@[^}]*\}', s):
                        if m.group(0) in self.c.closures:
                            callers.setdefault(self.c.closures[m.group(0)].name, set()).add(f.name)
            for o in outs:
                if effect(o.strip()):
                    direct.add(f.name)
                g = self.c.resolve(o.strip())
                if g is not None:
                    callers.setdefault(g.name, set()).add(f.name)
        seen, work = set(direct), list(direct)
        while work:
            n = work.pop()
            for m in callers.get(n, ()):
                if m not in seen:
                    seen.add(m)
                    work.append(m)
        self.callers = callers
        return seen

    def small(self, g):
        """Pure functions worth looking into: those of the helper itself, without loops."""
        if g.name in self.effectful:
            return False
        if g.name.startswith(('syntax::', 'cfg::', 'gen::write', 'gen::error', 'gen::file', 'gen::builtin', 'gen::nested', 'gen::namespace', 'gen::include',
                              'gen::cfg', 'gen::out', 'gen::generate')):
            return False
        if len(g.blocks) > 60:
            return False
        return not loops(g)

    # ---- interpretation of one function, effectful callees by their summaries
    def model(self, it, callee, args, st):
        b = bare(callee)
        e = effect(callee)
        T = [it.term(a, st) for a in args]
        if e:
            op, pi, oi = e
            r = it.fresh(st, ('fs', b) + tuple(T))
            st.trace += (('mut', op, T[pi] if pi < len(T) else ('?',), T[oi] if oi is not None and oi < len(T) else None, r[1], b),)
            return [('ret', r, st)]
        r = paths(it, callee, b, args, T, st)
        if r is not None:
            return r
        g = self.c.resolve(callee)
        if g is not None and g.kind == 'fn' and g.name in self.effectful:
            if g.ret.startswith('bool') or g.ret.startswith('std::option::Option') or '{closure#' in g.name:
                return None     # its outcome matters to the caller: looked into
            s = self.summary(g)
            r = it.fresh(st, ('call', b, tuple(T)))
            sub = tuple((op, subst(p, T), subst(o, T) if o is not None else None) for op, p, o, _ in s.effects)
            st.trace += (('sub', g.name, sub, r[1], frozenset(subst(p, T) for p in s.pending), frozenset(subst(p, T) for p in s.unguarded),
                          frozenset(subst(p, T) for p in s.unskipped), 'Result<' in g.ret,
                          frozenset((x[0],) + subst(x[1:3], T) + (x[3], frozenset(subst(y, T) for y in x[4])) for x in s.bad),
                          frozenset((subst(x[0], T), subst(x[1], T), frozenset(subst(y, T) for y in x[2])) for x in s.before)),)
            return [('ret', r, st)]
        return None

    def interp(self):
        return mir.Interp(self.c, inline=lambda g: g.name in self.effectful or self.small(g), model=self.model, loops=1, budget=40000)

    def summary(self, g):
        s = self.sum.get(g.name)
        if s is not None:
            return s
        s = Summary()
        self.sum[g.name] = s
        it = self.interp()
        args = [('sym', ('arg', i)) for i in range(len(g.args))]
        try:
            rs = it.run(g, args, mir.State())
        except mir.Budget as e:
            self.undecided.append((g.name, str(e)))
            return s
        self.steps += it.steps
        for kind, v, st in rs:
            if kind == 'cut':
                continue
            s.paths += 1
            self.path(g, s, kind, v, st)
        return s

    def path(self, g, s, kind, v, st):
        ev = [t for t in st.trace if t[0] in ('mut', 'sub')]
        made = []           # (index, path)
        for i, t in enumerate(ev):
            if t[0] == 'mut':
                self.nmut += 1
                s.effects.add((t[1], t[2], t[3], g.name))
                if t[1] in ('write', 'new', 'link'):
                    made.append((i, t[2]))
            else:
                for e in t[2]:
                    s.effects.add(e + (t[1],))
                    if e[0] in ('write', 'new', 'link'):
                        made.append((i, e[1]))
        ok = self.isok(g, kind, v, st)
        # removals are followed by a creation there (or below: the tree is built anew)
        for i, t in enumerate(ev):
            gone = {t[2]} if t[0] == 'mut' and t[1] == 'remove' else set(t[4]) if t[0] == 'sub' else set()
            for p in gone:
                if not any(j > i and below(q, p) for j, q in made) and kind == 'ret':
                    s.pending.add(p)
        # writes: nothing there (never through a link), and something new
        for i, t in enumerate(ev):
            ws = [(t[2], t[3], True, True)] if t[0] == 'mut' and t[1] == 'write' else []
            if t[0] == 'sub':
                ws += [(p, None, True, False) for p in t[5]] + [(p, None, False, True) for p in t[6]]
            for p, content, needguard, needskip in ws:
                absent = self.absent(p, st)
                removed = any(j < i and (u[0] == 'mut' and u[1] == 'remove' and u[2] == p or u[0] == 'sub' and p in u[4]) for j, u in enumerate(ev))
                if needguard and not (absent or removed):
                    s.unguarded.add(p)
                if needskip and not (absent or self.differs(p, st)):
                    s.unskipped.add(p)
        # links: what was cleared away before
        removed = set()
        for t in ev:
            if t[0] == 'mut':
                if t[1] == 'link':
                    s.before.add((t[2], t[3], frozenset(removed)))
                elif t[1] == 'remove':
                    removed.add(t[2])
            else:
                for l, o, rm in t[9]:
                    s.before.add((l, o, frozenset(removed | rm)))
                removed |= {e[1] for e in t[2] if e[0] == 'remove'}
                s.bad |= t[8]
        if ok:
            self.okpaths.setdefault(g.name, []).append(({p for _, p in made}, self.same(st)))
        # success: everything this path wrote was written
        if ok:
            for t in ev:
                if t[0] == 'mut' and t[1] in ('write', 'new', 'link'):
                    d = disc(st, t[4])
                    if d == 1 and t[1] == 'link' and self.already(t[4], st):
                        continue
                    if d != 0:
                        self.fail(g, s, t[1], t[2], t[3], ev)
                elif t[0] == 'sub' and t[7] and any(e[0] in ('write', 'new', 'link') for e in t[2]):
                    d = disc(st, t[3])
                    if d == 1 and self.already(t[3], st) and not any(e[0] == 'write' for e in t[2]):
                        continue
                    if d != 0 and not self.passes(v, t[3]):
                        for e in t[2]:
                            if e[0] in ('write', 'new', 'link'):
                                self.fail(g, s, e[0], e[1], e[2], ev)

    def fail(self, g, s, op, p, o, ev):
        s.bad.add((op, p, o, g.name,
                   frozenset(x[1] for t in ev if t[0] == 'sub' for x in t[2] if x[0] == 'write') | frozenset(t[2] for t in ev if t[0] == 'mut' and t[1] == 'write')))

    def passes(self, v, r):
        return v[0] == 'sym' and v[1] == r

    def isok(self, g, kind, v, st):
        """Whether this path ends as a success."""
        if kind != 'ret':
            return False
        if 'Result<' not in g.ret.split('::<')[0] and not g.ret.startswith('std::result::Result'):
            return True
        if v[0] == 'adt':
            return v[1] != 'Err'
        d = disc(st, v[1]) if v[0] == 'sym' else None
        return d != 1

    def absent(self, p, st):
        for t, v in st.assume.items():
            if v in (0, 1) and t[0] == 'disc' and t[1][0] in ('call',) and t[1][1] in ('std::fs::symlink_metadata',) and t[1][2] and t[1][2][0] == p and v == 1:
                return True
        return False

    def differs(self, p, st):
        for t, v in st.assume.items():
            if t[0] == 'disc' and t[1][0] == 'call' and t[1][1] == 'std::fs::read' and t[1][2][0] == p and v == 1:
                return True
            if t[0] == 'eq' and v == 0 and any(self.readof(x, p) for x in t[1:]):
                return True
        return False

    def readof(self, x, p):
        return isinstance(x, tuple) and x[:1] == ('f',) and x[1][:2] == ('call', 'std::fs::read') and x[1][2][0] == p

    def same(self, st):
        """(path, content) known to agree."""
        out = set()
        for t, v in st.assume.items():
            if t[0] == 'eq' and v == 1:
                for x, y in ((t[1], t[2]), (t[2], t[1])):
                    if isinstance(x, tuple) and x[:1] == ('f',) and x[1][:2] == ('call', 'std::fs::read'):
                        out.add((x[1][2][0], y))
        return out

    def already(self, r, st):
        for t, v in st.assume.items():
            if v == 1 and t[0] == 'eq' and any(y == r for y in walk(t)) and 'AlreadyExists' in str(t):
                return True
            if v == 12 and t[0] == 'disc' and t[1][:2] == ('call', 'std::io::Error::kind') and any(y == r for y in walk(t)):
                return True
        return False


def disc(st, t):
    """The variant of a Result or Option this path has assumed."""
    d = st.assume.get(('disc', t))
    if isinstance(d, tuple):
        return 0 if 1 in d[1] else 1 if 0 in d[1] else None
    return d


def loops(g):
    """Whether the control flow graph has a cycle."""
    succ = {}
    for b, ss in g.blocks.items():
        succ[b] = [int(x) for x in re.findall(r'(?<!unwind: )bb(\d+)', re.sub(r'unwind: bb\d+', '', ss[-1]))] if ss else []
    color = {}

    def go(b):
        stack = [(b, iter(succ.get(b, ())))]
        color[b] = 1
        while stack:
            x, itr = stack[-1]
            for y in itr:
                if color.get(y) == 1:
                    return True
                if y not in color:
                    color[y] = 1
                    stack.append((y, iter(succ.get(y, ()))))
                    break
            else:
                color[x] = 2
                stack.pop()
        return False
    return go(0)


# ---- what the path functions of std do, as terms
def paths(it, callee, b, args, T, st):
    ret = lambda t: [('ret', ('sym', t), st)]                     # noqa: E731
    if re.match(r'std::(path::PathBuf|ffi::OsString|string::String|vec::Vec)::(new|with_capacity)$|<std::(path::PathBuf|ffi::OsString|string::String|vec::Vec<.*>) as std::default::Default>', b):
        return ret(('empty',))
    if b == 'std::path::Path::join':
        return ret(('join', T[0], T[1]))
    if b in ('std::path::PathBuf::push', 'std::vec::Vec::push') and args[0][0] == 'ref':
        it.store(args[0][1], args[0][2], ('sym', ('join', T[0], T[1])), st)
        return [('ret', mir.UNIT, st)]
    if b in ('std::path::PathBuf::pop', 'std::vec::Vec::pop') and args[0][0] == 'ref':
        it.store(args[0][1], args[0][2], ('sym', ('pop', T[0])), st)
        return [('ret', it.fresh(st, ('popped', T[0])), st)]
    if b == 'std::path::Path::parent':
        return ret(('parentopt', T[0]))
    if b == 'std::path::Path::ancestors':
        return ret(('ancestors', T[0]))
    if re.match(r"<.*std::path::Ancestors<.*> as std::iter::(?:Into)?Iterator>::\w+$", b):
        if re.search(r'::(next|find|last|nth|max_by_key|min_by_key)$', b):
            return [('ret', it.fresh(st, ('anc', T[0])), st)]
        return [('ret', args[0], st)]
    if b == 'std::path::Path::file_name':
        return ret(('filenameopt', T[0]))
    if b == 'std::path::Path::with_file_name':
        return ret(('withname', T[0], T[1]))
    if b == 'std::path::PathBuf::set_file_name' and args[0][0] == 'ref':
        it.store(args[0][1], args[0][2], ('sym', ('withname', T[0], T[1])), st)
        return [('ret', mir.UNIT, st)]
    if b in ('std::path::Path::with_extension', 'std::path::Path::with_added_extension'):
        return ret(('withext', T[0], T[1]))
    if b in ('std::ffi::OsString::push', 'std::string::String::push_str') and args[0][0] == 'ref':
        it.store(args[0][1], args[0][2], ('sym', ('cat', T[0], T[1])), st)
        return [('ret', mir.UNIT, st)]
    if b in ('std::path::Path::components', 'std::path::Components::as_path', 'std::path::Path::iter'):
        return ret(('components', T[0]))
    m = re.match(r'<(?:&?(?:mut )?(?:std::vec|core::slice|std::slice|std::array|std::iter|std::collections).*|&?std::path::PathBuf|&?\[.*\]|&std::path::Path) as std::iter::(?:IntoIterator::into_iter|IntoIterator>::into_iter|Iterator>::(?:copied|cloned|collect))$', b)
    if m and not b.endswith('collect') or b.endswith(('slice::<impl [T]>::iter', 'core::slice::iter')) or re.match(r'core::slice::<impl \[.*\]>::iter$', b):
        if re.search(r'PathBuf|path::Path', b):
            return None
        return [('ret', args[0], st)]
    if m and re.search(r'::collect::<std::path::PathBuf>$', callee):
        t = T[0]
        if t[:2] == ('adt', '[]'):
            p = ('empty',)
            for x in t[2:]:
                p = x if p == ('empty',) else ('join', p, x)
            return ret(p)
        return ret(t)
    m = re.match(r"<std::path::Components<'_> as std::iter::(\w+)>::(\w+)$", b)
    if m:
        if m.group(2) == 'into_iter':
            return [('ret', args[0], st)]
        if m.group(2) == 'collect':
            return ret(('components', T[0]))
        if m.group(2) in ('next', 'next_back'):
            r = it.fresh(st, ('next', T[0]))
            return [('ret', r, st)]
    if re.match(r'<.* as std::iter::FromIterator<.*>>::from_iter', b) and 'PathBuf' in b:
        return ret(('components', T[0]))
    if b == 'std::path::Component::as_os_str' or re.match(r"<std::path::Component<'_> as std::convert::AsRef", b):
        return [('ret', args[0], st)]
    m = re.match(r'<(.*) as std::cmp::PartialEq(?:<.*>)?>::(eq|ne)$', b)
    if m and it.c.resolve(callee) is None:
        if T[0] == T[1] or all(x[0] == 'adt' and len(x) == 2 for x in T):
            return [('ret', ('const', int((T[0] == T[1]) == (m.group(2) == 'eq'))), st)]
        t = ('eq', T[0], T[1])
        if m.group(2) == 'ne':
            t = ('Not', t)
        return ret(t)
    if b == 'std::env::var_os' or b == 'std::env::var':
        return ret(('env', T[0]))
    return None


def stem(p):
    """(base, X) of base joined with the first components of X, one after the other."""
    x = None
    while p[:1] == ('join',) and p[2][:1] == ('f',) and p[2][1][:1] == ('next',):
        y = p[2][1][1]
        y = y[1] if y[:1] in (('components',), ('iter',)) else y
        if x not in (None, y):
            return None
        x, p = y, p[1]
    return (p, x) if x is not None else None


def ancestor(p):
    """X, if p is some ancestor of X."""
    if p[:1] == ('f',) and p[1][:1] == ('anc',):
        x = p[1][1]
        return x[1] if x[:1] == ('ancestors',) else x
    return None


def below(q, p):
    """Whether path term q is p or lies below it."""
    if ancestor(p) == q:
        return True
    k = stem(p)
    if k and q[:1] == ('join',) and q[1] == k[0] and q[2] == k[1]:
        return True
    while True:
        if q == p:
            return True
        if q[:1] == ('join',):
            q = q[1]
        else:
            return False


# ---- where a path lies
class Where:
    def __init__(self, fs):
        self.fs = fs
        self.c = fs.c
        self.memo = {}

    def expand(self, callee, args):
        """Terms a pure function of the crate may return."""
        f = self.c.resolve(callee)
        if f is None or f.kind != 'fn':
            return None
        if f.name not in self.memo:
            self.memo[f.name] = None
            for n in (2, 1):
                it = mir.Interp(self.c, inline=lambda g: self.fs.small(g), model=self.fs.model, loops=n, budget=60000)
                try:
                    rs = it.run(f, [('sym', ('arg', i)) for i in range(len(f.args))], mir.State())
                    self.memo[f.name] = list({it.term(v, st) for k, v, st in rs if k == 'ret'})
                    break
                except mir.Budget:
                    pass
        r = self.memo[f.name]
        return None if r is None else [subst(t, args) for t in r]

    def alts(self, t, d=0):
        """The terms t may stand for, crate functions unfolded."""
        if d > 8 or not isinstance(t, tuple):
            return [t]
        if t[:1] == ('call',) and len(t) >= 3:
            r = self.expand(t[1], t[2])
            if r is not None:
                return [y for x in r for y in self.alts(x, d + 1)]
            return [t]
        if t[:1] == ('f',) and len(t) == 4:
            out = []
            for x in self.alts(t[1], d + 1):
                if x[:1] == ('adt',):
                    if t[2] and x[1] and x[1] != t[2] and t[2] in ('Ok', 'Err', 'Some', 'None', 'Path', 'Unknown'):
                        continue
                    y = norm(('f', x, t[2], t[3]))
                    out += self.alts(y, d + 1) if y[:1] != ('f',) else [y]
                else:
                    out.append(('f', x) + t[2:])
            return out
        return [t]

    def classes(self, t):
        return {self.cls(x) for x in self.alts(t)}

    def cls(self, t):
        """(root, least number of constant components below it)"""
        bad = ('?', 0)
        if not isinstance(t, tuple) or not t:
            return bad
        if t[0] == 'f' and len(t) == 4:
            x = t[1]
            if x[0] == 'env':
                name = str(x[1][1]).strip('"') if x[1][0] == 'c' else ''
                return {'OUT_DIR': ('OUT', 0), 'CARGO_TARGET_DIR': ('TARGET', 0), 'CARGO_MANIFEST_DIR': ('SRC', 0)}.get(name, bad)
            if x[0] == 'anc':
                y = self.one(ancestor(t))
                return ('OUTUP', 0) if y[0] in ('OUT', 'OUTUP') else ('TARGET', 0) if y[0] == 'TARGET' else bad
            if x[0] == 'parentopt':
                return self.up(self.one(x[1]))
            if x[0] == 'call' and x[1].endswith('canonicalize'):
                return self.one(x[2][0])
            return bad
        if t[0] == 'join':
            r = self.one(t[1])
            k = self.rel(t[2])
            if k is None:
                return bad
            root, n = r
            if root in ('OUTUP', 'TARGET'):
                return ('SHARED', 1) if k == 'const' else bad
            return (root, n + (k == 'const'))
        if t[0] == 'pop':
            return self.up(self.one(t[1]))
        if t[0] in ('components',):
            return self.one(t[1])
        if t[0] == 'withname':
            return self.one(t[1]) if self.rel(t[2]) else bad
        if t[0] == 'withext':
            return self.one(t[1])
        if t[0] == 'call' and t[1] == 'scratch::path' and self.rel(t[2][0]):
            return ('SHARED', 1)
        if t[0] == 'call' and t[1].endswith('canonicalize'):
            return self.one(t[2][0])
        return bad

    def one(self, t):
        cs = self.classes(t)
        if len(cs) == 1:
            return next(iter(cs))
        if cs and all(c[0] == 'OUT' or c[0] == 'OUTUP' for c in cs):
            return ('OUTUP', 0)
        roots = {c[0] for c in cs}
        if roots <= {'OUT', 'OUTUP', 'TARGET'} and roots:
            return ('TARGET', 0)
        if len(roots) == 1:
            return (roots.pop(), min(c[1] for c in cs))
        return ('?', 0)

    def up(self, r):
        if r[0] in ('OUT', 'SHARED') and r[1] >= 1:
            return (r[0], r[1] - 1)
        if r[0] in ('OUT', 'OUTUP'):
            return ('OUTUP', 0)
        if r[0] == 'TARGET':
            return r
        return ('?', 0)

    def rel(self, t):
        """'const', 'some' if t can only be a relative path without parent components; None if it may not."""
        xs = self.alts(t)
        rs = {self.rel1(x) for x in xs}
        if None in rs or not rs:
            return None
        return 'const' if rs == {'const'} else 'some'

    def rel1(self, t):
        if not isinstance(t, tuple) or not t:
            return None
        if t[0] == 'c' and isinstance(t[1], str):
            s = t[1].strip('"')
            return 'const' if s and not s.startswith(('/', '\\\\')) and '..' not in s.split('/') and ':' not in s else None
        if t[0] == 'empty':
            return 'some'
        if t[0] == 'join':
            a, b = self.rel(t[1]), self.rel(t[2])
            return None if a is None or b is None else 'const' if 'const' in (a, b) else 'some'
        if t[0] in ('pop', 'components', 'withext'):
            return 'some' if self.rel(t[1]) else None
        if t[0] == 'f' and len(t) == 4:
            x = t[1]
            if t[2] == 'Normal':
                return 'some'
            if x[0] == 'filenameopt':
                return 'some'
            return None
        if t[0] == 'withname':
            return 'some' if self.rel(t[1]) and self.rel(t[2]) else None
        if t[0] == 'cat':
            return 'some' if self.rel(t[1]) and self.rel(t[2]) else None
        if t[0] == 'call' and t[1] == 'std::fs::DirEntry::file_name':
            return 'some'
        return None


def show(t, d=0):
    if not isinstance(t, tuple) or not t:
        return str(t)
    if d > 7:
        return '…'
    if t[0] == 'join':
        return '%s/%s' % (show(t[1], d + 1), show(t[2], d + 1))
    if t[0] == 'c':
        return str(t[1]).strip('"')
    if t[0] == 'f' and len(t) == 4:
        if isinstance(t[1], tuple) and t[1][0] == 'env':
            return '$' + show(t[1][1])
        if t[2] in ('Ok', 'Some'):
            return show(t[1], d + 1)
        return '%s.%s' % (show(t[1], d + 1), t[3])
    if t[0] == 'call':
        return '%s(%s)' % (t[1].split('::')[-1], ', '.join(show(x, d + 1) for x in t[2]))
    if t[0] == 'arg':
        return 'arg%d' % t[1]
    if t[0] in ('components',):
        return show(t[1], d + 1)
    if t[0] == 'parentopt':
        return 'parent(%s)' % show(t[1], d + 1)
    return '%s(%s)' % (t[0], ', '.join(show(x, d + 1) for x in t[1:] if isinstance(x, tuple)))


def original(o):
    """What a link refers to: the path it was made relative from."""
    while isinstance(o, tuple):
        if o[:1] == ('f',) and o[2] in ('Some', 'Ok') and o[1][:1] == ('call',):
            o = o[1]
        elif o[:1] == ('call',) and 'relativ' in o[1]:
            o = o[2][0]
        else:
            break
    return o


def entries(b, c, fs):
    """Public functions that can touch the file system."""
    names = set()
    for r_, _, files in os.walk(b + '/gen/build/src'):
        for n in files:
            if n.endswith('.rs'):
                with open(os.path.join(r_, n)) as f:
                    names |= set(re.findall(r'\bpub fn (\w+)', f.read()))
    return sorted(n for n in fs.effectful if n.split('::')[-1] in names and not n.startswith('gen::'))


def check(b, r, tier):
    analyse(b.src, b.mir('cxx_build'), r)
    for what, least in (('entry points', 1), ('mutated paths', 40), ('functions', 12), ('paths', 120), ('links to directories outside', 1), ('skipped writes', 1)):
        r.floor(what, least)
    r.rules = ['every path through every function of cxx-build that can reach a file system operation (MIR, callees by their summaries)',
               'every path operated on lies beneath OUT_DIR or the shared cxxbridge directory, whatever the bridge path and CFG are',
               'what is removed is put there again on the same way; files are written only where nothing is or what is there was removed, and only if the content differs',
               'no success is returned where a write of generated code failed; no link into the source tree at a place that an older link may redirect']
    r.assumptions = ['Unix (the Windows variants of the functions are not compiled here)', 'what std::fs and std::path functions do is modelled, loops are followed twice',
                     'failures of the convenience links (shared directory, second name of a header, the crate directory) may be ignored, as documented in the code']


def analyse(src, c, r):
    fs = Fs(c)
    where = Where(fs)
    roots = entries(src, c, fs)
    roots = [n for n in roots if not fs.callers.get(n, set()) & set(roots)]
    seen = set()
    for n in roots:
        s = fs.summary(c.fns[n])
        r.count('entry points')
        for p in s.pending:
            r.violation('removed/%s' % show(p), 'this path is removed on some way through %s without anything being put in its place' % n)
        for p in s.unguarded:
            r.violation('through/%s' % show(p), 'this path may be written while something is there that was not removed before: a link there would be written through')
        for p in s.unskipped:
            r.violation('rewritten/%s' % show(p), 'this file is written without its content having been compared with what is there')
        for op, p, o, by in s.effects:
            if (op, p) in seen:
                continue
            seen.add((op, p))
            for x in where.alts(p):
                cl = where.cls(x)
                r.count('mutated paths')
                r.sample('%s %s by %s: in %s' % (op, show(x), by, cl[0]))
                need = 0 if op == 'mkdir' else 1
                if op in ('unknown', 'chmod'):
                    r.violation('operation/%s/%s' % (by, show(x)), 'a file system operation the rules say nothing about')
                if cl[0] not in ('OUT', 'SHARED') or cl[1] < need:
                    r.violation('outside/%s/%s' % (op, show(x)), '%s of %s, which is not known to lie inside the output directory: %s\n%r' % (op, show(x), cl, x))
        for op, p, o, by, written in s.bad:
            r.count('operations whose failure is let pass')
            if op == 'link':
                cl = where.classes(p)
                o1 = original(o)
                if all(x[0] == 'SHARED' for x in cl):
                    continue                                    # (a convenience copy)
                if o1 in written and p not in written and all(x[0] == 'OUT' for x in where.classes(o1)):
                    continue                                    # (another name for a file which was written)
                if all(x[0] == 'SRC' for x in where.classes(o1)):
                    continue                                    # (the crate's own directory)
            r.violation('unreported/%s/%s' % (op, show(p)), '%s returns success on a path on which this %s failed' % (by, op))
        for l, o, _ in s.before:
            x = l
            k = stem(x)
            var = x[:1] == ('join',) and where.rel(x[2]) != 'const'
            o1 = original(o)
            if var and not all(y[0] in ('OUT', 'SHARED') for y in where.classes(o1)):
                r.count('links to directories outside')
                removed = {y for l2, o2, rm in s.before if l2 == l for y in rm}
                if not any(stem(y) == (x[1], x[2]) or y == x[1] or ancestor(y) == x for y in removed):
                    r.violation('beneath/%s' % show(l), 'a link to %s, at a place that may lie beneath a link which an earlier build left: nothing removes such a link first' % show(o1))
    # a file counts as written only if it was, or is known to have that content
    for n, ps in fs.okpaths.items():
        s = fs.sum[n]
        targets = {(p, o) for op, p, o, _ in s.effects if op == 'write' and p[:1] == ('arg',)}
        for p, o in targets:
            for made, same in ps:
                if p not in made:
                    r.count('skipped writes')
                    if (p, o) not in same:
                        r.violation('skipped/%s/%s' % (n, show(p)), '%s returns success without having written %s and without knowing that it has this content' % (n, show(p)))
    for n, e in fs.undecided:
        r.violation('undecided/%s' % n, e)
    r.count('functions', len(fs.sum))
    r.count('paths', sum(s.paths for s in fs.sum.values()))
    r.count('operations', fs.nmut)
    return fs, where
