"""Relational dataflow: two functions analysed path by path on the same labelled inputs must
return the same value, leave the same memory behind and have the same effects, in order."""
import flow
from flow import AnalysisError, PathEnd, Unwind, explore, lin_of, mk_lin, sym, U
from xlang import norm, showv

IGNORED = {'catch', 'throw', 'panic', 'unwind-through-nounwind', 'memcpy', 'what', 'abort', 'terminate'}
NEVER = {'bad-consume', 'use-after-free', 'double-free', 'bad-deref', 'undef-deref', 'branch-on-undef', 'unwind-through-nounwind',
         'unwind-through-nounwind-call', 'unreachable', 'trap', 'oob'}


class Path(flow.Path):
    """Names are numbered per hint, so that equal events get equal names on both sides."""

    def fresh(self, hint):
        c = self.data.setdefault('names', {})
        c[hint] = c.get(hint, 0) + 1
        return '%s#%d' % (hint, c[hint])

    def decide(self, key, n, label):
        """A choice that both sides must make alike."""
        d = self.__dict__.setdefault('decided', {})
        if key not in d:
            d[key] = self.choose(n, label)
        return d[key]


def subst(p, v, depth=0):
    """Apply the equalities assumed on this path."""
    if isinstance(v, int) or v is None or depth > 6:
        return v
    if v[0] in ('s', 'x', 'lin'):
        for k, r in p.assume.items():
            if r is True and k[0] == 'x' and k[1] == 'icmp' and k[2] == 'eq' and k[3] == v:
                return k[4] if isinstance(k[4], int) else v
    if v[0] == 'lin':
        c, t = lin_of(v)
        out, ch = {}, False
        for x, n in t.items():
            y = subst(p, x, depth + 1)
            if isinstance(y, int):
                c += y * n
                ch = True
            else:
                out[x] = out.get(x, 0) + n
        return mk_lin(c, out) if ch else v
    return v


class Observer:
    def __init__(self, p):
        self.p = p
        self.ids = {}
        self.todo = []

    def value(self, v):
        p = self.p
        if v is None or isinstance(v, int):
            return v
        v = subst(p, p.canon(v))
        if isinstance(v, int):
            return v
        k = v[0]
        if k == 'p':
            i = v[1]
            if isinstance(i, str) and not i.startswith('arg:'):
                if i.startswith('g:'):
                    return self.glob(i, v[2])
                if i not in self.ids:
                    self.ids[i] = 'local%d' % len(self.ids)
                    self.todo.append(i)
                return ('p', self.ids[i], self.value(v[2]))
            return ('p', i, self.value(v[2]))
        if k == 'agg':
            return ('agg', tuple(self.value(x) for x in v[1]))
        if k == 'cat':
            return ('cat', tuple((self.value(x), n) for x, n in v[1]))
        if k == 'fn':
            return ('fn', v[1])
        if k == 'lin':
            c, t = lin_of(v)
            out = {}
            for x, n in t.items():
                x = self.value(x)
                if isinstance(x, int):
                    c += x * n
                else:
                    out[x] = out.get(x, 0) + n
            return mk_lin(c, out)
        if k in ('x', 's'):
            return tuple(self.value(x) if isinstance(x, tuple) else x for x in v)
        return v

    def glob(self, i, off):
        o = self.p.objs.get(i)
        if o is None or o.default is not None:
            return ('p', i, off)
        b = tuple(sorted(((k, s, x if isinstance(x, int) else self.value(x)) for k, (s, x) in o.cells.items()), key=repr))
        return ('p', ('const',) + b, off)

    def mem(self, o, size=None):
        # a copy of so many bytes, when this path knows how many
        p = self.p
        out = []
        for a, n, v in self.mem_(o, size):
            if isinstance(v, tuple) and v[:2] == ('x', 'memcpy') and len(v) == 4:
                k = subst(p, v[3])
                if isinstance(k, int) and k <= 64 and isinstance(a, int):
                    src, off = p.deref(v[2])
                    out += [(a + x, m, self.value(w)) for x, m, w in norm(p.read(src, off, k))] if k else []
                    continue
            out.append((a, n, v))
        return out

    def mem_(self, o, size=None):
        p = self.p
        if size is not None:
            return [(a, n, self.value(v)) for a, n, v in norm(p.read(o, 0, size))]
        out = []
        ints = sorted(k for k in o.cells if isinstance(k, int))
        for k in ints:
            s, v = o.cells[k]
            if v == ('s', o.default, k, s):
                continue
            if not isinstance(v, int) and v[0] == 'cat':
                a = k
                for x, n in v[1]:
                    out.append((a, n, self.value(x)))
                    a += n
            else:
                out.append((k, s, self.value(v)))
        for k in sorted((k for k in o.cells if not isinstance(k, int)), key=repr):
            s, v = o.cells[k]
            out.append((self.value(k), s, self.value(v)))
        return [x if isinstance(x[0], int) else x for x in out]

    def observe(self, outcome, ret, args):
        p = self.p
        r = {'outcome': outcome}
        for e in p.events:
            if e[0] in NEVER:
                r.setdefault('errors', []).append(str(e)[:400])
        if outcome == 'return':
            r['ret'] = self.value(ret)
        if outcome == 'return' or outcome.startswith(('throw', 'panic')):
            for name, (q, size) in args.items():
                if size:
                    o, _ = p.deref(q)
                    if o.alive:
                        r['mem ' + name] = self.mem(o, size)
            for i, o in sorted(p.objs.items(), key=lambda x: repr(x[0])):
                if isinstance(i, tuple) and o.cells:
                    m = self.mem(o)
                    if m:
                        r['heap %s' % showv(i[1])] = m
        r['effects'] = [tuple(self.value(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else
                              tuple(self.value(y) for y in x) if isinstance(x, tuple) else x for x in e)
                        for e in p.events if e[0] not in IGNORED and e[0] not in NEVER]
        n = 0
        while n < len(self.todo):
            i = self.todo[n]
            n += 1
            o = p.objs.get(i)
            if o is not None and outcome == 'return' and n < 12:
                r['new %s' % self.ids[i]] = self.mem(o, o.size) if isinstance(o.size, int) and o.size < 200 else self.mem(o)
        return r


def equal(p, a, b, size=8):
    if a == b:
        return True
    if a is None or b is None or a == U or b == U:
        return b == U      # the reference left it unspecified
    if isinstance(a, tuple) and isinstance(b, tuple) and a[:1] == b[:1] == ('agg',) and len(a[1]) == len(b[1]):
        return all(equal(p, x, y) for x, y in zip(a[1], b[1]))
    try:
        c = p.icmp('eq', size * 8, a, b)
    except Exception:
        return False
    if isinstance(c, int):
        return bool(c)
    if p.assume.get(c) is True:
        return True
    return p.implied(c) is True


def bytes_of(p, m):
    out = {}
    for off, n, v in m or ():
        c, base = (off, None) if isinstance(off, int) else (lin_of(off)[0], repr(sorted(lin_of(off)[1].items(), key=repr)))
        words = {}
        if isinstance(v, tuple) and v[0] == 's' and isinstance(v[2], int) and isinstance(n, int):
            for i in range(0, n - 7, 8):
                w = subst(p, ('s', v[1], v[2] + i, 8))
                if isinstance(w, int):
                    words.update((i + j, (w >> 8 * j) & 255) for j in range(8))
        for i in range(n if isinstance(n, int) else 0):
            if i in words:
                b = words[i]
            elif isinstance(v, int):
                b = (v >> 8 * i) & 255
            elif v == U:
                b = U
            elif v[0] == 's' and isinstance(v[2], int):
                b = ('s', v[1], v[2] + i)
            else:
                b = (v, i)
            out[base, c + i] = (b, (off, n, v))
    return out


def same_mem(p, x, y, new):
    """Byte by byte; what the reference leaves uninitialised is free."""
    a, b = bytes_of(p, x), bytes_of(p, y)
    for k in set(a) | set(b):
        f = b.get(k)
        if f is None:
            if new:
                continue
            return False
        if f[0] == U:
            continue
        e = a.get(k)
        if e is None:
            return False
        if e[0] != f[0] and not (e[1][:2] == f[1][:2] and e[1][2] != U and equal(p, e[1][2], f[1][2], e[1][1])):
            return False
    return True


def compare(p, a, b):
    """Differences between what the implementation (a) and the reference (b) do."""
    out = []
    if a['outcome'] != b['outcome']:
        return ['ends with %s, should end with %s' % (a['outcome'], b['outcome'])]
    if a['outcome'] == 'return' and not equal(p, a.get('ret'), b.get('ret')):
        out.append('returns %s, should return %s' % (showv(a['ret']) if a['ret'] is not None else None,
                                                    showv(b['ret']) if b['ret'] is not None else None))
    for k in sorted(set(a) | set(b)):
        if k.startswith(('mem ', 'heap ', 'new ')):
            x, y = a.get(k), b.get(k)
            if x == y or same_mem(p, x, y, k.startswith('new ')):
                continue
            if x and y and [t[:2] for t in x] == [t[:2] for t in y] and all(equal(p, s[2], t[2], s[1]) for s, t in zip(x, y)):
                continue
            out.append('%s: is %s, should be %s' % (k, render(x), render(y)))
    if a['outcome'] != 'abort' and a['effects'] != b['effects']:
        x, y = a['effects'], b['effects']

        def eq(e, f):
            return len(e) == len(f) and e[0] == f[0] and all(
                equal(p, s, t) if not isinstance(s, str) else s == t for s, t in zip(e[1:], f[1:]))
        # the order of independent effects is free, and more capacity than needed is harmless
        rest = list(x)
        ok = True
        for f in y:
            for i, e in enumerate(rest):
                if eq(e, f):
                    del rest[i]
                    break
            else:
                ok = False
        ok = ok and not [e for e in rest if e[0] != 'reserve']
        if not ok:
            out.append('effects are\n      %s\n    should be\n      %s' % ('\n      '.join(map(short, x)) or '(none)',
                                                                          '\n      '.join(map(short, y)) or '(none)'))
    return out


def render(m):
    return '(unchanged)' if not m else ', '.join('[%s:%s]=%s' % (o, n, showv(v)) for o, n, v in m)


def short(e):
    return str(e)[:300]


def one(p, fn, args, ret_bool):
    try:
        r = p.callfn(fn, args)
        if ret_bool and r is not None:
            r = int(p.truth(r))
        return 'return', r
    except Unwind as u:
        return ('panic' if u.exc.kind == 'rust' else 'throw %s' % u.exc.label), None
    except PathEnd as e:
        if e.kind in ('abort', 'terminate'):
            return 'abort', None
        raise


def relate(prog, hooks, impl, ref, setup, ret_bool=False, limit=400, cls=None, obs=None):
    """setup(p) -> {name: (pointer or value, size or None)}. Yields (path, differences, obs_impl)."""

    def scenario(p):
        args = setup(p)
        vals = [v for v, _ in args.values()]
        bools0 = set(p.data.get('bools', ()))
        o1, r1 = one(p, impl, vals, ret_bool)
        a = (obs or Observer)(p).observe(o1, r1, args)
        ev = list(p.events)
        # the same inputs again, for the reference; what was assumed about them stays
        p.objs, p.events, p.data, p.excs, p.caught, p.stack = {}, [], {}, {}, [], []
        args = setup(p)
        vals = [v for v, _ in args.values()]
        o2, r2 = one(p, ref, vals, ret_bool)
        b = (obs or Observer)(p).observe(o2, r2, args)
        diff = compare(p, a, b)
        for e in a.get('errors', ()):
            diff.append(e)
        if b.get('errors'):
            raise AnalysisError('reference: %s' % (b['errors'],))
        return diff, a

    for p, out, res in explore(prog, hooks, scenario, limit, cls=cls or Path):
        if out != 'return':
            yield p, ['path ends in %s %s' % (out, res)], None
        else:
            yield p, res[0], res[1]
