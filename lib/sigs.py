"""Agreement of declarations and definitions across the modules of a linked program."""
import re

RUNTIME = re.compile(r'cxxbridge1\$')


def scalars(mod, ty, attrs=None):
    t = mod.resolve(ty)
    if attrs and 'byval' in attrs:
        return ('mem', mod.size(attrs['byval']))
    if t.k == 'void':
        return ()
    if t.k in ('struct', 'array'):
        out = ()
        n = len(t.elt) if t.k == 'struct' else t.n
        for i in range(n):
            out += scalars(mod, mod.offset(t, i)[1])
        return out
    if t.k == 'ptr':
        return (('i', 8),)
    if t.k in ('float', 'double', 'f') or t.k == 'vec' or t.k == 'vector':
        return (('f', mod.size(t)),)
    return (('i', mod.size(t)),)


def signature(fn):
    """(return classes, argument classes) at machine level; an out-pointer is an argument on both sides."""
    m = fn.mod
    args = ()
    ret = scalars(m, fn.ret)
    ext = [k for k in ('zeroext', 'signext') if k in fn.retattrs]
    if ext and len(ret) == 1 and ret[0][1] < 4:
        ret = ((ext[0], ret[0][1]),)
    for (t, a, n) in fn.params:
        if 'sret' in a:
            ret = ('sret', m.size(a['sret']))
            continue
        x = scalars(m, t, a)
        ext = [k for k in ('zeroext', 'signext') if k in a]
        if ext and len(x) == 1 and x[0][0] == 'i' and x[0][1] < 4:
            x = ((ext[0], x[0][1]),)
        args += x
    return (ret, args)


def show(s):
    def c(x):
        if x and x[0] == 'sret':
            return 'memory[%d]' % x[1]
        return ', '.join('%s%d' % (k, n * 8) for k, n in x) or 'void'
    return '(%s) -> %s' % (', '.join('%s%d' % (k, n * 8) if k != 'mem' else 'mem%d' % n for k, n in s[1]) if s[1] and s[1][0] != 'mem' else str(s[1]), c(s[0]))


CALL = re.compile(r'\b(?:call|invoke)\b[^@]*@(?:"([^"]+)"|([\w.$]+))\(')
_called = {}


def called(m):
    """Functions this module calls directly (as opposed to taking their address)."""
    if m not in _called:
        s = set()
        for fn in m.fns.values():
            if fn.defined:
                for l in fn.lines[0][fn.lines[1]:fn.lines[2]]:
                    for x in CALL.finditer(l):
                        s.add(x.group(1) or x.group(2))
        _called[m] = s
    return _called[m]


def alike(a, b):
    """As ==, but the rest of an aggregate in a second register may be declared wider than it is."""
    def same(x, y):
        return len(x) == len(y) and all(p == q or i and p[0] == q[0] == 'i' and x[i - 1] == ('i', 8) for i, (p, q) in enumerate(zip(x, y)))
    if 'sret' in a[0] or 'sret' in b[0]:
        return a == b
    return same(a[0], b[0]) and same(a[1], b[1])


def link_check(prog, want, equal=None):
    """Yield (symbol, problem, detail, counted)."""
    for m in prog.modules:
        for fn in m.fns.values():
            if not want(fn.name) or fn.defined:
                continue
            d = [x for x in prog.modules if fn.name in x.fns and x.fns[fn.name].defined]
            if not d:
                yield fn.name, 'undefined', 'declared in %s and defined nowhere' % m.label
                continue
            a, b = signature(fn), signature(d[0].fns[fn.name])
            if not (equal(a, b) if equal else a == b) and fn.name in called(m):
                yield fn.name, 'signature', '%s declares %s, %s defines %s' % (m.label, show(a), d[0].label, show(b))
            yield fn.name, None, '%s -> %s' % (m.label, d[0].label)
    seen = {}
    for m in prog.modules:
        for fn in m.fns.values():
            if fn.defined and want(fn.name) and not fn.linkage & {'private', 'internal', 'linkonce_odr', 'weak', 'weak_odr', 'linkonce'}:
                if fn.name in seen:
                    yield fn.name, 'duplicate', 'defined in %s and %s' % (seen[fn.name], m.label)
                seen[fn.name] = m.label
