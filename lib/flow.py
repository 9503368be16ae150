"""Interprocedural typestate / ownership dataflow over LLVM IR.

The analysis follows every control-flow path of a function and everything it
calls, across the Rust and C++ modules, over an abstract domain: memory cells
hold *provenance labels* ("bytes 0..24 of argument 0"), constants, object
addresses, or uninterpreted terms. No concrete input is ever chosen, nothing is
executed, and branch conditions are never handed to a solver: a condition over
labels is taken both ways, consistently per syntactic condition, and a loop body
is entered a bounded number of times. Reports are therefore about paths of the
program text.
"""
import re
import sys

import llir

sys.setrecursionlimit(20000)

U = ('u',)


class PathEnd(Exception):
    """The path ends here: terminate / abort / unreachable / bound."""

    def __init__(self, kind, info=None):
        self.kind = kind
        self.info = info


class Unwind(Exception):
    def __init__(self, exc):
        self.exc = exc


class AnalysisError(Exception):
    """The analysis met something it does not model (a fail-closed outcome)."""


class Exc:
    """An in-flight exception."""

    def __init__(self, kind, tis=(), obj=None, label=None):
        self.kind = kind      # 'cxx' or 'rust'
        self.tis = set(tis)   # typeinfo symbols which match
        self.obj = obj
        self.label = label
        self.dtor = None
        self.rethrown = False


class Obj:
    __slots__ = ('id', 'size', 'cells', 'default', 'kind', 'alive', 'const')

    def __init__(self, id, size=None, default=None, kind='stack'):
        self.id = id
        self.size = size
        self.cells = {}
        self.default = default   # provenance label of untouched bytes, or None (uninitialised)
        self.kind = kind
        self.alive = True


def sym(tag, off=0, size=8):
    return ('s', tag, off, size)


def vslice(v, vsize, off, size):
    """Bytes [off, off+size) of a value of vsize bytes."""
    if off == 0 and size == vsize:
        return v
    if isinstance(v, int):
        return (v >> (8 * off)) & ((1 << (8 * size)) - 1)
    k = v[0]
    if k == 's':
        return ('s', v[1], v[2] + off, size)
    if k == 'u':
        return U
    if k == 'cat':
        return cat([(o, s, x) for (o, s, x) in pieces_of(v, vsize, off, size)])
    return ('x', 'slice', v, off, size)


def pieces_of(v, vsize, off, size):
    """[(reloff, size, value)] of a slice of v."""
    if not isinstance(v, int) and v[0] == 'cat':
        out = []
        p = 0
        for (x, s) in v[1]:
            a, b = max(p, off), min(p + s, off + size)
            if a < b:
                out.append((a - off, b - a, vslice(x, s, a - p, b - a)))
            p += s
        return out
    return [(0, size, vslice(v, vsize, off, size))]


def cat(parts):
    """Combine [(off,size,val)] sorted contiguous into one value."""
    if len(parts) == 1:
        return parts[0][2]
    vals = [p[2] for p in parts]
    if all(isinstance(v, int) for v in vals):
        r = 0
        sh = 0
        for (o, s, v) in parts:
            r |= v << (8 * sh)
            sh += s
        return r
    merged = []
    for (o, s, v) in parts:
        if merged:
            (pv, ps) = merged[-1]
            if not isinstance(v, int) and not isinstance(pv, int):
                if v[0] == 's' and pv[0] == 's' and v[1] == pv[1] and pv[2] + ps == v[2]:
                    merged[-1] = (('s', pv[1], pv[2], ps + s), ps + s)
                    continue
                if v == U and pv == U:
                    merged[-1] = (U, ps + s)
                    continue
                if v[0] == 'x' and pv[0] == 'x' and v[1] == pv[1] == 'slice' and v[2] == pv[2] and pv[3] + ps == v[3]:
                    merged[-1] = (('x', 'slice', pv[2], pv[3], ps + s), ps + s)
                    continue
            elif isinstance(v, int) and isinstance(pv, int):
                merged[-1] = (pv | (v << (8 * ps)), ps + s)
                continue
        merged.append((v, s))
    if len(merged) == 1:
        return merged[0][0]
    return ('cat', tuple(merged))


def lin_of(v):
    if isinstance(v, int):
        return v, {}
    if v[0] == 'lin':
        return v[1], dict(v[2])
    return 0, {v: 1}


def mk_lin(c, terms, bits=64):
    terms = {t: k for t, k in terms.items() if k}
    c &= (1 << bits) - 1
    if not terms:
        return c
    if c == 0 and len(terms) == 1:
        (t, k), = terms.items()
        if k == 1:
            return t
    return ('lin', c, tuple(sorted(terms.items(), key=repr)))


class Program:
    """A set of linked modules."""

    def __init__(self, modules):
        self.modules = modules
        self.defs = {}
        for m in modules:
            for f in m.fns.values():
                if f.defined and not (f.linkage & {'private', 'internal'}):
                    self.defs.setdefault(f.name, f)
        names = set()
        for m in modules:
            names |= set(m.fns)
        self.dem = llir.demangle(sorted(names))
        self.hookcache = {}

    def lookup(self, mod, name):
        f = mod.fns.get(name)
        if f is not None and f.defined:
            return f
        g = self.defs.get(name)
        if g is not None:
            return g
        # aliases (e.g. C1 constructors as aliases of C2)
        for m in [mod] + self.modules:
            a = m._globsrc.get(name)
            if a and ' alias ' in ' ' + a:
                gl = m.glob(name)
                if gl[0] == 'alias' and gl[2][0] == 'G':
                    return self.lookup(m, gl[2][1])
        return f

    def find(self, demname, defined=True):
        """Functions whose demangled name (without parameters) is demname."""
        out = []
        for m in self.modules:
            for f in m.fns.values():
                if f.defined == defined or not defined:
                    d = self.dem[f.name]
                    if d == demname or d.split('(')[0] == demname:
                        out.append(f)
        return out


class Hooks:
    def __init__(self):
        self.exact = {}
        self.rx = []

    def name(self, n, h):
        self.exact[n] = h

    def pat(self, rx, h):
        self.rx.append((re.compile(rx), h))

    def lookup(self, name, dem):
        h = self.exact.get(name)
        if h:
            return h
        h = self.exact.get(dem)
        if h:
            return h
        for rx, h in self.rx:
            if rx.match(dem):
                return h
        return None


class Call:
    __slots__ = ('name', 'dem', 'args', 'types', 'attrs', 'ret', 'nounwind', 'fn', 'retattrs')


class Path:
    """One control-flow path through the program."""

    LOOP = 4
    MAXSTEPS = 60000

    def __init__(self, prog, hooks, decisions):
        self.prog = prog
        self.hooks = hooks
        self.decisions = decisions
        self.pos = 0
        self.taken = []          # (chosen, arity, label)
        self.objs = {}
        self.events = []
        self.assume = {}
        self.counter = 0
        self.stack = []
        self.excs = {}
        self.caught = []
        self.steps = 0
        self.typeids = {}
        self.nonnull = set()
        self.unknown_calls = {}
        self.data = {}

    # ---- nondeterminism -------------------------------------------------
    def choose(self, n, label):
        if n == 1:
            return 0
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
        else:
            d = 0
        self.pos += 1
        self.taken.append((d, n, label))
        return d

    def fresh(self, hint):
        self.counter += 1
        return '%s#%d' % (hint, self.counter)

    def event(self, *e):
        self.events.append(e)

    def where(self):
        return ' <- '.join(self.prog.dem.get(f.name, f.name) for f in reversed(self.stack[-6:]))

    # ---- memory ----------------------------------------------------------
    def new(self, hint, size=None, default=None, kind='stack'):
        i = self.fresh(hint)
        self.objs[i] = Obj(i, size, default, kind)
        return ('p', i, 0)

    def obj(self, i):
        o = self.objs.get(i)
        if o is None:
            raise AnalysisError('no object %s' % (i,))
        return o

    def gobj(self, mod, name):
        """Object for a global variable."""
        src = mod._globsrc.get(name)
        g = mod.glob(name) if src is not None else None
        if g is not None and g[0] == 'alias':
            return self.const(mod, g[2], llir.PTR)
        if g is None or g[2] is None:
            for m in self.prog.modules:
                if m is mod:
                    continue
                s2 = m._globsrc.get(name)
                if s2 is None:
                    continue
                g2 = m.glob(name)
                if g2[2] is not None:
                    mod, g = m, g2
                    break
        priv = src is not None and (src.startswith('private') or src.startswith('internal'))
        oid = 'g:%s%s' % (mod.label + ':' if priv else '', name)
        if oid not in self.objs:
            o = Obj(oid, None, None, 'global')
            if g is not None and g[1] is not None:
                o.size = mod.size(g[1])
            if g is None or g[2] is None:
                o.default = oid
            self.objs[oid] = o
            if g is not None and g[2] is not None:
                self.store_const(mod, o, 0, g[1], g[2])
        return ('p', oid, 0)

    def store_const(self, mod, o, off, ty, v):
        k = v[0]
        ty = mod.resolve(ty)
        if k == 'A':
            for i, (et, ev) in enumerate(v[1]):
                eo, _ = mod.offset(ty, i)
                self.store_const(mod, o, off + eo, et, ev)
        elif k == 'B':
            o.cells[off] = (len(v[1]), int.from_bytes(v[1], 'little'))
        elif k == 'Z':
            n = mod.size(ty)
            if n:
                o.cells[off] = (n, 0)
        elif k == 'U':
            pass
        else:
            n = mod.size(ty)
            if n:
                o.cells[off] = (n, self.const(mod, v, ty))

    def const(self, mod, v, ty):
        k = v[0]
        if k == 'C':
            return v[1]
        if k == 'U':
            return U
        if k == 'G':
            n = v[1]
            if n in mod.fns or n in self.prog.defs:
                return ('fn', n, mod.label if (n in mod.fns and mod.fns[n].linkage & {'private', 'internal'}) else '')
            return self.gobj(mod, n)
        if k == 'Z':
            t = mod.resolve(ty)
            if t.k in ('struct', 'array'):
                els = t.elt if t.k == 'struct' else [t.elt] * t.n
                return ('agg', tuple(self.const(mod, ('Z', e), e) for e in els))
            return 0
        if k == 'A':
            return ('agg', tuple(self.const(mod, ev, et) for et, ev in v[1]))
        if k == 'GEP':
            base = self.const(mod, v[2], llir.PTR)
            return self.gep(mod, v[1], base, [self.const(mod, i, llir.ity(64)) for i in v[3]])
        if k == 'CAST':
            return self.const(mod, v[3], v[2])
        if k == 'BIN':
            return self.binop(v[1], 64, self.const(mod, v[3], v[2]), self.const(mod, v[4], v[2]))
        raise AnalysisError('const %r' % (v,))

    def deref(self, ptr):
        """-> (Obj, off)"""
        if isinstance(ptr, int):
            self.event('bad-deref', ptr, self.where())
            raise PathEnd('null-deref', ptr)
        k = ptr[0]
        if k == 'p':
            return self.obj(ptr[1]), ptr[2]
        if k == 'u':
            self.event('undef-deref', self.where())
            raise PathEnd('undef-deref')
        if k == 'fn':
            raise AnalysisError('deref fn')
        if k == 'lin':
            # base term plus offset
            c, t = lin_of(ptr)
            bases = [x for x, n in t.items() if n == 1 and self.is_base(x)]
            if len(bases) == 1:
                b = bases[0]
                del t[b]
                o, off = self.deref(b)
                return o, self.add_off(off, mk_lin(c, t))
        oid = ('*', ptr)
        if oid not in self.objs:
            self.objs[oid] = Obj(oid, None, oid, 'heap')
            self.nonnull.add(ptr)
        return self.objs[oid], 0

    def is_base(self, x):
        return not isinstance(x, int) and (x[0] == 'p' or (x[0] in ('s', 'x') and (('*', x) in self.objs or x in self.nonnull or x in self.data.get('bases', ()))))

    def add_off(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            v = (a + b) & ((1 << 64) - 1)
            return v - (1 << 64) if v >> 63 else v
        ca, ta = lin_of(a)
        cb, tb = lin_of(b)
        for t, k in tb.items():
            ta[t] = ta.get(t, 0) + k
        r = mk_lin(ca + cb, ta)
        if isinstance(r, int) and r >> 63:
            r -= 1 << 64
        return r

    def canon(self, v):
        """Pointer to offset 0 of a dereferenced label is that label."""
        if not isinstance(v, int) and v[0] == 'p' and isinstance(v[1], tuple) and v[1][0] == '*':
            if v[2] == 0:
                return v[1][1]
        return v

    def ptr_add(self, base, off):
        if off == 0:
            return base
        if isinstance(base, int):
            if isinstance(off, int):
                return (base + off) & ((1 << 64) - 1)
            return self.binop('add', 64, base, off)
        if base == U:
            return U
        if base[0] == 'p':
            return self.canon(('p', base[1], self.add_off(base[2], off)))
        if base[0] in ('s', 'x'):
            oid = ('*', base)
            if oid not in self.objs:
                self.objs[oid] = Obj(oid, None, oid, 'heap')
                # address arithmetic on a label does not make it non-null
            return self.canon(('p', oid, off))
        if base[0] == 'lin':
            return self.binop('add', 64, base, off)
        return ('x', 'ptradd', base, off)

    def gep(self, mod, ty, base, idx):
        off = 0
        # first index scales by the whole type
        t = ty
        off = self.add_off(off, self.binop('mul', 64, self.sx(idx[0]), mod.size(t)))
        for i in idx[1:]:
            r = mod.resolve(t)
            if r.k == 'struct':
                o, t = mod.offset(r, i)
                off = self.add_off(off, o)
            else:
                t = r.elt
                off = self.add_off(off, self.binop('mul', 64, self.sx(i), mod.size(t)))
        return self.ptr_add(base, off)

    def sx(self, v):
        return v

    def read(self, o, off, size):
        """[(rel,size,val)] covering size bytes."""
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            return [(0, size, c[1])]
        if not isinstance(off, int):
            if c is not None and c[0] > size:
                return [(0, size, vslice(c[1], c[0], 0, size))]
            # same symbolic base with a constant delta
            for k, (s, v) in o.cells.items():
                d = self.delta(off, k)
                if d is not None and 0 <= d and d + size <= s:
                    return [(0, size, vslice(v, s, d, size))]
            if o.default is None:
                return [(0, size, ('s', ('elt', o.id, off), 0, size))]
            return [(0, size, ('s', ('elt', o.default, off), 0, size))]
        out = []
        hits = []
        for k, (s, v) in o.cells.items():
            if isinstance(k, int):
                a, b = max(k, off), min(k + s, off + size)
                if a < b:
                    hits.append((a, b, k, s, v))
        hits.sort(key=lambda h: h[0])
        pos = off
        for (a, b, k, s, v) in hits:
            if a > pos:
                out.append((pos - off, a - pos, self.dflt(o, pos, a - pos)))
            for (ro, rs, rv) in pieces_of(v, s, a - k, b - a):
                out.append((a - off + ro, rs, rv))
            pos = b
        if pos < off + size:
            out.append((pos - off, off + size - pos, self.dflt(o, pos, off + size - pos)))
        return out

    def delta(self, a, b):
        ca, ta = lin_of(a)
        cb, tb = lin_of(b)
        if ta == tb:
            d = (ca - cb) & ((1 << 64) - 1)
            return d - (1 << 64) if d >> 63 else d
        return None

    def dflt(self, o, off, size):
        if o.default is None:
            return U
        return ('s', o.default, off, size)

    def write(self, o, off, size, val):
        if size == 0:
            return
        if not o.alive:
            self.event('use-after-free', o.id, self.where())
        if isinstance(off, int) and o.kind == 'cxxnew' and isinstance(o.size, int) and off + size > o.size:
            self.event('oob', o.id, 'written %d bytes past its end' % (off + size - o.size))
        if isinstance(off, int):
            kill = [(k, sv) for k, sv in o.cells.items()
                    if isinstance(k, int) and k < off + size and off < k + sv[0]]
            for k, (s, v) in kill:
                del o.cells[k]
                if k < off:
                    o.cells[k] = (off - k, vslice(v, s, 0, off - k))
                if k + s > off + size:
                    o.cells[off + size] = (k + s - off - size, vslice(v, s, off + size - k, k + s - off - size))
        else:
            kill = []
            for k, (s, v) in o.cells.items():
                d = self.delta(off, k)
                if d is not None and d < s and -d < size and k != off:
                    kill.append((k, s, v, d))
            for (k, s, v, d) in kill:
                del o.cells[k]
                if d > 0:
                    o.cells[k] = (d, vslice(v, s, 0, d))
                if d + size < s:
                    o.cells[self.add_off(off, size)] = (s - d - size, vslice(v, s, d + size, s - d - size))
        o.cells[off] = (size, val)

    def load(self, ptr, size):
        o, off = self.deref(ptr)
        if not o.alive:
            self.event('use-after-free', o.id, self.where())
        if size == 0:
            return 0
        return cat(self.read(o, off, size))

    def store(self, ptr, size, val):
        if size == 0:
            return
        o, off = self.deref(ptr)
        if not isinstance(val, int) and val[0] == 'agg':
            raise AnalysisError('store agg needs type %r %r' % (size, val))
        if not isinstance(val, int) and val[0] == 'cat':
            p = 0
            for (x, s) in val[1]:
                self.write(o, self.add_off(off, p), s, x)
                p += s
            return
        self.write(o, off, size, val)

    def load_ty(self, mod, ptr, ty):
        t = mod.resolve(ty)
        if t.k in ('struct', 'array') and t.elt is not None:
            n = len(t.elt) if t.k == 'struct' else t.n
            out = []
            for i in range(n):
                o, et = mod.offset(t, i)
                out.append(self.load_ty(mod, self.ptr_add(ptr, o), et))
            return ('agg', tuple(out))
        return self.load(ptr, mod.size(t))

    def store_ty(self, mod, ptr, ty, val):
        t = mod.resolve(ty)
        if t.k in ('struct', 'array') and not isinstance(val, int) and val[0] == 'agg':
            for i, v in enumerate(val[1]):
                o, et = mod.offset(t, i)
                self.store_ty(mod, self.ptr_add(ptr, o), et, v)
            return
        if val == U and t.k in ('struct', 'array'):
            return
        self.store(ptr, mod.size(t), val)

    def memcpy(self, dst, src, n):
        if not isinstance(n, int):
            self.event('memcpy', dst, src, n)
            do, doff = self.deref(dst)
            room = self.data.get('room', {}).get(do.id)
            if room is not None and doff == 0 and not isinstance(room, int):
                d = self.sub_lin(self.canon(n), room)
                if isinstance(d, int) and 0 < d < 1 << 31:
                    self.event('oob', do.id, 'written %d bytes past its end' % d)
            self.write(do, doff, 1, ('x', 'memcpy', src, n))
            return
        if n == 0:
            return
        so, soff = self.deref(src)
        if not so.alive:
            self.event('use-after-free', so.id, self.where())
        do, doff = self.deref(dst)
        for (r, s, v) in self.read(so, soff, n):
            self.write(do, self.add_off(doff, r), s, v)

    # ---- arithmetic ------------------------------------------------------
    def binop(self, op, bits, a, b):
        m = (1 << bits) - 1
        if isinstance(a, int) and isinstance(b, int):
            if op == 'add':
                return (a + b) & m
            if op == 'sub':
                return (a - b) & m
            if op == 'mul':
                return (a * b) & m
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
            if op == 'shl':
                return (a << b) & m if b < bits else 0
            if op == 'lshr':
                return a >> b if b < bits else 0
            if op == 'ashr':
                sa = a - (1 << bits) if a >> (bits - 1) else a
                return (sa >> b) & m
            if op in ('udiv', 'urem') and b:
                return a // b if op == 'udiv' else a % b
            if op in ('sdiv', 'srem') and b:
                sa = a - (1 << bits) if a >> (bits - 1) else a
                sb = b - (1 << bits) if b >> (bits - 1) else b
                q = abs(sa) // abs(sb)
                if (sa < 0) != (sb < 0):
                    q = -q
                return (q if op == 'sdiv' else sa - q * sb) & m
            return ('x', op, a, b)
        if a == U or b == U:
            return U
        if bits == 64 or bits in (8, 16, 32):
            if op in ('add', 'sub'):
                a2, b2 = self.toint(a), self.toint(b)
                if op == 'sub':
                    # pointer difference inside one object
                    if not isinstance(a, int) and not isinstance(b, int):
                        pa, pb = self.topp(a), self.topp(b)
                        if pa and pb and pa[1] == pb[1]:
                            return self.sub_lin(pa[2], pb[2])
                ca, ta = lin_of(a2)
                cb, tb = lin_of(b2)
                sg = 1 if op == 'add' else -1
                for t, k in tb.items():
                    ta[t] = ta.get(t, 0) + sg * k
                return mk_lin(ca + sg * cb, ta, bits)
            if op == 'mul' and (isinstance(a, int) or isinstance(b, int)):
                if isinstance(a, int):
                    a, b = b, a
                c, t = lin_of(self.toint(a))
                return mk_lin(c * b, {x: k * b for x, k in t.items()}, bits)
            if op == 'shl' and isinstance(b, int):
                c, t = lin_of(self.toint(a))
                return mk_lin(c << b, {x: k << b for x, k in t.items()}, bits)
            if op in ('sdiv', 'udiv') and isinstance(b, int) and b and b < 1 << 32:
                c, t = lin_of(a)
                if (op == 'sdiv' or c < 1 << 63 and min(t.values(), default=0) > 0) and c % b == 0 and all(k % b == 0 for k in t.values()):
                    return mk_lin(c // b, {x: k // b for x, k in t.items()}, bits)
        if op == 'and' and b == 1 and a[0] == 'fn':
            return 0   # the discriminator bit of a pointer to member function
        if op == 'and' and (a == 0 or b == 0):
            return 0
        if op == 'and' and a == m:
            return b
        if op == 'and' and b == m:
            return a
        if op in ('or', 'xor') and b == 0:
            return a
        if op in ('or', 'xor') and a == 0:
            return b
        if op == 'xor' and bits == 1 and b == 1:
            return self.neg(a)
        if op in ('lshr', 'ashr', 'shl') and b == 0:
            return a
        if op in ('lshr',) and isinstance(b, int) and b % 8 == 0 and not isinstance(a, int) and a[0] in ('s', 'cat'):
            n = bits // 8
            return cat([(0, n - b // 8, vslice(a, n, b // 8, n - b // 8)), (n - b // 8, b // 8, 0)])
        return ('x', op, a, b)

    def sub_lin(self, a, b):
        ca, ta = lin_of(a)
        cb, tb = lin_of(b)
        for t, k in tb.items():
            ta[t] = ta.get(t, 0) - k
        return mk_lin(ca - cb, ta)

    def toint(self, v):
        if not isinstance(v, int) and v[0] == 'p' and isinstance(v[1], tuple) and v[1][0] == '*':
            b = v[1][1]
            if v[2] == 0:
                return b
            c, t = lin_of(v[2])
            t[b] = t.get(b, 0) + 1
            return mk_lin(c, t)
        return v

    def topp(self, v):
        if isinstance(v, int):
            return None
        if v[0] == 'p':
            return v
        if v[0] in ('s', 'x'):
            return ('p', ('*', v), 0)
        return None

    def neg(self, c):
        if isinstance(c, int):
            return 1 - (c & 1)
        if c[0] == 'x' and c[1] == 'not':
            return c[2]
        if c[0] == 'x' and c[1] == 'icmp':
            inv = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt',
                   'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt'}
            return ('x', 'icmp', inv[c[2]], c[3], c[4])
        return ('x', 'not', c)

    def fcmp(self, pred, a, b):
        return ('x', 'fcmp', pred, a, b)

    def icmp(self, pred, bits, a, b):
        if isinstance(a, int) and isinstance(b, int):
            if pred in ('slt', 'sle', 'sgt', 'sge'):
                s = 1 << (bits - 1)
                a, b = (a ^ s), (b ^ s)
            return int({'eq': a == b, 'ne': a != b, 'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b,
                        'slt': a < b, 'sle': a <= b, 'sgt': a > b, 'sge': a >= b}[pred])
        a, b = self.canon(a), self.canon(b)
        if a == U or b == U:
            return U
        if a == b:
            return int(pred in ('eq', 'ule', 'uge', 'sle', 'sge'))
        if bits == 64 and isinstance(b, int) and self.small(a):
            # a word of a live Rust String or Vec is at most isize::MAX
            if b >> 63 and pred in ('eq', 'ne', 'ult', 'uge', 'ule', 'ugt'):
                return int(pred in ('ne', 'ult', 'ule'))
            if pred in ('slt', 'sge') and b == 0:
                return int(pred == 'sge')
            if pred in ('sgt', 'sle') and b == (1 << 64) - 1:
                return int(pred == 'sgt')
        if isinstance(b, int) and a in self.data.get('bools', ()) and b > 1:
            if pred in ('eq', 'ne', 'ult', 'ule', 'ugt', 'uge'):
                return int(pred in ('ne', 'ult', 'ule'))
        if bits == 1 and isinstance(b, int) and pred in ('eq', 'ne'):
            return a if (pred == 'eq') == (b == 1) else self.neg(a)
        if pred in ('eq', 'ne'):
            r = self.same(a, b)
            if r is not None:
                return int(r == (pred == 'eq'))
            if repr(b) < repr(a) and not isinstance(b, int):
                a, b = b, a
        else:
            # compare offsets in one object
            pa, pb = (self.topp(a) if bits == 64 else None), (self.topp(b) if bits == 64 else None)
            if pa and pb and pa[1] == pb[1] and isinstance(pa[2], int) and isinstance(pb[2], int):
                return self.icmp(pred, 64, pa[2], pb[2])
            if isinstance(b, int) and b == 0:
                if pred == 'ult':
                    return 0
                if pred == 'uge':
                    return 1
                if pred == 'ugt':
                    return self.icmp('ne', bits, a, b)
                if pred == 'ule':
                    return self.icmp('eq', bits, a, b)
            if pred in ('ugt', 'uge', 'sgt', 'sge'):
                sw = {'ugt': 'ult', 'uge': 'ule', 'sgt': 'slt', 'sge': 'sle'}
                pred, a, b = sw[pred], b, a
        return ('x', 'icmp', pred, a, b)

    def small(self, a):
        if a[0] != 's' or not isinstance(a[2], int):
            return False
        for (t, o), r in self.data.get('res', {}).items():
            if t == a[1] and r['kind'] in ('String', 'Vec') and o <= a[2] < o + r['len']:
                return True
        return False

    def same(self, a, b):
        """Pointer/int equality if decided, else None."""
        if isinstance(a, int):
            a, b = b, a
        if isinstance(b, int):
            if a[0] == 'p':
                o = self.objs.get(a[1])
                if o is not None and b == 0:
                    if isinstance(a[1], tuple) and a[1][0] == '*':
                        return None if a[1][1] not in self.nonnull else False
                    return False
                return False if b == 0 else None
            if a[0] == 'fn' and b == 0:
                return False
            if b == 0 and a in self.nonnull:
                return False
            return None
        if a[0] == 'p' and b[0] == 'p':
            if a[1] == b[1]:
                d = self.delta(a[2], b[2])
                if d is not None:
                    return d == 0
                return None
            oa, ob = self.objs.get(a[1]), self.objs.get(b[1])
            if oa and ob and not (isinstance(a[1], tuple) and isinstance(b[1], tuple)):
                return False
            return None
        if a[0] == 'fn' and b[0] == 'fn':
            return a == b
        d = self.delta(self.toint(a), self.toint(b))
        if d is not None:
            return d == 0
        # a label that is not an address of a local object differs from local objects
        for x, y in ((a, b), (b, a)):
            if x[0] == 'p' and not isinstance(x[1], tuple):
                o = self.objs.get(x[1])
                if o is not None and o.kind in ('stack', 'global') and y[0] == 's':
                    return False
        return None

    def truth(self, c):
        """Decide a branch condition, forking if it is open."""
        if isinstance(c, int):
            return bool(c & 1)
        if c == U:
            self.event('branch-on-undef', self.where())
            raise PathEnd('undef-branch')
        key, pos = c, True
        if c[0] == 'x' and c[1] == 'not':
            key, pos = c[2], False
        elif c[0] == 'x' and c[1] == 'icmp':
            if c[2] in ('ne', 'uge', 'sge', 'ugt', 'sgt'):
                n = self.neg(c)
                if n[2] in ('eq', 'ult', 'slt', 'ule', 'sle'):
                    key, pos = n, False
        if key in self.assume:
            return self.assume[key] == pos
        r = self.implied(key)
        if r is None:
            r = self.choose(2, ('cond', key)) == 0
            # decision 0 = True
        self.assume[key] = r
        self.note(key, r)
        return r == pos

    def implied(self, key):
        if key[0] == 'x' and key[1] == 'icmp':
            _, _, pred, a, b = key
            if pred in ('ult', 'ule', 'slt', 'sle'):
                # known equality or opposite strict order
                eq = ('x', 'icmp', 'eq') + ((a, b) if isinstance(b, int) or repr(a) <= repr(b) else (b, a))
                if self.assume.get(eq) is True:
                    return pred in ('ule', 'sle')
                s = pred[0]
                if self.assume.get(('x', 'icmp', s + 'lt', b, a)) is True:
                    return False
                if pred[1:] == 'le' and self.assume.get(('x', 'icmp', s + 'lt', a, b)) is True:
                    return True
                if pred[1:] == 'lt' and self.assume.get(('x', 'icmp', s + 'le', a, b)) is False:
                    return False
                if pred[1:] == 'lt' and self.assume.get(('x', 'icmp', s + 'le', b, a)) is True:
                    return False
                if pred[1:] == 'le' and self.assume.get(('x', 'icmp', s + 'le', b, a)) is False:
                    return True
                if pred[1:] == 'lt' and self.assume.get(eq) is False and self.assume.get(('x', 'icmp', s + 'le', a, b)) is True:
                    return True
            elif pred == 'eq':
                for s in 'us':
                    if self.assume.get(('x', 'icmp', s + 'lt', a, b)) or self.assume.get(('x', 'icmp', s + 'lt', b, a)):
                        return False
        return None

    def note(self, key, r):
        if key[0] == 'x' and key[1] == 'icmp' and key[2] == 'eq' and key[4] == 0 and r is False:
            self.nonnull.add(key[3])

    # ---- execution of one function -----------------------------------------
    def callfn(self, fn, args):
        if len(self.stack) > 120:
            raise PathEnd('recursion-bound')
        self.stack.append(fn)
        try:
            return self.run(fn, args)
        except Unwind as u:
            if fn.nounwind():
                self.event('unwind-through-nounwind', self.prog.dem.get(fn.name, fn.name), u.exc)
            raise
        finally:
            self.stack.pop()

    def run(self, fn, args):
        mod = fn.mod
        blocks = fn.body()
        env = {}
        for (t, a, nm), v in zip(fn.params, args):
            if 'byval' in a:
                # callee-owned copy
                n = mod.size(a['byval'])
                q = self.new('byval', n)
                self.memcpy(q, v, n)
                v = q
            env[nm] = v
        cur = fn.order[0]
        prev = None
        visits = {}
        pending = None
        while True:
            visits[cur] = visits.get(cur, 0) + 1
            if visits[cur] > self.LOOP:
                raise PathEnd('loop-bound', fn.name)
            insts = blocks[cur]
            # phis first
            k = 0
            phis = []
            while k < len(insts) and insts[k][0][0] == 'phi':
                i = insts[k][0]
                for (lb, v) in i[3]:
                    if lb == prev:
                        phis.append((i[1], self.val(mod, env, v, i[2])))
                        break
                else:
                    raise AnalysisError('phi without edge from %s' % prev)
                k += 1
            for n, v in phis:
                env[n] = v
            nxt = None
            while k < len(insts):
                ins, line = insts[k]
                k += 1
                self.steps += 1
                if self.steps > self.MAXSTEPS:
                    raise PathEnd('step-bound')
                op = ins[0]
                if op == 'call':
                    _, res, rt, cal, cargs, nounw, normal, unwind, ra = ins
                    try:
                        r = self.docall(mod, env, rt, cal, cargs, nounw, ra)
                    except Unwind as u:
                        if unwind is None:
                            if nounw:
                                self.event('unwind-through-nounwind-call', self.where())
                            raise
                        ok = self.enter_pad(fn, mod, blocks[unwind], u.exc)
                        if ok is None:
                            raise
                        pending = ok
                        nxt = unwind
                        break
                    if res is not None:
                        env[res] = r
                    if normal is not None:
                        nxt = normal
                        break
                elif op == 'load':
                    env[ins[1]] = self.load_ty(mod, self.val(mod, env, ins[3], llir.PTR), ins[2])
                elif op == 'store':
                    self.store_ty(mod, self.val(mod, env, ins[4], llir.PTR), ins[2], self.val(mod, env, ins[3], ins[2]))
                elif op == 'alloca':
                    n = self.val(mod, env, ins[3], llir.ity(64))
                    sz = mod.size(ins[2])
                    env[ins[1]] = self.new('%s' % ins[1], sz * n if isinstance(n, int) else None)
                elif op == 'gep':
                    env[ins[1]] = self.gep(mod, ins[2], self.val(mod, env, ins[3], llir.PTR),
                                           [self.sxt(it, self.val(mod, env, v, it)) for it, v in ins[4]])
                elif op == 'bin':
                    t = mod.resolve(ins[3])
                    bits = t.n if t.k == 'int' else 0
                    a, b = self.val(mod, env, ins[4], t), self.val(mod, env, ins[5], t)
                    env[ins[1]] = self.binop(ins[2], bits, a, b) if bits else (U if U in (a, b) else ('x', ins[2], a, b))
                elif op == 'icmp':
                    t = mod.resolve(ins[3])
                    env[ins[1]] = self.icmp(ins[2], t.n if t.k == 'int' else 64, self.val(mod, env, ins[4], t),
                                            self.val(mod, env, ins[5], t))
                elif op == 'fcmp':
                    env[ins[1]] = self.fcmp(ins[2], self.val(mod, env, ins[4], ins[3]), self.val(mod, env, ins[5], ins[3]))
                elif op == 'cast':
                    env[ins[1]] = self.cast(mod, ins[2], ins[3], self.val(mod, env, ins[4], ins[3]), ins[5])
                elif op == 'jmp':
                    nxt = ins[2]
                    break
                elif op == 'br':
                    nxt = ins[3] if self.truth(self.val(mod, env, ins[2], llir.ity(1))) else ins[4]
                    break
                elif op == 'switch':
                    nxt = self.switch(mod, env, ins)
                    break
                elif op == 'ret':
                    if ins[3] is None:
                        return None
                    return self.val(mod, env, ins[3], ins[2])
                elif op == 'resume':
                    v = self.val(mod, env, ins[3], ins[2])
                    raise Unwind(self.exc_of(v[1][0]))
                elif op == 'unreachable':
                    self.event('unreachable', self.where())
                    raise PathEnd('unreachable', self.where())
                elif op == 'landingpad':
                    env[ins[1]] = ('agg', pending)
                elif op == 'select':
                    c = self.val(mod, env, ins[3], llir.ity(1))
                    env[ins[1]] = self.val(mod, env, ins[4] if self.truth(c) else ins[5], ins[2])
                elif op == 'extractvalue':
                    v = self.val(mod, env, ins[3], ins[2])
                    for i in ins[4]:
                        v = U if v == U else self.aggidx(v, i)
                    env[ins[1]] = v
                elif op == 'insertvalue':
                    v = self.val(mod, env, ins[3], ins[2])
                    e = self.val(mod, env, ins[5], ins[4])
                    env[ins[1]] = self.insert(mod, ins[2], v, e, ins[6])
                elif op == 'freeze':
                    env[ins[1]] = self.val(mod, env, ins[3], ins[2])
                elif op == 'fneg':
                    env[ins[1]] = ('x', 'fneg', self.val(mod, env, ins[3], ins[2]))
                elif op == 'atomicrmw':
                    p = self.val(mod, env, ins[3], llir.PTR)
                    v = self.val(mod, env, ins[5], ins[4])
                    n = mod.size(ins[4])
                    old = self.load(p, n)
                    self.event('atomicrmw', ins[2], p, v)
                    if ins[2] in ('add', 'sub', 'and', 'or', 'xor'):
                        self.store(p, n, self.binop(ins[2], n * 8, old, v))
                    else:
                        self.store(p, n, v)
                    env[ins[1]] = old
                elif op == 'cmpxchg':
                    p = self.val(mod, env, ins[2], llir.PTR)
                    n = mod.size(ins[3])
                    old = self.load(p, n)
                    c = self.icmp('eq', n * 8, old, self.val(mod, env, ins[4], ins[3]))
                    if self.truth(c):
                        self.store(p, n, self.val(mod, env, ins[5], ins[3]))
                        env[ins[1]] = ('agg', (old, 1))
                    else:
                        env[ins[1]] = ('agg', (old, 0))
                elif op == 'nop':
                    pass
                elif op == 'asm':
                    if ins[1] is not None:
                        env[ins[1]] = sym(self.fresh('asm'))
                else:
                    raise AnalysisError('instruction %r in %s' % (ins, fn.name))
            if nxt is None:
                raise AnalysisError('fell off block %s in %s' % (cur, fn.name))
            prev, cur = cur, nxt

    def sxt(self, ty, v):
        if isinstance(v, int) and ty.k == 'int' and v >> (ty.n - 1):
            return v - (1 << ty.n)
        return v

    def aggidx(self, v, i):
        if v[0] == 'agg':
            return v[1][i]
        return ('x', 'idx', v, i)

    def insert(self, mod, ty, v, e, idx):
        t = mod.resolve(ty)
        n = len(t.elt) if t.k == 'struct' else t.n
        els = list(v[1]) if v != U and v[0] == 'agg' else [U] * n
        i = idx[0]
        if len(idx) == 1:
            els[i] = e
        else:
            et = t.elt[i] if t.k == 'struct' else t.elt
            els[i] = self.insert(mod, et, els[i], e, idx[1:])
        return ('agg', tuple(els))

    def val(self, mod, env, v, ty):
        if v[0] == 'L':
            return env[v[1]]
        if v[0] == 'U':
            t = mod.resolve(ty)
            if t.k == 'struct':
                return ('agg', tuple(U for _ in t.elt))
            return U
        return self.const(mod, v, ty)

    def cast(self, mod, op, st, v, dt):
        st, dt = mod.resolve(st), mod.resolve(dt)
        if op in ('bitcast', 'inttoptr', 'ptrtoint', 'addrspacecast'):
            return v
        if v == U:
            return U
        if op == 'trunc':
            if isinstance(v, int):
                return v & ((1 << dt.n) - 1)
            if dt.n == 1:
                if v[0] == 'x' and v[1] == 'zext' and v[3] == 1:
                    return v[2]
                return v if mod.size(st) == 1 else ('x', 'trunc', v, 1)
            if v[0] == 'x' and v[1] in ('zext', 'sext') and v[3] == dt.n:
                return v[2]
            if v[0] in ('s', 'cat'):
                return vslice(v, mod.size(st), 0, mod.size(dt))
            if v[0] == 'x' and v[1] in ('zext', 'sext') and v[3] > dt.n:
                return ('x', 'trunc', v[2], dt.n)
            return ('x', 'trunc', v, dt.n)
        if op in ('zext', 'sext'):
            if isinstance(v, int):
                if op == 'sext' and v >> (st.n - 1):
                    return (v - (1 << st.n)) & ((1 << dt.n) - 1)
                return v
            if st.n == 1 and dt.n == 8 and op == 'zext':
                return v
            if op == 'zext' and v[0] in ('s', 'cat') and st.n >= 8 and st.n % 8 == 0:
                return cat([(0, st.n // 8, v), (st.n // 8, (dt.n - st.n) // 8, 0)])
            return ('x', op, v, st.n, dt.n)
        if isinstance(v, int) and op in ('uitofp', 'sitofp', 'fpext', 'fptrunc'):
            return ('x', op, v)
        return ('x', op, v)

    def switch(self, mod, env, ins):
        _, _, t, v, d, cases = ins
        v = self.val(mod, env, v, t)
        if isinstance(v, int):
            for c, l in cases:
                if c == v:
                    return l
            return d
        if v == U:
            self.event('branch-on-undef', self.where())
            raise PathEnd('undef-branch')
        for c, l in cases:
            if self.truth(self.icmp('eq', t.n, v, c)):
                return l
        return d

    # ---- exceptions ----------------------------------------------------------
    def typeid(self, ti):
        if ti not in self.typeids:
            self.typeids[ti] = len(self.typeids) + 1
        return self.typeids[ti]

    def exc_of(self, p):
        if not isinstance(p, int) and p[0] == 'p' and p[1] in self.excs:
            return self.excs[p[1]]
        raise AnalysisError('resume of unknown exception %r' % (p,))

    def raise_(self, exc):
        if exc.obj is None:
            exc.obj = self.new('exc', kind='heap')
        self.excs[exc.obj[1]] = exc
        raise Unwind(exc)

    def enter_pad(self, fn, mod, block, exc):
        """-> (excptr, selector) or None if this frame is skipped."""
        pad = None
        for ins, _ in block:
            if ins[0] == 'landingpad':
                pad = ins
                break
            if ins[0] != 'phi':
                break
        if pad is None:
            raise AnalysisError('no landingpad')
        for kind, v in pad[4]:
            if kind == 'catch':
                if v == ('C', 0):
                    return (exc.obj, self.typeid(None))
                if v[0] == 'G' and v[1] in exc.tis:
                    return (exc.obj, self.typeid(v[1]))
            else:
                return (exc.obj, (1 << 32) - 1)
        if pad[3]:
            return (exc.obj, 0)
        return None

    # ---- calls -----------------------------------------------------------------
    def docall(self, mod, env, rt, cal, cargs, nounw, ra):
        if cal[0] == 'G':
            name = cal[1]
            if name.startswith('llvm.'):
                return self.intrinsic(mod, env, name, rt, cargs)
            target = self.prog.lookup(mod, name)
        else:
            v = env[cal[1]]
            if not isinstance(v, int) and v[0] == 'fn':
                name = v[1]
                m = mod
                if v[2]:
                    m = next(x for x in self.prog.modules if x.label == v[2])
                target = self.prog.lookup(m, name)
            else:
                name = None
                target = None
                fp = v
        c = Call()
        c.types = [a[0] for a in cargs]
        c.attrs = [a[1] for a in cargs]
        c.args = [self.val(mod, env, a[2], a[0]) for a in cargs]
        c.ret = rt
        c.retattrs = ra
        c.nounwind = nounw
        c.fn = target
        if name is None:
            c.name = None
            c.dem = None
            return self.indirect(mod, c, fp)
        c.name = name
        c.dem = self.prog.dem.get(name, name)
        return self.invoke(mod, c)

    def invoke(self, mod, c):
        h = self.hooks_for(c.name, c.dem)
        if h is not None:
            r = h(self, mod, c)
            if r is not NotImplemented:
                return r
        target = c.fn
        if target is not None and target.defined:
            args = c.args
            if len(target.params) != len(args) or any(
                    (not isinstance(v, int) and v[0] == 'agg') != (pt.k in ('struct', 'array'))
                    for v, (pt, _, _) in zip(args, target.params)):
                args = self.relower(target, args)
            return self.callfn(target, args)
        return self.external(mod, c)

    def relower(self, target, args):
        """Reconcile by-value aggregates: one side passes [2 x i64], the other two scalars."""
        flat = []

        def fl(v):
            if not isinstance(v, int) and v[0] == 'agg':
                for x in v[1]:
                    fl(x)
            else:
                flat.append(v)
        for v in args:
            fl(v)
        it = iter(flat)

        def build(ty):
            t = target.mod.resolve(ty)
            if t.k in ('struct', 'array'):
                n = len(t.elt) if t.k == 'struct' else t.n
                return ('agg', tuple(build(target.mod.offset(t, i)[1]) for i in range(n)))
            return next(it)
        try:
            out = [build(t) for (t, _, _) in target.params]
        except StopIteration:
            raise AnalysisError('too few arguments for %s' % target.name)
        if next(it, None) is not None:
            raise AnalysisError('too many arguments for %s' % target.name)
        return out

    def hooks_for(self, name, dem):
        cache = self.prog.hookcache.setdefault(id(self.hooks), {})
        if name not in cache:
            cache[name] = self.hooks.lookup(name, dem)
        return cache[name]

    def indirect(self, mod, c, fp):
        h = self.hooks.exact.get('<indirect>')
        if h:
            r = h(self, mod, c, fp)
            if r is not NotImplemented:
                return r
        self.event('indirect', fp, tuple(c.args))
        return self.havoc(mod, c, 'indirect')

    def external(self, mod, c):
        h = self.hooks.exact.get('<external>')
        if h:
            r = h(self, mod, c)
            if r is not NotImplemented:
                return r
        self.unknown_calls[c.dem] = self.unknown_calls.get(c.dem, 0) + 1
        self.event('ext', c.dem, tuple(c.args))
        return self.havoc(mod, c, c.dem)

    def havoc(self, mod, c, what):
        """Result of a call about which nothing is known."""
        for a, at in zip(c.args, c.attrs):
            if 'sret' in at:
                o, off = self.deref(a)
                n = mod.size(at['sret'])
                self.write(o, off, n, sym(self.fresh('ret:%s' % what), 0, n))
        return self.fresh_ty(mod, c.ret, self.fresh('ret:%s' % what))

    def fresh_ty(self, mod, ty, tag, off=0):
        t = mod.resolve(ty)
        if t.k == 'void':
            return None
        if t.k in ('struct', 'array'):
            n = len(t.elt) if t.k == 'struct' else t.n
            out = []
            for i in range(n):
                o, et = mod.offset(t, i)
                out.append(self.fresh_ty(mod, et, tag, off + o))
            return ('agg', tuple(out))
        return ('s', tag, off, mod.size(t))

    def intrinsic(self, mod, env, name, rt, cargs):
        A = [self.val(mod, env, a[2], a[0]) if a[0].k != 'metadata' else U for a in cargs]
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            self.memcpy(A[0], A[1], A[2])
            return None
        if name.startswith('llvm.memset'):
            o, off = self.deref(A[0])
            if isinstance(A[2], int):
                if A[2]:
                    v = A[1]
                    if isinstance(v, int):
                        v = int.from_bytes(bytes([v & 255]) * A[2], 'little')
                    self.write(o, off, A[2], v if isinstance(v, int) else U)
            return None
        if name.startswith('llvm.lifetime') or name.startswith('llvm.assume') or name.startswith('llvm.dbg') \
                or name.startswith('llvm.experimental.noalias') or name.startswith('llvm.invariant'):
            return None
        if name.startswith('llvm.expect'):
            return A[0]
        if name.startswith('llvm.eh.typeid.for'):
            v = cargs[0][2]
            return self.typeid(v[1] if v[0] == 'G' else None)
        if name.startswith('llvm.trap') or name.startswith('llvm.ubsantrap'):
            self.event('trap', self.where())
            raise PathEnd('abort', 'trap')
        if '.with.overflow' in name:
            op = {'add': 'add', 'sub': 'sub', 'mul': 'mul'}[name.split('.')[1][1:]]
            bits = cargs[0][0].n
            r = self.binop(op, bits, A[0], A[1])
            if isinstance(A[0], int) and isinstance(A[1], int):
                x = {'add': A[0] + A[1], 'sub': A[0] - A[1], 'mul': A[0] * A[1]}[op]
                of = int(not 0 <= x < (1 << bits)) if name.split('.')[1][0] == 'u' else 0
            elif op == 'mul' and (A[0] == 1 or A[1] == 1):
                of = 0
            else:
                of = ('x', 'overflow', op, A[0], A[1])
            return ('agg', (r, of))
        if name.startswith('llvm.is.constant'):
            return 0
        if name.startswith('llvm.objectsize'):
            return (1 << 64) - 1
        if name.startswith('llvm.umax') or name.startswith('llvm.umin') or name.startswith('llvm.smax') or name.startswith('llvm.smin'):
            if isinstance(A[0], int) and isinstance(A[1], int) and name[5] == 'u':
                return max(A[0], A[1]) if 'max' in name else min(A[0], A[1])
            return ('x', name[5:9], A[0], A[1])
        if name.startswith('llvm.stacksave'):
            return 0
        if name.startswith('llvm.stackrestore') or name.startswith('llvm.va_') or name.startswith('llvm.donothing') or name.startswith('llvm.prefetch'):
            return None
        if name.startswith('llvm.ctpop') or name.startswith('llvm.ct') or name.startswith('llvm.fsh') or name.startswith('llvm.bswap') \
                or name.startswith('llvm.usub.sat') or name.startswith('llvm.uadd.sat') or name.startswith('llvm.abs'):
            return ('x', name) + tuple(A)
        if name.startswith('llvm.threadlocal.address'):
            return A[0]
        if name.startswith('llvm.ptrmask') or name.startswith('llvm.ucmp') or name.startswith('llvm.scmp'):
            return ('x', name) + tuple(A)
        raise AnalysisError('intrinsic %s' % name)


def explore(prog, hooks, scenario, limit=400, cls=None):
    """Follow every path. scenario(path) runs the entry and returns a result.

    Yields (path, outcome, result) with outcome in return / unwind / a PathEnd kind.
    """
    decisions = []
    n = 0
    while True:
        p = (cls or Path)(prog, hooks, decisions)
        res = None
        try:
            res = scenario(p)
            out = 'return'
        except Unwind as u:
            out = 'unwind'
            res = u.exc
        except PathEnd as e:
            out = e.kind
            res = e.info
        yield p, out, res
        n += 1
        if n >= limit:
            raise AnalysisError('more than %d paths' % limit)
        d = [t[0] for t in p.taken]
        ar = [t[1] for t in p.taken]
        while d and d[-1] + 1 >= ar[-1]:
            d.pop()
            ar.pop()
        if not d:
            return
        d[-1] += 1
        decisions = d
