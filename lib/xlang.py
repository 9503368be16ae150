"""Models of the primitives at the edges of the analysed program: Rust drop glue,
the C++ and Rust runtime support functions, user-defined functions of the witness."""
import re

from flow import (AnalysisError, Exc, Hooks, PathEnd, U, Unwind, cat, pieces_of, sym, vslice)
import llir

STD_EXC = '_ZTISt9exception'
RUST_ERR = '_ZTIN4rust10cxxbridge15ErrorE'


def norm(parts):
    """Merge adjacent pieces [(off,size,val)] into maximal ones."""
    out = []
    for (o, s, v) in parts:
        if not isinstance(v, int) and v[0] == 'cat':
            p = o
            for (x, n) in v[1]:
                out.append((p, n, x))
                p += n
        else:
            out.append((o, s, v))
    res = []
    for (o, s, v) in out:
        if res:
            (po, ps, pv) = res[-1]
            m = cat([(po, ps, pv), (o, s, v)])
            if isinstance(m, int) or m[0] != 'cat':
                res[-1] = (po, ps + s, m)
                continue
        res.append((o, s, v))
    return res


def show(parts):
    return ', '.join('%d..%d=%s' % (o, o + s, showv(v)) for o, s, v in parts)


def showv(v):
    if isinstance(v, int):
        return hex(v)
    if v[0] == 's':
        return '%s[%s:%s]' % (v[1] if isinstance(v[1], str) else showt(v[1]), v[2], v[2] + v[3] if isinstance(v[2], int) else '?')
    if v[0] == 'p':
        return '&%s+%s' % (v[1] if isinstance(v[1], str) else showt(v[1]), v[2])
    if v[0] == 'u':
        return 'uninit'
    return str(v)[:160]


def showt(t):
    return str(t)[:120]


# ---- resources ---------------------------------------------------------------

def track(p, tag, res, nullable=False):
    """Start tracking the owned resources of a value labelled tag."""
    d = p.data.setdefault('res', {})
    for (off, ln, kind) in res:
        d[(tag, off)] = dict(len=ln, kind=kind, consumed=[])
        p.nonnull.add(('s', tag, off, 8))
        p.data.setdefault('bases', set()).add(('s', tag, off, 8))


def consume_parts(p, parts, size, kind, how):
    """A value with these bytes is destroyed / given away."""
    parts = norm(parts)
    real = [x for x in parts if not isinstance(x[2], int)]
    if not real:
        return
    if len(parts) == 1 and parts[0][2][0] == 's':
        tag, off, n = parts[0][2][1], parts[0][2][2], parts[0][2][3]
        if isinstance(tag, tuple) and tag[0] == 'moved':
            return
        r = p.data.get('res', {}).get((tag, off))
        if r is not None:
            if r['len'] != n:
                p.event('bad-consume', 'size', kind, show(parts), how)
            if kind and r['kind'] != kind and not (kind == 'delete' and r['kind'] == 'UniquePtr'):
                p.event('bad-consume', 'kind %s vs %s' % (kind, r['kind']), show(parts), how)
            r['consumed'].append(how)
            p.event('consume', tag, off, how)
            return
        # a sub-range of a tracked resource?
        for (t2, o2), r2 in p.data.get('res', {}).items():
            if t2 == tag and isinstance(off, int) and o2 < off + n and off < o2 + r2['len']:
                p.event('bad-consume', 'overlaps %s@%d' % (t2, o2), show(parts), how)
                return
        p.event('consume-untracked', kind, parts[0][2], how)
        return
    if all(x[2] == U for x in real) and len(real) == len(parts):
        p.event('bad-consume', 'uninitialised', kind, how)
        return
    if kind == 'BoxStr':
        v = cat([x for x in parts if x[0] < 8])
        r = p.data.get('res', {}).get((v[1], v[2])) if v[0] == 's' else None
        if r is not None and r['kind'] == 'BoxStr' and v[2:] == (0, 8):
            n = cat([x for x in parts if x[0] >= 8])
            if r.get('n') is not None and r['n'] != n:
                p.event('bad-consume', 'length', kind, show(parts), how)
            r['consumed'].append(how)
            p.event('consume', v[1], 0, how)
            return
    # partly written values: e.g. vec with changed length. A tracked resource whose
    # identity word (first pointer-sized label found) survives still counts.
    tags = set()
    for x in real:
        v = x[2]
        if v[0] == 's' and isinstance(v[1], str):
            for (t2, o2), r2 in p.data.get('res', {}).items():
                if t2 == v[1] and o2 <= v[2] < o2 + r2['len']:
                    tags.add((t2, o2))
    if len(tags) == 1:
        k = tags.pop()
        p.data['res'][k]['consumed'].append(how)
        p.event('consume', k[0], k[1], how)
        return
    if len(tags) > 1:
        p.event('bad-consume', 'mixed', kind, show(parts), how)
        return
    p.event('consume-untracked', kind, show(parts), how)


def consume(p, ptr, size, kind, how=None):
    o, off = p.deref(ptr)
    if not o.alive:
        p.event('use-after-free', o.id, p.where())
    parts = p.read(o, off, size)
    consume_parts(p, parts, size, kind, how or ('destroyed in ' + p.where()))


def move_out(p, ptr, off, n, kind):
    """Leave a valid moved-from value."""
    o, base = p.deref(ptr)
    a = p.add_off(base, off)
    if kind in ('Box', 'UniquePtr', 'SharedPtr', 'WeakPtr'):
        p.write(o, a, n, 0)
    else:
        p.write(o, a, n, ('s', ('moved', p.fresh('m')), 0, n))


def facts(p, t, tag):
    """What is known about any valid value of this type."""
    if t.life:
        p.nonnull.add(sym(tag, 0, 8))
    for off in NONNULL.get(t.key, ()):
        p.nonnull.add(sym(tag, off, 8))
    for off in BOOLS.get(t.key, ()):
        p.data.setdefault('bools', set()).add(sym(tag, off, 1))


NONNULL = {'Sl': [0, 16]}
BOOLS = {'bool': [0], 'Big': [24]}


# ---- calling conventions ---------------------------------------------------------

class Cursor:
    def __init__(self, items):
        self.items = items
        self.i = 0

    def next(self):
        x = self.items[self.i]
        self.i += 1
        return x

    def peek(self):
        return self.items[self.i] if self.i < len(self.items) else None


def read_arg(p, mod, lang, t, cur):
    """Collect the bytes of one by-value argument at a user function.

    -> (parts, address or None)"""
    if lang == 'c' and not t.triv:
        (ty, at, v) = cur.next()
        o, off = p.deref(v)
        return norm(p.read(o, off, t.size)), v
    if lang == 'c' and t.size > 16:
        (ty, at, v) = cur.next()
        o, off = p.deref(v)
        return norm(p.read(o, off, t.size)), v
    if lang == 'r' and t.size > 8 and not t.fat and not t.pair:
        (ty, at, v) = cur.next()
        if ty.k == 'ptr':
            o, off = p.deref(v)
            return norm(p.read(o, off, t.size)), v
        return norm(flat(mod, ty, v)), None
    if lang == 'r' and (t.pair or t.fat):
        out = []
        for (off, n) in t.pair or [(0, 8), (8, 8)]:
            (ty, at, v) = cur.next()
            if off and out and out[-1][0] + out[-1][1] < off:
                e = out[-1][0] + out[-1][1]
                out.append((e, off - e, U))
            out.append((off, n, v))
        return norm(out), None
    got = 0
    out = []
    while got < t.size:
        (ty, at, v) = cur.next()
        if got == 0 and ty.k == 'ptr' and 'byval' in at:
            o, off = p.deref(v)
            return norm(p.read(o, off, t.size)), v
        for (o, s, x) in flat(mod, ty, v):
            n = min(s, t.size - got)
            out.append((got, n, vslice(x, s, 0, n) if n < s else x))
            got += n
    return norm(out), None


def flat(mod, ty, v, base=0):
    t = mod.resolve(ty)
    if t.k in ('struct', 'array') and not isinstance(v, int) and v[0] == 'agg':
        out = []
        for i, x in enumerate(v[1]):
            o, et = mod.offset(t, i)
            out += flat(mod, et, x, base + o)
        return out
    return [(base, mod.size(t), v)]


def make_args(p, fn, lang, items):
    """Lower labelled logical arguments onto the parameters of fn.

    items: [(T, tag) | ('ptr', value)]"""
    mod = fn.mod
    params = [(x[0], x[1]) for x in fn.params]
    out = []
    i = 0
    for it in items:
        if it[0] == 'ptr':
            out.append(it[1])
            i += 1
            continue
        t, tag = it
        facts(p, t, tag)
        if t.fn and lang == 'r':
            p.nonnull.add(sym(tag, 0, 8))
            out.append(sym(tag, 0, 8))
            i += 1
            continue
        if lang == 'c' and not t.triv:
            q = p.new('arg', t.size, tag, 'heap')
            out.append(q)
            i += 1
            continue
        if lang == 'r' and (t.pair or t.fat):
            for (off, n) in t.pair or [(0, 8), (8, 8)]:
                out.append(('s', tag, off, n))
                i += 1
            continue
        got = 0
        first = True
        while got < t.size:
            ty, at = params[i]
            i += 1
            indirect = ty.k == 'ptr' and (
                'byval' in at or (lang == 'r' and t.size > 8) or (lang == 'c' and t.size > 16))
            if first and indirect:
                q = p.new('arg', t.size, tag, 'heap')
                out.append(q)
                got = t.size
                break
            first = False
            n = min(mod.size(ty), t.size - got)
            out.append(p.fresh_ty(mod, ty, tag, got) if n == mod.size(ty) else ('s', tag, got, n))
            got += mod.size(ty)
    if len(out) != len(params):
        raise AnalysisError('cannot lower arguments of %s: %d for %d' % (fn.name, len(out), len(params)))
    return out


def give_ret(p, mod, lang, t, tag, c):
    """The value a user function returns, labelled tag."""
    if t is None:
        return None
    facts(p, t, tag)
    for a, at in zip(c.args, c.attrs):
        if 'sret' in at:
            o, off = p.deref(a)
            p.write(o, off, t.size, sym(tag, 0, t.size))
            return None
    rt = mod.resolve(c.ret)
    if rt.k == 'void' and t.size:
        raise AnalysisError('no return slot in %s' % c.name)
    if lang == 'r' and rt.k == 'struct' and (t.pair or t.fat):
        return ('agg', tuple(('s', tag, off, n) for off, n in (t.pair or [(0, 8), (8, 8)])))
    if rt.k in ('struct', 'array'):
        return p.fresh_ty(mod, rt, tag)
    return ('s', tag, 0, min(mod.size(rt), t.size) or 1)


RANGES = {
    'Small': [(0, 1), (4, 4)],
    'Big': [(0, 8), (8, 4), (12, 2), (16, 8), (24, 1), (32, 8)],
    'Arr': [(0, 10), (12, 1), (16, 4), (20, 1)],
    'Sl': [(0, 33)],
    'Owner': [(0, 24), (24, 4), (32, 8), (40, 24)],
}


def matches(parts, t, tag):
    """Do these bytes equal the value labelled tag (ignoring padding)?"""
    if t.fn:
        # rust::Fn: a trampoline and the original pointer
        return [x[0:2] for x in parts] == [(0, 8), (8, 8)] and parts[1][2] == sym(tag, 0, 8) \
            and not isinstance(parts[0][2], int) and parts[0][2][0] == 'fn'
    for (off, n) in RANGES.get(t.key, [(0, t.size)]):
        cov = off
        for (o, s, v) in parts:
            a, b = max(o, off), min(o + s, off + n)
            if a < b:
                if a != cov:
                    return False
                x = vslice(v, s, a - o, b - a)
                if isinstance(x, int) or x[0] != 's' or x[1] != tag or x[2] != a:
                    return False
                cov = b
        if cov != off + n:
            return False
    return True


# ---- hooks ----------------------------------------------------------------------

def panic_hook(p, mod, c):
    p.event('panic', c.dem, tuple(c.args), p.where())
    p.raise_(Exc('rust', label=c.dem))


def abort_hook(p, mod, c):
    p.event('abort', c.dem, tuple(c.args))
    raise PathEnd('abort', c.dem)


def external_hook(p, mod, c):
    """Functions without a body."""
    f = c.fn
    if f is not None and 'noreturn' in f.attrs:
        if f.nounwind() or c.nounwind:
            return abort_hook(p, mod, c)
        if c.dem.startswith(('core::', 'alloc::', 'std::')) and not c.dem.startswith('std::__throw'):
            return panic_hook(p, mod, c)
        if c.dem.startswith('std::__throw'):
            p.event('throw', c.dem)
            p.raise_(Exc('cxx', [STD_EXC], label=c.dem))
    return NotImplemented


def base_hooks():
    h = Hooks()
    E = h.name
    R = h.pat

    # Rust
    def drop_string(p, mod, c):
        consume(p, c.args[0], 24, 'String')

    def drop_vec(p, mod, c):
        consume(p, c.args[0], 24, 'Vec')

    def drop_box(p, mod, c):
        n = 16 if re.search(r'Box<(str|\[|dyn )', c.dem) else 8
        consume(p, c.args[0], n, 'Box' if n == 8 else 'BoxStr')

    E('core::ptr::drop_in_place::<alloc::string::String>', drop_string)
    R(r'^core::ptr::drop_in_place::<alloc::vec::Vec<.*>>$', drop_vec)
    R(r'^core::ptr::drop_in_place::<alloc::boxed::Box<.*>>$', drop_box)
    R(r'^core::panicking::panic_(cannot_unwind|in_cleanup|nounwind)', abort_hook)
    R(r'^core::panicking::panic_nounwind', abort_hook)
    R(r'^core::panicking::|^core::option::(unwrap|expect)_failed|^core::result::unwrap_failed|^std::panicking::(begin_panic|rust_panic)'
      r'|^core::slice::index::slice_|^core::str::slice_error_fail|^alloc::raw_vec::(handle_error|capacity_overflow)|^core::cell::panic', panic_hook)
    E('std::process::abort', abort_hook)
    E('core::intrinsics::abort', abort_hook)
    E('alloc::alloc::handle_alloc_error', abort_hook)

    # Rust text
    def lossy(p, mod, c):
        out, ptr, n = c.args
        o, off = p.deref(out)
        if p.choose(2, 'valid utf-8') == 0:
            p.event('lossy', 'borrowed', ptr, n)
            p.write(o, off, 8, 1 << 63)
            p.write(o, p.add_off(off, 8), 8, ptr)
            p.write(o, p.add_off(off, 16), 8, n)
        else:
            tag = p.fresh('lossy')
            p.event('lossy', 'owned', ptr, n, tag)
            p.write(o, off, 24, sym(tag, 0, 24))
            track(p, tag, [(0, 24, 'String')])
            p.data.setdefault('content', {})[sym(tag, 8, 8)] = ('lossy', ptr, n)

    def cow_into_owned(p, mod, c):
        out, cow = c.args
        o, off = p.deref(cow)
        parts = norm(p.read(o, off, 24))
        d, doff = p.deref(out)
        if parts[0][2] == 1 << 63:
            ptr = cat(p.read(o, p.add_off(off, 8), 8))
            n = cat(p.read(o, p.add_off(off, 16), 8))
            tag = p.fresh('owned')
            track(p, tag, [(0, 24, 'String')])
            p.write(d, doff, 16, sym(tag, 0, 16))
            p.write(d, p.add_off(doff, 16), 8, n)
            p.data.setdefault('content', {})[sym(tag, 8, 8)] = ('copy', ptr, n)
        else:
            p.memcpy(out, cow, 24)

    def into_boxed_str(p, mod, c):
        s = c.args[0]
        o, off = p.deref(s)
        if not isinstance(off, int):
            raise AnalysisError('string address')
        ptr = cat(p.read(o, off + 8, 8))
        n = cat(p.read(o, off + 16, 8))
        consume(p, s, 24, 'String', 'converted')
        tag = p.fresh('boxstr')
        track(p, tag, [(0, 16, 'BoxStr')])
        q = sym(tag, 0, 8)
        p.data['res'][(tag, 0)]['n'] = n
        p.data.setdefault('content', {})[q] = p.data.get('content', {}).get(ptr, ('copy', ptr, n))
        return ('agg', (q, n))

    E('alloc::string::String::from_utf8_lossy', lossy)
    R(r'^<?alloc::string::String>?::from_utf8_lossy', lossy)
    E('<alloc::borrow::Cow<str>>::into_owned', cow_into_owned)
    E('<alloc::string::String>::into_boxed_str', into_boxed_str)
    E('<alloc::string::String as core::convert::Into<alloc::boxed::Box<str>>>::into', into_boxed_str)
    E('<alloc::boxed::Box<str> as core::convert::From<alloc::string::String>>::from', into_boxed_str)
    R(r'^alloc::raw_vec::RawVec.*::grow_one', lambda p, mod, c: None)

    # C++
    E('abort', abort_hook)
    E('_ZSt9terminatev', lambda p, mod, c: terminate(p))
    E('__clang_call_terminate', lambda p, mod, c: terminate(p))
    E('__cxa_call_unexpected', lambda p, mod, c: terminate(p))

    def terminate(p):
        p.event('terminate', p.where())
        raise PathEnd('terminate', p.where())

    E('__cxa_allocate_exception', lambda p, mod, c: p.new('exc', c.args[0] if isinstance(c.args[0], int) else None, kind='heap'))
    E('__cxa_free_exception', lambda p, mod, c: None)

    def cxa_throw(p, mod, c):
        ti = c.args[1]
        n = ti[1][2:] if not isinstance(ti, int) and ti[0] == 'p' and isinstance(ti[1], str) and ti[1].startswith('g:') else str(ti)
        tis = {n}
        if n == RUST_ERR or n.startswith('_ZTISt') or n.startswith('_ZTINSt'):
            tis.add(STD_EXC)
        p.event('throw', n, c.args[0])
        e = Exc('cxx', tis, c.args[0], n)
        if not isinstance(c.args[2], int) and c.args[2][0] == 'fn':
            e.dtor = c.args[2]
        p.raise_(e)

    E('__cxa_throw', cxa_throw)

    def begin_catch(p, mod, c):
        v = c.args[0]
        if not isinstance(v, int) and v[0] == 'p' and v[1] in p.excs:
            p.caught.append(p.excs[v[1]])
            p.event('catch', p.excs[v[1]].label)
        return v

    def end_catch(p, mod, c):
        if p.caught:
            e = p.caught.pop()
            if e not in p.caught and e.dtor is not None and not e.rethrown:
                d, e.dtor = e.dtor, None
                m = next((x for x in p.prog.modules if x.label == d[2]), mod)
                t = p.prog.lookup(m, d[1])
                if t is not None and t.defined:
                    p.callfn(t, [e.obj])
            e.rethrown = False
        return None

    def rethrow(p, mod, c):
        if not p.caught:
            terminate(p)
        p.caught[-1].rethrown = True
        raise Unwind(p.caught[-1])

    E('__cxa_begin_catch', begin_catch)
    E('__cxa_end_catch', end_catch)
    E('__cxa_rethrow', rethrow)
    E('__cxa_get_exception_ptr', lambda p, mod, c: c.args[0])
    E('__cxa_guard_acquire', lambda p, mod, c: 0)

    def op_new(p, mod, c):
        v = p.new('new', c.args[0] if isinstance(c.args[0], int) else None, kind='cxxnew')
        p.data.setdefault('room', {})[v[1]] = p.canon(c.args[0])
        return v

    for n in ('_Znwm', '_Znam', '_ZnwmSt11align_val_t'):
        E(n, op_new)

    def op_delete(p, mod, c):
        v = p.canon(c.args[0])
        if isinstance(v, int):
            return None
        if v[0] == 'p':
            o = p.obj(v[1])
            if not o.alive:
                p.event('double-free', v[1], p.where())
            o.alive = False
            p.event('free', v[1])
            return None
        consume_parts(p, [(0, 8, v)], 8, 'delete', 'deleted in ' + p.where())
        return None

    for n in ('_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdlPvmSt11align_val_t'):
        E(n, op_delete)

    def strlen(p, mod, c):
        return ('x', 'strlen', c.args[0])
    E('strlen', strlen)

    # shared and weak pointers
    for k, kind in (('shared', 'SharedPtr'), ('weak', 'WeakPtr')):
        cls = r'std::%s_ptr<.*>' % k

        def mv(p, mod, c, kind=kind):
            p.memcpy(c.args[0], c.args[1], 16)
            o, off = p.deref(c.args[1])
            p.write(o, off, 16, 0)

        def cp(p, mod, c, kind=kind):
            o, off = p.deref(c.args[1])
            src = norm(p.read(o, off, 16))
            do, doff = p.deref(c.args[0])
            if all(isinstance(x[2], int) for x in src):
                p.write(do, doff, 16, 0)
                return
            tag = p.fresh('clone')
            p.event('clone', kind, show(src), tag)
            p.write(do, doff, 16, sym(tag, 0, 16))
            track(p, tag, [(0, 16, kind)])
            p.data['res'][(tag, 0)]['clone_of'] = src

        def dtor(p, mod, c, kind=kind):
            consume(p, c.args[0], 16, kind)

        def dflt(p, mod, c):
            o, off = p.deref(c.args[0])
            p.write(o, off, 16, 0)

        def asg(p, mod, c, kind=kind, mv=mv):
            if p.canon(c.args[0]) == p.canon(c.args[1]):
                return c.args[0]
            consume(p, c.args[0], 16, kind)
            mv(p, mod, c)
            return c.args[0]

        n = k + '_ptr'
        R(r'^%s::%s\(%s&&\)$' % (cls, n, cls), mv)
        R(r'^%s::%s\(%s const&\)$' % (cls, n, cls), cp)
        R(r'^%s::~%s\(\)$' % (cls, n), dtor)
        R(r'^%s::%s\(\)$' % (cls, n), dflt)
        R(r'^%s::operator=\(%s&&\)$' % (cls, cls), asg)
    R(r'^std::exception::(~?exception)\(.*\)$', lambda p, mod, c: None)
    # C++ library objects behind pointers
    R(r'^std::__cxx11::basic_string<.*>::~basic_string\(\)$', pointee_dtor)
    R(r'^std::vector<.*>::~vector\(\)$', pointee_dtor)
    E('<external>', external_hook)
    return h


def pointee_dtor(p, mod, c):
    p.event('pointee-dtor', p.canon(c.args[0]), c.dem)
