"""Relational dataflow over the runtime library: every operation of the wrapper types, as the other
language sees it, against what the wrapped type's own language does (lib/rtobs.py lists them)."""
import multiprocessing
import os
import re
import signal
import sys
import time

import flow
import llir
import rel
import rtobs
import xlang
from flow import AnalysisError, Exc, Obj, PathEnd, U, Unwind, cat, sym, lin_of, mk_lin
from xlang import norm

WORD = 8


# ------------------------------------------------------------------ models of the primitives both sides bottom out in
def word(p, ptr, off):
    o, a = p.deref(ptr)
    return cat(p.read(o, p.add_off(a, off), 8))


def put(p, ptr, off, v, n=8):
    o, a = p.deref(ptr)
    p.write(o, p.add_off(a, off), n, v)


def dead(p, v, what):
    """The memory behind this label is gone."""
    v = p.canon(v)
    if not isinstance(v, int):
        p.data.setdefault('dead', {})[v] = what


def use(p, v):
    v = p.canon(v)
    if not isinstance(v, int):
        w = p.data.get('dead', {}).get(v)
        if w:
            p.event('use-after-free', w, 'in ' + p.where())


def text(p, out, ptr, n, how='text'):
    """A new Rust String holding a copy of n bytes at ptr."""
    k = p.data.setdefault('texts', {})
    ptr = p.canon(ptr)
    same = how == 'text' and isinstance(ptr, tuple) and ptr[0] == 's' and isinstance(ptr[1], tuple) and len(ptr[1]) == 2 and ptr[1][1] == 'ptr'
    if same:
        # a copy of a copy
        how, ptr, n = ptr[1][0][1:4]
    key = (how, ptr, n)
    k[key] = k.get(key, 0) + 1
    tag = ('text',) + key + (k[key],)
    put(p, out, 0, sym((tag, 'cap')))
    put(p, out, 8, sym((tag, 'ptr')))
    put(p, out, 16, n if how == 'text' else sym((('of',) + key, 'len')))
    p.nonnull.add(sym((tag, 'ptr')))
    p.event('alloc', tag)


def empty(p, ptr, off):
    v = word(p, ptr, off)
    return v == 0


def hooks():
    h = xlang.base_hooks()
    E, R = h.name, h.pat
    h.exact = {k: v for k, v in h.exact.items() if 'drop_in_place' not in k and 'Cow' not in k and 'boxed_str' not in k and 'Box<str>' not in k and 'from_utf8' not in k and 'strlen' not in k}
    h.rx = [(a, b) for a, b in h.rx if 'drop_in_place' not in a.pattern and 'grow_one' not in a.pattern and 'std::' not in a.pattern[:12] and 'from_utf8' not in a.pattern]

    def front(rx, f):
        h.rx.insert(0, (re.compile(rx), f))

    def drop_text(p, mod, c):
        a = c.args[0]
        use(p, word(p, a, 8))
        if word(p, a, 0) == 0:
            return      # String::new(), Vec::new()
        if not isinstance(word(p, a, 0), int) and word(p, a, 0) == U:
            p.event('bad-consume', 'uninitialised value dropped', p.where())
        p.event('drop', kind(c.dem), p.canon(word(p, a, 8)), word(p, a, 16))
        dead(p, word(p, a, 8), 'buffer of ' + kind(c.dem) + ' already freed')

    def kind(dem):
        return re.sub(r'\b([iu])size\b', r'\g<1>64', re.sub(r'^core::ptr::drop_in_place::<(.*)>$', r'\1', dem)).replace('cxx::rust_string::RustString', 'alloc::string::String').replace('cxx::rust_vec::RustVec', 'alloc::vec::Vec')

    def drop_box(p, mod, c):
        a = c.args[0]
        v = p.canon(word(p, a, 0))
        use(p, v)
        if v == U:
            p.event('bad-consume', 'uninitialised Box dropped', p.where())
        p.event('drop', kind(c.dem), v)
        dead(p, v, 'Box already freed')

    def drop_slice(p, mod, c):
        if c.args[1] == 0:
            return
        p.event('drop', kind(c.dem), p.canon(c.args[0]), c.args[1])

    front(r'^core::ptr::drop_in_place::<alloc::boxed::Box<.*>>$', drop_box)
    front(r'^core::ptr::drop_in_place::<alloc::vec::Vec<.*>>$', drop_text)
    front(r'^core::ptr::drop_in_place::<alloc::string::String>$', drop_text)
    front(r'^core::ptr::drop_in_place::<\[.*\]>$', drop_slice)

    def clone_string(p, mod, c):
        out, s = c.args
        use(p, word(p, s, 8))
        text(p, out, word(p, s, 8), word(p, s, 16))
    E('<alloc::string::String as core::clone::Clone>::clone', clone_string)

    def to_owned(p, mod, c):
        text(p, c.args[0], c.args[1], c.args[2])
    R(r'^<str as alloc::borrow::ToOwned>::to_owned$|^<alloc::string::String as core::convert::From<&(mut )?str>>::from$|^<str as alloc::string::ToString>::to_string$'
      r'|^<str as alloc::string::SpecToString>::spec_to_string$|^<str>::to_owned$|^alloc::str::<impl .*>::to_owned$', to_owned)

    def from_utf8(p, mod, c):
        out, ptr, n = c.args
        use(p, ptr)
        ids = p.__dict__.setdefault('ids', {})
        ident = ids.setdefault((p.canon(ptr), n), len(ids))
        if ident >= 3 or p.decide(('utf8', p.canon(ptr), n), 2, 'valid utf-8') == 0:
            put(p, out, 0, 0)
            put(p, out, 8, ptr)
            put(p, out, 16, n)
        else:
            v, e = sym('valid_up_to%d' % ident), sym('error_len%d' % ident)
            put(p, out, 0, 1)
            put(p, out, 8, v)
            put(p, out, 16, e)
            p.truth_is(p.icmp('ult', 64, n, v), False)
            p.truth_is(p.icmp('ule', 64, v, n), True)
            k = cat([(0, 1, flow.vslice(e, 8, 1, 1)), (1, 7, 0)])
            p.truth_is(p.icmp('ult', 64, p.binop('sub', 64, n, v), k), False)
            p.truth_is(p.icmp('ult', 64, n, p.binop('add', 64, v, k)), False)
    R(r'^core::str::converts::from_utf8$|^core::str::from_utf8$', from_utf8)

    def lossy(p, mod, c):
        out, ptr, n = c.args
        use(p, ptr)
        if p.decide(('utf8', p.canon(ptr), n), 2, 'valid utf-8') == 0:
            put(p, out, 0, 1 << 63)
            put(p, out, 8, ptr)
            put(p, out, 16, n)
        else:
            text(p, out, ptr, n, 'lossy')
    R(r'^<?alloc::string::String>?::from_utf8_lossy$', lossy)

    def into_owned(p, mod, c):
        out, cow = c.args
        if word(p, cow, 0) == 1 << 63:
            text(p, out, word(p, cow, 8), word(p, cow, 16))
        else:
            p.memcpy(out, cow, 24)
    R(r'^<alloc::borrow::Cow<(str|.*)>>::into_owned$', into_owned)

    def utf16(p, mod, c):
        out, ptr, n = c.args
        use(p, ptr)
        if p.decide(('utf16', p.canon(ptr), n), 2, 'valid utf-16') == 0:
            text(p, out, ptr, n, 'utf16')
        else:
            put(p, out, 0, 1 << 63)
    R(r'^<?alloc::string::String>?::from_utf16$', utf16)

    def utf16_lossy(p, mod, c):
        out, ptr, n = c.args
        use(p, ptr)
        text(p, out, ptr, n, 'utf16' if p.decide(('utf16', p.canon(ptr), n), 2, 'valid utf-16') == 0 else 'utf16lossy')
    R(r'^<?alloc::string::String>?::from_utf16_lossy$', utf16_lossy)

    def reserve(p, mod, c):
        v, add = c.args[:2]
        ptr = p.canon(word(p, v, 8))
        use(p, ptr)
        if add == 0:
            return
        cap, n = word(p, v, 0), word(p, v, 16)
        need = p.binop('add', 64, n, add)
        if not p.truth(p.icmp('ult', 64, cap, need)):
            return
        p.event('reserve', ptr, n, add)
        if not (not isinstance(cap, int) and cap[0] == 's' and isinstance(cap[1], tuple) and cap[1][0] == 'cap'):
            put(p, v, 0, sym(('cap', cap)))
        p.truth_is(p.icmp('ult', 64, word(p, v, 0), need), False)
        if isinstance(ptr, int):
            b = p.data['bufs'] = p.data.get('bufs', 0) + 1
            put(p, v, 8, sym('buffer%d' % b))
            p.nonnull.add(sym('buffer%d' % b))
        elif ptr[0] == 's':
            # the buffer moves: the old one is gone, the new one has the same contents
            old, off = p.deref(ptr)
            new = sym(('realloc', ptr))
            p.nonnull.add(new)
            o, _ = p.deref(new)
            if o is not old and off == 0:
                o.cells = dict(old.cells)
                o.default = old.default
                put(p, v, 8, new)
                dead(p, ptr, 'pointer into a buffer that was reallocated')
                for e, base in list(p.data.get('inside', {}).items()):
                    if base == ptr:
                        dead(p, e, 'element pointer into a buffer that was reallocated')
        for e, base in p.data.get('inside', {}).items():
            if base == ptr:
                dead(p, e, 'element pointer into a buffer that was reallocated')
    R(r'^<?alloc::vec::Vec<.*>>?::reserve(_exact)?$|^<?alloc::string::String>?::reserve(_exact)?$', reserve)

    def boxnew(p, mod, c):
        n, al = c.args[:2]
        q = p.new('box', n if isinstance(n, int) else None, kind='rustalloc')
        return q
    R(r'^alloc::alloc::exchange_malloc$|^(__rustc::)?__rust_alloc$|^alloc::alloc::alloc$', boxnew)

    def rfree(p, mod, c):
        v = p.canon(c.args[0])
        if not isinstance(v, int) and v[0] == 'p':
            o = p.obj(v[1])
            if not o.alive:
                p.event('double-free', v[1], p.where())
            o.alive = False
        else:
            use(p, v)
            dead(p, v, 'allocation already freed')
            p.event('free', v)
    R(r'^(__rustc::)?__rust_dealloc$|^alloc::alloc::dealloc$|^<alloc::alloc::Global as core::alloc::Allocator>::deallocate$', rfree)
    R(r'^<alloc::boxed::Box<.*> as core::ops::drop::Drop>::drop$', lambda p, mod, c: rfree_box(p, c))

    def rfree_box(p, c):
        v = word(p, c.args[0], 0)
        p.event('free', p.canon(v))
        dead(p, v, 'Box already freed')

    # bytes
    def cmp_bytes(p, mod, c):
        a, b, n = c.args
        if n == 0 or p.canon(a) == p.canon(b):
            return 0
        if isinstance(n, int) and n <= 8:
            for i in range(n):
                x = p.load(p.ptr_add(a, i), 1)
                y = p.load(p.ptr_add(b, i), 1)
                if not p.truth(p.icmp('eq', 8, x, y)):
                    return (1 << 32) - 1 if p.truth(p.icmp('ult', 8, x, y)) else 1
            return 0
        return ('x', 'memcmp', p.canon(a), p.canon(b), n)
    for n in ('memcmp', 'bcmp'):
        E(n, cmp_bytes)

    def slice_eq(p, mod, c):
        a, n, b, m = c.args
        if not p.truth(p.icmp('eq', 64, n, m)):
            return 0
        class K: pass
        k = K()
        k.args = [a, b, n]
        return int(p.truth(p.icmp('eq', 32, cmp_bytes(p, mod, k), 0)))
    R(r'^<\[A\] as core::slice::cmp::SlicePartialEq<B>>::equal$', slice_eq)
    def cmp_text(p, mod, c):
        a, b = c.args[:2]
        n = c.args[2] if len(c.args) > 2 else None
        for i in range(8 if n is None else n if isinstance(n, int) and n <= 8 else 0):
            x = p.load(p.ptr_add(a, i), 1)
            y = p.load(p.ptr_add(b, i), 1)
            if not p.truth(p.icmp('eq', 8, x, y)):
                return (1 << 32) - 1 if p.truth(p.icmp('ult', 8, x, y)) else 1
            if p.truth(p.icmp('eq', 8, x, 0)):
                return 0
        if isinstance(n, int) and n <= 8:
            return 0
        raise AnalysisError('comparison of texts of unknown length')
    for n in ('strcmp', 'strncmp'):
        E(n, cmp_text)
    E('strlen', lambda p, mod, c: ('x', 'strlen', p.canon(c.args[0])))
    R(r'^std::char_traits<(char|char16_t)>::length\(', lambda p, mod, c: ('x', 'strlen', p.canon(c.args[0])))

    def index_range(p, mod, c):
        lo, ptr, n = c.args[:3] if 'RangeFrom' in c.dem else (0, c.args[1], c.args[2])
        hi = n if 'RangeFrom' in c.dem else c.args[0]
        if p.truth(p.icmp('ult', 64, hi, lo)) or p.truth(p.icmp('ult', 64, n, hi)):
            p.raise_(Exc('rust', [], label='panic'))
        return ('agg', (p.ptr_add(ptr, lo), p.binop('sub', 64, hi, lo)))
    R(r'^<core::ops::range::Range(From|To)<usize> as core::slice::index::SliceIndex<\[T\]>>::index(_mut)?$', index_range)

    def write_fmt(p, mod, c):
        # a format string without arguments is written as it is
        a = c.args[1]
        import copy
        k = copy.copy(c)
        try:
            np, na, pieces = word(p, a, 8), word(p, a, 24), word(p, a, 0)
        except AnalysisError:
            np = None
        if np == 1 and na == 0:
            k.dem, k.args, k.attrs = 'core::fmt::Formatter::write_str', [c.args[0], word(p, pieces, 0), word(p, pieces, 8)], [c.attrs[0], [], []]
        elif na == 1 and np == 1 and word(p, pieces, 8) == 0 and word(p, a, 32) == 0:
            # "{}" of a text writes the text
            arg, fn = word(p, word(p, a, 16), 0), word(p, word(p, a, 16), 8)
            dem = p.prog.dem.get(fn[1], str(fn[1])) if isinstance(fn, tuple) and fn[0] == 'fn' else ''
            if dem.startswith('<&T as core::fmt::Display>'):
                called = {p.prog.dem.get(x, x) for x in re.findall(r'@"?([\w$.]+)"?\(', '\n'.join(p.prog.defs[fn[1]].lines))} - {dem, fn[1]}
                dem = '<&str as core::fmt::Display>::fmt' if called == {'<str as core::fmt::Display>::fmt'} else ''
            m = re.match(r'^<(&*)(str|alloc::boxed::Box<str>|alloc::string::String) as core::fmt::Display>::fmt$', dem)
            if not m:
                if 'borrow::Cow' in dem or not dem:
                    raise AnalysisError('formatting with ' + (dem or str(fn)))
                k.dem = 'core::fmt::Formatter::write_fmt with arguments'
                return p.external(mod, k)
            for _ in m.group(1)[:-1] if m.group(2) == 'str' else m.group(1):
                arg = word(p, arg, 0)
            o = 8 if 'String' in dem else 0
            k.dem, k.args, k.attrs = 'core::fmt::Formatter::write_str', [c.args[0], word(p, arg, o), word(p, arg, o + 8)], [c.attrs[0], [], []]
        else:
            k.dem = 'core::fmt::Formatter::write_fmt with arguments'
        return p.external(mod, k)
    R(r'^<?core::fmt::Formatter>?::write_fmt$', write_fmt)

    # std::string
    S = r'^std::__cxx11::basic_string<char, .*>::'

    def str_ctor(p, mod, c):
        this, ptr, n = c.args[:3]
        put(p, this, 0, sym(('std', p.canon(ptr), n)))
        put(p, this, 8, n)
        p.event('alloc', 'std::string', p.canon(ptr), n)

    def std_empty(p, mod, c):
        put(p, c.args[0], 0, sym(('std', 0, 0)))
        put(p, c.args[0], 8, 0)

    def std_dtor(p, mod, c):
        use(p, word(p, c.args[0], 0))
        if word(p, c.args[0], 0) == U:
            p.event('bad-consume', 'uninitialised std::string destroyed', p.where())
        p.event('drop', 'std::string', p.canon(c.args[0]), p.canon(word(p, c.args[0], 0)))
        dead(p, word(p, c.args[0], 0), 'std::string already destroyed')

    def append(p, mod, c):
        if p.truth(p.icmp('eq', 64, c.args[2], 0)):
            return c.args[0]
        p.event('append', p.canon(c.args[0]), p.canon(c.args[1]), c.args[2])
        put(p, c.args[0], 8, p.binop('add', 64, word(p, c.args[0], 8), c.args[2]))
        return c.args[0]

    front(S + r'basic_string\((char const\*|char const\*, unsigned long), std::allocator<char> const&\)$', lambda p, mod, c: str_ctor(p, mod, c))
    front(S + r'basic_string\(char const\*, unsigned long, ', str_ctor)
    def str_z(p, mod, c):
        k = type('K', (), {})()
        k.args = [c.args[0], c.args[1], ('x', 'strlen', p.canon(c.args[1]))]
        str_ctor(p, mod, k)

    def str_range(p, mod, c):
        k = type('K', (), {})()
        k.args = [c.args[0], c.args[1], p.binop('sub', 64, c.args[2], c.args[1])]
        str_ctor(p, mod, k)
    front(S + r'basic_string<std::allocator<char>>\(char const\*, std::allocator<char> const&\)$', str_z)
    front(S + r'basic_string<char const\*, void>\(char const\*, char const\*, std::allocator<char> const&\)$', str_range)
    front(S + r'basic_string\(\)$', std_empty)
    front(S + r'~basic_string\(\)$', std_dtor)
    front(S + r'append\(char const\*, unsigned long\)$', append)
    front(S + r'clear\(\)$', lambda p, mod, c: (p.event('clear', p.canon(c.args[0])), put(p, c.args[0], 8, 0))[0])
    front(S + r'(data|c_str)\(\)( const)?$', lambda p, mod, c: p.canon(word(p, c.args[0], 0)))
    front(S + r'(size|length)\(\) const$', lambda p, mod, c: word(p, c.args[0], 8))
    front(S + r'empty\(\) const$', lambda p, mod, c: p.icmp('eq', 64, word(p, c.args[0], 8), 0))
    front(S + r'reserve\(unsigned long\)$', lambda p, mod, c: p.event('std-reserve', p.canon(c.args[0]), c.args[1]))
    front(r'^std::allocator<.*>::~?allocator\(', lambda p, mod, c: None)
    front(r'^std::(invalid_argument|out_of_range|logic_error|length_error|exception|bad_alloc)::~?(invalid_argument|out_of_range|logic_error|length_error|exception|bad_alloc)\(', lambda p, mod, c: None)

    # std::vector
    V = r'^std::vector<.*>::'

    def vec_dtor(p, mod, c):
        p.event('drop', 'std::vector', p.canon(c.args[0]))

    def vec_push(p, mod, c):
        o, off = p.deref(c.args[1])
        n = SIZES.get(re.sub(r'^std::vector<(.*?), std::allocator<.*$', r'\1', c.dem), None)
        v = norm(p.read(o, off, n)) if n else [(0, 0, p.canon(c.args[1]))]
        p.event('push', p.canon(c.args[0]), tuple(x[2] for x in v))

    front(V + r'~vector\(\)$', vec_dtor)
    front(V + r'push_back\(', vec_push)
    front(V + r'emplace_back<', lambda p, mod, c: vec_push(p, mod, c))
    def vec_pop(p, mod, c):
        p.event('pop', p.canon(c.args[0]))
        n = SIZES.get(re.sub(r'^std::vector<(.*?), std::allocator<.*$', r'\1', c.dem), None)
        if n:
            put(p, c.args[0], 8, p.ptr_add(word(p, c.args[0], 8), -n))
    front(V + r'pop_back\(\)$', vec_pop)
    front(V + r'vector\(\)$', lambda p, mod, c: [put(p, c.args[0], k, 0) for k in (0, 8, 16)] and None)

    # shared and weak pointers
    for k in 'shared', 'weak':
        cls = r'std::%s_ptr<.*>' % k
        n = k + '_ptr'

        def mv(p, mod, c):
            p.memcpy(c.args[0], c.args[1], 16)
            put(p, c.args[1], 0, 0)
            put(p, c.args[1], 8, 0)

        def cp(p, mod, c, k=k):
            a, b = word(p, c.args[1], 0), word(p, c.args[1], 8)
            if b != 0:
                p.event('ref+', k, b)
            put(p, c.args[0], 0, a)
            put(p, c.args[0], 8, b)

        def dtor(p, mod, c, k=k):
            b = word(p, c.args[0], 8)
            if b == U:
                p.event('bad-consume', 'uninitialised pointer destroyed', p.where())
            if b != 0:
                p.event('ref-', k, b)

        def dflt(p, mod, c):
            put(p, c.args[0], 0, 0)
            put(p, c.args[0], 8, 0)

        def own(p, mod, c, k=k):
            v = p.canon(c.args[1])
            put(p, c.args[0], 0, v)
            put(p, c.args[0], 8, sym(('count', v)))
            p.event('own', v)
        front(r'^%s::%s\((%s|std::nullptr_t)&&\)$' % (cls, n, cls), mv)
        front(r'^%s::%s\(%s const&\)$' % (cls, n, cls), cp)
        front(r'^%s::~%s\(\)$' % (cls, n), dtor)
        front(r'^%s::%s\(\)$' % (cls, n), dflt)
        if k == 'shared':
            front(r'^%s::%s<.*>\([^:]*\*\)$' % (cls, n), own)

    def downgrade(p, mod, c):
        a, b = word(p, c.args[1], 0), word(p, c.args[1], 8)
        if b != 0:
            p.event('ref+', 'weak', b)
        put(p, c.args[0], 0, a)
        put(p, c.args[0], 8, b)

    def lock(p, mod, c):
        out, w = c.args
        b = word(p, w, 8)
        if b != 0 and p.decide(('expired', b), 2, 'still alive') == 0:
            p.event('ref+', 'shared', b)
            put(p, out, 0, word(p, w, 0))
            put(p, out, 8, b)
        else:
            put(p, out, 0, 0)
            put(p, out, 8, 0)
    front(r'^(void )?std::weak_ptr<.*>::weak_ptr<.*>\(std::shared_ptr<.*> const&\)$', downgrade)
    front(r'^std::weak_ptr<.*>::lock\(\) const$', lock)

    def external(p, mod, c):
        # a moved-from value may be destroyed any number of times
        if re.match(r'^(rt::Tk::~Tk\(\)|d_drop)$', c.dem):
            use(p, c.args[0])
            o, off = p.deref(c.args[0])
            v = p.canon(cat(p.read(o, off, 8)))
            if isinstance(v, tuple) and v[:2] == sym(('moved-from',))[:2]:
                put(p, c.args[0], 0, sym(('destroyed',)))
                return None
            if c.dem != 'd_drop':
                p.event('drop', 'Tk', v)
                if isinstance(o.id, str):
                    put(p, c.args[0], 0, sym(('destroyed',)))
                return None
        r = xlang.external_hook(p, mod, c)
        if r is not NotImplemented:
            return r
        if re.match(r'^(may_throw|rt::Tk::Tk\(rt::Tk const&\)|rt::Tk::Tk\(rt::Tk&&\))', c.dem):
            return tk(p, mod, c)
        return NotImplemented

    def tk(p, mod, c):
        if 'const&' in c.dem and p.decide(('throws', sum(1 for e in p.events if e[0] == 'copy')), 2, 'copy succeeds') == 1:
            p.event('copy-throws', p.canon(c.args[1]))
            p.raise_(Exc('cxx', ['user'], label='user'))
        use(p, c.args[1])
        o, off = p.deref(c.args[1])
        v = p.canon(cat(p.read(o, off, 8)))
        if 'const&' in c.dem:
            p.event('copy', v)
            v = sym(('copy of', v))
        else:
            put(p, c.args[1], 0, sym(('moved-from',)))
        put(p, c.args[0], 0, v)
        return None
    E('<external>', external)
    derives(h)
    return h


def derives(h):
    """Fields of unknown type, whose traits are functions of their values, and the standard library's formatting builder."""
    E, R = h.name, h.pat

    def content(p, ptr):
        return p.canon(cat(p.read(*p.deref(ptr), 8)))

    def rel_(partial):
        def f(p, mod, c):
            a, b = content(p, c.args[0]), content(p, c.args[1])
            if a == b and not partial:
                return 0
            flip = repr(a) > repr(b)
            if flip:
                a, b = b, a
            if a == b:
                return (0, 2)[p.decide(('rel', a, b), 2, 'equal to itself')]
            r = (0, -1, 1, 2)[p.decide(('rel', partial, a, b), 3 + partial, 'order')]
            return (-r if flip and r != 2 else r) & 255
        return f
    E('k_rel', rel_(False))
    E('q_rel', rel_(True))
    E('k_id', lambda p, mod, c: sym(('id', content(p, c.args[0])), 0, 8))
    E('k_mix', lambda p, mod, c: sym(('mix', p.canon(c.args[0]), p.canon(c.args[1])), 0, 8))

    def mixb(p, mod, c):
        ptr, n = p.canon(c.args[1]), p.canon(c.args[2])
        if isinstance(n, int) and n <= 16:
            ptr = p.canon(cat(p.read(*p.deref(ptr), n)))
        return sym(('mix', p.canon(c.args[0]), ptr, n), 0, 8)
    E('k_mixb', mixb)

    def clone(p, mod, c):
        v = content(p, c.args[0])
        p.event('clone', v)
        return sym(('clone of', v), 0, 8)
    E('k_clone', clone)
    E('k_default', lambda p, mod, c: sym((p.fresh('default'),), 0, 8))

    def outcome(p):
        return p.decide((p.fresh('formatted'),), 2, 'formatting succeeds')

    def fmt(p, mod, c):
        p.event('fmt', content(p, c.args[0]), p.canon(c.args[1]))
        return outcome(p)
    E('k_fmt', fmt)

    def debug_struct(p, mod, c):
        p.event('debug-struct', *[p.canon(x) for x in c.args[-3:]])
        if len(c.args) == 4:
            put(p, c.args[0], 0, sym('debug struct'))
            return None
        return ('agg', (sym('debug struct'), 0))

    def field(p, mod, c):
        p.event('field', p.fresh('field'), *[p.canon(x) for x in c.args[1:5]])
        return c.args[0]

    def finish(p, mod, c):
        p.event('finish', p.fresh('finish'))
        return outcome(p)
    R(r'^<?core::fmt::Formatter>?::debug_struct$', debug_struct)
    R(r'^<?core::fmt::builders::DebugStruct>?::field$', field)
    R(r'^<?core::fmt::builders::DebugStruct>?::finish$', finish)


SIZES = {'unsigned char': 1, 'rt::C': 8, 'rt::Tk': 8, 'int': 4, 'double': 8, 'unsigned short': 2, 'unsigned int': 4, 'unsigned long': 8, 'signed char': 1, 'short': 2, 'long': 8, 'float': 4,
         'char': 1, 'rt::P': 12, 'rt::Sh': 40}


class Path(rel.Path):
    LOOP = 8

    def deref(self, ptr):
        o, off = flow.Path.deref(self, ptr)
        d = self.data.get('dead')
        if d and isinstance(o.id, tuple) and o.id[0] == '*' and o.id[1] in d:
            self.event('use-after-free', d[o.id[1]], 'in ' + self.where())
        return o, off

    def intrinsic(self, mod, env, name, rt, cargs):
        if name.startswith('llvm.usub.sat'):
            A = [self.val(mod, env, a[2], a[0]) for a in cargs]
            return 0 if self.truth(self.icmp('ult', 64, A[0], A[1])) else self.binop('sub', 64, A[0], A[1])
        if name.startswith(('llvm.umin', 'llvm.umax')):
            A = [self.val(mod, env, a[2], a[0]) for a in cargs]
            lt = self.truth(self.icmp('ult', 64, A[0], A[1]))
            return A[0] if lt == ('umin' in name) else A[1]
        if name.startswith(('llvm.ucmp', 'llvm.scmp')):
            A = [self.val(mod, env, a[2], a[0]) for a in cargs]
            bits = cargs[0][0].n
            s = name[5]
            if self.truth(self.icmp(s + 'lt', bits, A[0], A[1])):
                return 255
            return 0 if self.truth(self.icmp('eq', bits, A[0], A[1])) else 1
        return flow.Path.intrinsic(self, mod, env, name, rt, cargs)

    def truth_is(self, c, v):
        if not isinstance(c, int) and c[0] == 'x' and c[1] == 'icmp':
            self.assume[c] = v

    def implied(self, key):
        r = flow.Path.implied(self, key)
        if r is None and key[0] == 'x' and key[1] == 'icmp':
            _, _, pred, a, b = key
            for s in ('us' if pred == 'eq' else pred[0]):
                got = self.relation(s, a, b)
                want = {'eq': {'='}, 'lt': {'<'}, 'le': {'<', '='}}[pred if pred == 'eq' else pred[1:]]
                if got <= want:
                    return True
                if not got & want:
                    return False
        return r

    def note(self, key, r):
        flow.Path.note(self, key, r)
        # a size that is neither 1 nor more
        if r is False and key[0] == 'x' and key[1] == 'icmp' and (key[2:4] == ('slt', 1) or key[2] == 'eq' and key[4] == 1):
            n = key[4] if key[2] == 'slt' else key[3]
            A = self.assume
            if A.get(('x', 'icmp', 'slt', 1, n)) is False and A.get(('x', 'icmp', 'eq', n, 1)) is False and self.data.get('sizes') and n in self.data['sizes']:
                A[('x', 'icmp', 'eq', n, 0)] = True
        # a C++ vector has no buffer only if it has no elements
        if key[0] == 'x' and key[1] == 'icmp' and key[2] == 'eq' and key[4] == 0:
            q = key[3]
            if r is False and q[0] == 's' and isinstance(q[1], str) and q[1].endswith('.len'):
                b = sym(q[1][:-4], 0, 8)
                self.nonnull.add(b)
                self.assume[('x', 'icmp', 'eq', b, 0)] = False
            for b in self.data.get('vectors', ()):
                if r is True and q == b:
                    self.assume[('x', 'icmp', 'eq', sym(b[1] + '.len'), 0)] = True

    def relation(self, s, a, b):
        """What is known of the order of a and b: a subset of {<, =, >}."""
        out = {'<', '=', '>'}
        lo, hi = {}, {}
        swap = {'<': '>', '=': '=', '>': '<'}
        for k, r in self.assume.items():
            if k[0] != 'x' or k[1] != 'icmp' or not (k[2] == 'eq' or k[2][0] == s):
                continue
            q = {'eq': {'='}, 'lt': {'<'}, 'le': {'<', '='}}[k[2] if k[2] == 'eq' else k[2][1:]]
            if not r:
                q = {'<', '=', '>'} - q
            if (k[3], k[4]) == (a, b):
                out &= q
            elif (k[4], k[3]) == (a, b):
                out &= {swap[x] for x in q}
            if s == 'u':
                for v, c, rel_ in ((k[3], k[4], q), (k[4], k[3], {swap[x] for x in q})):
                    if isinstance(c, int) and not isinstance(v, int):
                        if c == 0:
                            rel_ = rel_ - {'<'}
                        if rel_ == {'='}:
                            lo[v] = max(lo.get(v, 0), c)
                            hi[v] = min(hi.get(v, 1 << 64), c)
                        elif '>' not in rel_:
                            hi[v] = min(hi.get(v, 1 << 64), c - ('=' not in rel_))
                        elif '<' not in rel_:
                            lo[v] = max(lo.get(v, 0), c + ('=' not in rel_))
        if s == 'u' and len(out) > 1 and not isinstance(a, int) and not isinstance(b, int):
            out &= self.chain(a, b) & {swap[x] for x in self.chain(b, a)}
        if s == 'u':
            def rng(v):
                return (v, v) if isinstance(v, int) else (lo.get(v, 0), min(hi.get(v, 1 << 64), (1 << 63) - 1 if self.small(v) else 1 << 64))
            (al, ah), (bl, bh) = rng(a), rng(b)
            d = self.sub_lin(a, b) if not (isinstance(a, int) or isinstance(b, int)) else None
            if isinstance(d, int) and d:
                if d >> 63:
                    # a is b - c
                    out &= {'<'} if bl >= (1 << 64) - d else {'<', '>'}
                else:
                    out &= {'>'} if al >= d or bh + d < 1 << 64 else {'<', '>'}
            if ah < bl:
                out &= {'<'}
            elif ah <= bl:
                out &= {'<', '='}
            if al > bh:
                out &= {'>'}
            elif al >= bh:
                out &= {'>', '='}
        return out

    def chain(self, a, b):
        """The order of a and b as a chain of assumptions a ≤ … < … ≤ b has it."""
        up = {}
        for k, r in self.assume.items():
            if k[0] == 'x' and k[1] == 'icmp' and k[2] in ('ult', 'ule') and not isinstance(k[3], int) and not isinstance(k[4], int):
                if r:
                    up.setdefault(k[3], []).append((k[4], k[2] == 'ult'))
                else:
                    up.setdefault(k[4], []).append((k[3], k[2] == 'ule'))
        best, todo = {a: False}, [a]
        while todo:
            q = todo.pop()
            for w, strict in up.get(q, ()):
                st = strict or best[q]
                if w not in best or st and not best[w]:
                    best[w] = st
                    todo.append(w)
                    if len(best) > 50:
                        return {'<', '=', '>'}
        if b not in best:
            return {'<', '=', '>'}
        return {'<'} if best[b] else {'<', '='}

    def element(self, v):
        """-> (element type, offset in it) if v was read out of a container of known element type."""
        if isinstance(v, tuple) and v[0] == 's' and isinstance(v[2], int) and isinstance(v[1], tuple) and v[1] and v[1][0] in ('elt', '*'):
            b = v[1][1]
            if v[1][0] == 'elt' and isinstance(b, tuple) and b[0] == '*':
                b = b[1]
            t = self.data.get('elems', {}).get(b)
            if t:
                if v[1][0] == 'elt':
                    c = lin_of(v[1][2])[0]
                    return t, (c - ((1 << 64) if c >> 63 else 0) + v[2]) % rtobs.TYPES[t][1]
                return t, v[2] % rtobs.TYPES[t][1]
        return None, 0

    def small(self, v):
        t, off = self.element(v)
        return t == 'ffi::Sh' and 8 <= off < 32 or t == 'String' or flow.Path.small(self, v)

    def narrow(self, v, bits):
        """-> (kind, width, value) if v is an extension of a narrower value."""
        if isinstance(v, int):
            return None
        if v[0] == 'cat' and v[1][-1][0] == 0 and len(v[1]) == 2:
            return 'z', v[1][0][1] * 8, v[1][0][0]
        if v[0] == 'x' and v[1] == 'zext':
            return 'z', v[3], v[2]
        if v[0] == 'x' and v[1] == 'sext':
            return 's', v[3], v[2]
        return None

    def fcmp(self, pred, a, b):
        a, b = self.canon(a), self.canon(b)
        if not isinstance(a, tuple) or not isinstance(b, tuple) or pred in ('true', 'false'):
            return flow.Path.fcmp(self, pred, a, b)
        flip = repr(a) > repr(b)
        if a == b:
            r = '=u'[self.decide(('float', a), 2, 'not a number')]
        else:
            r = '<=>u'[self.decide(('float', b, a) if flip else ('float', a, b), 4, 'order of floats')]
            r = {'<': '>', '>': '<'}.get(r, r) if flip else r
        if r == 'u':
            return int(pred[0] == 'u')
        return int(pred[1:] == 'rd' or r in {'eq': '=', 'lt': '<', 'gt': '>', 'le': '<=', 'ge': '>=', 'ne': '<>', 'no': ''}[pred[1:]]) if pred not in ('ord', 'uno') else int(pred == 'ord')

    def icmp(self, pred, bits, a, b):
        if bits == 64 and pred in ('eq', 'ne') and not isinstance(a, int) and not isinstance(b, int):
            d = self.sub_lin(self.canon(a), self.canon(b)) if a[0] in ('s', 'lin') and b[0] in ('s', 'lin') else None
            if d is not None and not isinstance(d, int):
                c, t = lin_of(d)
                if c == 0 and len(t) == 1:
                    # a number of whole elements
                    (q, k), = t.items()
                    if q[0] == 's' and isinstance(q[1], str) and q[1].endswith('.len'):
                        return self.icmp(pred, 64, q, 0)
        if isinstance(b, int) and b > 1 and pred in ('eq', 'ne', 'ult', 'ule', 'ugt', 'uge'):
            t, off = self.element(a)
            if (t, off) in (('ffi::P', 8), ('bool', 0)):
                return int(pred in ('ne', 'ult', 'ule'))
        x, y = self.narrow(a, bits), self.narrow(b, bits)
        if x and y and x[:2] == y[:2]:
            if x[0] == 'z' and pred[0] == 's':
                pred = 'u' + pred[1:]
            if not (x[0] == 's' and pred[0] == 'u' and pred not in ('ult',)):
                if not (x[0] == 's' and pred[0] == 'u'):
                    return self.icmp(pred, x[1], x[2], y[2])
        for q, w, sw in ((x, b, False), (y, a, True)):
            if q and isinstance(w, int) and pred in ('eq', 'ne'):
                n = q[1]
                lo = w & ((1 << n) - 1)
                full = lo if q[0] == 'z' or not lo >> (n - 1) else (lo - (1 << n)) & ((1 << bits) - 1)
                if full != w & ((1 << bits) - 1):
                    return int(pred == 'ne')
                return self.icmp(pred, n, q[2], lo)
        return flow.Path.icmp(self, pred, bits, a, b)


# ------------------------------------------------------------------ inputs
def setup(ob, variant):
    def f(p):
        args = {}
        for nm, k in ob.params:
            tag = nm
            m = re.match(r'=(\w+)$', k)
            if m:
                args[nm] = (args[m.group(1)][0], None)
                continue
            m = re.match(r'elem\((\w+)\)$', k)
            if m:
                base = sym(m.group(1), 8, 8)
                e = sym(nm)
                p.nonnull.add(e)
                p.data.setdefault('inside', {})[e] = base
                args[nm] = (e, None)
                continue
            if k in rtobs.SCALARS:
                n = rtobs.SCALARS[k][2]
                v = sym(tag, 0, n)
                if nm in variant:
                    v = variant[nm]
                if k == 'bool':
                    p.data.setdefault('bools', set()).add(v)
                args[nm] = (v, None)
                continue
            if k in ('ptr', 'ptr16'):
                v = sym(tag)
                args[nm] = (variant[nm] if nm in variant else v, None)
                continue
            size = rtobs.size_of(k)
            oid = 'arg:' + nm
            o = Obj(oid, size, None if k.startswith('raw') else tag, 'heap')
            p.objs[oid] = o
            fam = k.split('<')[0]
            if '<' in k:
                p.data.setdefault('elems', {})[sym(tag, 8 if fam == 'Vec' else 0, 8)] = rtobs.elem(k)
            if fam in ('String', 'Vec'):
                p.data.setdefault('res', {})[(tag, 0)] = dict(len=24, kind='Vec', consumed=[])
                p.nonnull.add(sym(tag, 8, 8))
                p.data.setdefault('bases', set()).add(sym(tag, 8, 8))
                if nm in variant:
                    p.write(o, 16, 8, variant[nm])
                p.truth_is(p.icmp('ule', 64, variant.get(nm, sym(tag, 16, 8)), sym(tag, 0, 8)), True)
            elif fam in ('Str', 'Slice', 'MutSlice'):
                p.nonnull.add(sym(tag, 0, 8))
                p.data.setdefault('bases', set()).add(sym(tag, 0, 8))
                if nm in variant:
                    p.write(o, 8, 8, variant[nm])
            elif fam == 'Err':
                p.data.setdefault('sizes', set()).add(sym(tag, 16, 8))
            elif fam == 'Box':
                p.nonnull.add(sym(tag, 0, 8))
            elif fam == 'std':
                p.nonnull.add(sym(tag, 0, 8))
                p.data.setdefault('bases', set()).add(sym(tag, 0, 8))
                if nm in variant:
                    p.write(o, 8, 8, variant[nm])
            elif fam == 'stdvec':
                p.data.setdefault('bases', set()).add(sym(tag, 0, 8))
                if nm in variant:
                    # begin + n elements
                    b = sym(tag, 0, 8)
                    p.nonnull.add(b)
                    p.write(o, 8, 8, mk_lin(variant[nm] * rtobs.elem_size(k), {b: 1}))
                else:
                    # an unknown number of whole elements
                    p.data.setdefault('vectors', set()).add(sym(tag, 0, 8))
                    b = sym(tag, 0, 8)
                    p.write(o, 8, 8, mk_lin(0, {b: 1, sym(tag + '.len'): rtobs.elem_size(k)}))
            elif fam == 'Bools':
                pass
            for off in rtobs.bools_of(k):
                p.data.setdefault('bools', set()).add(sym(tag, off, 1))
            args[nm] = (('p', oid, 0), size if nm not in ob.gone else None)
        return args
    return f


class Observer(rel.Observer):
    def observe(self, outcome, ret, args):
        p = self.p
        # temporaries leave no trace: a text copied and dropped again, a count raised and lowered again
        gone = {e[2][1][0] for e in p.events if e[0] == 'drop' and len(e) > 2 and isinstance(e[2], tuple) and e[2][0] == 's' and isinstance(e[2][1], tuple) and e[2][1][1:] == ('ptr',)}
        ev, up, num = [], [], {}
        self.renum = {}
        for e in p.events:
            if e[0] == 'alloc' and e[1] in gone or e[0] == 'drop' and len(e) > 2 and isinstance(e[2], tuple) and e[2][0] == 's' and isinstance(e[2][1], tuple) and e[2][1][0] in gone:
                continue
            if e[0] == 'alloc' and isinstance(e[1], tuple):
                k = e[1][:4]
                num[k] = num.get(k, 0) + 1
                self.renum[e[1]] = ('T',) + k[1:] + (num[k],)
            if e[0] == 'ref+':
                up.append(e)
            elif e[0] == 'ref-' and ('ref+',) + e[1:] in up:
                up.remove(('ref+',) + e[1:])
                ev.remove(('ref+',) + e[1:])
                continue
            ev.append(e)
        for g in gone:
            self.renum[g] = ('dropped',) + g[1:]
        ev = [e[:3] if e[0] == 'consume-untracked' else e for e in ev]
        ev = [self.anon(e) if e[0] in ('copy', 'copy-throws') else e for e in ev]
        keep, p.events = p.events, ev
        try:
            return rel.Observer.observe(self, outcome, ret, args)
        finally:
            p.events = keep

    def anon(self, e):
        """Which of its temporaries a function uses does not matter."""
        def f(v):
            if isinstance(v, tuple) and len(v) == 3 and v[0] == 'p' and isinstance(v[1], str) and v[1] in self.p.objs and self.p.objs[v[1]].kind == 'stack':
                return 'temporary'
            return tuple(f(x) for x in v) if isinstance(v, tuple) else v
        return tuple(f(x) for x in e)

    def mem(self, o, size=None):
        out = []
        for a, n, v in rel.Observer.mem(self, o, size):
            if out and isinstance(a, int) and isinstance(v, tuple) and v[0] == 's' and isinstance(v[2], int):
                b, m, w = out[-1]
                if isinstance(b, int) and b + m == a and isinstance(w, tuple) and w[0] == 's' and w[1] == v[1] and isinstance(w[2], int) and w[2] + m == v[2]:
                    out[-1] = (b, m + n, ('s', w[1], w[2], m + n))
                    continue
            out.append((a, n, v))
        return out

    def value(self, v):
        v = rel.Observer.value(self, v)
        return strip(v, self.renum)


def strip(v, renum):
    if isinstance(v, tuple):
        try:
            if v in renum:
                return renum[v]
        except TypeError:
            pass
        if len(v) == 4 and v[0] == 's' and isinstance(v[1], tuple) and v[1] and v[1][0] == 'cap':
            return v[1][1]
        while len(v) == 4 and v[0] == 's' and isinstance(v[1], tuple) and v[1] and v[1][0] == 'realloc' and isinstance(v[1][1][1], tuple) and v[1][1][1][0] == 'realloc':
            v = v[1][1]      # how often the buffer moved does not matter
        return tuple(strip(x, renum) for x in v)
    return v


rel.Observer_ = Observer


def load(w):
    mods = [llir.Module(w[k], k) for k in ('rt', 'rtcc', 'cxxcc', 'rtrs', 'cxx')]
    prog = flow.Program(mods)
    prog.dem = {k: plain(v) for k, v in prog.dem.items()}
    return prog


def plain(d):
    """Names of precompiled Rust functions, written like the others."""
    m = re.match(r'(.*)::h[0-9a-f]{16}$', d)
    if not m:
        return d
    d = m.group(1)
    for a, b in (('$LT$', '<'), ('$GT$', '>'), ('$u20$', ' '), ('$u5b$', '['), ('$u5d$', ']'), ('$RF$', '&'), ('$BP$', '*'), ('$C$', ','), ('$u7b$', '{'), ('$u7d$', '}'), ('$LP$', '('), ('$RP$', ')'), ('$u27$', "'")):
        d = d.replace(a, b)
    return re.sub(r'(^|::|<)_<', r'\1<', d).replace('..', '::')


ST = {}


KNOWN = re.compile(r'^(visit|look|look_n|d_drop|user|more|inst2?)$|^rt::|^std::ostream::write|^std::basic_ostream<.*>& std::operator<<<.*\(.*&, char const\*\)$|^core::fmt::Formatter::(write_str|write_fmt with arguments|pad)$|^<str as core::fmt::Display>::fmt$|^<core::fmt::Formatter as core::fmt::Write>::write_char$|^std::terminate')


def unknown(obs):
    """A call into precompiled code whose meaning the analysis does not know: the difference decides nothing."""
    for e in obs['effects']:
        if e[0] == 'ext' and not KNOWN.search(str(e[1])):
            return e[1]
    return None


class Slow(Exception):
    pass


def alarm(*a):
    raise Slow()


def one(ob):
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(45)
    try:
        return one_(ob)
    except Slow:
        return ob.num, [], 0, 'took too long', 45
    finally:
        signal.alarm(0)


def one_(ob):
    """What an operation does must be one of the things it may do."""
    first = one_ref(ob)
    for alt in ob.alts if first[1] else ():
        r = one_ref(alt)
        if not r[1]:
            return (ob.num,) + r[1:]
    return first


def one_ref(ob):
    """-> (name, violations, paths, undecided reason or None, seconds)"""
    prog, h = ST['prog'], ST['hooks']
    t = time.time()
    bad, paths, und = [], 0, None
    fi, fr = prog.defs.get('i_%s' % str(ob.num).split('_')[0]), prog.defs.get('r_%s' % ob.num)
    if fi is None or fr is None:
        return ob.num, [('missing', 'no IR for it')], 0, None, 0
    variants = ob.variants or [{}]
    for va in variants:
        try:
            for p, diff, obs in rel.relate(prog, h, fi, fr, setup(ob, va), ob.ret == 'bool', 800, cls=Path, obs=Observer):
                paths += 1
                if diff and diff[0].startswith('path ends in loop-bound'):
                    continue       # more iterations than are followed
                if diff and obs is not None and unknown(obs):
                    raise AnalysisError('unmodelled call %s' % unknown(obs))
                if diff:
                    cond = ', '.join('%s %s' % ('' if r else 'not', rel.short(k)) for k, r in list(p.assume.items())[:6])
                    bad.append((va, '; '.join(diff)[:1500] + '\n    when %s' % cond[:800]))
                    break
        except (AnalysisError, RecursionError, KeyError, TypeError, IndexError, AttributeError) as e:
            und = '%s: %s %s' % (va, type(e).__name__, str(e)[:300])
            if os.environ.get('RT_DEBUG'):
                import traceback
                traceback.print_exc()
        if bad:
            break
    return ob.num, bad, paths, und, time.time() - t


def run(w, obs):
    ST['prog'] = load(w)
    ST['hooks'] = hooks()
    for m in ST['prog'].modules:
        pass
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(8) as pool:
        return pool.map(one, obs, chunksize=4)


def build(b, std='c++17', wit='rt'):
    import shutil
    key = wit + '-' + std
    if key in b.done:
        return b.done[key]
    files = rtobs.files(std, wit)
    b.tools()
    d = b.path(key + '.d', 'rust', 'cxx.h')
    shutil.copy(b.src + '/include/cxx.h', d)
    d = os.path.dirname(os.path.dirname(d))
    for k, v in files.items():
        with open(os.path.join(d, k), 'w') as f:
            f.write(v)
    b.bridge(d + '/rt.rs', d + '/rtb')
    import build as B

    def rs():
        rlib = b.cxxlib()[1]
        b.rustc(d + '/rt.rs', 'rt', rlib, ['--emit=llvm-ir=' + d + '/rtrs.ll', '--out-dir', d, '-Awarnings'] + B.CODEGEN)
    b.parallel([rs, lambda: b.clang(d + '/rtb.cc', d + '/rtb.ll', std, ['-I', d]), lambda: b.clang(d + '/rt.cc', d + '/rtcc.ll', std, ['-I', d]), lambda: b.cxxcc(std, 'cxxcc-' + std)])
    w = dict(dir=d, rt=d + '/rtb.ll', rtcc=d + '/rtcc.ll', cxxcc=b.cxxcc(std, 'cxxcc-' + std), rtrs=d + '/rtrs.ll', cxx=b.cxxlib()[0])
    b.done[key] = w
    return w


def check(b, r, prop, floor, stds=('c++17',), wit='rt'):
    r.rules = r.rules + [rtobs.RULE]
    for std in stds:
        obs = [o for o in rtobs.OBS if prop in o.props and std in o.stds and o.wit == wit]
        w = build(b, std, wit)
        byn = {o.num: o for o in obs}
        und_n = 0
        for num, bad, paths, und, secs in run(w, obs):
            o = byn[num]
            r.count('operations')
            r.count('paths', paths)
            if und:
                und_n += 1
                r.count('undecided')
                r.sample({'undecided': o.name, 'why': und}, 12)
            for va, d in bad:
                r.violation(o.name, '%s %s\n    implementation (%s): %s\n    reference (%s): %s' % (va or '', d, o.impl[0], o.impl[1][:400], o.refb[0], o.refb[1][:400]))
    r.counts.setdefault('undecided', 0)
    for o in obs[::max(1, len(obs) // 6)]:
        r.sample({'operation': o.name, 'same as': o.refb[1][:200]}, 8)
    r.floor('operations', floor)
