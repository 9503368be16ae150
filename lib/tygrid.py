"""Type terms in every position of a bridge, and which of them a bridge supports."""
from matrix import Case

PRIM = ['bool', 'c_char', 'u8', 'u16', 'u32', 'u64', 'usize', 'i8', 'i16', 'i32', 'i64', 'isize', 'f32', 'f64']
# C opaque C++, R opaque Rust, S shared struct, E shared enum, P shared struct that is not plain data,
# T trivial alias, Z undeclared
NAMED = ['C', 'R', 'S', 'E', 'P', 'T']
ATOMS = PRIM + ['String', 'CxxString', 'str', '()'] + NAMED + ['Z']
W1 = ['Box', 'UniquePtr', 'SharedPtr', 'WeakPtr', 'Vec', 'CxxVector']
WR = ['&', '&mut', 'Pin&mut', 'Pin&', '*const', '*mut', '&[]', '&mut[]', '[;2]', 'fn1', 'fn0', 'ufn1', 'Option']


def at(x):
    return ('a', x)


def wr(w, t):
    return (w, t)


def show(t, lt='', q=False):
    """Rust text; q: as named from outside the bridge module."""
    k = t[0]
    if k == 'a':
        x = t[1]
        if q and x in ('C', 'S', 'E', 'P'):
            return 'ffi::' + x
        if q and x == 'T':
            return 'ft::T'
        return x
    s = show(t[1], lt, q)
    l = lt + ' ' if lt else ''
    if k in W1 or k == 'Option':
        return '%s<%s>' % (k, s)
    return {'&': '&%s%s' % (l, s), '&mut': '&%smut %s' % (l, s), 'Pin&mut': 'Pin<&%smut %s>' % (l, s), 'Pin&': 'Pin<&%s%s>' % (l, s),
            '*const': '*const ' + s, '*mut': '*mut ' + s, '&[]': '&%s[%s]' % (l, s), '&mut[]': '&%smut [%s]' % (l, s),
            '[;2]': '[%s; 2]' % s, 'fn1': 'fn(%s)' % s, 'fn0': 'fn() -> %s' % s, 'ufn1': 'unsafe fn(%s)' % s}[k]


def has_ref(t):
    return t[0] in ('&', '&mut', 'Pin&mut', 'Pin&', '&[]', '&mut[]') or (t[0] not in ('a', 'fn1', 'fn0', 'ufn1') and has_ref(t[1]))


def names(t):
    return {t[1]} if t[0] == 'a' else names(t[1])


def has(t, *ks):
    return t[0] in ks or (t[0] != 'a' and has(t[1], *ks))


# ---- what is supported: the documented bindings, position by position --------------------------
REFS = ('&', '&mut', 'Pin&mut', 'Pin&')


def is_str(t):
    return t == ('&', at('str'))


def sized(t):
    """Can exist by value on both sides."""
    k = t[0]
    if k == 'a':
        return t[1] not in ('CxxString', 'C', 'R', 'str', '()', 'Z')
    if k == '[;2]':
        return sized(t[1])
    return k not in ('CxxVector', 'fn1', 'fn0', 'ufn1', 'Option')


def base(t):
    return base(t[1]) if t[0] == '[;2]' else t


def mut_alias(t):
    return t == ('&mut', at('T')) or t[0] != 'a' and mut_alias(t[1])


def valid(t):
    """A type that means something, wherever it appears."""
    k = t[0]
    if k == 'a':
        return t[1] not in ('Z', 'str')
    i = t[1]
    if k == '&' and i == at('str'):
        return True
    if not (valid(i) or k in W1 and False):
        return False
    n = i[1] if i[0] == 'a' else None
    if k == 'Option':
        return False
    if k == 'Box':
        return n in ('R', 'S', 'E', 'P', 'T')
    if k == 'Vec':
        return n in PRIM or n in ('String', 'R', 'S', 'E', 'P', 'T') or is_str(i)
    if k == 'UniquePtr':
        return n in ('CxxString', 'C', 'S', 'E', 'P', 'T') or i[0] == 'CxxVector'
    if k in ('SharedPtr', 'WeakPtr'):
        return n in ('CxxString', 'C', 'S', 'E', 'P', 'T') or n in PRIM and n != 'c_char'
    if k == 'CxxVector':
        return n in ('CxxString', 'C', 'S', 'E', 'P', 'T') or n in PRIM and n not in ('bool', 'c_char')
    if k in ('&', '&mut', 'Pin&mut', 'Pin&'):
        if not is_str(i) and i[0] in ('fn1', 'fn0', 'ufn1', '&', '&mut', 'Pin&mut', 'Pin&') or n == '()':
            # references to references, functions or nothing
            return False
        if k in ('Pin&mut', 'Pin&') and (n == 'String' or i[0] == 'Vec'):
            return False
        if k == '&mut':
            return n not in ('C', 'CxxString') and i[0] != 'CxxVector'
        if k == 'Pin&':
            return True
        return True
    if k in ('*const', '*mut'):
        return is_str(i) or not (i[0] in ('fn1', 'fn0', 'ufn1') + REFS or n == '()')
    if k in ('&[]', '&mut[]'):
        return (sized(i) or n == 'R') and (is_str(i) or i[0] not in REFS)
    if k == '[;2]':
        # (nothing in these bridges declares that the foreign alias is trivial, and being an element does not)
        return sized(i) and (is_str(i) or i[0] not in REFS) and base(i) != at('T')
    if k == 'fn1':
        return sized(i) and i[0] not in ('*const', '*mut')
    if k == 'ufn1':
        return sized(i)
    if k == 'fn0':
        return sized(i) or n == '()'
    raise ValueError(k)


BASE = {
    'C': 'unsafe extern "C++" { include!("%s.h"); type C; }',
    'R': 'extern "Rust" { type R; }',
    'S': '#[derive(Clone, Copy)] struct S { a: u8, b: u32 }',
    'E': 'enum E { A, B }',
    'P': 'struct P { s: String }',
    'T': 'unsafe extern "C++" { include!("%s.h"); #[namespace = "%s::ft"] type T = super::ft::T; }',
}
FT_RS = '''pub mod ft {
    #[repr(C)] #[derive(Clone, Copy)] pub struct T { pub x: u32 }
    unsafe impl cxx::ExternType for T { type Id = cxx::type_id!("%s::ft::T"); type Kind = cxx::kind::Trivial; }
}
'''
HDR = '''namespace ft { struct T { std::uint32_t x; }; }
struct C { C(); C(const C &); ~C(); int v;
  template <class Ret, class... A> Ret m(A...) const; template <class Ret, class... A> Ret m(A...); };
template <class Ret, class... A> Ret f(A...);'''

# position -> (bridge item with %s, Rust definition outside with %s, supported?)
POSITIONS = ['carg', 'cret', 'cres', 'rarg', 'rret', 'rres', 'field', 'farr', 'fptr', 'fptrret', 'marg', 'mret', 'rmarg', 'cout']


def lost_lifetime(pos, t):
    """A function type whose result borrows from nothing: rustc's business, not the generators'."""
    return t[0] == 'fn0' and has_ref(t[1]) or t[0] != 'a' and lost_lifetime(pos, t[1])


def pos_valid(pos, t):
    void = t == at('()')
    fnp = t[0] in ('fn1', 'fn0', 'ufn1')
    if mut_alias(t) and (pos in ('field', 'farr', 'fptr', 'fptrret') or t != ('&mut', at('T'))):
        # only an argument or return that is itself such a reference tells that the alias is movable
        return False
    if pos == 'marg' or pos == 'carg':
        return valid(t) and (sized(t) or fnp)
    if pos in ('rarg', 'rmarg'):
        return valid(t) and sized(t)
    if pos in ('cret', 'rret', 'mret', 'cres', 'rres'):
        if void:
            return True
        return valid(t) and sized(t)
    if pos == 'field':
        return valid(t) and sized(t)
    if pos == 'farr':
        return valid(('[;2]', t))
    if pos == 'fptr':
        return valid(('ufn1', t))
    if pos == 'fptrret':
        return valid(('fn0', t))
    raise ValueError(pos)


def case(id, pos, t, **kw):
    need = names(t) & set(NAMED)
    # returned references need something to borrow from
    s = show(t)
    o = show(t, q=True)
    ptr = has(t, '*const', '*mut')
    un = 'unsafe ' if ptr else ''
    pre = 'z: &mut S' if has_ref(t) else ''
    zo = pre.replace('S', 'ffi::S')
    if pre:
        need.add('S')
    rust = ''
    if pos in ('marg', 'mret'):
        need.add('C')
    if pos == 'rmarg':
        need.add('R')
    items = []
    ret = ' -> ' + s
    if pos == 'carg':
        items.append('unsafe extern "C++" { include!("%s.h"); %sfn f(a: %s); }' % (id, un, s))
    elif pos == 'cret':
        items.append('unsafe extern "C++" { include!("%s.h"); %sfn f(%s) -> %s; }' % (id, un, pre, s))
    elif pos == 'cres':
        items.append('unsafe extern "C++" { include!("%s.h"); %sfn f(%s) -> Result<%s>; }' % (id, un, pre, s))
    elif pos == 'rarg':
        items.append('extern "Rust" { %sfn f(a: %s); }' % (un, s))
        rust = 'pub %sfn f(a: %s) { unimplemented!() }' % (un, o)
    elif pos == 'rret':
        items.append('extern "Rust" { %sfn f(%s) -> %s; }' % (un, pre, s))
        rust = 'pub %sfn f(%s) -> %s { unimplemented!() }' % (un, zo, o)
    elif pos == 'rres':
        items.append('extern "Rust" { %sfn f(%s) -> Result<%s>; }' % (un, pre, s))
        rust = 'pub %sfn f(%s) -> Result<%s, String> { unimplemented!() }' % (un, zo, o)
    elif pos == 'field':
        items.append("struct F%s { x: %s }" % ("<'a>" if has_ref(t) else '', show(t, "'a")))
    elif pos == 'farr':
        items.append("struct F%s { x: [%s; 3] }" % ("<'a>" if has_ref(t) else '', show(t, "'a")))
    elif pos == 'fptr':
        items.append('unsafe extern "C++" { include!("%s.h"); %sfn f(cb: %sfn(%s)); }' % (id, un, un, s))
    elif pos == 'fptrret':
        items.append('unsafe extern "C++" { include!("%s.h"); %sfn f(cb: %sfn(%s) -> %s); }' % (id, un, un, pre.replace('z: ', ''), s))
    elif pos == 'marg':
        items.append('unsafe extern "C++" { include!("%s.h"); %sfn m(self: &C, a: %s); }' % (id, un, s))
    elif pos == 'mret':
        items.append('unsafe extern "C++" { include!("%s.h"); %sfn m(self: &C%s) -> %s; }' % (id, un, '' if not has(t, '&mut', 'Pin&mut', '&mut[]') else ", z: &mut S", s))
        if has(t, '&mut', 'Pin&mut', '&mut[]'):
            need.add('S')
            items[-1] = items[-1].replace('self: &C', 'self: Pin<&mut C>').replace(', z: &mut S', '')
    elif pos == 'rmarg':
        items.append('extern "Rust" { %sfn m(self: &R, a: %s); }' % (un, s))
        rust = 'impl R { pub %sfn m(&self, a: %s) { unimplemented!() } }' % (un, o)
    for n in sorted(need):
        items.append(BASE[n].replace('%s', id))
    def impls(u):
        if u[0] != 'a':
            if u[0] in ('UniquePtr', 'SharedPtr', 'WeakPtr', 'CxxVector') and u[1] == at('T'):
                items.append('impl %s {}' % show(u))
            impls(u[1])
    impls(t)
    if 'R' in need:
        rust = 'pub struct R(pub u8);\n' + rust
    if 'T' in need:
        rust = FT_RS.replace('%s', id) + rust
    return Case(id, '\n'.join(items), rust, HDR, **kw)
