"""Shared structs: layout on both sides against the C rule computed here, order of definition, and cycles."""
import itertools
import json
import random
import re

import matrix
import rows
from matrix import Case

# name: (in the bridge, from outside, C++, size, align)
BASE = {}
for n, s in ('8', 1), ('16', 2), ('32', 4), ('64', 8):
    BASE['u' + n] = ('u' + n, 'u' + n, 'std::uint%s_t' % n, s, s)
    BASE['i' + n] = ('i' + n, 'i' + n, 'std::int%s_t' % n, s, s)
BASE.update({
    'bool': ('bool', 'bool', 'bool', 1, 1),
    'c_char': ('c_char', 'c_char', 'char', 1, 1),
    'usize': ('usize', 'usize', 'std::size_t', 8, 8),
    'isize': ('isize', 'isize', 'rust::isize', 8, 8),
    'f32': ('f32', 'f32', 'float', 4, 4),
    'f64': ('f64', 'f64', 'double', 8, 8),
    'String': ('String', 'String', 'rust::String', 24, 8),
    'Vec<u8>': ('Vec<u8>', 'Vec<u8>', 'rust::Vec<std::uint8_t>', 24, 8),
    'Vec<String>': ('Vec<String>', 'Vec<String>', 'rust::Vec<rust::String>', 24, 8),
    'Vec<R>': ('Vec<R>', 'Vec<R>', 'rust::Vec<%N::R>', 24, 8),
    'Vec<In>': ('Vec<In>', 'Vec<ffi::In>', 'rust::Vec<%N::In>', 24, 8),
    'Box<R>': ('Box<R>', 'Box<R>', 'rust::Box<%N::R>', 8, 8),
    'Box<In>': ('Box<In>', 'Box<ffi::In>', 'rust::Box<%N::In>', 8, 8),
    'UniquePtr<C>': ('UniquePtr<C>', 'UniquePtr<ffi::C>', 'std::unique_ptr<%N::C>', 8, 8),
    'UniquePtr<CxxString>': ('UniquePtr<CxxString>', 'UniquePtr<CxxString>', 'std::unique_ptr<std::string>', 8, 8),
    'UniquePtr<CxxVector<u8>>': ('UniquePtr<CxxVector<u8>>', 'UniquePtr<CxxVector<u8>>', 'std::unique_ptr<std::vector<std::uint8_t>>', 8, 8),
    'SharedPtr<C>': ('SharedPtr<C>', 'SharedPtr<ffi::C>', 'std::shared_ptr<%N::C>', 16, 8),
    'WeakPtr<C>': ('WeakPtr<C>', 'WeakPtr<ffi::C>', 'std::weak_ptr<%N::C>', 16, 8),
    'SharedPtr<u16>': ('SharedPtr<u16>', 'SharedPtr<u16>', 'std::shared_ptr<std::uint16_t>', 16, 8),
    '*const u16': ('*const u16', '*const u16', 'std::uint16_t const *', 8, 8),
    '*mut C': ('*mut C', '*mut ffi::C', '%N::C *', 8, 8),
    "&str": ("&'a str", "&'a str", 'rust::Str', 16, 8),
    "&[u16]": ("&'a [u16]", "&'a [u16]", 'rust::Slice<std::uint16_t const>', 16, 8),
    "&mut [u16]": ("&'a mut [u16]", "&'a mut [u16]", 'rust::Slice<std::uint16_t>', 16, 8),
    "&u16": ("&'a u16", "&'a u16", 'std::uint16_t const &', 8, 8),
    "&mut u16": ("&'a mut u16", "&'a mut u16", 'std::uint16_t &', 8, 8),
    "&C": ("&'a C", "&'a ffi::C", '%N::C const &', 8, 8),
    "Pin<&mut C>": ("Pin<&'a mut C>", "Pin<&'a mut ffi::C>", '%N::C &', 8, 8),
    'En': ('En', 'ffi::En', '%N::En', 2, 2),
    'In': ('In', 'ffi::In', '%N::In', 12, 4),
    'T': ('T', 'ft::T', '%N::T', 4, 4),
    'N': ('N', 'ffi::N', '%N::N', 1, 1),
})


def arr(f, *ns):
    r, q, c, s, a = f
    for n in reversed(ns):
        r, q, c, s = '[%s; %d]' % (r, n), '[%s; %d]' % (q, n), 'std::array<%s, %d>' % (c, n), s * n
    return r, q, c, s, a


def layout(fields):
    off, al, offs = 0, 1, []
    for f in fields:
        off = -(-off // f[4]) * f[4]
        offs.append(off)
        off += f[3]
        al = max(al, f[4])
    return -(-off // al) * al, al, offs


PRELUDE = '''struct In { a: u8, b: u32, c: u8 }
struct N { q: bool }
#[repr(u16)] enum En { A, B }
extern "Rust" { type R; fn sink(s: &S%(lt)s, i: &In, r: &R%(v)s); }
unsafe extern "C++" { include!("%%I.h"); type C; type T = super::ft::T; fn use_t(t: T) -> T; fn keep(a: UniquePtr<CxxVector<u8>>, b: SharedPtr<C>, c: WeakPtr<C>, d: UniquePtr<C>); }
impl Vec<R> {} impl Vec<In> {} impl Box<R> {} impl Box<In> {}
'''
RUST = '''pub mod ft { use super::*; #[repr(C)] pub struct T { x: u32 } unsafe impl ExternType for T { type Id = type_id!("%N::T"); type Kind = cxx::kind::Trivial; } }
pub struct R(u8); pub fn sink(s: &ffi::S, i: &ffi::In, r: &R) {}
'''
HDR = 'struct C { int x; C(const C &) = delete; ~C(); }; struct T { std::uint32_t x; }; T use_t(T); void keep(std::unique_ptr<std::vector<std::uint8_t>>, std::shared_ptr<C>, std::weak_ptr<C>, std::unique_ptr<C>);'


def struct_case(id, fields, derive=''):
    lt = "<'a>" if any("'a" in f[0] for f in fields) else ''
    sub = lambda s: s.replace('%N', id).replace('%I', id)
    decl = "%sstruct S%s { %s }" % (derive, lt, ', '.join('f%d: %s' % (i, f[0]) for i, f in enumerate(fields)))
    c = Case(id, sub(PRELUDE % dict(lt="<'_>" if lt else '', v='')) + decl)
    c.spec = decl
    size, al, offs = layout(fields)
    st = "ffi::S<'static>" if lt else 'ffi::S'
    c.rust = sub(RUST) + 'const _: () = assert!(core::mem::size_of::<%s>() == %d && core::mem::align_of::<%s>() == %d);\n' % (st, size, st, al)
    c.user = '#include <cstddef>\nstatic_assert(sizeof(%s::S) == %d, "size"); static_assert(alignof(%s::S) == %d, "align");\n' % (id, size, id, al)
    for i, (f, o) in enumerate(zip(fields, offs)):
        c.rust += 'const _: () = assert!(core::mem::offset_of!(%s, f%d) == %d);\n' % (st, i, o)
        c.rust += "const _: fn(%s) -> %s = |s| s.f%d;\n" % (st, sub(f[1]).replace("'a", "'static"), i)
        ct = sub(f[2])
        c.user += 'static_assert(std::is_same<decltype(%s::S::f%d), %s>::value, "type of f%d");\n' % (id, i, ct, i)
        if '&' not in ct:
            c.user += 'static_assert(offsetof(%s::S, f%d) == %d, "f%d");\n' % (id, i, o, i)
    c.hdr = HDR
    c.want = 'ok'
    return c


def layouts(full):
    b = BASE
    out = []
    fs = list(b.values())
    arrs = [arr(b[x], n) for x in ('u8', 'u16', 'u32', 'bool', 'String', 'En', 'In', 'T', 'UniquePtr<C>', 'Box<R>') for n in (1, 3, 7)]
    arrs += [arr(b['u8'], 2, 3), arr(b['u16'], 3, 1, 2), arr(b['In'], 2, 2), arr(b["&str"], 2)]
    every = fs + arrs
    for f in every:
        out += [[f], [b['u8'], f], [f, b['u8']], [b['u8'], f, b['u16']]]
    core = [b[x] for x in ('u8', 'i16', 'u32', 'f64', 'bool', 'String', 'In', 'En', 'T', "&str", 'SharedPtr<C>', 'c_char', 'isize')] + [arr(b['u16'], 3)]
    for f, g in itertools.product(core if not full else every, core if not full else every):
        out.append([f, g, b['u8']])
    for t in itertools.product([b['u8'], b['u16'], b['u32'], b['u64'], b['N']], repeat=3):
        out.append(list(t))
    rnd = random.Random(13)
    for _ in range(1500 if full else 150):
        out.append([rnd.choice(every) for _ in range(rnd.randrange(4, 14))])
    return out


# ---- order of definition and cycles
EDGE = {'val': '%s', 'arr': '[%s; 2]', 'arr2': '[[%s; 2]; 3]', 'box': 'Box<%s>', 'vec': 'Vec<%s>', 'uptr': 'UniquePtr<%s>', 'sptr': 'SharedPtr<%s>',
        'cxxv': 'UniquePtr<CxxVector<%s>>', 'ptr': '*const %s'}
VALUE = {'val', 'arr', 'arr2'}


PLACES = ['', '#[namespace = "%s::a"] ', '#[namespace = "%s::a::b"] ', '#[namespace = "%s::b"] ', '#[cxx_name = "A%d"] ', '#[namespace = "%s::b::a"] #[cxx_name = "Z%d"] ',
          '#[derive(PartialEq, Clone)] ', '#[namespace = "%s::q::d"] #[derive(PartialEq)] ']


def graph_case(id, n, edges, order, places=None):
    """Structs S0.. with fields for the edges (i, j, kind), declared in the given order, mixed with their users."""
    items = []
    extra = ()
    for i in range(n):
        fields = ['x: u8'] + ['e%d: %s' % (k, EDGE[kind] % ('S%d' % j)) for k, (a, j, kind) in enumerate(edges) if a == i]
        place = ''
        if places:
            # namespaces, other names, and an enum from yet another namespace
            fields.insert(1, 'en: E%d' % (places[i] % 3))
            place = PLACES[places[i] if places[i] < 6 or not any(a == i for a, _, _ in edges) else places[i] - 6]
            place = place.replace('%s', id).replace('%d', str(i))
        items.append('%sstruct S%d { %s }' % (place, i, ', '.join(fields)))
    if places:
        extra = ['#[namespace = "%s::z"] #[repr(u8)] enum E0 { A }' % id, '#[namespace = "%s"] enum E1 { A, B }' % id, 'enum E2 { A = 300 }']
    items.append('extern "Rust" { %s fn all(%s); }' % (' '.join('fn r%d(s: S%d) -> S%d;' % (i, i, i) for i in range(n)),
                                                     ', '.join('a%d: &S%d' % (i, i) for i in range(n))))
    items.append('unsafe extern "C++" { include!("%s.h"); fn c(s: S0, f: fn(S%d) -> S0); }' % (id, n - 1))
    items += extra
    items = [items[k] for k in order] if order else items
    c = Case(id, '\n'.join(items))
    c.spec = ' '.join(items)
    c.rust = ' '.join('pub fn r%d(s: ffi::S%d) -> ffi::S%d { s }' % (i, i, i) for i in range(n)) + \
        'pub fn all(%s) {}' % ', '.join('_: &ffi::S%d' % i for i in range(n))
    c.hdr = (''.join('struct S%d; ' % i for i in range(n)) if not places else '') + 'template <class A, class B> void c(A, B);'
    succ = {i: {j for a, j, k in edges if a == i and k in VALUE} for i in range(n)}
    done = set()
    while True:
        new = {i for i in range(n) if i not in done and succ[i] <= done}
        if not new:
            break
        done |= new
    c.want = 'ok' if len(done) == n else 'reject'
    return c


def graphs(full):
    out = []
    # every kind of edge, closing a cycle of one, two or three structs or not
    for k in EDGE:
        out.append((1, [(0, 0, k)], None))
        for l in EDGE:
            out.append((2, [(0, 1, k), (1, 0, l)], None))
            out.append((3, [(0, 1, k), (1, 2, 'val'), (2, 0, l)], None))
        out.append((2, [(0, 1, k)], None))
    # every order of a chain and a diamond, with the blocks that use them
    for e in [[(0, 1, 'val'), (1, 2, 'arr')], [(2, 1, 'arr2'), (1, 0, 'val')], [(0, 1, 'val'), (0, 2, 'val'), (1, 2, 'val')]]:
        for p in itertools.permutations(range(5)):
            out.append((3, e, p))
    for p in itertools.permutations(range(6)):
        if full or p[0] % 2 == 0 and p[1] < 4:
            out.append((4, [(0, 1, 'val'), (0, 2, 'arr'), (1, 3, 'val'), (2, 3, 'val'), (3, 0, 'box')], p))
    rnd = random.Random(31)
    for _ in range(3000 if full else 500):
        n = rnd.randrange(3, 8)
        edges = []
        for _ in range(rnd.randrange(n - 1, 2 * n + 1)):
            i, j = rnd.randrange(n), rnd.randrange(n)
            k = rnd.choice(list(EDGE))
            if k in VALUE and i >= j and rnd.random() < 0.8:
                i, j = j, i
                if i == j:
                    k = 'vec'
            edges.append((i, j, k))
        perm = list(range(n))
        rnd.shuffle(perm)
        edges = [(perm[i], perm[j], k) for i, j, k in edges]
        order = list(range(n + 2))
        rnd.shuffle(order)
        out.append((n, edges, order))
        order = list(range(n + 5))
        rnd.shuffle(order)
        out.append((n, edges, order, [rnd.randrange(len(PLACES)) for _ in range(n)]))
    for p, q in itertools.product(range(len(PLACES)), repeat=2):
        for k in 'val', 'arr':
            out.append((2, [(0, 1, k)], None, [p, q]))
            out.append((2, [(1, 0, k)], None, [p, q]))
    return out


# ---- comments: documentation is text, and must not change what is declared
DOC_TEXT = ['ends in \\', 'ends in \\  ', '\\', 'line one\nC:\\', 'really??/', '*/ int x; /*', '/', '"', "it's", '#define a b', '// \\', '\\\nafter', 'x\n\n']
DOC_BRIDGE = '''@struct@
struct S { @field@ f0: u32, @field2@ f1: u8, f2: u16 }
@enum@
#[repr(u8)] enum E { @variant@ A = 3, @variant2@ B = 9, C = 4 }
extern "Rust" { @type@
 type R; @method@
 fn m(self: &R) -> u8; @method2@
 fn n(self: &mut R, x: u16); @fn@
 fn f(x: u8) -> u32; @fn2@
 fn g(); fn h(); @smethod@
 fn k(self: &S) -> u8; fn l(self: &S); }
unsafe extern "C++" { include!("%I.h"); @ctype@
 type C; @cfn@
 fn cf(c: &C); @cmethod@
 fn cm(self: &C); }
'''
DOC_RUST = 'pub struct R; impl R { pub fn m(&self) -> u8 { 0 } pub fn n(&mut self, x: u16) {} } pub fn f(x: u8) -> u32 { 0 } pub fn g() {} pub fn h() {} ' \
           'impl ffi::S { fn k(&self) -> u8 { 0 } fn l(&self) {} }' \
           'const _: () = assert!(core::mem::size_of::<ffi::S>() == 8 && core::mem::offset_of!(ffi::S, f1) == 4 && core::mem::offset_of!(ffi::S, f2) == 6);' \
           'const _: () = assert!(ffi::E::A.repr == 3 && ffi::E::B.repr == 9 && ffi::E::C.repr == 4);'
DOC_CXX = '''#include <cstddef>
namespace %I {
static_assert(sizeof(S) == 8 && offsetof(S, f0) == 0 && offsetof(S, f1) == 4 && offsetof(S, f2) == 6, "layout");
static_assert(std::is_same<decltype(S::f0), std::uint32_t>::value && std::is_same<decltype(S::f1), std::uint8_t>::value, "types");
static_assert(sizeof(E) == 1 && int(E::A) == 3 && int(E::B) == 9 && int(E::C) == 4, "values");
static_assert(std::is_same<decltype(&R::m), std::uint8_t (R::*)() const>::value, "m");
static_assert(sizeof(&R::n) && sizeof(&S::k) && sizeof(&S::l), "methods");
static_assert(std::is_same<decltype(f(std::uint8_t())), std::uint32_t>::value, "f");
inline void use() { g(); h(); }
}
'''


def doc_cases(full):
    out = []
    places = re.findall('@(\\w+)@', DOC_BRIDGE)
    for t in DOC_TEXT:
        for where in [[p] for p in places] + [places]:
            for header in (False, True):
                id = 'd%d' % len(out)
                c = Case(id, re.sub('@(\\w+)@', lambda m: ''.join('#[doc = %s]' % json.dumps(l) for l in [t]) if m.group(1) in where else '',
                                    DOC_BRIDGE).replace('%I', id), header=header)
                c.spec = 'documented %s: %r' % (' '.join(where) if len(where) == 1 else 'everywhere', t) + (', header' if header else '')
                c.rust = DOC_RUST
                c.user = DOC_CXX.replace('%I', id)
                c.hdr = 'struct C { void cm() const; }; void cf(const C &);'
                c.want = 'ok'
                out.append(c)
    return out


def check(b, r, tier):
    full = tier == 'thorough'
    r.rules = ['a shared struct has the C layout of its fields in declaration order, with the documented field types: size, alignment, every offset and '
               'every field type asserted in Rust (const assert, typed closures) and in C++ (static_assert)',
               'a set of shared structs compiles on both sides in whatever order it is declared exactly if no struct contains itself by value',
               'documentation comments, whatever their text, leave every field, variant and method declared as without them']
    cases = [struct_case('l%d' % i, f) for i, f in enumerate(layouts(full))]
    cases += [graph_case('g%d' % i, *g) for i, g in enumerate(graphs(full))]
    matrix.run(b, cases, 'layout', cxx=('clang++', 'g++') if full else ('clang++',))
    docs = doc_cases(full)
    matrix.run(b, docs, 'docs', cxx=('clang++', 'g++'), stds=('c++11', 'c++17') if full else ('c++11',))
    cases += docs
    for c in cases:
        got = (c.cli_got, c.rust_got, c.cxx_got)
        bad = None
        if c.id[0] == 'l':
            r.count('structs')
            r.count('offsets_asserted', c.rust.count('offset_of'))
        elif c.id[0] == 'd':
            r.count('documented')
        else:
            r.count('struct_graphs')
        if c.want == 'ok':
            if got != ('ok', 'ok', 'ok'):
                bad = {'l': 'differs from the C layout, or is refused', 'g': 'has no cycle by value, but is refused or does not compile',
                       'd': 'loses a declaration, or does not compile'}[c.id[0]]
        else:
            r.count('cyclic')
            if c.cli_got != 'error' or c.rust_got == 'ok' or 'macro' not in c.rust_got.split():
                bad = 'contains itself, but is accepted'
        if bad:
            r.violation(c.spec[:300], '%s %s\nC++ generator: %s; macro and rustc: %s; C++ compiler: %s\n%s\n%s\n%s' % (
                c.spec[:1500], bad, *got, c.cli_msg[:800], c.rust_msg[:800], c.cxx_msg[:800]))
    r.floor('structs', 500)
    r.floor('offsets_asserted', 1500)
    r.floor('struct_graphs', 800)
    r.floor('cyclic', 80)
    r.floor('documented', 200)
    r.sample({'struct': [c.spec for c in cases[::997]]})
