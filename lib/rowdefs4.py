"""Witness programs: assumptions about foreign types (C16)."""
from rows import pair, row

# (Rust, C++, size, align), with what the bridge has to mention for it
PAIRS = [
    ('String', '::rust::String', 24, 8), ('Vec<u8>', '::rust::Vec<std::uint8_t>', 24, 8), ('Vec<String>', '::rust::Vec<::rust::String>', 24, 8),
    ('Vec<f64>', '::rust::Vec<double>', 24, 8), ('Vec<ffi::S>', '::rust::Vec<%N::S>', 24, 8), ('Vec<R>', '::rust::Vec<%N::R>', 24, 8),
    ('Box<R>', '::rust::Box<%N::R>', 8, 8), ('Box<ffi::S>', '::rust::Box<%N::S>', 8, 8),
    ('&str', '::rust::Str', 16, 8), ('&[u16]', '::rust::Slice<const std::uint16_t>', 16, 8), ('&mut [u16]', '::rust::Slice<std::uint16_t>', 16, 8),
    ('&[R]', '::rust::Slice<const %N::R>', 16, 8), ('&mut [ffi::S]', '::rust::Slice<%N::S>', 16, 8),
    ('UniquePtr<ffi::C>', '::std::unique_ptr<%N::C>', 8, 8), ('UniquePtr<CxxString>', '::std::unique_ptr<std::string>', 8, 8),
    ('UniquePtr<CxxVector<u8>>', '::std::unique_ptr<std::vector<std::uint8_t>>', 8, 8), ('SharedPtr<ffi::C>', '::std::shared_ptr<%N::C>', 16, 8),
    ('WeakPtr<ffi::C>', '::std::weak_ptr<%N::C>', 16, 8), ('SharedPtr<CxxString>', '::std::shared_ptr<std::string>', 16, 8),
    ('cxx::private::RustString', '::rust::String', 24, 8), ('cxx::private::RustVec<u8>', '::rust::Vec<std::uint8_t>', 24, 8),
    ('cxx::private::RustStr', '::rust::Str', 16, 8), ('cxx::private::RustSlice', '::rust::Slice<const std::uint8_t>', 16, 8),
    ('cxx::private::FatFunction', '::rust::Fn<void(int)>', 16, 8),
    ('isize', '::rust::isize', 8, 8), ('usize', 'std::size_t', 8, 8), ('bool', 'bool', 1, 1), ('core::ffi::c_char', 'char', 1, 1),
    ('f32', 'float', 4, 4), ('f64', 'double', 8, 8), ('ffi::S', '%N::S', 24, 8), ('ffi::E', '%N::E', 2, 2), ('ffi::A', '%N::A', 12, 2),
]
for n in 8, 16, 32, 64:
    PAIRS += [('u%d' % n, 'std::uint%d_t' % n, n // 8, n // 8), ('i%d' % n, 'std::int%d_t' % n, n // 8, n // 8)]
BR = '''struct S { a: u8, b: UniquePtr<C>, c: u16 } #[repr(u16)] enum E { X } struct A { a: [[u16; 2]; 3] } extern "Rust" { type R; fn r(a: fn(i32)) -> u8; }
unsafe extern "C++" { %I type C; fn f(a: Vec<S>, b: Vec<R>, c: Box<R>, d: Box<S>, e: SharedPtr<C>, f: WeakPtr<C>, g: &[R], h: &mut [S], i: Vec<String>, j: &str, k: isize); }'''
BR = BR.replace('fn r(a: fn(i32)) -> u8;', '').replace('k: isize', 'k: isize, l: fn(i32)')
HD = '''struct C { C(const C &); ~C(); }; template <class... A> void f(A...);'''
HD = 'struct C { C(const C &); ~C(); }; template <class R, class... Z> R f(Z...);'
for ru, cx, s, a in PAIRS:
    row('C16', 'size and alignment of %s' % ru, 'ok', BR, 'pub struct R(u8); const _: () = assert!(core::mem::size_of::<%s>() == %d && core::mem::align_of::<%s>() == %d);' % (ru, s, ru, a),
        hdr=HD, user='static_assert(sizeof(%s) == %d && alignof(%s) == %d, "");' % (cx, s, cx, a))
for nm, cx, rel in (
        ('Str', '::rust::Str', 1), ('Slice', '::rust::Slice<const std::uint8_t>', 1), ('shared struct', '%N::S', 1), ('enum', '%N::E', 1), ('integer', 'int', 1), ('pointer', '%N::C *', 1),
        ('std::string', 'std::string', 0), ('std::vector', 'std::vector<int>', 0), ('class with a destructor', '%N::D', 0), ('class with a copy constructor', '%N::C', 0),
        ('class with a move constructor', '%N::M', 0), ('class with virtual functions but trivial moves', '%N::Tr', 1), ('class that says so', '%N::Y', 1), ('class that says not', '%N::Z', 0),
        ('class that says something else', '%N::W', 0), ('derived from one that says so', '%N::YD', 1), ('specialised', '%N::P', 1), ('not movable', '%N::X', 0)):
    row('C16', 'IsRelocatable: ' + nm, 'ok', BR + ' unsafe extern "C++" { #[namespace = "found"] type T = crate::found::T; fn h(t: T); }', 'pub struct R(u8);', hdr=HD + '''
struct D { ~D(); }; struct M { M(M &&); }; struct Tr { int x; }; template <class R, class... Z> R h(Z...); struct Y { Y(const Y &); ~Y(); using IsRelocatable = std::true_type; }; struct Z { using IsRelocatable = std::false_type; };
struct W { using IsRelocatable = int; }; struct YD : Y {}; struct P { ~P(); }; struct X { X(const X &) = delete; };
}
namespace rust { inline namespace cxxbridge1 { template <typename T> struct IsRelocatable; template <> struct IsRelocatable<%N::P> : std::true_type {}; } }
namespace %N {''', user='static_assert(::rust::IsRelocatable<%s>::value == %s, "");' % (cx, 'true' if rel else 'false'))
# C++ cannot make, copy, move or destroy what only Rust knows the size of
for nm, bad, good in (
        ('defined', '%N::R r;', 'extern %N::R &r;'), ('in a function', 'void g() { %N::R r; }', 'void g(%N::R &r) {}'), ('copied', 'void g(%N::R &r) { %N::R q(r); }', 'void g(%N::R &r) { %N::R &q(r); }'),
        ('moved', 'void g(%N::R &r) { %N::R q(static_cast<%N::R &&>(r)); }', 'void g(%N::R &r) { %N::R &&q(static_cast<%N::R &&>(r)); }'),
        ('on the heap', 'auto p = new %N::R;', 'auto p = static_cast<%N::R *>(nullptr);'), ('deleted', 'void g(%N::R *r) { delete r; }', 'void g(%N::R *r) { r = nullptr; }'),
        ('member', 'struct Q { %N::R r; }; Q q;', 'struct Q { %N::R *r; }; Q q;'), ('derived from', 'struct Q : %N::R {};', 'struct Q { %N::R *r; };'), ('array', '%N::R r[2];', '%N::R *r[2];'),
        ('unique_ptr', 'void g() { std::unique_ptr<%N::R> r; }', 'void g(std::unique_ptr<%N::R> &r) { }'), ('make_shared', 'auto p = std::make_shared<%N::R>();', 'std::shared_ptr<%N::R> p;'),
        ('vector', 'void g(std::vector<%N::R> &v) { v.emplace_back(); }', 'void g(std::vector<%N::R> &v) { }'), ('returned', '%N::R g(%N::R &r) { return r; }', '%N::R &g(%N::R &r) { return r; }'),
        ('Box::in_place without the Rust side', '::rust::Box<%N::R> b(::rust::Box<%N::R>::in_place());', '::rust::Box<%N::R> g(::rust::Box<%N::R> b) { return b; }')):
    row('C16', 'opaque Rust object in C++: ' + nm, 'cxx', BR, 'pub struct R(u8);', hdr=HD, user='namespace %N { namespace u { ' + bad + ' } }')
    row('C16', 'opaque Rust object in C++: %s/twin' % nm, 'ok', BR, 'pub struct R(u8);', hdr=HD, user='namespace %N { namespace u { ' + good + ' } }')
# what a smart pointer or a vector owns has to be complete
for w in 'UniquePtr<C>', 'CxxVector<C>':
    pair('C16', 'incomplete C++ type behind ' + w, 'cxx', ('unsafe extern "C++" { %I type C; } impl ' + w + ' {}', '', 'struct C;'), ('unsafe extern "C++" { %I type C; } impl ' + w + ' {}', '', 'struct C { C(const C &); ~C(); };'))
for w in 'UniquePtr<C>', 'SharedPtr<C>', 'WeakPtr<C>', 'CxxVector<C>':
    u = 'unsafe extern "C++" { %I type C; fn f(x: ' + ('&' if 'Vec' in w else '') + w + '); }'
    cx = {'U': 'std::unique_ptr<C>', 'S': 'std::shared_ptr<C>', 'W': 'std::weak_ptr<C>', 'C': 'const std::vector<C> &'}[w[0]]
    row('C16', 'complete C++ type used as ' + w, 'ok', u, '', 'struct C { C(const C &); ~C(); }; void f(%s);' % cx)
# private destructors and deleted ones
pair('C16', 'C++ type that cannot be destroyed behind a UniquePtr', 'cxx', ('unsafe extern "C++" { %I type C; } impl UniquePtr<C> {}', '', 'struct C { ~C() = delete; };'),
     ('unsafe extern "C++" { %I type C; } impl UniquePtr<C> {}', '', 'struct C { ~C() = default; };'))
# what both sides say of a foreign type has to be what it is
for nm, cxx, want in (('class', 'class A { public: std::uint32_t x; };', 'ok'), ('union', 'union A { std::uint32_t x; };', 'ok'), ('function', 'void A();', 'cxx'), ('variable', 'extern int A;', 'cxx'), ('template', 'template <class> struct A {};', 'cxx'),
                      ('absent', '', 'cxx')):
    row('C16', 'declared type is a ' + nm, want, 'unsafe extern "C++" { %I type A; fn f(a: &A); } impl UniquePtr<A> {}', '', cxx + ('void f(const A &);' if want == 'ok' else 'template <class R, class... Z> R f(Z...);'))
