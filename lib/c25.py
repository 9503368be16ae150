"""Names: every interesting identifier in every naming position of a bridge is either refused by both generators or accepted by
everything, generated code included."""
import re

import matrix
from matrix import Case

RUST_LOCALS = 'this lhs rhs f new ret ptr len value raw repr uninit src data expr call trampoline_ a b s i n x y z e msg it arg0 arg1 arg2 outparam label closure sig'.split()
RUST_LIB = 'cxx rust core std alloc concat module_path Option Some None Result Ok Err Sized Drop Clone Copy Send Sync Iterator Into From String_ Layout Formatter MaybeUninit transmute private Self_ derive PhantomData Unpin Debug PartialEq Hash Default prevent_unwind assert usize_ main drop clone fmt eq hash default extern_'.split()
CXX_LOCALS = 'return_ func fail throw_ error impl detail behavior trycatch missing ManuallyDrop MaybeUninit_ Str Slice Fn Error Opaque layout size align size_of align_of begin end operator_new destroy deleter_if is_complete Fat PtrLen unsafe_bitcopy String2 panic hash_ value_type T N Try Fail Ret Args size_t uint8_t ptrdiff_t move forward string vector array memory exception u8_ slice box_ vec str_ Box_ swap what get release lock expired data_ ssize_t isize_ IsRelocatable repr_ cxxbridge'.split()
RAW = ['r#type', 'r#fn', 'r#match', 'r#mod', 'r#impl', 'r#trait', 'r#where', 'r#async', 'r#let', 'r#in', 'r#dyn', 'r#move', 'r#loop', 'r#ref', 'r#gen', 'r#priv', 'r#yield', 'r#become', 'r#box', 'r#final', 'r#override', 'r#unsized', 'r#abstract', 'r#await', 'r#pub', 'r#use', 'r#unsafe', 'r#mut', 'r#as', 'r#macro']
FNS = 'abs exit malloc memcpy strlen printf read write open close remove index time signal environ stdin_ log sin gamma'.split()
# names of the generated Rust code's own items, with whatever they are built from
PLAIN = sorted(set(RUST_LOCALS + RUST_LIB + CXX_LOCALS + FNS) - {'cxxbridge'} - set('impl this new private default move assert'.split()))
RESERVED_TYPES = ['Box', 'UniquePtr', 'SharedPtr', 'WeakPtr', 'Vec', 'CxxVector', 'str', 'bool', 'c_char', 'u8', 'u16', 'u32', 'u64', 'usize', 'i8', 'i16', 'i32', 'i64',
                  'isize', 'f32', 'f64', 'CxxString', 'String']
PREFIX = ['cxxbridge', 'cxxbridge1', 'cxxbridge_x', 'cxxbridgex']
DUNDER = ['a__b', '__a', 'a__', '__']
# (the ones that Rust reserves too can only be written raw)
SPECIFIERS = ['volatile', 'register', 'mutable', 'thread_local', 'friend', 'inline', 'constexpr', 'r#static', 'r#const', 'r#extern', 'typedef']
CXX_KEYWORDS = SPECIFIERS + ['class', 'int', 'template', 'operator', 'new', 'delete', 'this', 'namespace', 'private', 'r#virtual', 'union', 'char', 'auto', 'signed', 'throw',
                'catch', 'using', 'short', 'switch', 'default', 'goto', 'typename', 'and', 'or', 'not', 'xor', 'asm', 'export', 'explicit', 'r#enum', 'r#struct', 'r#for',
                'r#return', 'r#true', 'r#do', 'r#if', 'unsigned', 'long', 'double', 'void', 'wchar_t', 'noexcept', 'nullptr', 'protected', 'public', 'sizeof', 'alignof',
                'alignas', 'decltype', 'static_cast', 'static_assert', 'r#try', 'r#break', 'r#while']

H = 'struct C { C(); C(const C &); ~C(); template <class R, class... A> R m(A...) const; template <class R, class... A> R %s(A...) const; };\nstruct any { template <class X> any(X &&); };\n'
# position: (bridge, Rust, C++); %n the name as written in Rust, %c the C++ name
POS = {
    'Rust function': ('extern "Rust" { fn %n(x: u8) -> String; }', 'pub fn %n(_: u8) -> String { todo!() }', ''),
    'fallible Rust function': ('extern "Rust" { fn %n(x: &str) -> Result<u8>; }', 'pub fn %n(_: &str) -> Result<u8, String> { todo!() }', ''),
    'Rust method': ('extern "Rust" { type R; fn %n(self: &mut R, x: &[u8]) -> Box<R>; }', 'pub struct R; impl R { pub fn %n(&mut self, _: &[u8]) -> Box<R> { todo!() } }', ''),
    'Rust method of a struct': ('struct S { q: u8 } extern "Rust" { fn %n(self: &S); }', 'impl ffi::S { pub fn %n(&self) { todo!() } }', ''),
    'C++ function': (INC := 'unsafe extern "C++" { include!("%I.h"); fn %n(x: u8) -> u8; }', '', '::std::uint8_t %c(::std::uint8_t);'),
    'fallible C++ function': ('unsafe extern "C++" { include!("%I.h"); fn %n(x: String, y: &str) -> Result<String>; }', '', '}\nnamespace rust { inline namespace cxxbridge1 { class String; class Str; } } namespace %I { rust::String %c(rust::String, rust::Str);'),
    'C++ function with callback': ('unsafe extern "C++" { include!("%I.h"); fn %n(g: fn(u8) -> u8); }', '', '}\nnamespace rust { inline namespace cxxbridge1 { template <class> class Fn; } } namespace %I { void %c(rust::Fn<::std::uint8_t(::std::uint8_t)>);'),
    'C++ method': ('unsafe extern "C++" { include!("%I.h"); type C; fn %n(self: &C, x: u8) -> UniquePtr<C>; }', '', 'struct C { ::std::unique_ptr<C> %c(::std::uint8_t) const; };'),
    'argument of a Rust function': ('extern "Rust" { fn f0(%n: u8, q: String) -> String; }', 'pub fn f0(_: u8, _: String) -> String { todo!() }', ''),
    'argument of a fallible Rust function': ('extern "Rust" { fn f0(%n: Vec<u8>, q: &[u8]) -> Result<String>; }', 'pub fn f0(_: Vec<u8>, _: &[u8]) -> Result<String, String> { todo!() }', ''),
    'argument of a Rust method': ('extern "Rust" { type R; fn m0(self: &R, %n: &str) -> Box<R>; }', 'pub struct R; impl R { pub fn m0(&self, _: &str) -> Box<R> { todo!() } }', ''),
    'argument of a C++ function': ('unsafe extern "C++" { include!("%I.h"); fn f0(%n: u8, q: u8) -> u8; }', '', '::std::uint8_t f0(::std::uint8_t, ::std::uint8_t);'),
    'argument of a fallible C++ function': ('unsafe extern "C++" { include!("%I.h"); fn f0(%n: String, q: &str) -> Result<String>; }', '', '}\nnamespace rust { inline namespace cxxbridge1 { class String; class Str; } } namespace %I { rust::String f0(rust::String, rust::Str);'),
    'argument of a callback': ('unsafe extern "C++" { include!("%I.h"); fn f0(f: fn(%n: u8, q: &str) -> String); }', '', '}\nnamespace rust { inline namespace cxxbridge1 { template <class> class Fn; class String; class Str; } } namespace %I { void f0(rust::Fn<rust::String(::std::uint8_t, rust::Str)>);'),
    'callback argument of a C++ function': ('unsafe extern "C++" { include!("%I.h"); fn f0(%n: fn(u8, &str) -> String, q: fn()); }', '', '}\nnamespace rust { inline namespace cxxbridge1 { template <class> class Fn; class String; class Str; } } namespace %I { void f0(rust::Fn<rust::String(::std::uint8_t, rust::Str)>, rust::Fn<void()>);'),
    'argument of a C++ method': ('unsafe extern "C++" { include!("%I.h"); type C; fn m0(self: Pin<&mut C>, %n: UniquePtr<C>) -> Result<()>; }', '', 'struct C { void m0(::std::unique_ptr<C>); };'),
    'vec argument of a C++ function': ('unsafe extern "C++" { include!("%I.h"); fn f0(%n: Vec<u8>, q: Box<R0>) -> Vec<u8>; } extern "Rust" { type R0; }', 'pub struct R0;', '}\nnamespace rust { inline namespace cxxbridge1 { template <class> class Vec; template <class> class Box; } } namespace %I { struct R0; rust::Vec<::std::uint8_t> f0(rust::Vec<::std::uint8_t>, rust::Box<R0>);'),
    'field': ('#[derive(Debug, Clone, PartialEq, PartialOrd, Hash, Default)] struct S { %n: u8, q: String }', '', ''),
    'only field': ('#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)] struct S { %n: u8 }', '', ''),
    'reference field': ("struct S<'a> { %n: &'a str }", '', ''),
    'variant': ('#[derive(Debug, PartialOrd, Hash)] enum E { q0, %n, q1 = 7 }', '', ''),
    'struct': ('#[derive(Debug, Clone, PartialEq, PartialOrd, Hash, Default)] struct %n { q: u8 } extern "Rust" { fn f0(x: %n) -> %n; fn m0(self: &%n); } impl Vec<%n> {} impl Box<%n> {} impl UniquePtr<%n> {}',
               'pub fn f0(_: ffi::%n) -> ffi::%n { todo!() } impl ffi::%n { pub fn m0(&self) { todo!() } }', ''),
    'enum': ('#[derive(Debug, PartialOrd, Hash)] enum %n { A, B } extern "Rust" { fn f0(x: %n) -> %n; } impl SharedPtr<%n> {} impl CxxVector<%n> {} struct S { x: %n }', 'pub fn f0(_: ffi::%n) -> ffi::%n { todo!() }', ''),
    'Rust type': ('extern "Rust" { type %n; fn f0(x: &%n) -> Box<%n>; fn f1(x: Vec<%n>); fn m0(self: &mut %n); }',
                  'pub struct %n {} pub fn f0(_: &%n) -> Box<%n> { todo!() } pub fn f1(_: Vec<%n>) {} impl %n { pub fn m0(&mut self) { todo!() } }', ''),
    'C++ type': ('unsafe extern "C++" { include!("%I.h"); type %n; fn f0(x: &%n) -> UniquePtr<%n>; fn m0(self: Pin<&mut %n>); fn f1(x: &CxxVector<%n>, y: SharedPtr<%n>, z: WeakPtr<%n>); }', '',
                 'struct %c { void m0(); }; ::std::unique_ptr<%c> f0(const %c &); void f1(const ::std::vector<%c> &, ::std::shared_ptr<%c>, ::std::weak_ptr<%c>);'),
    'namespace': ('#[namespace = "%I::%c"] struct S { q: u8 } #[namespace = %I::%n::in_%c] enum E { A } extern "Rust" { #[namespace = %I::%n] fn f0(); #[namespace = "%I::%c"] type R; }', 'pub fn f0() {} pub struct R;', ''),
    'bridge namespace': ('#[derive(PartialEq, Hash)] struct S { q: u8 } enum E { A } extern "Rust" { fn f0() -> Result<Vec<String>>; type R; } unsafe extern "C++" { include!("%I.h"); type C; fn f1() -> UniquePtr<C>; }', 'pub fn f0() -> Result<Vec<String>, String> { todo!() } pub struct R;',
                         '}\nnamespace %I { namespace %c { struct C {}; ::std::unique_ptr<C> f1(); }'),
    'C++ name of a function': ('extern "Rust" { #[cxx_name = "%n"] fn f0(x: u8) -> String; }', 'pub fn f0(_: u8) -> String { todo!() }', ''),
    'C++ name of a type': ('extern "Rust" { #[cxx_name = "%n"] type R; fn f0() -> Box<R>; } unsafe extern "C++" { include!("%I.h"); #[namespace = "%I::in_"] #[cxx_name = "%n"] type C; }', 'pub struct R; pub fn f0() -> Box<R> { todo!() }', 'namespace in_ { struct %c {}; }'),
    'C++ name of a method': ('extern "Rust" { type R; #[cxx_name = "%n"] fn m0(self: &R); }', 'pub struct R; impl R { pub fn m0(&self) { todo!() } }', ''),
    'C++ name of a shared type': ('#[cxx_name = "%n"] #[derive(Hash)] struct S { q: u8 } ', '', ''),
    'Rust name of a function': ('unsafe extern "C++" { include!("%I.h"); #[rust_name = "%n"] fn f0(x: u8) -> u8; }', '', '::std::uint8_t f0(::std::uint8_t);'),
    'Rust name of a type': ('unsafe extern "C++" { include!("%I.h"); #[rust_name = "%n"] type C; fn f0() -> UniquePtr<%n>; }', '', 'struct C {}; ::std::unique_ptr<C> f0();'),
}
# every two items whose generated helpers could meet
CLASHES = {
    'function sizeof_T': ('extern "Rust" { type T; fn sizeof_T(); fn alignof_T(); }', 'pub struct T; pub fn sizeof_T() {} pub fn alignof_T() {}'),
    'function operator_eq_S': ('#[derive(PartialEq, PartialOrd, Hash)] struct S { q: u8 } extern "Rust" { fn operator_eq_S(); fn operator_lt_S(); fn operator_hash_S(); fn operator_ne_S(); }',
                               'pub fn operator_eq_S() {} pub fn operator_lt_S() {} pub fn operator_hash_S() {} pub fn operator_ne_S() {}'),
    'function and method': ('extern "Rust" { type R; fn m0(self: &R); fn R_m0(); fn R() ; }', 'pub struct R {} impl R { pub fn m0(&self) {} } pub fn R_m0() {} pub fn R() {}'),
    'variables of both': ('extern "Rust" { fn f0(f0: u8, f1: u8) -> u8; fn f1(f0: u8); }', 'pub fn f0(_: u8, _: u8) -> u8 { 0 } pub fn f1(_: u8) {}'),
    'function called like an argument type': ('struct S { q: u8 } extern "Rust" { fn f0(S: S) -> S; }', 'pub fn f0(s: ffi::S) -> ffi::S { s }'),
    'field called like its type': ('#[derive(Clone, PartialEq)] struct S { q: u8 } enum E { A } #[derive(Clone)] struct U { s: S, e: E, String: String }', ''),
    'variant called like its enum': ('enum E { E, F }', ''),
    'unused arguments': ('extern "Rust" { fn f0(_: u8, _: String) -> u8; type R; fn m0(self: &R, _: &str); }', 'pub fn f0(_: u8, _: String) -> u8 { 0 } pub struct R; impl R { pub fn m0(&self, _: &str) {} }'),
    'unused and named arguments': ('extern "Rust" { fn f0(_: u8, x: String, _: u8) -> u8; } ', 'pub fn f0(_: u8, _: String, _: u8) -> u8 { 0 }'),
    'unnamed arguments beside ones called like their stand-ins': ('extern "Rust" { fn f0(arg1: u8, _: String, _: u8, arg0: &str) -> u8; type R; fn m0(self: &R, arg1: u8, _: &str, _: R2) -> Result<String>; type R1; fn m1(self: &mut R1, _: u8, arg0: u8); } struct R2 { q: u8 }', 'pub fn f0(_: u8, _: String, _: u8, _: &str) -> u8 { 0 } pub struct R; impl R { pub fn m0(&self, _: u8, _: &str, _: ffi::R2) -> Result<String, String> { todo!() } } pub struct R1; impl R1 { pub fn m1(&mut self, _: u8, _: u8) {} }'),
    'unnamed arguments of C++ functions beside ones called like their stand-ins': ('unsafe extern "C++" { include!("%I.h"); type C; fn f0(arg1: String, _: u8, _: fn(u8)); fn m0(self: &C, _: u8, arg0: Vec<u8>, arg2: u8, _: u8) -> Result<String>; }', '', 'ok', '}\nnamespace rust { inline namespace cxxbridge1 { template <class> class Vec; template <class> class Fn; class String; class Str; } } namespace %I { struct C { rust::String m0(::std::uint8_t, rust::Vec<::std::uint8_t>, ::std::uint8_t, ::std::uint8_t) const; }; void f0(rust::String, ::std::uint8_t, rust::Fn<void(::std::uint8_t)>);'),
    'arguments of callbacks without names of their own': ('unsafe extern "C++" { include!("%I.h"); fn f0(f: fn(_: u8, _: String) -> String); fn f1(f: fn(arg1: u8, u8)); fn f2(f: fn(a: &str, a: &str) -> u8, g: fn(f: u8, u8, arg0: u8)); }', '', 'ok', '}\nnamespace rust { inline namespace cxxbridge1 { template <class> class Fn; class String; class Str; } } namespace %I { void f0(rust::Fn<rust::String(::std::uint8_t, rust::String)>); void f1(rust::Fn<void(::std::uint8_t, ::std::uint8_t)>); void f2(rust::Fn<::std::uint8_t(rust::Str, rust::Str)>, rust::Fn<void(::std::uint8_t, ::std::uint8_t, ::std::uint8_t)>);'),
    'lifetimes called a': ("extern \"Rust\" { type R<'a>; unsafe fn f0<'a>(x: &'a str) -> Box<R<'a>>; }", "pub struct R<'a>(&'a u8); pub fn f0<'a>(_: &'a str) -> Box<R<'a>> { todo!() }"),
    'lifetimes called like a local': ("extern \"Rust\" { type R<'ret>; unsafe fn f0<'x>(x: &'x str) -> Box<R<'x>>; }", "pub struct R<'ret>(&'ret u8); pub fn f0<'x>(_: &'x str) -> Box<R<'x>> { todo!() }"),
    'method called like its type': ('extern "Rust" { type R; fn R(self: &R); }', 'pub struct R; impl R { pub fn R(&self) {} }', 'reject'),
    'method called like its struct': ('struct S { q: u8 } extern "Rust" { fn S(self: &S); }', 'impl ffi::S { pub fn S(&self) {} }', 'reject'),
    'field called like its struct': ('struct S { S: u8 }', '', 'reject'),
    'fallible function with an argument called like everything': ('extern "Rust" { fn f0(f0: Vec<u8>, error: String, throw_: Box<R>, q: UniquePtr<CxxString>) -> Result<Vec<u8>>; type R; }', 'pub struct R; pub fn f0(_: Vec<u8>, _: String, _: Box<R>, _: cxx::UniquePtr<cxx::CxxString>) -> Result<Vec<u8>, String> { todo!() }'),
    'C++ function and its arguments': ('unsafe extern "C++" { include!("%I.h"); fn f0(f0: Vec<u8>, return_: String, f1: fn(String) -> Vec<u8>) -> Result<String>; fn f1(f1: Box<R>, f0: &str) -> Box<R>; } extern "Rust" { type R; }', 'pub struct R {}', 'ok',
        '}\nnamespace rust { inline namespace cxxbridge1 { template <class> class Vec; template <class> class Box; template <class> class Fn; class String; class Str; } } namespace %I {  struct R; rust::String f0(rust::Vec<::std::uint8_t>, rust::String, rust::Fn<rust::Vec<::std::uint8_t>(rust::String)>); rust::Box<R> f1(rust::Box<R>, rust::Str);'),
    'C++ methods and functions': ('unsafe extern "C++" { include!("%I.h"); type C; fn C_m0(c: &C) -> u8; fn m0(self: &C) -> u8; fn m1(self: &C) -> u8; fn m1_(c: &C); #[rust_name = "m2"] fn m1(self: &C, x: u8) -> u8; #[cxx_name = "m1"] fn m1_free(x: u8); #[rust_name = "g"] fn m1(x: &C); }', '', 'ok',
        'struct C { ::std::uint8_t m0() const; ::std::uint8_t m1() const; ::std::uint8_t m1(::std::uint8_t) const; }; ::std::uint8_t C_m0(const C &); void m1_(const C &); void m1(::std::uint8_t); void m1(const C &);'),
    'items called like traits': ('struct ExternType { q: u8 } struct RustType { q: u8 } struct ImplVec { q: u8 } struct UniquePtrTarget { q: u8 } struct VectorElement { q: u8 } impl Vec<VectorElement> {} impl CxxVector<VectorElement> {} impl UniquePtr<UniquePtrTarget> {} impl Box<ImplVec> {}', ''),
}


def fill(s, id, n):
    return s.replace('%I', id).replace('%n', n).replace('%c', n[2:] if n.startswith('r#') else n)


def make(i, pos, n):
    br, rs, h = POS[pos]
    id = 'm%d' % i
    attr = None
    if pos == 'bridge namespace':
        attr = '#[cxx::bridge(namespace = %s::%s)]' % (id, n)
    c = Case(id, fill(br, id, n), fill(rs, id, n), fill(h, id, n), attr=attr)
    c.pos, c.n = pos, n
    if pos == 'Rust type' and n == 'cxx':
        return None             # (the bridge names the crate)
    c.alone = n == 'rust'       # (a shared translation unit renames it)
    c.name = '%s called %s' % (pos, n)
    return c


def check(b, r, tier):
    r.rules = ['in every naming position, an identifier that the generated code, the C++ library, the Rust library or the C standard library also uses compiles on both sides, and a reserved one is refused by both generators',
               'items whose helper names could meet compile together']
    cs = []
    for pos in POS:
        names = [(n, 'ok') for n in PLAIN + RAW]
        if pos.startswith('Rust name'):
            names = [(n, w) for n, w in names if not n.startswith('r#')] + [('cxxbridge_x', 'reject'), ('a__b', 'ok')]
        else:
            names += [(n, 'reject') for n in PREFIX + DUNDER]
            names += [(n, 'reject' if pos.endswith('field') and n in SPECIFIERS else 'stop') for n in CXX_KEYWORDS]
        if pos in ('struct', 'field', 'only field', 'reference field', 'Rust method of a struct', 'C++ name of a shared type'):
            names = [(n, 'reject' if n == 'IsRelocatable' else w) for n, w in names]
        if pos in ('Rust type', 'C++ name of a type'):
            names = [(n, 'reject' if n == 'layout' else w) for n, w in names]
        if pos == 'argument of a callback':
            names = [(n, 'ok') for n, w in names]       # (only documentation)
        if 'argument' in pos:
            names = [(n, w) for n, w in names if n not in ('Some', 'Ok', 'None', 'Err')]      # (patterns)
        if pos in ('struct', 'enum', 'Rust type', 'C++ type', 'Rust name of a type'):
            names += [(n, 'reject') for n in RESERVED_TYPES]
        for n, w in names:
            c = make(len(cs), pos, n)
            if c:
                c.want = w
                cs.append(c)
    for k, (br, rs, *want) in CLASHES.items():
        id = 'm%d' % len(cs)
        c = Case(id, fill(br, id, ''), rs, fill(''.join(want[1:]), id, ''))
        c.pos, c.n, c.name, c.want = 'clash', '', k, (want or ['ok'])[0]
        cs.append(c)
    full = tier == 'thorough'
    matrix.run(b, cs, 'names', cxx=('clang++', 'g++') if full else ('clang++',), stds=('c++11', 'c++20') if full else ('c++17',))
    for c in cs:
        r.count('names_in_positions')
        got = (c.cli_got, c.rust_got, c.cxx_got)
        detail = 'C++ generator: %s; macro and rustc: %s; C++ compiler: %s\nbridge:\n%s\n%s\nmessages:\n%s\n%s\n%s' % (*got, c.bridge, c.rust, c.cli_msg, c.rust_msg, c.cxx_msg)
        if c.want == 'stop':
            r.count('keywords_of_cxx')
            if got == ('ok', 'ok', 'ok'):
                r.violation(c.name, 'a keyword of C++ is let through: ' + detail)
        elif c.want == 'ok':
            r.count('must_work')
            if got != ('ok', 'ok', 'ok'):
                r.violation(c.name, 'does not work: ' + detail)
        else:
            r.count('must_be_refused')
            if c.cli_got != 'error' or c.rust_got == 'ok':
                r.violation(c.name, 'should be refused by both generators: ' + detail)
    r.floor('names_in_positions', 4000)
    r.sample({'names': [c.name for c in cs[::len(cs) // 40]]})
