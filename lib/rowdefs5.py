"""Witness programs: names, renames, namespaces and duplicates (C22)."""
from rows import pair, row

# ------------------------------------------------------------------ how C++ functions are found
H = 'namespace %N { }'


def called(name, bridge, good, bad, rust=''):
    """The C++ header declares it under the right name (compiles), or only under the names it must not be looked up by (does not)."""
    for i, x in enumerate([bad] if isinstance(bad, str) else bad):
        row('C22', 'C++ function found as declared: %s (%d)' % (name, i), 'cxx', bridge, rust, hdr=x)
    row('C22', 'C++ function found as declared: ' + name, 'ok', bridge, rust, hdr=good)


X = 'unsafe extern "C++" { %I '
called('plain', X + 'fn f(x: u8); }', 'void f(std::uint8_t);', ['void g(std::uint8_t);', '} void f(std::uint8_t); namespace %N {', '} namespace q { void f(std::uint8_t); } namespace %N {'])
called('cxx_name', X + '#[cxx_name = "g"] fn f(x: u8); }', 'void g(std::uint8_t);', 'void f(std::uint8_t);')
called('rust_name', X + '#[rust_name = "g"] fn f(x: u8); }', 'void f(std::uint8_t);', 'void g(std::uint8_t);', 'pub fn x() { ffi::g(1) }')
called('both names', X + '#[cxx_name = "h"] #[rust_name = "g"] fn f(x: u8); }', 'void h(std::uint8_t);', ['void g(std::uint8_t);', 'void f(std::uint8_t);'], 'pub fn x() { ffi::g(1) }')
called('namespace of the function', X + '#[namespace = "%N::in"] fn f(x: u8); }', 'namespace in { void f(std::uint8_t); }', ['void f(std::uint8_t);', 'namespace im { void f(std::uint8_t); }'])
called('namespace of the block', '#[namespace = "%N::in"] ' + X + 'fn f(x: u8); }', 'namespace in { void f(std::uint8_t); }', 'void f(std::uint8_t);')
called('namespace of the function over that of the block', '#[namespace = "%N::in"] ' + X + '#[namespace = "%N::on"] fn f(x: u8); fn g(); }', 'namespace in { void g(); } namespace on { void f(std::uint8_t); }',
       ['namespace in { void g(); void f(std::uint8_t); }', 'namespace on { void g(); void f(std::uint8_t); }', 'namespace in { void g(); } void f(std::uint8_t);'])
called('deep namespace', X + '#[namespace = "%N::x::y::z"] fn f(x: u8); }', 'namespace x { namespace y { namespace z { void f(std::uint8_t); } } }', ['namespace x { namespace y { void f(std::uint8_t); } }', 'namespace z { void f(std::uint8_t); }'])
called('namespace written as a path', X + '#[namespace = %N::x] fn f(x: u8); }', 'namespace x { void f(std::uint8_t); }', 'void f(std::uint8_t);')
called('method', X + 'type C; fn f(self: &C); }', 'struct C { void f() const; };', ['struct C { void g() const; };', 'struct C {}; void f(const C &);'])
called('method with cxx_name', X + 'type C; #[cxx_name = "g"] fn f(self: &C); }', 'struct C { void g() const; };', 'struct C { void f() const; };', 'pub fn x(c: &ffi::C) { c.f() }')
called('method with rust_name', X + 'type C; #[rust_name = "g"] fn f(self: &C); }', 'struct C { void f() const; };', 'struct C { void g() const; };', 'pub fn x(c: &ffi::C) { c.g() }')
called('method of a renamed type', X + '#[cxx_name = "D"] type C; fn f(self: &C); }', 'struct D { void f() const; };', 'struct C { void f() const; };')
called('method of a type in a namespace', X + '#[namespace = "%N::in"] type C; fn f(self: &C); }', 'namespace in { struct C { void f() const; }; }', ['struct C { void f() const; };', 'namespace in { struct D { void f() const; }; }'])
called('method is const as declared', X + 'type C; fn f(self: &C); }', 'struct C { void f() const; };', 'struct C { void f(); };')
called('fallible', X + '#[cxx_name = "g"] fn f(x: u8) -> Result<u8>; }', 'std::uint8_t g(std::uint8_t);', 'std::uint8_t f(std::uint8_t);')
called('overloads', X + '#[cxx_name = "g"] fn f1(x: u8); #[cxx_name = "g"] fn f2(x: u16); #[cxx_name = "g"] fn f3(x: u8, y: u8) -> u8; }', 'void g(std::uint8_t); void g(std::uint16_t); std::uint8_t g(std::uint8_t, std::uint8_t);',
       ['void g(std::uint8_t); void g(std::uint16_t);', 'void g(std::uint8_t); void f2(std::uint16_t); std::uint8_t g(std::uint8_t, std::uint8_t);'])
called('method overloads', X + 'type C; #[cxx_name = "g"] fn f1(self: &C, x: u8); #[cxx_name = "g"] fn f2(self: &C, x: u16); #[cxx_name = "g"] fn f3(self: Pin<&mut C>); }', 'struct C { void g(std::uint8_t) const; void g(std::uint16_t) const; void g(); };',
       'struct C { void g(std::uint8_t) const; void g(); };')
for op, d, sg in (('+', 'operator+', ''),):
    pass


# ------------------------------------------------------------------ how types are found
def named(name, bridge, good, bad):
    for i, x in enumerate([bad] if isinstance(bad, str) else bad):
        row('C22', 'C++ type found as declared: %s (%d)' % (name, i), 'cxx', bridge, hdr=x)
    row('C22', 'C++ type found as declared: ' + name, 'ok', bridge, hdr=good)


TF = ' template <class R, class... Z> R f(Z...); '
named('plain', X + 'type C; fn f(a: UniquePtr<C>, b: &C); }', 'struct C {};' + TF, ['struct D {};' + TF, '} struct C {}; namespace %N {' + TF])
named('cxx_name', X + '#[cxx_name = "D"] type C; fn f(a: UniquePtr<C>, b: &C); }', 'struct D {};' + TF, 'struct C {};' + TF)
named('rust_name', X + '#[rust_name = "D"] type C; fn f(a: UniquePtr<D>, b: &D); }', 'struct C {};' + TF, 'struct D {};' + TF)
named('namespace', X + '#[namespace = "%N::in"] type C; fn f(a: UniquePtr<C>, b: &C); }', 'namespace in { struct C {}; }' + TF, 'struct C {};' + TF)
named('namespace of the block', '#[namespace = "%N::in"] unsafe extern "C++" { type C; } ' + X + 'fn f(a: UniquePtr<C>, b: &C); }', 'namespace in { struct C {}; }' + TF, 'struct C {};' + TF)
named('namespace and cxx_name', X + '#[namespace = "%N::in"] #[cxx_name = "D"] type C; fn f(a: SharedPtr<C>, b: &C, c: &CxxVector<C>); }', 'namespace in { struct D {}; }' + TF, ['struct D {};' + TF, 'namespace in { struct C {}; }' + TF])


# ------------------------------------------------------------------ what C++ sees of the bridge
def seen(name, bridge, good, bad, rust='', hdr=''):
    """C++ code after the generated code."""
    row('C22', 'C++ sees: ' + name, 'ok', bridge, rust, hdr=hdr, user=good)
    for i, x in enumerate([bad] if isinstance(bad, str) else bad):
        row('C22', 'C++ does not see: %s (%d)' % (name, i), 'cxx', bridge, rust, hdr=hdr, user=x)


def sees(name, bridge, good, bad, rust=''):
    seen(name, bridge, '\n'.join('static_assert(sizeof(%s) != 0, "");' % g for g in good), ['static_assert(sizeof(%s) != 0, "");' % x for x in bad], rust)


sees('struct', 'struct S { a: u8 }', ['%N::S', '%N::S::a'], ['::S', '%N::s', '%N::S::b'])
sees('struct with cxx_name', '#[cxx_name = "Q"] struct S { a: u8 }', ['%N::Q', '%N::Q::a'], ['%N::S'])
sees('struct with rust_name', '#[rust_name = "Q"] struct S { a: u8 }', ['%N::S', '%N::S::a'], ['%N::Q'], 'pub fn x(_: ffi::Q) {}')
sees('struct in a namespace', '#[namespace = "%N::in"] struct S { a: u8 }', ['%N::in::S'], ['%N::S'])
sees('struct in another namespace', '#[namespace = "out_%N"] struct S { a: u8 }', ['out_%N::S'], ['%N::S', '%N::out_%N::S'])
sees('field with cxx_name', 'struct S { #[cxx_name = "q"] a: u8 }', ['%N::S::q'], ['%N::S::a'], 'pub fn x(s: ffi::S) -> u8 { s.a }')
sees('field with rust_name', 'struct S { #[rust_name = "q"] a: u8 }', ['%N::S::a'], ['%N::S::q'], 'pub fn x(s: ffi::S) -> u8 { s.q }')
sees('enum', 'enum E { A, B }', ['%N::E', '%N::E::A', '%N::E::B'], ['::E', '%N::A', '%N::E::C'])
sees('enum with cxx_name', '#[cxx_name = "Q"] enum E { A }', ['%N::Q::A'], ['%N::E'])
sees('enum with rust_name', '#[rust_name = "Q"] enum E { A }', ['%N::E::A'], ['%N::Q'], 'pub fn x() -> ffi::Q { ffi::Q::A }')
sees('enum in a namespace', '#[namespace = "%N::in"] enum E { A }', ['%N::in::E::A'], ['%N::E'])
sees('variant with cxx_name', 'enum E { #[cxx_name = "q"] A, B }', ['%N::E::q', '%N::E::B'], ['%N::E::A'], 'pub fn x() -> ffi::E { ffi::E::A }')
sees('variant with rust_name', 'enum E { #[rust_name = "Q"] A, B }', ['%N::E::A'], ['%N::E::Q'], 'pub fn x() -> ffi::E { ffi::E::Q }')
sees('Rust type', 'extern "Rust" { type R; }', ['%N::R *'], ['::R *'], 'pub struct R;')
sees('Rust type with cxx_name', 'extern "Rust" { #[cxx_name = "Q"] type R; }', ['%N::Q *'], ['%N::R *'], 'pub struct R;')
sees('Rust type with rust_name', 'extern "Rust" { #[rust_name = "Q"] type R; }', ['%N::R *'], ['%N::Q *'], 'pub struct Q;')
sees('Rust type in a namespace', 'extern "Rust" { #[namespace = "%N::in"] type R; }', ['%N::in::R *'], ['%N::R *'], 'pub struct R;')
sees('Rust type in the namespace of the block', '#[namespace = "%N::in"] extern "Rust" { type R; }', ['%N::in::R *'], ['%N::R *'], 'pub struct R;')
sees('Rust function', 'extern "Rust" { fn f(x: u8) -> u8; }', ['%N::f(1)'], ['::f(1)', '%N::g(1)'], 'pub fn f(x: u8) -> u8 { x }')
sees('Rust function with cxx_name', 'extern "Rust" { #[cxx_name = "g"] fn f(x: u8) -> u8; }', ['%N::g(1)'], ['%N::f(1)'], 'pub fn f(x: u8) -> u8 { x }')
sees('Rust function with rust_name', 'extern "Rust" { #[rust_name = "g"] fn f(x: u8) -> u8; }', ['%N::f(1)'], ['%N::g(1)'], 'pub fn g(x: u8) -> u8 { x }')
sees('Rust function in a namespace', 'extern "Rust" { #[namespace = "%N::in"] fn f(x: u8) -> u8; }', ['%N::in::f(1)'], ['%N::f(1)'], 'pub fn f(x: u8) -> u8 { x }')
sees('Rust function in the namespace of the block', '#[namespace = "%N::in"] extern "Rust" { fn f(x: u8) -> u8; }', ['%N::in::f(1)'], ['%N::f(1)'], 'pub fn f(x: u8) -> u8 { x }')
sees('Rust functions overloaded', 'extern "Rust" { #[cxx_name = "g"] fn f1(x: u8) -> u8; #[cxx_name = "g"] fn f2(x: u8, y: u8) -> u16; }', ['%N::g(1)', '%N::g(1, 2)'], ['%N::f1(1)', '%N::g(1, 2, 3)'],
     'pub fn f1(x: u8) -> u8 { x } pub fn f2(x: u8, y: u8) -> u16 { 1 }')
sees('Rust method', 'extern "Rust" { type R; fn f(self: &R) -> u8; }', ['static_cast<%N::R *>(nullptr)->f()'], ['static_cast<%N::R *>(nullptr)->g()', '%N::f()'], 'pub struct R; impl R { pub fn f(&self) -> u8 { 1 } }')
sees('Rust method with cxx_name', 'extern "Rust" { type R; #[cxx_name = "g"] fn f(&self) -> u8; }', ['static_cast<%N::R *>(nullptr)->g()'], ['static_cast<%N::R *>(nullptr)->f()'], 'pub struct R; impl R { pub fn f(&self) -> u8 { 1 } }')
sees('Rust method with rust_name', 'extern "Rust" { type R; #[rust_name = "g"] fn f(&self) -> u8; }', ['static_cast<%N::R *>(nullptr)->f()'], ['static_cast<%N::R *>(nullptr)->g()'], 'pub struct R; impl R { pub fn g(&self) -> u8 { 1 } }')
sees('shared method', 'struct S { a: u8 } extern "Rust" { fn f(self: &S) -> u8; }', ['static_cast<%N::S *>(nullptr)->f()'], ['static_cast<%N::S *>(nullptr)->g()'], 'impl ffi::S { pub fn f(&self) -> u8 { 1 } }')
seen('C++ class alias by namespace', X + '#[namespace = "%N::in"] type C; fn f(c: &C); }', 'void g(const %N::in::C &c) { %N::f(c); }', 'void g(const %N::C &c) { %N::f(c); }', hdr='namespace in { struct C {}; } void f(const in::C &);')


# ------------------------------------------------------------------ what Rust sees
def rsees(name, bridge, good, bad, hdr=None, rust=''):
    row('C22', 'Rust sees: ' + name, 'ok', bridge, rust + 'pub fn x() { %s }' % good, hdr=hdr)
    for i, x in enumerate([bad] if isinstance(bad, str) else bad):
        row('C22', 'Rust does not see: %s (%d)' % (name, i), 'rust:E0425|E0412|E0599|E0609|E0433|E0432|E0531|E0422', bridge, rust + 'pub fn x() { %s }' % x, hdr=hdr)


rsees('function', X + 'fn f(x: u8); }', 'ffi::f(1)', 'ffi::g(1)')
rsees('function with cxx_name', X + '#[cxx_name = "g"] fn f(x: u8); }', 'ffi::f(1)', 'ffi::g(1)', hdr='void g(std::uint8_t);')
rsees('function with rust_name', X + '#[rust_name = "g"] fn f(x: u8); }', 'ffi::g(1)', 'ffi::f(1)')
rsees('function in a namespace', X + '#[namespace = "%N::in"] fn f(x: u8); }', 'ffi::f(1)', 'ffi::in_::f(1)', hdr='namespace in { void f(std::uint8_t); }')
rsees('type', X + 'type C; }', 'let _: Option<&ffi::C> = None;', 'let _: Option<&ffi::D> = None;')
rsees('type with cxx_name', X + '#[cxx_name = "D"] type C; }', 'let _: Option<&ffi::C> = None;', 'let _: Option<&ffi::D> = None;', hdr='struct D;')
rsees('type with rust_name', X + '#[rust_name = "D"] type C; }', 'let _: Option<&ffi::D> = None;', 'let _: Option<&ffi::C> = None;')
rsees('struct with rust_name', '#[rust_name = "D"] struct S { a: u8 }', 'let _ = ffi::D { a: 1 };', 'let _ = ffi::S { a: 1 };')
rsees('field with rust_name', 'struct S { #[rust_name = "b"] a: u8 }', 'let _ = ffi::S { b: 1 };', 'let s: Option<ffi::S> = None; let _ = s.unwrap().a;')
rsees('variant with rust_name', 'enum E { #[rust_name = "B"] A }', 'let _ = ffi::E::B;', 'let _ = ffi::E::A;')
rsees('variant with cxx_name', 'enum E { #[cxx_name = "B"] A }', 'let _ = ffi::E::A;', 'let _ = ffi::E::B;')
rsees('method with rust_name', X + 'type C; #[rust_name = "g"] fn f(self: &C); }', 'let c: Option<&ffi::C> = None; c.unwrap().g()', 'let c: Option<&ffi::C> = None; c.unwrap().f()', hdr='struct C { void f() const; };')

# ------------------------------------------------------------------ inheritance of namespaces by identity
pair('C22', 'identity of a renamed type', 'rust:E0271', (X + 'type A = super::one::B; }', '#[cxx::bridge(namespace = "%N")] pub mod one { unsafe extern "C++" { %I type B; } }', 'struct A; struct B;'),
     (X + 'type A = super::one::B; }', '#[cxx::bridge(namespace = "%N")] pub mod one { unsafe extern "C++" { %I #[cxx_name = "A"] type B; } }', 'struct A; struct B;'))

# ------------------------------------------------------------------ duplicates
for nm, bad, good in (
        ('two structs', 'struct A { a: u8 } struct A { b: u8 }', 'struct A { a: u8 } struct B { b: u8 }'),
        ('two enums', 'enum A { X } enum A { Y }', 'enum A { X } enum B { Y }'),
        ('struct and enum', 'struct A { a: u8 } enum A { Y }', 'struct A { a: u8 } enum B { Y }'),
        ('enum and struct', 'enum A { Y } struct A { a: u8 }', 'enum B { Y } struct A { a: u8 }'),
        ('two C++ types', X + 'type C; type C; }', X + 'type C; type D; }'),
        ('two C++ types by rust_name', X + '#[rust_name = "C"] type A; #[rust_name = "C"] type B; }', X + '#[rust_name = "C"] type A; #[rust_name = "D"] type B; }'),
        ('C++ types in two blocks', X + 'type C; } unsafe extern "C++" { type C; }', X + 'type C; } unsafe extern "C++" { type D; }'),
        ('C++ type and alias', X + 'type T; #[namespace = "found"] type T = crate::found::T; }', X + 'type C; #[namespace = "found"] type T = crate::found::T; }'),
        ('two aliases', X + '#[namespace = "found"] type T = crate::found::T; #[namespace = "found"] type T = crate::found::T; }', X + '#[namespace = "found"] type T = crate::found::T; }'),
        ('struct and alias', X + '#[namespace = "found"] type T = crate::found::T; } struct T { a: u8 }', X + '#[namespace = "found"] type T = crate::found::T; } struct S { a: u8 }'),
        ('enum and alias', 'enum T { A } ' + X + '#[namespace = "found"] type T = crate::found::T; }', 'enum E { A } ' + X + '#[namespace = "found"] type T = crate::found::T; }'),
        ('two C++ functions', X + 'fn f(); fn f(); }', X + 'fn f(); fn g(); }'),
        ('two C++ functions of different signature', X + 'fn f(); fn f(x: u8); }', X + 'fn f(); #[rust_name = "g"] fn f(x: u8); }'),
        ('two C++ functions in two blocks', X + 'fn f(); } unsafe extern "C++" { fn f(); }', X + 'fn f(); } unsafe extern "C++" { fn g(); }'),
        ('two C++ functions by rust_name', X + 'fn f(); #[rust_name = "f"] fn g(); }', X + 'fn f(); fn g(); }'),
        ('two C++ functions in two namespaces', X + 'fn f(); #[namespace = "found"] fn f(); }', X + 'fn f(); #[namespace = "%N"] fn g(); }'),
        ('two methods', X + 'type C; fn m(self: &C); fn m(self: &C); }', X + 'type C; fn m(self: &C); fn n(self: &C); }'),
        ('two methods by rust_name', X + 'type C; fn m(self: &C); #[rust_name = "m"] fn n(self: &C); }', X + 'type C; fn m(self: &C); fn n(self: &C); }'),
        ('two types with the same struct in between', X + 'type S; type S; } struct S { a: u8 }', X + 'type S; } struct S { a: u8 }'),
        ('three declarations', 'struct S { a: u8 } ' + X + 'type S; } struct S { a: u8 }', 'struct S { a: u8 } ' + X + 'type S; }')):
    hd = 'struct C { void m() const; void n() const; }; struct D {}; struct A {}; struct B {}; struct S { std::uint8_t a; }; void f(); void f(std::uint8_t); void g();'
    if 'struct A {' in bad or 'enum A' in bad:
        hd = ''
    if 'extern shared' in nm or nm in ('struct and alias', 'enum and alias'):
        hd = ''
    pair('C22', 'duplicate: ' + nm, 'any' if nm == 'struct and alias' else 'reject', (bad, '', hd), (good, '', hd))
for nm, bad, good, rust in (
        ('Rust and C++ type', 'extern "Rust" { type R; } ' + X + 'type R; }', 'extern "Rust" { type R; } ' + X + 'type C; }', 'pub struct R;'),
        ('C++ and Rust type', X + 'type R; } extern "Rust" { type R; } ', X + 'type C; } extern "Rust" { type R; } ', 'pub struct R;'),
        ('Rust type and struct', 'extern "Rust" { type R; } struct R { a: u8 }', 'extern "Rust" { type R; } struct S { a: u8 }', 'pub struct R;'),
        ('struct and Rust type', 'struct R { a: u8 } extern "Rust" { type R; }', 'struct S { a: u8 } extern "Rust" { type R; }', 'pub struct R;'),
        ('enum and Rust type', 'enum R { A } extern "Rust" { type R; }', 'enum E { A } extern "Rust" { type R; }', 'pub struct R;'),
        ('two Rust types', 'extern "Rust" { type R; type R; }', 'extern "Rust" { type R; }', 'pub struct R;'),
        ('two Rust functions', 'extern "Rust" { fn f(); fn f(); }', 'extern "Rust" { fn f(); }', 'pub fn f() {}'),
        ('Rust and C++ function', 'extern "Rust" { fn f(); } ' + X + 'fn f(); }', 'extern "Rust" { fn f(); } ' + X + 'fn g(); }', 'pub fn f() {}'),
        ('two Rust methods', 'extern "Rust" { type R; fn m(self: &R); fn m(self: &R); }', 'extern "Rust" { type R; fn m(self: &R); }', 'pub struct R; impl R { pub fn m(&self) {} }'),
        ('two Rust methods, one by self', 'extern "Rust" { type R; fn m(&self); fn m(self: &R); }', 'extern "Rust" { type R; fn m(&self); }', 'pub struct R; impl R { pub fn m(&self) {} }')):
    pair('C22', 'duplicate: ' + nm, 'reject', (bad, rust), (good, rust), hdr='struct C; struct R; void g();' if '"C++"' in bad else '')
# what is not a duplicate
row('C22', 'same method of two types', 'ok', X + 'type C; type D; fn m(self: &C); fn m(self: &D); }', '', hdr='struct C { void m() const; }; struct D { void m() const; };')
row('C22', 'method and function', 'ok', X + 'type C; fn m(self: &C); fn m(); }', '', hdr='struct C { void m() const; }; void m();')
row('C22', 'same C++ name in two namespaces', 'ok', X + 'type C; #[namespace = "%N::in"] #[rust_name = "D"] type C; fn f(a: UniquePtr<C>, b: UniquePtr<D>, c: &CxxVector<C>, d: &CxxVector<D>, e: SharedPtr<C>, g: SharedPtr<D>); }', '', hdr='struct C {}; namespace in { struct C {}; }' + TF)
row('C22', 'same struct name in two namespaces', 'ok', '#[namespace = "%N::i"] #[cxx_name = "S"] struct S1 { a: u8 } #[namespace = "%N::j"] #[cxx_name = "S"] struct S2 { b: u16 } ' + X + 'fn f(a: Vec<S1>, b: Vec<S2>, c: Box<S1>, d: Box<S2>); }', '', hdr=TF,
    user='static_assert(sizeof(%N::i::S::a) == 1 && sizeof(%N::j::S::b) == 2, "");')
row('C22', 'methods of two types that share their C++ name', 'ok', X + 'type C; #[namespace = "%N::in"] #[rust_name = "D"] type C; fn m(self: &C); fn m(self: &D); }', '', hdr='struct C { void m() const; }; namespace in { struct C { void m() const; }; }')
row('C22', 'Rust methods of two types that share their C++ name', 'ok', 'extern "Rust" { type C; #[namespace = "%N::in"] #[cxx_name = "C"] type D; fn m(self: &C); fn m(self: &D); }', 'pub struct C; pub struct D; impl C { pub fn m(&self) {} } impl D { pub fn m(&self) {} }')
for nm, b in (('fields', 'struct S { a: u8, a: u8 }'), ('fields by cxx_name', 'struct S { a: u8, #[cxx_name = "a"] b: u8 }'), ('variants', 'enum E { A, A }'), ('variants by cxx_name', 'enum E { A, #[cxx_name = "A"] B }'),
              ('arguments', X + 'fn f(a: u8, a: u8); }'), ('C++ names of structs', 'struct S { a: u8 } #[cxx_name = "S"] struct T { b: u16 }'), ('C++ names of enums', 'enum E { A } #[cxx_name = "E"] enum F { A }'),
              ('C++ names of Rust functions', 'extern "Rust" { fn f(); #[cxx_name = "f"] fn g(); }')):
    row('C22', 'some compiler refuses duplicate ' + nm, 'any', b, 'pub fn f() {} pub fn g() {}' if '"Rust"' in b else '')

# ------------------------------------------------------------------ malformed names
for nm, b in (('namespace with a bad segment', X + '#[namespace = "1a"] fn f(); }'), ('namespace with empty segment', X + '#[namespace = "a::::b"] fn f(); }'), ('namespace with a dot', X + '#[namespace = "a.b"] fn f(); }'),
              ('cxx_name with a space', X + '#[cxx_name = "a b"] fn f(); }'), ('empty cxx_name', X + '#[cxx_name = ""] fn f(); }'), ('cxx_name with colons', X + '#[cxx_name = "a::b"] fn f(); }'), ('rust_name with a path', X + '#[rust_name = "a::b"] fn f(); }'),
              ('cxx_name that is a number', X + '#[cxx_name = "1"] fn f(); }'), ('cxx_name without value', X + '#[cxx_name] fn f(); }'), ('rust_name that is a keyword', X + '#[rust_name = "fn"] fn f(); }'),
              ('cxx_name on a block', '#[cxx_name = "x"] ' + X + 'fn f(); }'), ('rust_name on a block', '#[rust_name = "x"] ' + X + 'fn f(); }'), ('namespace on a field', 'struct S { #[namespace = "x"] a: u8 }'),
              ('namespace on a variant', 'enum E { #[namespace = "x"] A }')):
    row('C22', 'malformed: ' + nm, 'reject', b)
for a in ('#[cxx::bridge(namespace = "1a")]', '#[cxx::bridge(name = "a")]', '#[cxx::bridge(namespace = "a b")]', '#[cxx::bridge(namespace)]', '#[cxx::bridge(cxx_name = "x")]'):
    row('C22', 'malformed: ' + a, 'reject', 'struct S { a: u8 }', attr=a)
