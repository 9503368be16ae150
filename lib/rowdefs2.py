"""More witness programs: misshapen declarations (C09) and definitions that do not match (C02)."""
from rows import row

row('C09', 'unsafe extern "C++" { %I safe fn f(); }', 'reject', 'unsafe extern "C++" { %I safe fn f(); }')
row('C09', 'unsafe extern "C++" { %I default fn f(); }', 'reject', 'unsafe extern "C++" { %I default fn f(); }')
row('C09', 'unsafe extern "C++" { %I fn f() {} }', 'reject', 'unsafe extern "C++" { %I fn f() {} }')
row('C09', 'unsafe extern "C++" { %I pub(crate) fn f(); }', 'ok', 'unsafe extern "C++" { %I pub(crate) fn f(); }')
row('C09', 'unsafe extern "C++" { %I fn f(_: u8); }', 'ok', 'unsafe extern "C++" { %I fn f(_: u8); }')
row('C09', 'unsafe extern "C++" { %I fn f((a, b): u8); }', 'reject', 'unsafe extern "C++" { %I fn f((a, b): u8); }')
row('C09', 'unsafe extern "C++" { %I type C; fn m(self); }', 'reject', 'unsafe extern "C++" { %I type C; fn m(self); }')
row('C09', 'unsafe extern "C++" { %I type C; fn m(self: C); }', 'reject', 'unsafe extern "C++" { %I type C; fn m(self: C); }')
row('C09', 'unsafe extern "C++" { %I type C; fn m(&mut self); }', 'reject', 'unsafe extern "C++" { %I type C; fn m(&mut self); }')
row('C09', 'unsafe extern "C++" { %I type C; fn m(self: &UniquePtr<C>); }', 'reject', 'unsafe extern "C++" { %I type C; fn m(self: &UniquePtr<C>); }')
row('C09', 'unsafe extern "C++" { %I type C; fn m(self: Box<C>); }', 'reject', 'unsafe extern "C++" { %I type C; fn m(self: Box<C>); }')
row('C09', 'unsafe extern "C++" { %I fn f(cb: fn(x: u8, ...)); }', 'reject', 'unsafe extern "C++" { %I fn f(cb: fn(x: u8, ...)); }')
row('C09', 'unsafe extern "C++" { %I fn f(x: u8, ...); }', 'reject', 'unsafe extern "C++" { %I fn f(x: u8, ...); }')
row('C09', 'unsafe extern "C++" { %I fn f(cb: for<\'a> fn(&\'a u8)); }', 'reject', 'unsafe extern "C++" { %I fn f(cb: for<\'a> fn(&\'a u8)); }')
row('C09', 'unsafe extern "C++" { %I fn f(cb: fn() -> Result<u8>); }', 'reject', 'unsafe extern "C++" { %I fn f(cb: fn() -> Result<u8>); }')
row('C09', 'unsafe extern "C++" { %I fn f(cb: fn() -> Result<()>); }', 'reject', 'unsafe extern "C++" { %I fn f(cb: fn() -> Result<()>); }')
row('C09', 'unsafe extern "C++" { %I fn f(cb: fn(Result<u8>)); }', 'reject', 'unsafe extern "C++" { %I fn f(cb: fn(Result<u8>)); }')
row('C09', 'unsafe extern "C++" { %I fn f(x: Result<u8>); }', 'reject', 'unsafe extern "C++" { %I fn f(x: Result<u8>); }')
row('C09', 'unsafe extern "C++" { %I fn f() -> Result<Result<u8>>; }', 'reject', 'unsafe extern "C++" { %I fn f() -> Result<Result<u8>>; }')
row('C09', 'unsafe extern "C++" { %I fn f() -> Result<u8, u8>; }', 'reject', 'unsafe extern "C++" { %I fn f() -> Result<u8, u8>; }')
row('C09', 'unsafe extern "C++" { %I fn f() -> !; }', 'reject', 'unsafe extern "C++" { %I fn f() -> !; }')
row('C09', 'unsafe extern "C++" { %I fn f() -> impl Copy; }', 'reject', 'unsafe extern "C++" { %I fn f() -> impl Copy; }')
row('C09', 'unsafe extern "C++" { %I fn f(x: impl Copy); }', 'reject', 'unsafe extern "C++" { %I fn f(x: impl Copy); }')
row('C09', 'unsafe extern "C++" { %I fn f(x: dyn Copy); }', 'reject', 'unsafe extern "C++" { %I fn f(x: dyn Copy); }')
row('C09', 'unsafe extern "C++" { %I fn f(x: Vec); }', 'reject', 'unsafe extern "C++" { %I fn f(x: Vec); }')
row('C09', 'unsafe extern "C++" { %I fn f(x: Vec<u8, u8>); }', 'reject', 'unsafe extern "C++" { %I fn f(x: Vec<u8, u8>); }')
row('C09', 'unsafe extern "C++" { %I fn f(x: Box<\'a>); }', 'reject', 'unsafe extern "C++" { %I fn f(x: Box<\'a>); }')
row('C09', 'unsafe extern "C++" { %I fn f(x: Pin<u8>); }', 'reject', 'unsafe extern "C++" { %I fn f(x: Pin<u8>); }')
row('C09', 'unsafe extern "C++" { %I fn f(x: Pin<Box<u8>>); }', 'reject', 'unsafe extern "C++" { %I fn f(x: Pin<Box<u8>>); }')
row('C09', 'unsafe extern "C++" { %I fn f(x: [u8; 0]); }', 'reject', 'unsafe extern "C++" { %I fn f(x: [u8; 0]); }')
row('C09', 'unsafe extern "C++" { %I fn f(x: [u8; 1 + 1]); }', 'reject', 'unsafe extern "C++" { %I fn f(x: [u8; 1 + 1]); }')
row('C09', 'unsafe extern "C++" { %I fn f(x: [u8; 2u8]); }', 'rust:*', 'unsafe extern "C++" { %I fn f(x: [u8; 2u8]); }')
row('C09', 'unsafe extern "C++" { %I fn f(x: [u8; 2usize]); }', 'ok', 'unsafe extern "C++" { %I fn f(x: [u8; 2usize]); }')
row('C09', 'unsafe extern "C++" { %I fn f(x: [u8; 0x1_0]); }', 'ok', 'unsafe extern "C++" { %I fn f(x: [u8; 0x1_0]); }')
row('C09', 'unsafe extern "C++" { %I fn f(x: [u8; 0b11]); }', 'ok', 'unsafe extern "C++" { %I fn f(x: [u8; 0b11]); }')
row('C09', 'unsafe extern "C++" { %I fn f(x: [u8; 0o17]); }', 'ok', 'unsafe extern "C++" { %I fn f(x: [u8; 0o17]); }')
row('C09', 'unsafe extern "C++" { %I fn f(x: [u8; 340282366920938463463374607431768211456]); }', 'reject', 'unsafe extern "C++" { %I fn f(x: [u8; 340282366920938463463374607431768211456]); }')
row('C09', 'unsafe extern "C++" { %I fn f(x: [u8; -1]); }', 'reject', 'unsafe extern "C++" { %I fn f(x: [u8; -1]); }')
row('C09', 'unsafe extern "C++" { %I fn f(x: [u8; \'a\']); }', 'reject', 'unsafe extern "C++" { %I fn f(x: [u8; \'a\']); }')
row('C09', 'unsafe extern "C++" { %I fn f(x: [u8; N]); }', 'reject', 'unsafe extern "C++" { %I fn f(x: [u8; N]); }')
row('C09', 'unsafe extern "C++" { %I fn f(x: (u8,)); }', 'reject', 'unsafe extern "C++" { %I fn f(x: (u8,)); }')
row('C09', 'unsafe extern "C++" { %I fn f(x: std::string::String); }', 'reject', 'unsafe extern "C++" { %I fn f(x: std::string::String); }')
row('C09', 'unsafe extern "C++" { %I fn f(x: &cxx::CxxString); }', 'reject', 'unsafe extern "C++" { %I fn f(x: &cxx::CxxString); }')
row('C09', 'unsafe extern "C++" { %I fn f(x: Self); }', 'reject', 'unsafe extern "C++" { %I fn f(x: Self); }')
row('C09', 'unsafe extern "C++" { %I fn f(x: &Self); }', 'reject', 'unsafe extern "C++" { %I fn f(x: &Self); }')
row('C09', 'unsafe extern "C++" { %I fn f(x: i128); }', 'reject', 'unsafe extern "C++" { %I fn f(x: i128); }')
row('C09', 'unsafe extern "C++" { %I fn f(x: char); }', 'reject', 'unsafe extern "C++" { %I fn f(x: char); }')
row('C09', 'unsafe extern "C++" { %I const fn f(); }', 'reject', 'unsafe extern "C++" { %I const fn f(); }')
row('C09', 'unsafe extern "C++" { %I async fn f(); }', 'reject', 'unsafe extern "C++" { %I async fn f(); }')
row('C09', 'unsafe extern "C++" { %I extern "C" fn f(); }', 'reject', 'unsafe extern "C++" { %I extern "C" fn f(); }')
row('C09', 'unsafe extern "C++" { %I static X: u8; }', 'reject', 'unsafe extern "C++" { %I static X: u8; }')
row('C09', 'unsafe extern "C++" { %I fn f<T>(x: T); }', 'reject', 'unsafe extern "C++" { %I fn f<T>(x: T); }')
row('C09', 'unsafe extern "C++" { %I fn f<const N: usize>(); }', 'reject', 'unsafe extern "C++" { %I fn f<const N: usize>(); }')
row('C09', 'unsafe extern "C++" { %I fn f<\'a: \'a>(x: &\'a u8); }', 'reject', 'unsafe extern "C++" { %I fn f<\'a: \'a>(x: &\'a u8); }')
row('C09', 'unsafe extern "C++" { %I fn f<\'a>(x: &\'a u8) where \'a: \'a; }', 'reject', 'unsafe extern "C++" { %I fn f<\'a>(x: &\'a u8) where \'a: \'a; }')
row('C09', 'unsafe extern "C" { %I fn f(); }', 'reject', 'unsafe extern "C" { %I fn f(); }')
row('C09', 'unsafe extern { %I fn f(); }', 'reject', 'unsafe extern { %I fn f(); }')
row('C09', 'unsafe extern "Rust" { fn f(); } / pub fn f() {}', 'reject', 'unsafe extern "Rust" { fn f(); }', rust='pub fn f() {}')
row('C09', 'extern "Rust" { type X = crate::found::T; }', 'reject', 'extern "Rust" { type X = crate::found::T; }')
row('C09', 'fn f() {}', 'reject', 'fn f() {}')
row('C09', 'const X: u8 = 1;', 'reject', 'const X: u8 = 1;')
row('C09', 'static X: u8 = 1;', 'reject', 'static X: u8 = 1;')
row('C09', 'mod x {}', 'reject', 'mod x {}')
row('C09', 'type X = u8;', 'reject', 'type X = u8;')
row('C09', 'use std::string::String;', 'reject', 'use std::string::String;')
row('C09', 'union U { a: u8 }', 'reject', 'union U { a: u8 }')
row('C09', 'trait X {}', 'reject', 'trait X {}')
row('C09', 'extern crate core;', 'reject', 'extern crate core;')
row('C09', 'include!("x.h");', 'reject', 'include!("x.h");')
row('C09', 'struct S;', 'reject', 'struct S;')
row('C09', 'struct S(u8);', 'reject', 'struct S(u8);')
row('C09', 'struct S {}', 'reject', 'struct S {}')
row('C09', 'struct S<T> { x: T }', 'reject', 'struct S<T> { x: T }')
row('C09', 'struct S<const N: usize> { x: u8 }', 'reject', 'struct S<const N: usize> { x: u8 }')
row('C09', "struct S<'a: 'a> { x: &'a u8 }", 'reject', "struct S<'a: 'a> { x: &'a u8 }")
row('C09', "struct S<'a> where 'a: 'a { x: &'a u8 }", 'reject', "struct S<'a> where 'a: 'a { x: &'a u8 }")
row('C09', 'struct S { #[foo] x: u8 }', 'reject', 'struct S { #[foo] x: u8 }')
row('C09', '#[foo] struct S { x: u8 }', 'reject', '#[foo] struct S { x: u8 }')
row('C09', '#[repr(C)] struct S { x: u8 }', 'reject', '#[repr(C)] struct S { x: u8 }')
row('C09', '#[repr(packed)] struct S { x: u8 }', 'reject', '#[repr(packed)] struct S { x: u8 }')
row('C09', '#[repr(align(8))] struct S { x: u8 }', 'reject', '#[repr(align(8))] struct S { x: u8 }')
row('C09', '#[derive(Foo)] struct S { x: u8 }', 'reject', '#[derive(Foo)] struct S { x: u8 }')
row('C09', '#[derive(Clone, Clone)] struct S { x: u8 }', 'rust:*', '#[derive(Clone, Clone)] struct S { x: u8 }')
row('C09', '#[derive(Clone)] #[derive(Clone)] struct S { x: u8 }', 'rust:*', '#[derive(Clone)] #[derive(Clone)] struct S { x: u8 }')
row('C09', '#[derive(Copy)] struct S { x: u8 }', 'rust:*', '#[derive(Copy)] struct S { x: u8 }')
row('C09', '#[derive(Copy)] struct S { x: String }', 'rust:*', '#[derive(Copy)] struct S { x: String }')
row('C09', '#[derive(Eq)] struct S { x: u8 }', 'rust:*', '#[derive(Eq)] struct S { x: u8 }')
row('C09', '#[derive(Hash)] struct S { x: u8 }', 'ok', '#[derive(Hash)] struct S { x: u8 }')
row('C09', '#[derive(Ord)] struct S { x: u8 }', 'rust:*', '#[derive(Ord)] struct S { x: u8 }')
row('C09', '#[derive(PartialOrd)] struct S { x: u8 }', 'rust:*', '#[derive(PartialOrd)] struct S { x: u8 }')
row('C09', '#[derive(PartialEq)] struct S { x: UniquePtr<CxxString> }', 'ok', '#[derive(PartialEq)] struct S { x: UniquePtr<CxxString> }')
row('C09', '#[derive(PartialEq)] struct S { x: f64 }', 'ok', '#[derive(PartialEq)] struct S { x: f64 }')
row('C09', '#[derive(Eq)] struct S { x: f64 }', 'rust:*', '#[derive(Eq)] struct S { x: f64 }')
row('C09', '#[derive(Default)] struct S { x: u8 }', 'ok', '#[derive(Default)] struct S { x: u8 }')
row('C09', '#[derive(Default)] enum E { A }', 'reject', '#[derive(Default)] enum E { A }')
row('C09', '#[derive(ExternType)] struct S { x: u8 }', 'reject', '#[derive(ExternType)] struct S { x: u8 }')
row('C09', '#[derive(ExternType)] enum E { A }', 'reject', '#[derive(ExternType)] enum E { A }')
row('C09', 'extern "Rust" { #[derive(ExternType)] type R; } / pub struct R;', 'ok', 'extern "Rust" { #[derive(ExternType)] type R; }', rust='pub struct R;')
row('C09', 'extern "Rust" { #[derive(Clone)] type R; } / #[derive(Clone)] pub struct R;', 'reject', 'extern "Rust" { #[derive(Clone)] type R; }', rust='#[derive(Clone)] pub struct R;')
row('C09', 'enum E { A(u8) }', 'reject', 'enum E { A(u8) }')
row('C09', 'enum E { A { x: u8 } }', 'reject', 'enum E { A { x: u8 } }')
row('C09', 'enum E {}', 'reject', 'enum E {}')
row('C09', '#[repr(u8)] enum E {}', 'ok', '#[repr(u8)] enum E {}')
row('C09', 'enum E<T> { A }', 'reject', 'enum E<T> { A }')
row('C09', "enum E<'a> { A }", 'reject', "enum E<'a> { A }")
row('C09', 'unsafe extern "C++" { %I type C: Copy; }', 'reject', 'unsafe extern "C++" { %I type C: Copy; }')
row('C09', 'unsafe extern "C++" { %I type C<T>; }', 'reject', 'unsafe extern "C++" { %I type C<T>; }')
row('C09', 'unsafe extern "C++" { %I type C<\'a>; }', 'ok', 'unsafe extern "C++" { %I type C<\'a>; }')
row('C09', 'extern "Rust" { fn f(x: fn()); } / pub fn f(x: fn()) {}', 'reject', 'extern "Rust" { fn f(x: fn()); }', rust='pub fn f(x: fn()) {}')
row('C09', 'extern "Rust" { fn f() -> fn(); } / pub fn f() -> fn() { todo!() }', 'reject', 'extern "Rust" { fn f() -> fn(); }', rust='pub fn f() -> fn() { todo!() }')
row('C09', 'unsafe extern "C++" { %I fn f() -> fn(); }', 'reject', 'unsafe extern "C++" { %I fn f() -> fn(); }')
row('C09', 'unsafe extern "C++" { %I fn f(x: *const fn()); }', 'reject', 'unsafe extern "C++" { %I fn f(x: *const fn()); }')
row('C09', 'enum E { A } extern "Rust" { fn m(self: &E); } / impl ffi::E { pub fn m(&self) {} }', 'reject', 'enum E { A } extern "Rust" { fn m(self: &E); }', rust='impl ffi::E { pub fn m(&self) {} }')
row('C09', 'enum E { A } unsafe extern "C++" { %I fn m(self: &E); }', 'reject', 'enum E { A } unsafe extern "C++" { %I fn m(self: &E); }')
row('C09', 'unsafe extern "C++" { %I fn m(self: &Undeclared); }', 'reject', 'unsafe extern "C++" { %I fn m(self: &Undeclared); }')
row('C09', 'unsafe extern "C++" { %I fn m(self: &u8); }', 'reject', 'unsafe extern "C++" { %I fn m(self: &u8); }')
row('C09', 'unsafe extern "C++" { %I fn m(self: &CxxString); }', 'reject', 'unsafe extern "C++" { %I fn m(self: &CxxString); }')
row('C09', 'unsafe extern "C++" { %I fn m(&self); }', 'reject', 'unsafe extern "C++" { %I fn m(&self); }')
row('C09', 'unsafe extern "C++" { %I type C; type D; fn m(&self); }', 'reject', 'unsafe extern "C++" { %I type C; type D; fn m(&self); }')
row('C09', 'struct S { a: u8 } unsafe extern "C++" { %I fn m(self: &S); }', 'ok', 'struct S { a: u8 } unsafe extern "C++" { %I fn m(self: &S); }')
row('C09', 'struct S { a: u8 } unsafe extern "C++" { %I fn m(self: &mut S); }', 'ok', 'struct S { a: u8 } unsafe extern "C++" { %I fn m(self: &mut S); }')
row('C09', 'struct S { a: u8 } unsafe extern "C++" { %I fn m(self: Pin<&mut S>); }', 'ok', 'struct S { a: u8 } unsafe extern "C++" { %I fn m(self: Pin<&mut S>); }')
row('C09', 'struct S { a: u8 } extern "Rust" { fn m(self: &mut S); } / impl ffi::S { pub fn m(&mut self) {} }', 'ok', 'struct S { a: u8 } extern "Rust" { fn m(self: &mut S); }', rust='impl ffi::S { pub fn m(&mut self) {} }')
row('C09', 'struct S { a: u8 } extern "Rust" { fn m(self: Pin<&mut S>); } / impl ffi::S { pub fn m(self: Pin<&mut Self>) {', 'ok', 'struct S { a: u8 } extern "Rust" { fn m(self: Pin<&mut S>); }', rust='impl ffi::S { pub fn m(self: Pin<&mut Self>) {} }')
row('C09', 'extern "Rust" { type R; fn m(&self); fn n(&mut self); fn p(self: Pin<&mut R>); } / pub struct R; impl R { pub ', 'ok', 'extern "Rust" { type R; fn m(&self); fn n(&mut self); fn p(self: Pin<&mut R>); }', rust='pub struct R; impl R { pub fn m(&self) {} pub fn n(&mut self) {} pub fn p(self: Pin<&mut Self>) {} }')
row('C09', 'extern "Rust" { type R; fn m(&self); } / pub struct R;', 'rust:*', 'extern "Rust" { type R; fn m(&self); }', rust='pub struct R;')
row('C09', 'extern "Rust" { type R; fn m(&self); } / pub struct R; impl R { pub fn m(&mut self) {} }', 'rust:*', 'extern "Rust" { type R; fn m(&self); }', rust='pub struct R; impl R { pub fn m(&mut self) {} }')
row('C09', 'extern "Rust" { fn f(x: u8); } / pub fn f(x: u16) {}', 'rust:*', 'extern "Rust" { fn f(x: u8); }', rust='pub fn f(x: u16) {}')
row('C09', 'extern "Rust" { fn f(x: u8); } / pub fn f(x: u8) -> u8 { 0 }', 'rust:*', 'extern "Rust" { fn f(x: u8); }', rust='pub fn f(x: u8) -> u8 { 0 }')
row('C09', 'extern "Rust" { fn f(x: u8) -> u8; } / pub fn f(x: u8) {}', 'rust:*', 'extern "Rust" { fn f(x: u8) -> u8; }', rust='pub fn f(x: u8) {}')
row('C09', 'extern "Rust" { fn f(x: u8) -> Result<u8>; } / pub fn f(x: u8) -> u8 { 0 }', 'rust:*', 'extern "Rust" { fn f(x: u8) -> Result<u8>; }', rust='pub fn f(x: u8) -> u8 { 0 }')
row('C09', 'extern "Rust" { fn f(x: u8) -> u8; } / pub fn f(x: u8) -> Result<u8, String> { Ok(0) }', 'rust:*', 'extern "Rust" { fn f(x: u8) -> u8; }', rust='pub fn f(x: u8) -> Result<u8, String> { Ok(0) }')
row('C09', 'extern "Rust" { fn f() -> Result<u8>; } / pub struct NoDisplay; pub fn f() -> Result<u8, NoDisplay> { Ok(0) }', 'rust:*', 'extern "Rust" { fn f() -> Result<u8>; }', rust='pub struct NoDisplay; pub fn f() -> Result<u8, NoDisplay> { Ok(0) }')
row('C09', 'extern "Rust" { fn f() -> Result<u8>; } / pub fn f() -> Option<u8> { None }', 'rust:*', 'extern "Rust" { fn f() -> Result<u8>; }', rust='pub fn f() -> Option<u8> { None }')
row('C09', 'extern "Rust" { fn f(); } / pub async fn f() {}', 'rust:*', 'extern "Rust" { fn f(); }', rust='pub async fn f() {}')
row('C09', 'extern "Rust" { fn f(x: &u8); } / pub fn f(x: &mut u8) {}', 'rust:*', 'extern "Rust" { fn f(x: &u8); }', rust='pub fn f(x: &mut u8) {}')
row('C09', 'extern "Rust" { fn f(x: &[u8]); } / pub fn f(x: &[u16]) {}', 'rust:*', 'extern "Rust" { fn f(x: &[u8]); }', rust='pub fn f(x: &[u16]) {}')
row('C09', 'extern "Rust" { fn f(x: &\'static str); } / pub fn f(x: &\'static str) {}', 'ok', 'extern "Rust" { fn f(x: &\'static str); }', rust="pub fn f(x: &'static str) {}")
row('C09', 'extern "Rust" { fn f(x: &str); } / pub fn f(x: &\'static str) {}', 'rust:*', 'extern "Rust" { fn f(x: &str); }', rust="pub fn f(x: &'static str) {}")
row('C09', 'extern "Rust" { fn f<\'a>(x: &\'a str) -> &\'a str; } / pub fn f<\'a>(x: &\'a str) -> &\'a str { x }', 'reject', 'extern "Rust" { fn f<\'a>(x: &\'a str) -> &\'a str; }', rust="pub fn f<'a>(x: &'a str) -> &'a str { x }")
row('C09', 'extern "Rust" { unsafe fn f<\'a>(x: &\'a str) -> &\'a str; } / pub fn f<\'a>(x: &\'a str) -> &\'a str { x }', 'ok', 'extern "Rust" { unsafe fn f<\'a>(x: &\'a str) -> &\'a str; }', rust="pub fn f<'a>(x: &'a str) -> &'a str { x }")
row('C09', 'extern "Rust" { unsafe fn f<\'a>(x: &\'a str, y: &str) -> &\'a str; } / pub fn f<\'a>(x: &str, y: &\'a str) -> &\'a ', 'rust:*', 'extern "Rust" { unsafe fn f<\'a>(x: &\'a str, y: &str) -> &\'a str; }', rust="pub fn f<'a>(x: &str, y: &'a str) -> &'a str { y }")
row('C09', 'extern "Rust" { fn f(x: &str) -> &\'static str; } / pub fn f(x: &str) -> &\'static str { "" }', 'ok', 'extern "Rust" { fn f(x: &str) -> &\'static str; }', rust='pub fn f(x: &str) -> &\'static str { "" }')
row('C09', 'extern "Rust" { fn f(x: &str) -> &str; } / pub fn f(x: &str) -> &\'static str { "" }', 'ok', 'extern "Rust" { fn f(x: &str) -> &str; }', rust='pub fn f(x: &str) -> &\'static str { "" }')
row('C09', 'extern "Rust" { fn f(x: &str, y: &str) -> &str; } / pub fn f<\'a>(x: &\'a str, y: &\'a str) -> &\'a str { x }', 'rust:*', 'extern "Rust" { fn f(x: &str, y: &str) -> &str; }', rust="pub fn f<'a>(x: &'a str, y: &'a str) -> &'a str { x }")
row('C09', 'extern "Rust" { fn f() -> &str; } / pub fn f() -> &\'static str { "" }', 'rust:*', 'extern "Rust" { fn f() -> &str; }', rust='pub fn f() -> &\'static str { "" }')
row('C09', 'extern "Rust" { type R; } / pub type R = *const u8;', 'rust:*', 'extern "Rust" { type R; }', rust='pub type R = *const u8;')
row('C09', 'extern "Rust" { type R; fn f(x: Box<R>); } / pub type R = String; pub fn f(x: Box<R>) {}', 'rust:*', 'extern "Rust" { type R; fn f(x: Box<R>); }', rust='pub type R = String; pub fn f(x: Box<R>) {}')
row('C09', 'extern "Rust" { type R; fn f(x: Box<R>); } / pub type R = (u8, u8); pub fn f(x: Box<R>) {}', 'rust:*', 'extern "Rust" { type R; fn f(x: Box<R>); }', rust='pub type R = (u8, u8); pub fn f(x: Box<R>) {}')
row('C09', 'extern "Rust" { type R; fn f(x: &R); } / pub type R = str; pub fn f(x: &R) {}', 'rust:*', 'extern "Rust" { type R; fn f(x: &R); }', rust='pub type R = str; pub fn f(x: &R) {}')
row('C09', 'extern "Rust" { type R; fn f(x: &R); } / pub trait X {} pub type R = dyn X; pub fn f(x: &R) {}', 'rust:*', 'extern "Rust" { type R; fn f(x: &R); }', rust='pub trait X {} pub type R = dyn X; pub fn f(x: &R) {}')
row('C09', 'extern "Rust" { type R; fn f(x: &R); } / pub type R = [u8]; pub fn f(x: &R) {}', 'rust:*', 'extern "Rust" { type R; fn f(x: &R); }', rust='pub type R = [u8]; pub fn f(x: &R) {}')
row('C09', 'extern "Rust" { type R; fn f(x: Vec<R>); } / pub struct R; pub fn f(x: Vec<R>) {}', 'ok', 'extern "Rust" { type R; fn f(x: Vec<R>); }', rust='pub struct R; pub fn f(x: Vec<R>) {}')
row('C09', 'extern "Rust" { type R; fn f(x: &R); } / pub struct R<\'a>(&\'a u8); pub fn f(x: &R) {}', 'rust:*', 'extern "Rust" { type R; fn f(x: &R); }', rust="pub struct R<'a>(&'a u8); pub fn f(x: &R) {}")
row('C09', 'extern "Rust" { type R<\'a>; fn f(x: &R); } / pub struct R<\'a>(&\'a u8); pub fn f(x: &R) {}', 'ok', 'extern "Rust" { type R<\'a>; fn f(x: &R); }', rust="pub struct R<'a>(&'a u8); pub fn f(x: &R) {}")
row('C09', 'extern "Rust" { type R<\'a>; fn f(x: &R<\'_>); } / pub struct R<\'a>(&\'a u8); pub fn f(x: &R) {}', 'ok', 'extern "Rust" { type R<\'a>; fn f(x: &R<\'_>); }', rust="pub struct R<'a>(&'a u8); pub fn f(x: &R) {}")
row('C09', 'extern "Rust" { type R<\'a>; unsafe fn f<\'a>(x: Box<R<\'a>>) -> Box<R<\'a>>; } / pub struct R<\'a>(&\'a u8); pub fn', 'ok', 'extern "Rust" { type R<\'a>; unsafe fn f<\'a>(x: Box<R<\'a>>) -> Box<R<\'a>>; }', rust="pub struct R<'a>(&'a u8); pub fn f<'a>(x: Box<R<'a>>) -> Box<R<'a>> { x }")
row('C09', 'extern "Rust" { type R; } impl Box<R> {} impl Vec<R> {} / pub struct R;', 'ok', 'extern "Rust" { type R; } impl Box<R> {} impl Vec<R> {}', rust='pub struct R;')
row('C09', 'extern "Rust" { type R; } impl UniquePtr<R> {} / pub struct R;', 'reject', 'extern "Rust" { type R; } impl UniquePtr<R> {}', rust='pub struct R;')
row('C09', 'struct S { a: u8 } impl UniquePtr<S> {} impl SharedPtr<S> {} impl WeakPtr<S> {} impl CxxVector<S> {} impl Vec<', 'ok', 'struct S { a: u8 } impl UniquePtr<S> {} impl SharedPtr<S> {} impl WeakPtr<S> {} impl CxxVector<S> {} impl Vec<S> {} impl Box<S> {}')
row('C09', 'unsafe extern "C++" { %I type C; } impl UniquePtr<C> {} impl SharedPtr<C> {} impl WeakPtr<C> {} impl CxxVector', 'ok', 'unsafe extern "C++" { %I type C; } impl UniquePtr<C> {} impl SharedPtr<C> {} impl WeakPtr<C> {} impl CxxVector<C> {}')
row('C09', 'unsafe extern "C++" { %I type C; } impl Box<C> {}', 'reject', 'unsafe extern "C++" { %I type C; } impl Box<C> {}')
row('C09', 'unsafe extern "C++" { %I type C; } impl Vec<C> {}', 'reject', 'unsafe extern "C++" { %I type C; } impl Vec<C> {}')
row('C09', 'impl UniquePtr<CxxString> {}', 'reject', 'impl UniquePtr<CxxString> {}')
row('C09', 'impl CxxVector<u8> {}', 'reject', 'impl CxxVector<u8> {}')
row('C09', 'impl Vec<u8> {}', 'reject', 'impl Vec<u8> {}')
row('C09', 'struct S { a: u8 } impl S {}', 'reject', 'struct S { a: u8 } impl S {}')
row('C09', 'struct S { a: u8 } impl Vec<Vec<S>> {}', 'reject', 'struct S { a: u8 } impl Vec<Vec<S>> {}')
row('C09', 'struct S { a: u8 } impl &S {}', 'reject', 'struct S { a: u8 } impl &S {}')
row('C09', 'struct S { a: u8 } impl Copy for S {}', 'reject', 'struct S { a: u8 } impl Copy for S {}')
row('C09', 'struct S { a: u8 } impl UniquePtr<S> { fn f(); }', 'reject', 'struct S { a: u8 } impl UniquePtr<S> { fn f(); }')
row('C09', 'struct S { a: u8 } impl !UniquePtr<S> {}', 'reject', 'struct S { a: u8 } impl !UniquePtr<S> {}')
row('C09', 'struct S { a: u8 } impl<T> UniquePtr<S> {}', 'reject', 'struct S { a: u8 } impl<T> UniquePtr<S> {}')
row('C09', 'struct S { a: u8 } impl UniquePtr<S> {} impl UniquePtr<S> {}', 'ok', 'struct S { a: u8 } impl UniquePtr<S> {} impl UniquePtr<S> {}')
row('C09', 'impl UniquePtr<Undeclared> {}', 'reject', 'impl UniquePtr<Undeclared> {}')
row('C09', 'struct S { a: u8 } #[foo] impl UniquePtr<S> {}', 'reject', 'struct S { a: u8 } #[foo] impl UniquePtr<S> {}')
row('C09', 'extern "Rust" { type R; }', 'rust:*', 'extern "Rust" { type R; }')
row('C09', 'extern "Rust" { type R; } / pub enum R { A(u8) }', 'ok', 'extern "Rust" { type R; }', rust='pub enum R { A(u8) }')
row('C09', 'unsafe extern "C++" { %I type C = crate::found::T; }', 'rust:*', 'unsafe extern "C++" { %I type C = crate::found::T; }')
row('C09', 'unsafe extern "C++" { %I #[namespace = "found"] #[cxx_name = "T"] type C = crate::found::T; fn f(c: C); }', 'ok', 'unsafe extern "C++" { %I #[namespace = "found"] #[cxx_name = "T"] type C = crate::found::T; fn f(c: C); }')
row('C09', 'unsafe extern "C++" { include!("a.h", "b.h"); }', 'reject', 'unsafe extern "C++" { include!("a.h", "b.h"); }')
row('C09', 'unsafe extern "C++" { include!(a.h); }', 'reject', 'unsafe extern "C++" { include!(a.h); }')
row('C09', 'unsafe extern "C++" { include!(<vector); }', 'reject', 'unsafe extern "C++" { include!(<vector); }')
row('C09', 'unsafe extern "C++" { include!("%N.h" x); }', 'reject', 'unsafe extern "C++" { include!("%N.h" x); }')
row('C09', 'unsafe extern "C++" { incl!("%N.h"); }', 'reject', 'unsafe extern "C++" { incl!("%N.h"); }')
row('C02', 'unsafe extern "C++" { %I fn f(x: u8); } / void f(std::uint16_t);', 'cxx', 'unsafe extern "C++" { %I fn f(x: u8); }', hdr='void f(std::uint16_t);')
row('C02', 'unsafe extern "C++" { %I fn f(x: u8); } / void f(const std::uint8_t &);', 'cxx', 'unsafe extern "C++" { %I fn f(x: u8); }', hdr='void f(const std::uint8_t &);')
row('C02', 'unsafe extern "C++" { %I fn f(x: u8); } / void f(bool);', 'cxx', 'unsafe extern "C++" { %I fn f(x: u8); }', hdr='void f(bool);')
row('C02', 'unsafe extern "C++" { %I fn f(x: bool); } / void f(std::uint8_t);', 'cxx', 'unsafe extern "C++" { %I fn f(x: bool); }', hdr='void f(std::uint8_t);')
row('C02', 'unsafe extern "C++" { %I fn f(x: u8) -> u8; } / void f(std::uint8_t);', 'cxx', 'unsafe extern "C++" { %I fn f(x: u8) -> u8; }', hdr='void f(std::uint8_t);')
row('C02', 'unsafe extern "C++" { %I fn f(x: u8); } / int f(std::uint8_t);', 'cxx', 'unsafe extern "C++" { %I fn f(x: u8); }', hdr='int f(std::uint8_t);')
row('C02', 'unsafe extern "C++" { %I fn f(x: u8) -> u8; } / int f(std::uint8_t);', 'cxx', 'unsafe extern "C++" { %I fn f(x: u8) -> u8; }', hdr='int f(std::uint8_t);')
row('C02', 'unsafe extern "C++" { %I fn f(x: i64) -> i64; } / long long f(long long);', 'cxx', 'unsafe extern "C++" { %I fn f(x: i64) -> i64; }', hdr='long long f(long long);')
row('C02', 'unsafe extern "C++" { %I fn f(x: &CxxString); } / } #include <string> namespace %N { void f(std::string &);', 'cxx', 'unsafe extern "C++" { %I fn f(x: &CxxString); }', hdr='} \n#include <string>\nnamespace %N { void f(std::string &);')
row('C02', 'unsafe extern "C++" { %I fn f(x: Pin<&mut CxxString>); } / } #include <string> namespace %N { void f(const std', 'cxx', 'unsafe extern "C++" { %I fn f(x: Pin<&mut CxxString>); }', hdr='} \n#include <string>\nnamespace %N { void f(const std::string &);')
row('C02', 'unsafe extern "C++" { %I fn f(x: &CxxString); } / } #include <string> namespace %N { void f(std::string);', 'cxx', 'unsafe extern "C++" { %I fn f(x: &CxxString); }', hdr='} \n#include <string>\nnamespace %N { void f(std::string);')
row('C02', 'unsafe extern "C++" { %I fn f(x: &CxxString); } / } #include <string> namespace %N { void f(const std::string ', 'cxx', 'unsafe extern "C++" { %I fn f(x: &CxxString); }', hdr='} \n#include <string>\nnamespace %N { void f(const std::string *);')
row('C02', 'unsafe extern "C++" { %I fn f() -> &\'static CxxString; } / } #include <string> namespace %N { std::string f();', 'cxx', 'unsafe extern "C++" { %I fn f() -> &\'static CxxString; }', hdr='} \n#include <string>\nnamespace %N { std::string f();')
row('C02', 'unsafe extern "C++" { %I fn f() -> &\'static CxxString; } / } #include <string> namespace %N { std::string &f()', 'cxx', 'unsafe extern "C++" { %I fn f() -> &\'static CxxString; }', hdr='} \n#include <string>\nnamespace %N { std::string &f();')
row('C02', 'unsafe extern "C++" { %I type C; fn m(self: &C); } / struct C { void m(); };', 'cxx', 'unsafe extern "C++" { %I type C; fn m(self: &C); }', hdr='struct C { void m(); };')
row('C02', 'unsafe extern "C++" { %I type C; fn m(self: Pin<&mut C>); } / struct C { void m() const; };', 'cxx', 'unsafe extern "C++" { %I type C; fn m(self: Pin<&mut C>); }', hdr='struct C { void m() const; };')
row('C02', 'unsafe extern "C++" { %I type C; fn m(self: &C); } / struct C { static void m(); };', 'cxx', 'unsafe extern "C++" { %I type C; fn m(self: &C); }', hdr='struct C { static void m(); };')
row('C02', 'unsafe extern "C++" { %I type C; fn m(self: &C) -> u8; } / struct C { int m() const; };', 'cxx', 'unsafe extern "C++" { %I type C; fn m(self: &C) -> u8; }', hdr='struct C { int m() const; };')
row('C02', 'unsafe extern "C++" { %I type C; fn m(self: &C); } / struct C { void m() const &; };', 'cxx', 'unsafe extern "C++" { %I type C; fn m(self: &C); }', hdr='struct C { void m() const &; };')
row('C02', 'unsafe extern "C++" { %I type C; fn m(self: &C); } / struct C { private: void m() const; };', 'cxx', 'unsafe extern "C++" { %I type C; fn m(self: &C); }', hdr='struct C { private: void m() const; };')
row('C02', 'unsafe extern "C++" { %I type C; fn f(x: UniquePtr<C>); } / } #include <memory> namespace %N { struct C {}; vo', 'cxx', 'unsafe extern "C++" { %I type C; fn f(x: UniquePtr<C>); }', hdr='} \n#include <memory>\nnamespace %N { struct C {}; void f(std::shared_ptr<C>);')
row('C02', 'unsafe extern "C++" { %I type C; fn f() -> UniquePtr<C>; } / } #include <memory> namespace %N { struct C {}; s', 'cxx', 'unsafe extern "C++" { %I type C; fn f() -> UniquePtr<C>; }', hdr='} \n#include <memory>\nnamespace %N { struct C {}; std::unique_ptr<const C> f();')
row('C02', 'unsafe extern "C++" { %I type C; fn f() -> SharedPtr<C>; } / } #include <memory> namespace %N { struct C {}; s', 'cxx', 'unsafe extern "C++" { %I type C; fn f() -> SharedPtr<C>; }', hdr='} \n#include <memory>\nnamespace %N { struct C {}; std::unique_ptr<C> f();')
row('C02', 'unsafe extern "C++" { %I type C; fn f(x: &C); } / struct C {}; struct D : C {}; void f(const D &);', 'cxx', 'unsafe extern "C++" { %I type C; fn f(x: &C); }', hdr='struct C {}; struct D : C {}; void f(const D &);')
row('C02', 'unsafe extern "C++" { %I type C; fn f(x: &C); } / struct C {}; struct B { B(const C &); }; void f(const B &);', 'cxx', 'unsafe extern "C++" { %I type C; fn f(x: &C); }', hdr='struct C {}; struct B { B(const C &); }; void f(const B &);')
row('C02', 'unsafe extern "C++" { %I fn f(x: u8); } / void f(std::uint8_t, int = 0);', 'cxx', 'unsafe extern "C++" { %I fn f(x: u8); }', hdr='void f(std::uint8_t, int = 0);')
row('C02', 'unsafe extern "C++" { %I fn f(x: u8); } / void f(std::uint8_t); void f(int); void f(double);', 'ok', 'unsafe extern "C++" { %I fn f(x: u8); }', hdr='void f(std::uint8_t); void f(int); void f(double);')
row('C02', 'unsafe extern "C++" { %I fn f(x: u8); } / template <class T> void f(T);', 'ok', 'unsafe extern "C++" { %I fn f(x: u8); }', hdr='template <class T> void f(T);')
row('C02', 'unsafe extern "C++" { %I fn f(x: u8); } / void g(std::uint8_t);', 'cxx', 'unsafe extern "C++" { %I fn f(x: u8); }', hdr='void g(std::uint8_t);')
row('C02', 'unsafe extern "C++" { %I fn f(x: u8); } / void f(std::uint8_t) noexcept;', 'ok', 'unsafe extern "C++" { %I fn f(x: u8); }', hdr='void f(std::uint8_t) noexcept;')
row('C02', 'unsafe extern "C++" { %I fn f(cb: fn(u8) -> u8); } / } #include "rust/cxx.h" namespace %N { void f(rust::Fn<st', 'cxx', 'unsafe extern "C++" { %I fn f(cb: fn(u8) -> u8); }', hdr='} \n#include "rust/cxx.h"\nnamespace %N { void f(rust::Fn<std::uint8_t(std::uint16_t)>);')
row('C02', 'unsafe extern "C++" { %I fn f(cb: fn(u8) -> u8); } / void f(std::uint8_t (*)(std::uint8_t));', 'cxx', 'unsafe extern "C++" { %I fn f(cb: fn(u8) -> u8); }', hdr='void f(std::uint8_t (*)(std::uint8_t));')
row('C02', 'unsafe extern "C++" { %I fn f(x: &[u8]); } / } #include "rust/cxx.h" namespace %N { void f(rust::Slice<std::ui', 'cxx', 'unsafe extern "C++" { %I fn f(x: &[u8]); }', hdr='} \n#include "rust/cxx.h"\nnamespace %N { void f(rust::Slice<std::uint8_t>);')
row('C02', 'unsafe extern "C++" { %I fn f(x: &mut [u8]); } / } #include "rust/cxx.h" namespace %N { void f(rust::Slice<con', 'cxx', 'unsafe extern "C++" { %I fn f(x: &mut [u8]); }', hdr='} \n#include "rust/cxx.h"\nnamespace %N { void f(rust::Slice<const std::uint8_t>);')
row('C02', 'unsafe extern "C++" { %I fn f(x: &str); } / } #include "rust/cxx.h" namespace %N { void f(rust::String);', 'cxx', 'unsafe extern "C++" { %I fn f(x: &str); }', hdr='} \n#include "rust/cxx.h"\nnamespace %N { void f(rust::String);')
row('C02', 'unsafe extern "C++" { %I fn f(x: String); } / } #include "rust/cxx.h" namespace %N { void f(rust::Str);', 'cxx', 'unsafe extern "C++" { %I fn f(x: String); }', hdr='} \n#include "rust/cxx.h"\nnamespace %N { void f(rust::Str);')
row('C02', 'unsafe extern "C++" { %I fn f(x: String); } / } #include "rust/cxx.h" namespace %N { void f(const rust::String', 'cxx', 'unsafe extern "C++" { %I fn f(x: String); }', hdr='} \n#include "rust/cxx.h"\nnamespace %N { void f(const rust::String &);')
row('C02', 'unsafe extern "C++" { %I fn f(x: String); } / } #include "rust/cxx.h" namespace %N { void f(rust::String &&);', 'cxx', 'unsafe extern "C++" { %I fn f(x: String); }', hdr='} \n#include "rust/cxx.h"\nnamespace %N { void f(rust::String &&);')
row('C02', 'unsafe extern "C++" { %I unsafe fn f(x: *const u8); } / void f(std::uint8_t *);', 'cxx', 'unsafe extern "C++" { %I unsafe fn f(x: *const u8); }', hdr='void f(std::uint8_t *);')
row('C02', 'unsafe extern "C++" { %I unsafe fn f(x: *mut u8); } / void f(const std::uint8_t *);', 'cxx', 'unsafe extern "C++" { %I unsafe fn f(x: *mut u8); }', hdr='void f(const std::uint8_t *);')
row('C02', 'unsafe extern "C++" { %I fn f(x: [u8; 4]); } / } #include <array> namespace %N { void f(std::array<std::uint8_', 'cxx', 'unsafe extern "C++" { %I fn f(x: [u8; 4]); }', hdr='} \n#include <array>\nnamespace %N { void f(std::array<std::uint8_t, 5>);')
row('C02', 'struct S { a: u8 } unsafe extern "C++" { %I fn f(x: S); } / struct S; void f(S &);', 'cxx', 'struct S { a: u8 } unsafe extern "C++" { %I fn f(x: S); }', hdr='struct S; void f(S &);')
row('C02', 'enum E { A } unsafe extern "C++" { %I fn f(x: E); } / void f(std::uint8_t);', 'cxx', 'enum E { A } unsafe extern "C++" { %I fn f(x: E); }', hdr='void f(std::uint8_t);')
row('C02', 'unsafe extern "C++" { %I fn f() -> Result<u8>; } / void f();', 'cxx', 'unsafe extern "C++" { %I fn f() -> Result<u8>; }', hdr='void f();')
row('C02', 'extern "Rust" { type R; fn f(x: Box<R>); } / pub struct R; pub fn f(x: R) {}', 'rust:*', 'extern "Rust" { type R; fn f(x: Box<R>); }', rust='pub struct R; pub fn f(x: R) {}')
row('C02', 'extern "Rust" { type R; fn f(x: &R); } / pub struct R; pub struct Q; pub fn f(x: &Q) {}', 'rust:*', 'extern "Rust" { type R; fn f(x: &R); }', rust='pub struct R; pub struct Q; pub fn f(x: &Q) {}')
row('C02', 'extern "Rust" { fn f(x: UniquePtr<CxxString>); } / pub fn f(x: SharedPtr<CxxString>) {}', 'rust:*', 'extern "Rust" { fn f(x: UniquePtr<CxxString>); }', rust='pub fn f(x: SharedPtr<CxxString>) {}')
row('C02', 'extern "Rust" { fn f(x: String) -> String; } / pub fn f(x: String) -> Vec<u8> { vec![] }', 'rust:*', 'extern "Rust" { fn f(x: String) -> String; }', rust='pub fn f(x: String) -> Vec<u8> { vec![] }')
row('C02', 'extern "Rust" { fn f(x: [u8; 4]); } / pub fn f(x: [u8; 5]) {}', 'rust:*', 'extern "Rust" { fn f(x: [u8; 4]); }', rust='pub fn f(x: [u8; 5]) {}')
row('C02', 'extern "Rust" { unsafe fn f(x: *const u8); } / pub unsafe fn f(x: *mut u8) {}', 'rust:*', 'extern "Rust" { unsafe fn f(x: *const u8); }', rust='pub unsafe fn f(x: *mut u8) {}')
row('C02', 'extern "Rust" { fn f(a: u8, b: u8); } / pub fn f(a: u8) {}', 'rust:*', 'extern "Rust" { fn f(a: u8, b: u8); }', rust='pub fn f(a: u8) {}')
row('C02', 'extern "Rust" { fn f(a: u8); } / pub fn f(a: u8, b: u8) {}', 'rust:*', 'extern "Rust" { fn f(a: u8); }', rust='pub fn f(a: u8, b: u8) {}')
row('C02', 'extern "Rust" { fn f(a: u8); } / pub fn f<T: Copy>(a: T) {}', 'ok', 'extern "Rust" { fn f(a: u8); }', rust='pub fn f<T: Copy>(a: T) {}')
row('C02', 'extern "Rust" { fn f(a: usize); } / pub fn f(a: u64) {}', 'rust:*', 'extern "Rust" { fn f(a: usize); }', rust='pub fn f(a: u64) {}')
row('C02', 'extern "Rust" { fn f(a: Vec<u8>); } / pub fn f(a: Vec<i8>) {}', 'rust:*', 'extern "Rust" { fn f(a: Vec<u8>); }', rust='pub fn f(a: Vec<i8>) {}')
row('C02', 'extern "Rust" { fn f() -> u8; } / pub fn f() -> impl Into<u8> { 1u8 }', 'rust:*', 'extern "Rust" { fn f() -> u8; }', rust='pub fn f() -> impl Into<u8> { 1u8 }')
row('C02', 'extern "Rust" { fn f(); } / mod q { pub fn f() {} } use q::f;', 'ok', 'extern "Rust" { fn f(); }', rust='mod q { pub fn f() {} } use q::f;')

# ------------------------------------------------------------------ C12: enums mirrored from C++, and what is no discriminant
EX = 'unsafe extern "C++" { %I type E; }'


def mirrored(name, bridge, cxx, want='cxx'):
    row('C12', 'mirrored: ' + name, want, bridge + ' ' + EX, hdr=cxx)


mirrored('agrees', 'enum E { A, B = 5, C }', 'enum class E : std::uint8_t { A, B = 5, C };', 'ok')
mirrored('agrees, in any order and with more', 'enum E { A, B = 5 }', 'enum class E : std::uint8_t { Z = 9, B = 5, A = 0 };', 'ok')
mirrored('agrees, plain enum', '#[repr(u32)] enum E { A, B = 5 }', 'enum E : std::uint32_t { A, B = 5 };', 'ok')
mirrored('agrees, plain enum without a type', '#[repr(u32)] enum E { A, B = 5 }', 'enum E { A, B = 5 };', 'ok')
mirrored('agrees, negative', '#[repr(i16)] enum E { A = -5, B = 5 }', 'enum class E : std::int16_t { A = -5, B = 5 };', 'ok')
for t in 'u8', 'i8', 'u16', 'i16', 'u32', 'i32', 'u64', 'i64':
    ct = 'std::%sint%s_t' % ('u' if t[0] == 'u' else '', t[1:])
    mirrored('agrees, ' + t, '#[repr(%s)] enum E { A, B = 100 }' % t, 'enum class E : %s { A, B = 100 };' % ct, 'ok')
    for u in 'u8', 'i16', 'u32', 'i64':
        if u[1:] != t[1:]:
            mirrored('%s, but is %s' % (t, u), '#[repr(%s)] enum E { A, B = 100 }' % t, 'enum class E : std::%sint%s_t { A, B = 100 };' % ('u' if u[0] == 'u' else '', u[1:]))
mirrored('another value', 'enum E { A, B = 5 }', 'enum class E : std::uint8_t { A, B = 6 };')
mirrored('another value of the first', 'enum E { A, B = 5 }', 'enum class E : std::uint8_t { A = 1, B = 5 };')
mirrored('another value of the last', 'enum E { A, B, C }', 'enum class E : std::uint8_t { A, B, C = 9 };')
mirrored('values swapped', 'enum E { A, B }', 'enum class E : std::uint8_t { B, A };')
mirrored('missing variant', 'enum E { A, B }', 'enum class E : std::uint8_t { A };')
mirrored('renamed variant', 'enum E { A, #[cxx_name = "Q"] B }', 'enum class E : std::uint8_t { A, B };')
mirrored('renamed variant agrees', 'enum E { A, #[cxx_name = "Q"] B }', 'enum class E : std::uint8_t { A, Q };', 'ok')
mirrored('is a class', '#[repr(u8)] enum E { A }', 'struct E { static const E A; std::uint8_t x; operator std::uint8_t() const; };')
mirrored('is an integer', '#[repr(u8)] enum E {}', 'using E = std::uint8_t;')
mirrored('is a class, no variants', '#[repr(u8)] enum E {}', 'struct E { std::uint8_t x; };')
mirrored('agrees, no variants', '#[repr(u8)] enum E {}', 'enum class E : std::uint8_t {};', 'ok')
mirrored('other size, no variants', '#[repr(u8)] enum E {}', 'enum class E : std::uint16_t {};')
mirrored('value equal only modulo the size', 'enum E { A = 200, B }', 'enum class E : std::int8_t { A = -56, B = -55 };')
mirrored('value equal only modulo the size, wide', '#[repr(u32)] enum E { A = 4294967295 }', 'enum class E : std::int32_t { A = -1 };')
mirrored('value equal only modulo the size, negative', '#[repr(i32)] enum E { A = -1 }', 'enum class E : std::uint32_t { A = 4294967295u };')
for name, d in ('char', "'a'"), ('string', '"a"'), ('float', '1.0'), ('bool', 'true'), ('byte', "b'a'"), ('expression', '1 + 1'), ('cast', '1 as u8'), ('path', 'X'), ('block', '{ 1 }'), \
        ('parenthesized', '(1)'), ('not', '!0'), ('u128 suffix', '1u128'), ('f32 suffix', '1f32'), ('unknown suffix', '1foo'), ('too large', '18446744073709551616'):
    row('C12', 'discriminant: ' + name, 'reject', 'enum E { A = %s }' % d)
for rp in 'u128', 'i128', 'C', 'f32', 'bool', 'char', 'transparent', 'u8, u16', 'foo', '':
    row('C12', 'repr(%s)' % rp, 'reject', '#[repr(%s)] enum E { A }' % rp)
row('C12', 'repr without argument', 'reject', '#[repr] enum E { A }')
for ty, ok in ('u8', True), ('u16', False), ('i8', False):
    row('C12', 'representation is a %s' % ty, 'ok' if ok else 'rust:*', 'enum E { A }', rust='pub fn f(e: ffi::E) -> %s { e.repr }' % ty)
row('C12', 'match needs a wildcard', 'rust:E0004', 'enum E { A, B }', rust='pub fn f(e: ffi::E) -> u8 { match e { ffi::E::A => 1, ffi::E::B => 2 } }')
row('C12', 'match with a wildcard', 'ok', 'enum E { A, B }', rust='pub fn f(e: ffi::E) -> u8 { match e { ffi::E::A => 1, ffi::E::B => 2, _ => 3 } }')
