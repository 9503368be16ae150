#[cxx::bridge]
mod ffi {
struct A1<T> { x: i32 } // !
struct A2(i32); // !
struct A3; // !
enum A4<T> { A } // !
enum A5 { A(i32) } // !
union A6 { x: i32 } // !
const A7: i32 = 0; // !
static A8: i32 = 0; // !
fn a9() {} // !
trait A10 {} // !
mod a11 {} // !
type A12; // !
extern "Lua" {} // !
macro_rules! a13 { () => {} } // !
#[derive(Foo)] struct A14 { x: i32 } // !
#[repr(foo)] enum A15 { A } // !
#[bogus] struct A16 { x: i32 } // !
struct A17 { x: dyn A } // !
struct A18 { x: (i32, i32) } // !
struct A19 { x: [i32] } // !
struct A20 { x: fn(...) } // !
struct A21 { x: [i32; N] } // !
extern crate a22; // !
#[namespace = 1] struct A23 { x: i32 } // !
#[cxx_name = 1] struct A24 { x: i32 } // !
enum A25 { A = "x" } // !
unsafe extern "Rust" {} // !
impl UniquePtr<A> { fn f() {} } // !
unsafe extern "C++" {
async fn b1(); // !
fn b2<T>(t: T); // !
fn b3(x: impl Foo); // !
fn b5(x: i32, ...); // !
type B9<T>; // !
fn b10(self: i32); // !
fn b11(self); // !
fn b12(x: (i32,)); // !
fn b13() -> impl Foo; // !
fn b14(x: dyn Foo); // !
#[bogus] fn b15(); // !
#[namespace = "a b"] fn b16(); // !
#[rust_name = 1] fn b17(); // !
fn b18(x: &[dyn A]); // !
extern fn b19(); // !
const fn b20(); // !
fn b21(x: Option<Vec<(i32,)>>); // !
fn b22() -> !; // !
#[derive(Clone)] fn b23(); // !
include!(1); // !
foo!(); // !
fn b25(x: [u8; "a"]); // !
type B26: Foo; // !
type B27: 'static + Copy; // !
fn b28(x: &mut dyn Fn()); // !
}
}
fn main() {}
