#[cxx::bridge]
mod ffi {
extern "Rust" {
    type RustT;
}
struct C1 { x: Box<CxxT> } // !
struct C2 { x: Vec<CxxT> } // !
struct C3 { x: UniquePtr<RustT> } // !
struct C4 { x: SharedPtr<RustT> } // !
struct C5 { x: WeakPtr<RustT> } // !
struct C6 { x: SharedPtr<CxxVector<u8>> } // !
struct C7 { x: UniquePtr<&'static u8> } // !
struct C8 { x: UniquePtr<CxxVector<RustT>> } // !
struct C9 { x: &'static &'static u8 } // !
struct C10 { x: *const &'static u8 } // !
struct C11 { x: CxxT } // !
struct C12 { x: RustT } // !
struct C13 { x: [CxxT; 2] } // !
struct C14 {} // !
struct C15 { x: Unknown } // !
struct C16 { x: Box<Box<u8>> } // !
struct C17 { x: fn() -> Result<()> } // !
#[derive(ExternType)] struct C18 { x: u8 } // !
struct UniquePtr { x: u8 } // !
#[derive(Default)] enum C22 { A } // !
struct C25 { volatile: u8 } // !
struct C27 { x: Vec<Vec<u8>> } // !
impl i32 {} // !
unsafe extern "C++" {
    type CxxT; // !
fn f1(x: CxxT); // !
fn f2() -> RustT; // !
fn f4() -> fn(); // !
fn f5(self: &Unknown); // !
fn f6(x: &u8) -> &mut u8; // !
fn f7(x: &mut CxxT); // !
fn f8(self: &mut CxxT); // !
fn f9(x: *const u8); // !
fn f16(x: Pin<&mut String>); // !
fn f18(x: [CxxT; 2]); // !
}
extern "Rust" {
fn g1(x: CxxT); // !
fn g2() -> RustT; // !
fn g3(x: fn() -> Result<()>); // !
fn g4() -> fn(); // !
fn g5(self: &Unknown); // !
fn g8(self: &mut CxxT); // !
fn g9(x: *const u8); // !
fn g12<'a__b>(x: &'a__b u8); // !
fn g18(x: [CxxT; 2]); // !
}
}
pub struct RustT;
fn main() {}
