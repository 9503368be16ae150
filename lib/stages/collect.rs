#[cxx::bridge]
mod ffi {
struct D1 { x: u8 }
struct D1 { x: u8 } // !
enum D1 { A } // !
struct D2 { x: D2 } // !
struct D3 { x: [D3; 2] } // !
struct D4 { x: D5 } // !
struct D5 { x: D4 } // !
enum D6 { A, B }
enum D6 { A, B } // !
extern "Rust" {
type D7;
type D7; // !
fn d8();
fn d8(); // !
fn d9(self: &D7);
fn d9(self: &D7); // !
fn d10(x: D1);
}
unsafe extern "C++" {
type D11;
type D11; // !
type D7; // !
fn d8(); // !
fn d12();
fn d12(); // !
}
}
fn main() {}
