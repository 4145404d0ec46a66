#![feature(rustc_private)]
#![allow(rustc::internal)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
mod bdd;
mod interp;
mod mem;
mod ops;
mod driver;
mod effects;
fn main() {
    driver::main()
}
