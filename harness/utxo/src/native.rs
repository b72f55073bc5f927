#[path = "lib.rs"]
mod h;
fn main() { h::rt::native_main(h::ENTRIES) }
