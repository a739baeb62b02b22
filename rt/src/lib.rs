#![allow(clippy::all)]
pub mod h;
pub mod kinds;
pub fn table() -> Vec<(&'static str, fn())> {
    h::table()
}
