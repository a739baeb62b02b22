#![allow(clippy::all, dead_code, unused_macros, unused_imports)]
pub mod generic;
pub mod h;
pub mod models;
pub mod types;
pub fn table() -> Vec<(&'static str, fn())> {
    h::table()
}
