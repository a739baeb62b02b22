macro_rules! mods {
    ($($m:ident),*) => {
        $( pub mod $m; )*
        pub fn table() -> Vec<(&'static str, fn())> {
            let mut v = vec![];
            $( v.extend_from_slice($m::TABLE); )*
            v
        }
    };
}
mods!(c01, c02, c03, c04, c05, c06, c07, c08, c09, c10, c11, c24, c25, c26, c27);
