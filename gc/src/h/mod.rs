macro_rules! mods {
    ($($m:ident),*) => {
        $( pub mod $m; )*
        pub fn table() -> Vec<(&'static str, fn())> {
            let mut v = vec![];
            $( v.extend($m::table()); )*
            v
        }
    };
}
/// name = generic check :: <type>
macro_rules! checks {
    ([$($x:ident),*] $($n:ident = $g:ident::<$t:ty>($($a:expr),*);)*) => {
        $( fn $n() { $crate::types::focus(None); $crate::generic::$g::<$t>($($a),*) } )*
        harnesses!($($n,)* $($x),*);
    };
}
/// name = type { fields that matter } |x| precondition; what holds
macro_rules! calc {
    ($($n:ident = $t:ty { $($f:ident : $ft:ty),* } |$x:ident| $pre:expr; $post:expr;)*) => {
        $( fn $n() {
            $crate::types::focus(None);
            let mut $x = <$t>::default();
            $( $x.$f = <$ft as $crate::types::Ty>::fresh(); )*
            assume($pre);
            check!($post, "the value is not that of the schema expression");
            reach!();
        } )*
        harnesses!($($n),*);
    };
}
/// every operator with operands of every type: one of the calls, all values
macro_rules! pairs {
    ($n:ident, $t:ty, $lt:ty, $x:ident $l:ident $r:ident; $(($f:ident $ft:ty, $post:expr, $pre:expr);)*) => {
        fn $n() {
            $crate::types::focus(None);
            let mut $x = <$t>::default();
            $x.l = <$lt as $crate::types::Ty>::fresh();
            let $l = $x.l as i128;
            let calls: &[fn(&mut $t, i128)] = &[$( |$x, $l| {
                $x.$f = <$ft as $crate::types::Ty>::fresh();
                #[allow(unused)]
                let $r = $x.$f as i128;
                assume($pre);
                check!($post, "the value is not that of the schema expression");
                reach!();
            } ),*];
            calls[pick(calls.len() as u64) as usize](&mut $x, $l)
        }
    };
}
mods!(c12, c13, c14, c15, c16, c17, c18, c19, c20, c21, c22, c23, c26, c27, c28, c31, c32);
