//! Iteration: fixed dimensions, arbitrary base pointer and strides.
use crate::common::*;

macro_rules! one {
    ($tag:expr, $R:literal, [$($d:literal),*], $new:ident, |$p:ident, $s:ident, $n:ident| $it:expr, |$k:ident, $x:ident| $ok:expr) => {
        const _: () = {
            #[unsafe(export_name = concat!("t__C05_C06__walk_", $tag))]
            pub fn walk1($p: P, s: &[isize; $R]) {
                let $n: [usize; $R] = [$($d),*];
                let $s: [isize; $R] = $new($n, *s);
                walk($it, prod($n), |$k, $x| $ok);
            }
            #[unsafe(export_name = concat!("t__C05_C06__fold_", $tag))]
            pub fn fold0($p: P, s: &[isize; $R]) {
                let $n: [usize; $R] = [$($d),*];
                let $s: [isize; $R] = $new($n, *s);
                folded($it, prod($n), 0, |$k, $x| $ok);
            }
            #[unsafe(export_name = concat!("t__C05_C06__part_", $tag))]
            pub fn fold2($p: P, s: &[isize; $R]) {
                let $n: [usize; $R] = [$($d),*];
                let $s: [isize; $R] = $new($n, *s);
                folded($it, prod($n), 2, |$k, $x| $ok);
            }
        };
    };
}

macro_rules! iters {
    ($tag:literal, $R:literal, [$($d:literal),*]) => {
        one!(concat!("s_", $tag), $R, [$($d),*], free, |p, s, n| vs(p, ($($d as usize,)*), &s).iter(), |k, x| (x as P) == at(p, offset(s, unlin(n, k))));
        one!(concat!("sm_", $tag), $R, [$($d),*], free, |p, s, n| vsm(p, ($($d as usize,)*), &s).iter_mut(), |k, x| (x as *mut u64 as P) == at(p, offset(s, unlin(n, k))));
        one!(concat!("d_", $tag), $R, [$($d),*], dense, |p, s, n| vd(p, ($($d as usize,)*)).into_iter(), |k, x| (x as P) == at(p, k as isize));
        one!(concat!("dm_", $tag), $R, [$($d),*], dense, |p, s, n| vdm(p, ($($d as usize,)*)).into_iter(), |k, x| (x as *mut u64 as P) == at(p, k as isize));
        one!(concat!("xs_", $tag), $R, [$($d),*], free, |p, s, n| vs(p, DynRank::from_dims(&n), &s).iter(), |k, x| (x as P) == at(p, offset(s, unlin(n, k))));
        one!(concat!("xsm_", $tag), $R, [$($d),*], free, |p, s, n| vsm(p, DynRank::from_dims(&n), &s).iter_mut(), |k, x| (x as *mut u64 as P) == at(p, offset(s, unlin(n, k))));
        one!(concat!("xdm_", $tag), $R, [$($d),*], dense, |p, s, n| vdm(p, DynRank::from_dims(&n)).iter_mut(), |k, x| (x as *mut u64 as P) == at(p, k as isize));
        one!(concat!("cs_", $tag), $R, [$($d),*], free, |p, s, n| vsm(p, ($(Const::<$d>,)*), &s).into_iter(), |k, x| (x as *mut u64 as P) == at(p, offset(s, unlin(n, k))));
        one!(concat!("cd_", $tag), $R, [$($d),*], dense, |p, s, n| vd(p, ($(Const::<$d>,)*)).into_iter(), |k, x| (x as P) == at(p, k as isize));
        one!(concat!("en_", $tag), $R, [$($d),*], free, |p, s, n| vs(p, ($($d as usize,)*), &s).expr().enumerate().into_iter(), |k, x| (x.1 as P) == at(p, offset(s, unlin(n, k))) && x.0 == k);
        one!(concat!("enm_", $tag), $R, [$($d),*], free, |p, s, n| vsm(p, ($($d as usize,)*), &s).expr_mut().enumerate().into_iter(), |k, x| (x.1 as *mut u64 as P) == at(p, offset(s, unlin(n, k))) && x.0 == k);
        one!(concat!("map_", $tag), $R, [$($d),*], free, |p, s, n| vs(p, ($($d as usize,)*), &s).expr().map(|x| x as P).into_iter(), |k, x| x == at(p, offset(s, unlin(n, k))));
        one!(concat!("mapx_", $tag), $R, [$($d),*], free, |p, s, n| vsm(p, DynRank::from_dims(&n), &s).expr_mut().map(|x| x as *mut u64 as P).into_iter(), |k, x| x == at(p, offset(s, unlin(n, k))));
        one!(concat!("fn_", $tag), $R, [$($d),*], free, |p, s, n| expr::from_fn([$($d as usize),*], |i| { let mut j = [0; $R]; j.copy_from_slice(i); j }).into_iter(), |k, x| x == unlin(n, k));
        one!(concat!("fnx_", $tag), $R, [$($d),*], free, |p, s, n| expr::from_fn(DynRank::from_dims(&n), |i| { let mut j = [0; $R]; j.copy_from_slice(i); j }).into_iter(), |k, x| x == unlin(n, k));
        one!(concat!("fnc_", $tag), $R, [$($d),*], free, |p, s, n| expr::from_fn(($(Const::<$d>,)*), |i| { let mut j = [0; $R]; j.copy_from_slice(i); j }).into_iter(), |k, x| x == unlin(n, k));
        one!(concat!("el_", $tag), $R, [$($d),*], free, |p, s, n| expr::from_elem([$($d as usize),*], p).into_iter(), |k, x| x == p);
        one!(concat!("elx_", $tag), $R, [$($d),*], free, |p, s, n| expr::from_elem(DynRank::from_dims(&n), p).into_iter(), |k, x| x == p);
    };
}

iters!("0", 0, []);
iters!("1_0", 1, [0]);
iters!("1_1", 1, [1]);
iters!("1_3", 1, [3]);
iters!("1_9", 1, [9]);
iters!("2_23", 2, [2, 3]);
iters!("2_03", 2, [0, 3]);
iters!("2_30", 2, [3, 0]);
iters!("2_13", 2, [1, 3]);
iters!("2_31", 2, [3, 1]);
iters!("3_222", 3, [2, 2, 2]);
iters!("3_213", 3, [2, 1, 3]);
iters!("3_203", 3, [2, 0, 3]);
iters!("3_230", 3, [2, 3, 0]);
iters!("4_2122", 4, [2, 1, 2, 2]);
iters!("4_2202", 4, [2, 2, 0, 2]);
iters!("5_21212", 5, [2, 1, 2, 1, 2]);
iters!("6_121212", 6, [1, 2, 1, 2, 1, 2]);
