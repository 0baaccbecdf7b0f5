//! Sub-array operations: at, axis_at, row, col, diag, split.
use crate::common::*;

macro_rules! sub {
    ($tag:expr, $R:literal -> $K:literal, $new:ident, |$p:ident, $n:ident, $ss:ident, $x:ident| $v:expr,
     |$vv:ident| $w:expr, $ok:expr, $dims:expr, $off:expr, $st:expr) => {
        const _: () = {
            #[inline(always)]
            fn body($p: P, $n: [usize; $R], $ss: [isize; $R], $x: [usize; 2], j: [usize; $K], total: bool) {
                let ok = $ok;
                if total && !ok {
                    return;
                }
                let mut $vv = $v;
                let w = $w;
                claim!(C02_C03__sub_args_valid, ok);
                let dims: [usize; $K] = $dims;
                let st: [isize; $K] = $st;
                claim!(C03_C05__sub_rank, w.rank() == $K);
                let mut d = 0;
                while d < $K {
                    claim!(C03_C05_C13__sub_dim, w.dim(d) == dims[d]);
                    d += 1;
                }
                if inside(dims, j) {
                    let a = &w[j] as P;
                    let off: isize = $off;
                    claim!(C03_C05__sub_addr, a == at($p, off.wrapping_add(offset(st, j))));
                    reach!(R__sub);
                }
            }
            #[unsafe(export_name = concat!("h__C02_C03_C05__sub_", $tag))]
            pub fn h(p: P, n: &[N; $R], s: &[isize; $R], x: &[usize; 2], j: &[usize; $K]) {
                let n = z(n);
                body(p, n, $new(n, *s), *x, *j, false);
            }
            #[unsafe(export_name = concat!("t__C02_C03_C05__sub_", $tag))]
            pub fn t(p: P, n: &[N; $R], s: &[isize; $R], x: &[usize; 2], j: &[usize; $K]) {
                let n = z(n);
                body(p, n, $new(n, *s), *x, *j, true);
            }
        };
    };
}

// The same operation by reference, by mutable reference and by value.
macro_rules! sub3 {
    ($tag:expr, $R:literal -> $K:literal, $new:ident, |$p:ident, $n:ident, $ss:ident, $x:ident| ($v:expr, $vm:expr),
     ($r:ident, $m:ident, $i:ident)($($a:expr),*) $(.$f:tt)?, $ok:expr, $dims:expr, $off:expr, $st:expr) => {
        sub!(concat!($tag, "_ref"), $R -> $K, $new, |$p, $n, $ss, $x| $v, |v| v.$r($($a),*)$(.$f)?, $ok, $dims, $off, $st);
        sub!(concat!($tag, "_mut"), $R -> $K, $new, |$p, $n, $ss, $x| $vm, |v| v.$m($($a),*)$(.$f)?, $ok, $dims, $off, $st);
        sub!(concat!($tag, "_into"), $R -> $K, $new, |$p, $n, $ss, $x| $v, |v| v.$i($($a),*)$(.$f)?, $ok, $dims, $off, $st);
        sub!(concat!($tag, "_intomut"), $R -> $K, $new, |$p, $n, $ss, $x| $vm, |v| v.$i($($a),*)$(.$f)?, $ok, $dims, $off, $st);
    };
}

macro_rules! kinds {
    ($tag:literal, $R:literal -> $K:literal, [$($e:tt),*], |$n:ident, $ss:ident, $x:ident| $($rest:tt)*) => {
        sub3!(concat!($tag, "_s"), $R -> $K, free, |p, $n, $ss, $x| (vs(p, ($($n[$e],)*), &$ss), vsm(p, ($($n[$e],)*), &$ss)), $($rest)*);
        sub3!(concat!($tag, "_d"), $R -> $K, dense, |p, $n, $ss, $x| (vd(p, ($($n[$e],)*)), vdm(p, ($($n[$e],)*))), $($rest)*);
        sub3!(concat!($tag, "_xs"), $R -> $K, free, |p, $n, $ss, $x| (vs(p, DynRank::from_dims(&$n), &$ss), vsm(p, DynRank::from_dims(&$n), &$ss)), $($rest)*);
        sub3!(concat!($tag, "_xd"), $R -> $K, dense, |p, $n, $ss, $x| (vd(p, DynRank::from_dims(&$n)), vdm(p, DynRank::from_dims(&$n))), $($rest)*);
    };
}

kinds!("at1", 1 -> 0, [0], |n, ss, x| (at, at_mut, into_at)(x[0]), x[0] < n[0], [], m(ss[0], x[0]), []);
kinds!("at2", 2 -> 1, [0, 1], |n, ss, x| (at, at_mut, into_at)(x[0]), x[0] < n[0], [n[1]], m(ss[0], x[0]), [ss[1]]);
kinds!("at3", 3 -> 2, [0, 1, 2], |n, ss, x| (at, at_mut, into_at)(x[0]), x[0] < n[0], [n[1], n[2]], m(ss[0], x[0]), [ss[1], ss[2]]);

kinds!("axis0of1", 1 -> 0, [0], |n, ss, x| (axis_at, axis_at_mut, into_axis_at)(Const::<0>, x[0]), x[0] < n[0], [], m(ss[0], x[0]), []);
kinds!("axis0of2", 2 -> 1, [0, 1], |n, ss, x| (axis_at, axis_at_mut, into_axis_at)(Const::<0>, x[0]), x[0] < n[0], [n[1]], m(ss[0], x[0]), [ss[1]]);
kinds!("axis1of2", 2 -> 1, [0, 1], |n, ss, x| (axis_at, axis_at_mut, into_axis_at)(Const::<1>, x[0]), x[0] < n[1], [n[0]], m(ss[1], x[0]), [ss[0]]);
kinds!("axis0of3", 3 -> 2, [0, 1, 2], |n, ss, x| (axis_at, axis_at_mut, into_axis_at)(Const::<0>, x[0]), x[0] < n[0], [n[1], n[2]], m(ss[0], x[0]), [ss[1], ss[2]]);
kinds!("axis1of3", 3 -> 2, [0, 1, 2], |n, ss, x| (axis_at, axis_at_mut, into_axis_at)(Const::<1>, x[0]), x[0] < n[1], [n[0], n[2]], m(ss[1], x[0]), [ss[0], ss[2]]);
kinds!("axis2of3", 3 -> 2, [0, 1, 2], |n, ss, x| (axis_at, axis_at_mut, into_axis_at)(Const::<2>, x[0]), x[0] < n[2], [n[0], n[1]], m(ss[2], x[0]), [ss[0], ss[1]]);
kinds!("axis3of4", 4 -> 3, [0, 1, 2, 3], |n, ss, x| (axis_at, axis_at_mut, into_axis_at)(Const::<3>, x[0]), x[0] < n[3], [n[0], n[1], n[2]], m(ss[3], x[0]), [ss[0], ss[1], ss[2]]);
kinds!("dynaxis0of3", 3 -> 2, [0, 1, 2], |n, ss, x| (axis_at, axis_at_mut, into_axis_at)(0usize, x[0]), x[0] < n[0], [n[1], n[2]], m(ss[0], x[0]), [ss[1], ss[2]]);
kinds!("dynaxis1of3", 3 -> 2, [0, 1, 2], |n, ss, x| (axis_at, axis_at_mut, into_axis_at)(1usize, x[0]), x[0] < n[1], [n[0], n[2]], m(ss[1], x[0]), [ss[0], ss[2]]);
kinds!("dynaxis2of3", 3 -> 2, [0, 1, 2], |n, ss, x| (axis_at, axis_at_mut, into_axis_at)(2usize, x[0]), x[0] < n[2], [n[0], n[1]], m(ss[2], x[0]), [ss[0], ss[1]]);
kinds!("colsaxis", 3 -> 2, [0, 1, 2], |n, ss, x| (axis_at, axis_at_mut, into_axis_at)(Cols, x[0]), x[0] < n[1], [n[0], n[2]], m(ss[1], x[0]), [ss[0], ss[2]]);
kinds!("rowsaxis", 3 -> 2, [0, 1, 2], |n, ss, x| (axis_at, axis_at_mut, into_axis_at)(Rows, x[0]), x[0] < n[2], [n[0], n[1]], m(ss[2], x[0]), [ss[0], ss[1]]);

kinds!("row", 2 -> 1, [0, 1], |n, ss, x| (row, row_mut, into_row)(x[0]), x[0] < n[0], [n[1]], m(ss[0], x[0]), [ss[1]]);
kinds!("col", 2 -> 1, [0, 1], |n, ss, x| (col, col_mut, into_col)(x[0]), x[0] < n[1], [n[0]], m(ss[1], x[0]), [ss[0]]);

kinds!("diagp", 2 -> 1, [0, 1], |n, ss, x| (diag, diag_mut, into_diag)((x[0] & 0xffff_ffff) as isize), (x[0] & 0xffff_ffff) <= n[1],
    [if n[0] < n[1] - (x[0] & 0xffff_ffff) { n[0] } else { n[1] - (x[0] & 0xffff_ffff) }], m(ss[1], x[0] & 0xffff_ffff), [ss[0].wrapping_add(ss[1])]);
kinds!("diagn", 2 -> 1, [0, 1], |n, ss, x| (diag, diag_mut, into_diag)(-((x[0] & 0xffff_ffff) as isize)), (x[0] & 0xffff_ffff) <= n[0],
    [if n[1] < n[0] - (x[0] & 0xffff_ffff) { n[1] } else { n[0] - (x[0] & 0xffff_ffff) }], m(ss[0], x[0] & 0xffff_ffff), [ss[0].wrapping_add(ss[1])]);

kinds!("splitlo1", 1 -> 1, [0], |n, ss, x| (split_at, split_at_mut, into_split_at)(x[0]).0, x[0] <= n[0], [x[0]], 0, [ss[0]]);
kinds!("splithi1", 1 -> 1, [0], |n, ss, x| (split_at, split_at_mut, into_split_at)(x[0]).1, x[0] <= n[0], [n[0] - x[0]], m(ss[0], x[0]), [ss[0]]);
kinds!("splitlo2", 2 -> 2, [0, 1], |n, ss, x| (split_at, split_at_mut, into_split_at)(x[0]).0, x[0] <= n[0], [x[0], n[1]], 0, [ss[0], ss[1]]);
kinds!("splithi2", 2 -> 2, [0, 1], |n, ss, x| (split_at, split_at_mut, into_split_at)(x[0]).1, x[0] <= n[0], [n[0] - x[0], n[1]], m(ss[0], x[0]), [ss[0], ss[1]]);
kinds!("splitlo1of2", 2 -> 2, [0, 1], |n, ss, x| (split_axis_at, split_axis_at_mut, into_split_axis_at)(Const::<1>, x[0]).0, x[0] <= n[1], [n[0], x[0]], 0, [ss[0], ss[1]]);
kinds!("splithi1of2", 2 -> 2, [0, 1], |n, ss, x| (split_axis_at, split_axis_at_mut, into_split_axis_at)(Const::<1>, x[0]).1, x[0] <= n[1], [n[0], n[1] - x[0]], m(ss[1], x[0]), [ss[0], ss[1]]);
kinds!("splitlo1of3", 3 -> 3, [0, 1, 2], |n, ss, x| (split_axis_at, split_axis_at_mut, into_split_axis_at)(1usize, x[0]).0, x[0] <= n[1], [n[0], x[0], n[2]], 0, [ss[0], ss[1], ss[2]]);
kinds!("splithi1of3", 3 -> 3, [0, 1, 2], |n, ss, x| (split_axis_at, split_axis_at_mut, into_split_axis_at)(1usize, x[0]).1, x[0] <= n[1], [n[0], n[1] - x[0], n[2]], m(ss[1], x[0]), [ss[0], ss[1], ss[2]]);
kinds!("splithi2of3", 3 -> 3, [0, 1, 2], |n, ss, x| (split_axis_at, split_axis_at_mut, into_split_axis_at)(Const::<2>, x[0]).1, x[0] <= n[2], [n[0], n[1], n[2] - x[0]], m(ss[2], x[0]), [ss[0], ss[1], ss[2]]);
