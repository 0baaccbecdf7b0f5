//! Sub-arrays along an axis (axis expressions) and one-dimensional lanes along an axis.
use crate::common::*;

/// All elements of a one- or more-dimensional view are where they should be.
macro_rules! same_view {
    ($w:ident, $K:literal, $dims:expr, $st:expr, $base:expr) => {{
        let dims: [usize; $K] = $dims;
        let st: [isize; $K] = $st;
        let base: P = $base;
        let mut ok = $w.rank() == $K;
        let mut d = 0;
        while d < $K {
            ok = ok && $w.dim(d) == dims[d];
            d += 1;
        }
        let mut k = 0;
        while k < prod(dims) {
            let j = unlin(dims, k);
            ok = ok && $w.len() > k && (unsafe { (*$w).get_unchecked(j) } as P) == at(base, offset(st, j));
            k += 1;
        }
        ok
    }};
}

macro_rules! drive {
    ($tag:expr, $R:literal, [$($d:literal),*], $new:ident, |$p:ident, $s:ident, $n:ident| $it:expr, $len:expr, |$k:ident, $x:ident| $ok:expr) => {
        const _: () = {
            #[unsafe(export_name = concat!("t__C05_C07__walk_", $tag))]
            pub fn walk1($p: P, s: &[isize; $R]) {
                let $n: [usize; $R] = [$($d),*];
                let $s: [isize; $R] = $new($n, *s);
                walk($it, $len, |$k, $x| $ok);
            }
            #[unsafe(export_name = concat!("t__C05_C07__fold_", $tag))]
            pub fn fold0($p: P, s: &[isize; $R]) {
                let $n: [usize; $R] = [$($d),*];
                let $s: [isize; $R] = $new($n, *s);
                folded($it, $len, 1, |$k, $x| $ok);
            }
        };
    };
}

// sub-arrays: remaining axes $rest
macro_rules! axis {
    ($tag:expr, $R:literal, $K:literal, [$($d:literal),*], $a:literal, [$($r:literal),*], $axis:expr) => {
        drive!(concat!("axis_s_", $tag), $R, [$($d),*], free, |p, s, n| vs(p, ($($d as usize,)*), &s).axis_expr($axis).into_iter(), n[$a],
            |k, x| same_view!(x, $K, [$(n[$r]),*], [$(s[$r]),*], at(p, m(s[$a], k))));
        drive!(concat!("axis_d_", $tag), $R, [$($d),*], dense, |p, s, n| vd(p, ($($d as usize,)*)).axis_expr($axis).into_iter(), n[$a],
            |k, x| same_view!(x, $K, [$(n[$r]),*], [$(s[$r]),*], at(p, m(s[$a], k))));
        drive!(concat!("axis_sm_", $tag), $R, [$($d),*], free, |p, s, n| vsm(p, ($($d as usize,)*), &s).axis_expr_mut($axis).into_iter(), n[$a],
            |k, x| same_view!(x, $K, [$(n[$r]),*], [$(s[$r]),*], at(p, m(s[$a], k))));
        drive!(concat!("axis_cdm_", $tag), $R, [$($d),*], dense, |p, s, n| vdm(p, ($(Const::<$d>,)*)).axis_expr_mut($axis).into_iter(), n[$a],
            |k, x| same_view!(x, $K, [$(n[$r]),*], [$(s[$r]),*], at(p, m(s[$a], k))));
        drive!(concat!("axis_xs_", $tag), $R, [$($d),*], free, |p, s, n| vs(p, DynRank::from_dims(&n), &s).axis_expr($axis).into_iter(), n[$a],
            |k, x| same_view!(x, $K, [$(n[$r]),*], [$(s[$r]),*], at(p, m(s[$a], k))));
        drive!(concat!("axis_xdm_", $tag), $R, [$($d),*], dense, |p, s, n| vdm(p, DynRank::from_dims(&n)).axis_expr_mut($axis).into_iter(), n[$a],
            |k, x| same_view!(x, $K, [$(n[$r]),*], [$(s[$r]),*], at(p, m(s[$a], k))));
        drive!(concat!("lanes_s_", $tag), $R, [$($d),*], free, |p, s, n| vs(p, ($($d as usize,)*), &s).lanes($axis).into_iter(), prod::<$K>([$(n[$r]),*]),
            |k, x| same_view!(x, 1, [n[$a]], [s[$a]], at(p, offset::<$K>([$(s[$r]),*], unlin([$(n[$r]),*], k)))));
        drive!(concat!("lanes_d_", $tag), $R, [$($d),*], dense, |p, s, n| vd(p, ($($d as usize,)*)).lanes($axis).into_iter(), prod::<$K>([$(n[$r]),*]),
            |k, x| same_view!(x, 1, [n[$a]], [s[$a]], at(p, offset::<$K>([$(s[$r]),*], unlin([$(n[$r]),*], k)))));
        drive!(concat!("lanes_sm_", $tag), $R, [$($d),*], free, |p, s, n| vsm(p, ($($d as usize,)*), &s).lanes_mut($axis).into_iter(), prod::<$K>([$(n[$r]),*]),
            |k, x| same_view!(x, 1, [n[$a]], [s[$a]], at(p, offset::<$K>([$(s[$r]),*], unlin([$(n[$r]),*], k)))));
        drive!(concat!("lanes_cdm_", $tag), $R, [$($d),*], dense, |p, s, n| vdm(p, ($(Const::<$d>,)*)).lanes_mut($axis).into_iter(), prod::<$K>([$(n[$r]),*]),
            |k, x| same_view!(x, 1, [n[$a]], [s[$a]], at(p, offset::<$K>([$(s[$r]),*], unlin([$(n[$r]),*], k)))));
        drive!(concat!("lanes_xsm_", $tag), $R, [$($d),*], free, |p, s, n| vsm(p, DynRank::from_dims(&n), &s).lanes_mut($axis).into_iter(), prod::<$K>([$(n[$r]),*]),
            |k, x| same_view!(x, 1, [n[$a]], [s[$a]], at(p, offset::<$K>([$(s[$r]),*], unlin([$(n[$r]),*], k)))));
        drive!(concat!("lanes_xd_", $tag), $R, [$($d),*], dense, |p, s, n| vd(p, DynRank::from_dims(&n)).lanes($axis).into_iter(), prod::<$K>([$(n[$r]),*]),
            |k, x| same_view!(x, 1, [n[$a]], [s[$a]], at(p, offset::<$K>([$(s[$r]),*], unlin([$(n[$r]),*], k)))));
    };
}

macro_rules! axes {
    ($tag:literal, $R:literal, $K:literal, [$($d:literal),*], $a:literal, [$($r:literal),*]) => {
        axis!(concat!("c_", $tag), $R, $K, [$($d),*], $a, [$($r),*], Const::<$a>);
        axis!(concat!("v_", $tag), $R, $K, [$($d),*], $a, [$($r),*], $a as usize);
    };
}

axes!("0of1_3", 1, 0, [3], 0, []);
axes!("0of1_0", 1, 0, [0], 0, []);
axes!("0of2_23", 2, 1, [2, 3], 0, [1]);
axes!("1of2_23", 2, 1, [2, 3], 1, [0]);
axes!("0of2_03", 2, 1, [0, 3], 0, [1]);
axes!("1of2_03", 2, 1, [0, 3], 1, [0]);
axes!("0of3_232", 3, 2, [2, 3, 2], 0, [1, 2]);
axes!("1of3_232", 3, 2, [2, 3, 2], 1, [0, 2]);
axes!("2of3_232", 3, 2, [2, 3, 2], 2, [0, 1]);
axes!("1of3_202", 3, 2, [2, 0, 2], 1, [0, 2]);
axes!("2of3_302", 3, 2, [3, 0, 2], 2, [0, 1]);
axes!("0of4_2122", 4, 3, [2, 1, 2, 2], 0, [1, 2, 3]);
axes!("1of4_2122", 4, 3, [2, 2, 1, 2], 1, [0, 2, 3]);
axes!("2of4_2122", 4, 3, [2, 1, 2, 2], 2, [0, 1, 3]);
axes!("3of4_2122", 4, 3, [2, 2, 2, 1], 3, [0, 1, 2]);
axes!("2of5_21212", 5, 4, [2, 1, 2, 1, 2], 2, [0, 1, 3, 4]);
axes!("4of5_21212", 5, 4, [2, 2, 1, 1, 2], 4, [0, 1, 2, 3]);
axis!("rows2", 2, 1, [2, 3], 1, [0], Rows);
axis!("cols2", 2, 1, [2, 3], 0, [1], Cols);
axis!("rows3", 3, 2, [2, 3, 2], 2, [0, 1], Rows);
axis!("cols3", 3, 2, [2, 3, 2], 1, [0, 2], Cols);
axis!("rows4", 4, 3, [2, 1, 2, 2], 3, [0, 1, 2], Rows);
axis!("cols4", 4, 3, [2, 1, 2, 2], 2, [0, 1, 3], Cols);

// Named forms.
macro_rules! named {
    ($tag:expr, $R:literal, $K:literal, [$($d:literal),*], $row:literal, [$($rr:literal),*], $col:literal, [$($cr:literal),*], [$($or:literal),*]) => {
        drive!(concat!("rows_", $tag), $R, [$($d),*], free, |p, s, n| vs(p, ($($d as usize,)*), &s).rows().into_iter(), prod::<$K>([$(n[$rr]),*]),
            |k, x| same_view!(x, 1, [n[$row]], [s[$row]], at(p, offset::<$K>([$(s[$rr]),*], unlin([$(n[$rr]),*], k)))));
        drive!(concat!("rows_mut_", $tag), $R, [$($d),*], dense, |p, s, n| vdm(p, ($($d as usize,)*)).rows_mut().into_iter(), prod::<$K>([$(n[$rr]),*]),
            |k, x| same_view!(x, 1, [n[$row]], [s[$row]], at(p, offset::<$K>([$(s[$rr]),*], unlin([$(n[$rr]),*], k)))));
        drive!(concat!("cols_", $tag), $R, [$($d),*], free, |p, s, n| vs(p, ($($d as usize,)*), &s).cols().into_iter(), prod::<$K>([$(n[$cr]),*]),
            |k, x| same_view!(x, 1, [n[$col]], [s[$col]], at(p, offset::<$K>([$(s[$cr]),*], unlin([$(n[$cr]),*], k)))));
        drive!(concat!("cols_mut_", $tag), $R, [$($d),*], dense, |p, s, n| vdm(p, ($($d as usize,)*)).cols_mut().into_iter(), prod::<$K>([$(n[$cr]),*]),
            |k, x| same_view!(x, 1, [n[$col]], [s[$col]], at(p, offset::<$K>([$(s[$cr]),*], unlin([$(n[$cr]),*], k)))));
        drive!(concat!("outer_", $tag), $R, [$($d),*], free, |p, s, n| vs(p, ($($d as usize,)*), &s).outer_expr().into_iter(), n[0],
            |k, x| same_view!(x, $K, [$(n[$or]),*], [$(s[$or]),*], at(p, m(s[0], k))));
        drive!(concat!("outer_mut_", $tag), $R, [$($d),*], dense, |p, s, n| vdm(p, ($($d as usize,)*)).outer_expr_mut().into_iter(), n[0],
            |k, x| same_view!(x, $K, [$(n[$or]),*], [$(s[$or]),*], at(p, m(s[0], k))));
    };
}
named!("2", 2, 1, [2, 3], 1, [0], 0, [1], [1]);
named!("2e", 2, 1, [0, 3], 1, [0], 0, [1], [1]);
named!("3", 3, 2, [2, 3, 2], 2, [0, 1], 1, [0, 2], [1, 2]);
named!("4", 4, 3, [2, 1, 2, 2], 3, [0, 1, 2], 2, [0, 1, 3], [1, 2, 3]);

// Shapes of the expressions themselves, and the axis check.
macro_rules! shapes {
    ($tag:expr, $R:literal, $K:literal, [$($e:literal),*], $a:literal, [$($r:literal),*], $axis:expr) => {
        const _: () = {
            #[unsafe(export_name = concat!("t__C07_C13__shape_", $tag))]
            pub fn t(p: P, n: &[N; $R], s: &[isize; $R]) {
                let n = z(n);
                let mut v = vsm(p, ($(n[$e],)*), s);
                {
                    let e = v.axis_expr($axis);
                    claim!(C07_C13__axis_expr_shape, e.rank() == 1 && e.dim(0) == n[$a] && e.len() == n[$a]);
                }
                {
                    let e = v.axis_expr_mut($axis);
                    claim!(C07_C13__axis_expr_shape, e.rank() == 1 && e.dim(0) == n[$a] && e.len() == n[$a]);
                }
                let r: [usize; $K] = [$(n[$r]),*];
                {
                    let e = v.lanes($axis);
                    claim!(C07_C13__lanes_shape, e.rank() == $K && e.len() == prod(r));
                    let mut d = 0;
                    while d < $K {
                        claim!(C07_C13__lanes_shape, e.dim(d) == r[d]);
                        d += 1;
                    }
                }
                {
                    let e = v.lanes_mut($axis);
                    claim!(C07_C13__lanes_shape, e.rank() == $K && e.len() == prod(r));
                    let mut d = 0;
                    while d < $K {
                        claim!(C07_C13__lanes_shape, e.dim(d) == r[d]);
                        d += 1;
                    }
                }
                reach!(R__lanes_shape);
            }
        };
    };
}
shapes!("0of1", 1, 0, [0], 0, [], Const::<0>);
shapes!("0of2", 2, 1, [0, 1], 0, [1], Const::<0>);
shapes!("1of2", 2, 1, [0, 1], 1, [0], Const::<1>);
shapes!("1of3", 3, 2, [0, 1, 2], 1, [0, 2], Const::<1>);
shapes!("2of3", 3, 2, [0, 1, 2], 2, [0, 1], 2usize);
shapes!("rows3", 3, 2, [0, 1, 2], 2, [0, 1], Rows);
shapes!("cols3", 3, 2, [0, 1, 2], 1, [0, 2], Cols);

macro_rules! badaxis {
    ($tag:literal, $R:literal, [$($e:literal),*]) => {
        const _: () = {
            #[unsafe(export_name = concat!("h__C07__badaxis_lanes_", $tag))]
            pub fn a(p: P, n: &[N; $R], s: &[isize; $R], x: usize) {
                let n = z(n);
                let v = vs(p, ($(n[$e],)*), s);
                let _e = v.lanes(x);
                claim!(C07__axis_checked, x < $R);
                reach!(R__axis);
            }
            #[unsafe(export_name = concat!("h__C07__badaxis_axis_", $tag))]
            pub fn b(p: P, n: &[N; $R], s: &[isize; $R], x: usize) {
                let n = z(n);
                let mut v = vsm(p, ($(n[$e],)*), s);
                let _e = v.axis_expr_mut(x);
                claim!(C07__axis_checked, x < $R);
                reach!(R__axis);
            }
        };
    };
}
badaxis!("1", 1, [0]);
badaxis!("2", 2, [0, 1]);
badaxis!("3", 3, [0, 1, 2]);
