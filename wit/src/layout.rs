//! Operations that change the shape or the layout of an array but not its elements: permute,
//! reorder, reshape, flatten, remap and their by-value forms.
use crate::common::*;

macro_rules! lay {
    ($tag:expr, $R:literal -> $K:literal, $new:ident, |$p:ident, $n:ident, $ss:ident, $x:ident| $v:expr,
     |$vv:ident| $w:expr, $ok:expr, $dims:expr, $st:expr, $must:expr) => {
        const _: () = {
            #[inline(always)]
            fn body($p: P, $n: [usize; $R], $ss: [isize; $R], $x: [usize; $K], j: [usize; $K], total: bool) {
                let ok = $ok;
                if total && !(ok && $must) {
                    return;
                }
                let mut $vv = $v;
                let w = $w;
                claim!(C04_C05_C13__layout_valid, ok);
                let dims: [usize; $K] = $dims;
                let st: [isize; $K] = $st;
                claim!(C04_C05__layout_rank, w.rank() == $K);
                let mut d = 0;
                while d < $K {
                    claim!(C04_C05_C13__layout_dim, w.dim(d) == dims[d]);
                    d += 1;
                }
                if inside(dims, j) {
                    let a = &w[j] as P;
                    claim!(C04_C05__layout_addr, a == at($p, offset(st, j)));
                    reach!(R__layout);
                }
            }
            #[unsafe(export_name = concat!("h__C04_C05_C13__", $tag))]
            pub fn h(p: P, n: &[N; $R], s: &[isize; $R], x: &[N; $K], j: &[usize; $K]) {
                let n = z(n);
                body(p, n, $new(n, *s), z(x), *j, false);
            }
            #[unsafe(export_name = concat!("t__C04_C05_C13__", $tag))]
            pub fn t(p: P, n: &[N; $R], s: &[isize; $R], x: &[N; $K], j: &[usize; $K]) {
                let n = z(n);
                body(p, n, $new(n, *s), z(x), *j, true);
            }
        };
    };
}

macro_rules! lay4 {
    ($tag:expr, $R:literal -> $K:literal, $new:ident, |$p:ident, $n:ident, $ss:ident, $x:ident| ($v:expr, $vm:expr),
     ($r:ident, $m:ident, $i:ident) $([$($g:ty),*])? ($($a:expr),*), $ok:expr, $dims:expr, $st:expr, $must:expr) => {
        lay!(concat!($tag, "_ref"), $R -> $K, $new, |$p, $n, $ss, $x| $v, |v| v.$r$(::<$($g),*>)?($($a),*), $ok, $dims, $st, $must);
        lay!(concat!($tag, "_mut"), $R -> $K, $new, |$p, $n, $ss, $x| $vm, |v| v.$m$(::<$($g),*>)?($($a),*), $ok, $dims, $st, $must);
        lay!(concat!($tag, "_into"), $R -> $K, $new, |$p, $n, $ss, $x| $v, |v| v.$i$(::<$($g),*>)?($($a),*), $ok, $dims, $st, $must);
        lay!(concat!($tag, "_intomut"), $R -> $K, $new, |$p, $n, $ss, $x| $vm, |v| v.$i$(::<$($g),*>)?($($a),*), $ok, $dims, $st, $must);
    };
}

// Static rank: strided and dense.
macro_rules! both {
    ($tag:literal, $R:literal -> $K:literal, [$($e:tt),*], |$n:ident, $ss:ident, $x:ident| $($rest:tt)*) => {
        lay4!(concat!($tag, "_s"), $R -> $K, free, |p, $n, $ss, $x| (vs(p, ($($n[$e],)*), &$ss), vsm(p, ($($n[$e],)*), &$ss)), $($rest)*);
        lay4!(concat!($tag, "_d"), $R -> $K, dense, |p, $n, $ss, $x| (vd(p, ($($n[$e],)*)), vdm(p, ($($n[$e],)*))), $($rest)*);
    };
}

// Dynamic rank: strided and dense.
macro_rules! dynr {
    ($tag:literal, $R:literal -> $K:literal, |$n:ident, $ss:ident, $x:ident| $($rest:tt)*) => {
        lay4!(concat!($tag, "_xs"), $R -> $K, free, |p, $n, $ss, $x| (vs(p, DynRank::from_dims(&$n), &$ss), vsm(p, DynRank::from_dims(&$n), &$ss)), $($rest)*);
        lay4!(concat!($tag, "_xd"), $R -> $K, dense, |p, $n, $ss, $x| (vd(p, DynRank::from_dims(&$n)), vdm(p, DynRank::from_dims(&$n))), $($rest)*);
    };
}

macro_rules! all {
    ($tag:literal, $R:literal -> $K:literal, [$($e:tt),*], |$n:ident, $ss:ident, $x:ident| $($rest:tt)*) => {
        both!($tag, $R -> $K, [$($e),*], |$n, $ss, $x| $($rest)*);
        dynr!($tag, $R -> $K, |$n, $ss, $x| $($rest)*);
    };
}

// ---- permute
macro_rules! perm {
    ($tag:literal, $R:literal, [$($e:tt),*], [$($q:tt),*]) => {
        both!($tag, $R -> $R, [$($e),*], |n, ss, x| (permute, permute_mut, into_permuted)([$($q),*]), true, [$(n[$q]),*], [$(ss[$q]),*], true);
        dynr!($tag, $R -> $R, |n, ss, x| (permute, permute_mut, into_permuted)([$($q),*]), true, [$(n[$q]),*], [$(ss[$q]),*], true);
    };
}
macro_rules! permc {
    ($tag:literal, $R:literal, [$($e:tt),*], [$($q:tt),*]) => {
        both!($tag, $R -> $R, [$($e),*], |n, ss, x| (permute, permute_mut, into_permuted)(($(Const::<$q>,)*)), true, [$(n[$q]),*], [$(ss[$q]),*], true);
    };
}
perm!("perm_0", 1, [0], [0]);
perm!("perm_01", 2, [0, 1], [0, 1]);
perm!("perm_10", 2, [0, 1], [1, 0]);
perm!("perm_012", 3, [0, 1, 2], [0, 1, 2]);
perm!("perm_021", 3, [0, 1, 2], [0, 2, 1]);
perm!("perm_102", 3, [0, 1, 2], [1, 0, 2]);
perm!("perm_120", 3, [0, 1, 2], [1, 2, 0]);
perm!("perm_201", 3, [0, 1, 2], [2, 0, 1]);
perm!("perm_210", 3, [0, 1, 2], [2, 1, 0]);
perm!("perm_3120", 4, [0, 1, 2, 3], [3, 1, 2, 0]);
perm!("perm_1302", 4, [0, 1, 2, 3], [1, 3, 0, 2]);
perm!("perm_24013", 5, [0, 1, 2, 3, 4], [2, 4, 0, 1, 3]);
perm!("perm_524013", 6, [0, 1, 2, 3, 4, 5], [5, 2, 4, 0, 1, 3]);
permc!("permc_0", 1, [0], [0]);
permc!("permc_01", 2, [0, 1], [0, 1]);
permc!("permc_10", 2, [0, 1], [1, 0]);
permc!("permc_012", 3, [0, 1, 2], [0, 1, 2]);
permc!("permc_021", 3, [0, 1, 2], [0, 2, 1]);
permc!("permc_102", 3, [0, 1, 2], [1, 0, 2]);
permc!("permc_120", 3, [0, 1, 2], [1, 2, 0]);
permc!("permc_201", 3, [0, 1, 2], [2, 0, 1]);
permc!("permc_210", 3, [0, 1, 2], [2, 1, 0]);
permc!("permc_1302", 4, [0, 1, 2, 3], [1, 3, 0, 2]);
permc!("permc_0123", 4, [0, 1, 2, 3], [0, 1, 2, 3]);
permc!("permc_24013", 5, [0, 1, 2, 3, 4], [2, 4, 0, 1, 3]);
dynr!("permx_120", 3 -> 3, |n, ss, x| (permute, permute_mut, into_permuted)(&[1, 2, 0][..]), true, [n[1], n[2], n[0]], [ss[1], ss[2], ss[0]], true);
dynr!("permx_201", 3 -> 3, |n, ss, x| (permute, permute_mut, into_permuted)(vec![2, 0, 1]), true, [n[2], n[0], n[1]], [ss[2], ss[0], ss[1]], true);

// A permutation that is not valid is rejected.
fn is_perm<const R: usize>(p: [usize; R]) -> bool {
    let mut ok = true;
    let mut i = 0;
    while i < R {
        ok = ok && p[i] < R;
        let mut j = 0;
        while j < i {
            ok = ok && p[i] != p[j];
            j += 1;
        }
        i += 1;
    }
    ok
}
macro_rules! badperm {
    ($tag:expr, $R:literal, [$($e:tt),*], $f:ident, |$v:ident, $q:ident| $a:expr) => {
        const _: () = {
            #[unsafe(export_name = concat!("h__C04_C05__badperm_", $tag))]
            pub fn h(p: P, n: &[N; $R], s: &[isize; $R], x: &[usize; $R]) {
                let n = z(n);
                let $q = *x;
                let mut $v = $f(p, ($(n[$e],)*), s);
                let _w = $a;
                claim!(C04_C05__permutation_checked, is_perm(*x));
                reach!(R__permuted);
            }
            #[unsafe(export_name = concat!("h__C04_C05__badpermx_", $tag))]
            pub fn x(p: P, n: &[N; $R], s: &[isize; $R], x: &[usize; $R]) {
                let n = z(n);
                let $q = *x;
                let mut $v = $f(p, DynRank::from_dims(&n), s);
                let _w = $a;
                claim!(C04_C05__permutation_checked, is_perm(*x));
                reach!(R__permuted);
            }
        };
    };
}
badperm!("1_ref", 1, [0], vs, |v, q| v.permute(q));
badperm!("2_ref", 2, [0, 1], vs, |v, q| v.permute(q));
badperm!("2_mut", 2, [0, 1], vsm, |v, q| v.permute_mut(q));
badperm!("2_into", 2, [0, 1], vs, |v, q| v.into_permuted(q));
badperm!("2_intomut", 2, [0, 1], vsm, |v, q| v.into_permuted(q));
badperm!("3_ref", 3, [0, 1, 2], vs, |v, q| v.permute(q));
badperm!("3_mut", 3, [0, 1, 2], vsm, |v, q| v.permute_mut(q));
badperm!("3_intomut", 3, [0, 1, 2], vsm, |v, q| v.into_permuted(q));
badperm!("4_mut", 4, [0, 1, 2, 3], vsm, |v, q| v.permute_mut(q));
badperm!("4_ref", 4, [0, 1, 2, 3], vs, |v, q| v.permute((q[0], q[1], q[2], q[3])));
badperm!("5_mut", 5, [0, 1, 2, 3, 4], vsm, |v, q| v.permute_mut(q));

// The same for dense arrays, which stay dense if the permutation has a single dimension.
macro_rules! badpermd {
    ($tag:expr, $R:literal, [$($e:tt),*], $f:ident, |$v:ident, $q:ident| $a:expr) => {
        const _: () = {
            #[unsafe(export_name = concat!("h__C04_C05__badpermd_", $tag))]
            pub fn h(p: P, n: &[N; $R], x: &[usize; $R]) {
                let n = z(n);
                let $q = *x;
                let mut $v = $f(p, ($(n[$e],)*));
                let _w = $a;
                claim!(C04_C05__permutation_checked, is_perm(*x));
                reach!(R__permuted);
            }
            #[unsafe(export_name = concat!("h__C04_C05__badpermdx_", $tag))]
            pub fn x(p: P, n: &[N; $R], x: &[usize; $R]) {
                let n = z(n);
                let $q = *x;
                let mut $v = $f(p, DynRank::from_dims(&n));
                let _w = $a;
                claim!(C04_C05__permutation_checked, is_perm(*x));
                reach!(R__permuted);
            }
        };
    };
}
badpermd!("1_ref", 1, [0], vd, |v, q| v.permute(q));
badpermd!("1_mut", 1, [0], vdm, |v, q| v.permute_mut(q));
badpermd!("1_into", 1, [0], vd, |v, q| v.into_permuted(q));
badpermd!("1_intomut", 1, [0], vdm, |v, q| v.into_permuted(q));
badpermd!("2_ref", 2, [0, 1], vd, |v, q| v.permute(q));
badpermd!("2_mut", 2, [0, 1], vdm, |v, q| v.permute_mut(q));
badpermd!("3_mut", 3, [0, 1, 2], vdm, |v, q| v.permute_mut(q));
badpermd!("4_ref", 4, [0, 1, 2, 3], vd, |v, q| v.permute(q));

macro_rules! badpermc {
    ($tag:expr, $R:literal, [$($e:tt),*], [$($q:expr),*]) => {
        const _: () = {
            #[unsafe(export_name = concat!("h__C04_C05__badpermc_", $tag))]
            pub fn h(p: P, n: &[N; $R], s: &[isize; $R]) {
                let n = z(n);
                let v = vs(p, ($(n[$e],)*), s);
                let _w = v.permute(($($q,)*));
                claim!(C04_C05__permutation_checked, false);
            }
            #[unsafe(export_name = concat!("h__C04_C05__badpermcm_", $tag))]
            pub fn hm(p: P, n: &[N; $R]) {
                let n = z(n);
                let mut v = vdm(p, ($(n[$e],)*));
                let _w = v.permute_mut(($($q,)*));
                claim!(C04_C05__permutation_checked, false);
            }
        };
    };
}
badpermc!("1", 1, [0], [Const::<1>]);
badpermc!("00", 2, [0, 1], [Const::<0>, Const::<0>]);
badpermc!("02", 2, [0, 1], [Const::<0>, Const::<2>]);
badpermc!("11", 2, [0, 1], [Const::<1>, 1usize]);
badpermc!("011", 3, [0, 1, 2], [Const::<0>, Const::<1>, Const::<1>]);
badpermc!("120", 3, [0, 1, 2], [Const::<1>, 2usize, 2usize]);
badpermc!("0122", 4, [0, 1, 2, 3], [Const::<0>, Const::<1>, Const::<2>, Const::<2>]);

// ---- reorder
all!("reorder0", 0 -> 0, [], |n, ss, x| (reorder, reorder_mut, into_reordered)(), true, [], [], true);
all!("reorder1", 1 -> 1, [0], |n, ss, x| (reorder, reorder_mut, into_reordered)(), true, [n[0]], [ss[0]], true);
all!("reorder2", 2 -> 2, [0, 1], |n, ss, x| (reorder, reorder_mut, into_reordered)(), true, [n[1], n[0]], [ss[1], ss[0]], true);
all!("reorder3", 3 -> 3, [0, 1, 2], |n, ss, x| (reorder, reorder_mut, into_reordered)(), true, [n[2], n[1], n[0]], [ss[2], ss[1], ss[0]], true);
all!("reorder4", 4 -> 4, [0, 1, 2, 3], |n, ss, x| (reorder, reorder_mut, into_reordered)(), true, [n[3], n[2], n[1], n[0]], [ss[3], ss[2], ss[1], ss[0]], true);
both!("reorder5", 5 -> 5, [0, 1, 2, 3, 4], |n, ss, x| (reorder, reorder_mut, into_reordered)(), true, [n[4], n[3], n[2], n[1], n[0]], [ss[4], ss[3], ss[2], ss[1], ss[0]], true);
both!("reorder6", 6 -> 6, [0, 1, 2, 3, 4, 5], |n, ss, x| (reorder, reorder_mut, into_reordered)(), true, [n[5], n[4], n[3], n[2], n[1], n[0]], [ss[5], ss[4], ss[3], ss[2], ss[1], ss[0]], true);

// ---- remap: to strided layout always, to dense layout only if contiguous
fn contiguous<const R: usize>(n: [usize; R], s: [isize; R]) -> bool {
    let d = dense(n, s);
    let mut ok = true;
    let mut i = 0;
    while i < R {
        ok = ok && (s[i] == d[i]);
        i += 1;
    }
    ok
}
all!("remap_s0", 0 -> 0, [], |n, ss, x| (remap, remap_mut, into_mapping)[(), Strided](), true, [], [], true);
all!("remap_s1", 1 -> 1, [0], |n, ss, x| (remap, remap_mut, into_mapping)[(Dyn,), Strided](), true, n, ss, true);
all!("remap_s2", 2 -> 2, [0, 1], |n, ss, x| (remap, remap_mut, into_mapping)[(Dyn, Dyn), Strided](), true, n, ss, true);
all!("remap_s3", 3 -> 3, [0, 1, 2], |n, ss, x| (remap, remap_mut, into_mapping)[(Dyn, Dyn, Dyn), Strided](), true, n, ss, true);
all!("remap_s4", 4 -> 4, [0, 1, 2, 3], |n, ss, x| (remap, remap_mut, into_mapping)[(Dyn, Dyn, Dyn, Dyn), Strided](), true, n, ss, true);
all!("remap_xs2", 2 -> 2, [0, 1], |n, ss, x| (remap, remap_mut, into_mapping)[DynRank, Strided](), true, n, ss, true);
all!("remap_xs3", 3 -> 3, [0, 1, 2], |n, ss, x| (remap, remap_mut, into_mapping)[DynRank, Strided](), true, n, ss, true);
all!("remap_cs2", 2 -> 2, [0, 1], |n, ss, x| (remap, remap_mut, into_mapping)[(C<4>, Dyn), Strided](), n[0] == 4, n, ss, true);
all!("remap_cc2", 2 -> 2, [0, 1], |n, ss, x| (remap, remap_mut, into_mapping)[(C<4>, C<3>), Strided](), n[0] == 4 && n[1] == 3, n, ss, true);
all!("remap_d1", 1 -> 1, [0], |n, ss, x| (remap, remap_mut, into_mapping)[(Dyn,), Dense](), true, n, ss, contiguous(n, ss));
all!("remap_d2", 2 -> 2, [0, 1], |n, ss, x| (remap, remap_mut, into_mapping)[(Dyn, Dyn), Dense](), true, n, ss, contiguous(n, ss));
all!("remap_d3", 3 -> 3, [0, 1, 2], |n, ss, x| (remap, remap_mut, into_mapping)[(Dyn, Dyn, Dyn), Dense](), true, n, ss, contiguous(n, ss));
all!("remap_xd2", 2 -> 2, [0, 1], |n, ss, x| (remap, remap_mut, into_mapping)[DynRank, Dense](), true, n, ss, contiguous(n, ss));
all!("remap_cd2", 2 -> 2, [0, 1], |n, ss, x| (remap, remap_mut, into_mapping)[(Dyn, C<3>), Dense](), n[1] == 3, n, ss, contiguous(n, ss));

// A remap to a different rank is rejected.
macro_rules! badrank {
    ($tag:literal, $R:literal, [$($e:tt),*], $t:ty) => {
        const _: () = {
            #[unsafe(export_name = concat!("h__C04_C13__badrank_", $tag))]
            pub fn h(p: P, n: &[N; $R], s: &[isize; $R]) {
                let n = z(n);
                let v = vs(p, DynRank::from_dims(&n), s);
                let _w = v.remap::<$t, Strided>();
                claim!(C04_C13__remap_rank_checked, false);
            }
            #[unsafe(export_name = concat!("h__C04_C13__badrankm_", $tag))]
            pub fn hm(p: P, n: &[N; $R]) {
                let n = z(n);
                let v = vdm(p, ($(n[$e],)*));
                let _w = v.into_mapping::<$t, Dense>();
                claim!(C04_C13__remap_rank_checked, false);
            }
        };
    };
}
badrank!("1to2", 1, [0], (Dyn, Dyn));
badrank!("2to1", 2, [0, 1], (Dyn,));
badrank!("2to3", 2, [0, 1], (Dyn, Dyn, Dyn));
badrank!("3to2", 3, [0, 1, 2], (Dyn, Dyn));
badrank!("0to1", 0, [], (Dyn,));
badrank!("1to0", 1, [0], ());

// ---- reshape with dense layout: any shape with the same number of elements
macro_rules! dense4 {
    ($tag:literal, $R:literal -> $K:literal, [$($e:tt),*], |$n:ident, $ss:ident, $x:ident| $($rest:tt)*) => {
        lay4!(concat!($tag, "_d"), $R -> $K, dense, |p, $n, $ss, $x| (vd(p, ($($n[$e],)*)), vdm(p, ($($n[$e],)*))), $($rest)*);
        lay4!(concat!($tag, "_xd"), $R -> $K, dense, |p, $n, $ss, $x| (vd(p, DynRank::from_dims(&$n)), vdm(p, DynRank::from_dims(&$n))), $($rest)*);
    };
}
fn dn<const K: usize>(x: [usize; K]) -> [isize; K] {
    dense(x, [0; K])
}
dense4!("reshape_1to1", 1 -> 1, [0], |n, ss, x| (reshape, reshape_mut, into_shape)(x), prod(n) == prod(x), x, dn(x), true);
dense4!("reshape_1to2", 1 -> 2, [0], |n, ss, x| (reshape, reshape_mut, into_shape)(x), prod(n) == prod(x), x, dn(x), true);
dense4!("reshape_2to1", 2 -> 1, [0, 1], |n, ss, x| (reshape, reshape_mut, into_shape)([n[0] * n[1]]), true, [n[0] * n[1]], [1], true);
dense4!("reshape_2to2", 2 -> 2, [0, 1], |n, ss, x| (reshape, reshape_mut, into_shape)(x), prod(n) == prod(x), x, dn(x), true);
dense4!("reshape_2to3", 2 -> 3, [0, 1], |n, ss, x| (reshape, reshape_mut, into_shape)(x), prod(n) == prod(x), x, dn(x), true);
dense4!("reshape_3to2", 3 -> 2, [0, 1, 2], |n, ss, x| (reshape, reshape_mut, into_shape)(x), prod(n) == prod(x), x, dn(x), true);
dense4!("reshape_0to2", 0 -> 2, [], |n, ss, x| (reshape, reshape_mut, into_shape)(x), 1 == prod(x), x, dn(x), true);
dense4!("reshape_2to0", 2 -> 0, [0, 1], |n, ss, x| (reshape, reshape_mut, into_shape)(()), 1 == prod(n), [], [], true);
dense4!("reshape_2to4", 2 -> 4, [0, 1], |n, ss, x| (reshape, reshape_mut, into_shape)(x), prod(n) == prod(x), x, dn(x), true);
dense4!("reshape_x2", 2 -> 2, [0, 1], |n, ss, x| (reshape, reshape_mut, into_shape)(DynRank::from_dims(&x)), prod(n) == prod(x), x, dn(x), true);
dense4!("reshape_x3", 2 -> 3, [0, 1], |n, ss, x| (reshape, reshape_mut, into_shape)(&x[..]), prod(n) == prod(x), x, dn(x), true);
dense4!("reshape_c", 2 -> 2, [0, 1], |n, ss, x| (reshape, reshape_mut, into_shape)((Const::<3>, x[1])), prod(n) == 3 * x[1], [3, x[1]], dn([3, x[1]]), true);
dense4!("reshape_c2", 1 -> 3, [0], |n, ss, x| (reshape, reshape_mut, into_shape)((x[0], Const::<2>, Const::<5>)), n[0] == 10 * x[0], [x[0], 2, 5], [10, 5, 1], true);
// one inferred dimension
dense4!("infer_1of1", 2 -> 1, [0, 1], |n, ss, x| (reshape, reshape_mut, into_shape)([!0usize]), true, [prod(n)], [1], true);
dense4!("infer_1of2", 2 -> 2, [0, 1], |n, ss, x| (reshape, reshape_mut, into_shape)([!0usize, x[1]]), x[1] != 0 && prod(n) % x[1] == 0, [prod(n) / x[1], x[1]], [x[1] as isize, 1], true);
dense4!("infer_2of2", 2 -> 2, [0, 1], |n, ss, x| (reshape, reshape_mut, into_shape)([x[0], !0usize]), x[0] != 0 && prod(n) % x[0] == 0, [x[0], prod(n) / x[0]], [(prod(n) / x[0]) as isize, 1], true);
dense4!("infer_2of3", 2 -> 3, [0, 1], |n, ss, x| (reshape, reshape_mut, into_shape)([x[0], !0usize, x[2]]), x[0] * x[2] != 0 && prod(n) % (x[0] * x[2]) == 0,
    [x[0], prod(n) / (x[0] * x[2]), x[2]], dn([x[0], prod(n) / (x[0] * x[2]), x[2]]), true);
dense4!("infer_x", 1 -> 2, [0], |n, ss, x| (reshape, reshape_mut, into_shape)(&[!0usize, x[1]]), x[1] != 0 && prod(n) % x[1] == 0, [prod(n) / x[1], x[1]], [x[1] as isize, 1], true);
dense4!("infer_c", 1 -> 2, [0], |n, ss, x| (reshape, reshape_mut, into_shape)((!0usize, Const::<3>)), n[0] % 3 == 0, [n[0] / 3, 3], [3, 1], true);
macro_rules! twice {
    ($tag:literal, |$v:ident| $e:expr) => {
        const _: () = {
            #[unsafe(export_name = concat!("h__C04__infer_twice_", $tag))]
            pub fn h(p: P, n: &[N; 2]) {
                let n = z(n);
                let mut $v = vdm(p, (n[0], n[1]));
                let _w = $e;
                claim!(C04__one_inferred_dimension, false);
            }
        };
    };
}
twice!("2", |v| v.reshape([!0usize, !0usize]));
twice!("3", |v| v.reshape_mut([!0usize, 1, !0usize]));
twice!("x", |v| v.into_shape(&[1, !0usize, !0usize][..]));

// ---- flatten
dense4!("flat_0", 0 -> 1, [], |n, ss, x| (flatten, flatten_mut, into_flat)(), true, [1], [1], true);
dense4!("flat_1", 1 -> 1, [0], |n, ss, x| (flatten, flatten_mut, into_flat)(), true, n, [1], true);
dense4!("flat_2", 2 -> 1, [0, 1], |n, ss, x| (flatten, flatten_mut, into_flat)(), true, [prod(n)], [1], true);
dense4!("flat_3", 3 -> 1, [0, 1, 2], |n, ss, x| (flatten, flatten_mut, into_flat)(), true, [prod(n)], [1], true);
dense4!("flat_4", 4 -> 1, [0, 1, 2, 3], |n, ss, x| (flatten, flatten_mut, into_flat)(), true, [prod(n)], [1], true);

// ---- strided identity reshape and by-value conversion to dynamic rank
macro_rules! strid4 {
    ($tag:literal, $R:literal -> $K:literal, [$($e:tt),*], |$n:ident, $ss:ident, $x:ident| $($rest:tt)*) => {
        lay4!(concat!($tag, "_s"), $R -> $K, free, |p, $n, $ss, $x| (vs(p, ($($n[$e],)*), &$ss), vsm(p, ($($n[$e],)*), &$ss)), $($rest)*);
        lay4!(concat!($tag, "_xs"), $R -> $K, free, |p, $n, $ss, $x| (vs(p, DynRank::from_dims(&$n), &$ss), vsm(p, DynRank::from_dims(&$n), &$ss)), $($rest)*);
    };
}
strid4!("flat_s1", 1 -> 1, [0], |n, ss, x| (flatten, flatten_mut, into_flat)(), true, n, ss, true);
strid4!("reshape_s1", 1 -> 1, [0], |n, ss, x| (reshape, reshape_mut, into_shape)(x), n[0] == x[0], n, ss, true);

macro_rules! intodyn {
    ($tag:literal, $R:literal, [$($e:tt),*]) => {
        lay!(concat!($tag, "_s"), $R -> $R, free, |p, n, ss, x| vs(p, ($(n[$e],)*), &ss), |v| v.into_dyn(), true, n, ss, true);
        lay!(concat!($tag, "_sm"), $R -> $R, free, |p, n, ss, x| vsm(p, ($(n[$e],)*), &ss), |v| v.into_dyn(), true, n, ss, true);
        lay!(concat!($tag, "_d"), $R -> $R, dense, |p, n, ss, x| vd(p, ($(n[$e],)*)), |v| v.into_dyn(), true, n, ss, true);
        lay!(concat!($tag, "_dm"), $R -> $R, dense, |p, n, ss, x| vdm(p, ($(n[$e],)*)), |v| v.into_dyn(), true, n, ss, true);
    };
}
intodyn!("intodyn1", 1, [0]);
intodyn!("intodyn2", 2, [0, 1]);
intodyn!("intodyn3", 3, [0, 1, 2]);
intodyn!("intodyn4", 4, [0, 1, 2, 3]);

// ---- reshape with strided layout: fixed dimensions, arbitrary strides. If the operation returns,
// every element must be where it was in row-major order; it has to succeed if each group of merged
// dimensions is evenly spaced.
#[inline(always)]
fn even<const R: usize>(n: [usize; R], s: [isize; R]) -> bool {
    let mut ok = true;
    let mut d = 1;
    while d < R {
        ok = ok && s[d - 1] == s[d].wrapping_mul(n[d] as isize);
        d += 1;
    }
    ok
}

macro_rules! rs1 {
    ($tag:expr, $R:literal -> $K:literal, [$($o:literal),*] -> [$($q:literal),*], |$s:ident| $must:expr, |$p:ident, $n:ident| $v:expr, |$vv:ident, $m:ident| $w:expr) => {
        const _: () = {
            #[inline(always)]
            fn body($p: P, $s: [isize; $R], total: bool) {
                if total && !$must {
                    return;
                }
                let $n: [usize; $R] = [$($o),*];
                let $m: [usize; $K] = [$($q),*];
                let mut $vv = $v;
                let w = $w;
                let mut d = 0;
                claim!(C04_C05__reshape_rank, w.rank() == $K);
                while d < $K {
                    claim!(C04_C05__reshape_dim, w.dim(d) == $m[d]);
                    d += 1;
                }
                let mut k = 0;
                while k < prod($m) {
                    let a = &w[unlin($m, k)] as P;
                    claim!(C04_C05__reshape_addr, a == at($p, offset($s, unlin($n, k))));
                    k += 1;
                }
                reach!(R__reshape);
            }
            #[unsafe(export_name = concat!("h__C04_C05__reshape_", $tag))]
            pub fn h(p: P, s: &[isize; $R]) {
                body(p, *s, false);
            }
            #[unsafe(export_name = concat!("t__C04_C05__reshape_", $tag))]
            pub fn t(p: P, s: &[isize; $R]) {
                body(p, *s, true);
            }
        };
    };
}

macro_rules! rs {
    ($tag:literal, $R:literal -> $K:literal, [$($o:literal),*] -> [$($q:literal),*], |$s:ident| $must:expr) => {
        rs1!(concat!($tag, "_ref"), $R -> $K, [$($o),*] -> [$($q),*], |$s| $must, |p, n| vs(p, ($($o as usize,)*), &$s), |v, m| v.reshape(m));
        rs1!(concat!($tag, "_mut"), $R -> $K, [$($o),*] -> [$($q),*], |$s| $must, |p, n| vsm(p, ($($o as usize,)*), &$s), |v, m| v.reshape_mut(m));
        rs1!(concat!($tag, "_into"), $R -> $K, [$($o),*] -> [$($q),*], |$s| $must, |p, n| vs(p, ($($o as usize,)*), &$s), |v, m| v.into_shape(m));
        rs1!(concat!($tag, "_intomut"), $R -> $K, [$($o),*] -> [$($q),*], |$s| $must, |p, n| vsm(p, ($($o as usize,)*), &$s), |v, m| v.into_shape(m));
        rs1!(concat!($tag, "_dyn"), $R -> $K, [$($o),*] -> [$($q),*], |$s| $must, |p, n| vs(p, DynRank::from_dims(&n), &$s), |v, m| v.reshape(&m));
        rs1!(concat!($tag, "_const"), $R -> $K, [$($o),*] -> [$($q),*], |$s| $must, |p, n| vsm(p, ($(Const::<$o>,)*), &$s), |v, m| v.into_shape(($(Const::<$q>,)*)));
    };
}

rs!("2x3_6", 2 -> 1, [2, 3] -> [6], |s| even([2, 3], s));
rs!("2x3_3x2", 2 -> 2, [2, 3] -> [3, 2], |s| even([2, 3], s));
rs!("2x3_2x3", 2 -> 2, [2, 3] -> [2, 3], |s| true);
rs!("2x3_1x2x3", 2 -> 3, [2, 3] -> [1, 2, 3], |s| true);
rs!("2x3_2x1x3", 2 -> 3, [2, 3] -> [2, 1, 3], |s| true);
rs!("2x3_2x3x1", 2 -> 3, [2, 3] -> [2, 3, 1], |s| true);
rs!("2x3_1x6", 2 -> 2, [2, 3] -> [1, 6], |s| even([2, 3], s));
rs!("6_2x3", 1 -> 2, [6] -> [2, 3], |s| true);
rs!("6_3x1x2", 1 -> 3, [6] -> [3, 1, 2], |s| true);
rs!("8_2x2x2", 1 -> 3, [8] -> [2, 2, 2], |s| true);
rs!("2x2x3_4x3", 3 -> 2, [2, 2, 3] -> [4, 3], |s| s[0] == 2isize.wrapping_mul(s[1]));
rs!("2x2x3_2x6", 3 -> 2, [2, 2, 3] -> [2, 6], |s| s[1] == 3isize.wrapping_mul(s[2]));
rs!("2x2x3_12", 3 -> 1, [2, 2, 3] -> [12], |s| even([2, 2, 3], s));
rs!("2x2x3_3x4", 3 -> 2, [2, 2, 3] -> [3, 4], |s| even([2, 2, 3], s));
rs!("2x2x3_6x2", 3 -> 2, [2, 2, 3] -> [6, 2], |s| even([2, 2, 3], s));
rs!("4x6_2x2x6", 2 -> 3, [4, 6] -> [2, 2, 6], |s| true);
rs!("4x6_4x2x3", 2 -> 3, [4, 6] -> [4, 2, 3], |s| true);
rs!("4x6_2x2x3x2", 2 -> 4, [4, 6] -> [2, 2, 3, 2], |s| true);
rs!("4x6_8x3", 2 -> 2, [4, 6] -> [8, 3], |s| even([4, 6], s));
rs!("4x6_2x12", 2 -> 2, [4, 6] -> [2, 12], |s| even([4, 6], s));
rs!("4x3_6x2", 2 -> 2, [4, 3] -> [6, 2], |s| even([4, 3], s));
rs!("2x2x2x3_4x6", 4 -> 2, [2, 2, 2, 3] -> [4, 6], |s| s[0] == 2isize.wrapping_mul(s[1]) && s[2] == 3isize.wrapping_mul(s[3]));
rs!("2x2x2x3_2x4x3", 4 -> 3, [2, 2, 2, 3] -> [2, 4, 3], |s| s[1] == 2isize.wrapping_mul(s[2]));
rs!("2x2x2x2_4x2x2", 4 -> 3, [2, 2, 2, 2] -> [4, 2, 2], |s| s[0] == 2isize.wrapping_mul(s[1]));
rs!("2x4x2_4x2x2", 3 -> 3, [2, 4, 2] -> [4, 2, 2], |s| s[0] == 4isize.wrapping_mul(s[1]));
rs!("1x3_3", 2 -> 1, [1, 3] -> [3], |s| true);
rs!("3x1_3", 2 -> 1, [3, 1] -> [3], |s| true);
rs!("3x1_3x1", 2 -> 2, [3, 1] -> [3, 1], |s| true);
rs!("3x1_1x3", 2 -> 2, [3, 1] -> [1, 3], |s| true);
rs!("1x3_3x1", 2 -> 2, [1, 3] -> [3, 1], |s| true);
rs!("2x1x3_2x3", 3 -> 2, [2, 1, 3] -> [2, 3], |s| true);
rs!("1x2x1x3_2x3", 4 -> 2, [1, 2, 1, 3] -> [2, 3], |s| true);
rs!("2x3x1_2x3", 3 -> 2, [2, 3, 1] -> [2, 3], |s| true);
rs!("2x3x1_6", 3 -> 1, [2, 3, 1] -> [6], |s| s[0] == 3isize.wrapping_mul(s[1]));
rs!("1x2x3_6", 3 -> 1, [1, 2, 3] -> [6], |s| s[1] == 3isize.wrapping_mul(s[2]));
rs!("1_1x1", 1 -> 2, [1] -> [1, 1], |s| true);
rs!("0x3_0", 2 -> 1, [0, 3] -> [0], |s| true);
rs!("0x3_2x0x5", 2 -> 3, [0, 3] -> [2, 0, 5], |s| true);
rs!("2x0_3x0", 2 -> 2, [2, 0] -> [3, 0], |s| true);
rs!("3_0_2_to_0", 3 -> 1, [3, 0, 2] -> [0], |s| true);

// lengths that differ
macro_rules! rsbad {
    ($tag:literal, $R:literal -> $K:literal, [$($o:literal),*] -> [$($q:literal),*]) => {
        const _: () = {
            #[unsafe(export_name = concat!("h__C04_C05__reshape_bad_", $tag))]
            pub fn h(p: P, s: &[isize; $R]) {
                let v = vsm(p, ($($o as usize,)*), s);
                let _w = v.into_shape([$($q as usize),*]);
                claim!(C04_C05__reshape_len_checked, false);
            }
            #[unsafe(export_name = concat!("h__C04_C05__reshape_badd_", $tag))]
            pub fn d(p: P) {
                let mut v = vdm(p, ($($o as usize,)*));
                let _w = v.reshape_mut([$($q as usize),*]);
                claim!(C04_C05__reshape_len_checked, false);
            }
        };
    };
}
rsbad!("2x3_7", 2 -> 1, [2, 3] -> [7]);
rsbad!("2x3_3", 2 -> 1, [2, 3] -> [3]);
rsbad!("2x3_0", 2 -> 1, [2, 3] -> [0]);
rsbad!("0_1", 1 -> 1, [0] -> [1]);
rsbad!("3x0_3", 2 -> 1, [3, 0] -> [3]);
rsbad!("4_3x2", 1 -> 2, [4] -> [3, 2]);
rsbad!("2x2_2x2x2", 2 -> 3, [2, 2] -> [2, 2, 2]);
rsbad!("huge", 1 -> 2, [4] -> [0x8000_0000_0000_0000, 2]);
rsbad!("wrap", 1 -> 3, [0] -> [0x4000_0000_0000_0000, 4, 4]);
rsbad!("wrap2", 1 -> 2, [2] -> [0x8000_0000_0000_0001, 2]);

// ---- strided, symbolic dimensions: flatten and unflatten
macro_rules! sflat {
    ($tag:literal, |$v:ident| $w:expr, $f:ident) => {
        const _: () = {
            #[inline(always)]
            fn body(p: P, n: [usize; 2], s: [isize; 2], i: [usize; 2], total: bool) {
                if total && s[0] != s[1].wrapping_mul(n[1] as isize) {
                    return;
                }
                let mut $v = $f(p, (n[0], n[1]), &s);
                let w = $w;
                claim!(C04_C05__flat_dim, w.dim(0) == n[0] * n[1]);
                if inside(n, i) {
                    let a = unsafe { w.as_ptr().wrapping_offset(w.stride(0).wrapping_mul((i[0] * n[1] + i[1]) as isize)) };
                    claim!(C04_C05__flat_addr, a == at(p, offset(s, i)));
                    reach!(R__flat);
                }
            }
            #[unsafe(export_name = concat!("h__C04_C05__sflat_", $tag))]
            pub fn h(p: P, n: &[N; 2], s: &[isize; 2], i: &[usize; 2]) {
                body(p, z(n), *s, *i, false);
            }
            #[unsafe(export_name = concat!("t__C04_C05__sflat_", $tag))]
            pub fn t(p: P, n: &[N; 2], s: &[isize; 2], i: &[usize; 2]) {
                body(p, z(n), *s, *i, true);
            }
        };
    };
}
sflat!("ref", |v| v.flatten(), vs);
sflat!("mut", |v| v.flatten_mut(), vsm);
sflat!("into", |v| v.into_flat(), vs);
sflat!("intomut", |v| v.into_flat(), vsm);
