//! Element addressing, bounds checks and shape queries.
use crate::common::*;
use std::ops::Bound;

/// Linear indexing of the element with the given index.
macro_rules! lin {
    ([$z:expr] $tag:literal, $R:literal, $new:ident, |$p:ident, $n:ident, $ss:ident| ($v:expr, $vm:expr)) => {
        const _: () = {
            #[unsafe(export_name = concat!("t__C01_C02__linear_", $tag))]
            pub fn tl($p: P, n: &[N; $R], s: &[isize; $R], i: &[usize; $R]) {
                let ($n, i) = ($z(n), *i);
                let $ss = $new($n, *s);
                if inside($n, i) {
                    let v = $v;
                    let r = &v[linear($n, i)] as P;
                    claim!(C01__linear_addr, r == at($p, offset($ss, i)));
                    let r = unsafe { (*v).get_unchecked(linear($n, i)) as P };
                    claim!(C01__linear_unchecked_addr, r == at($p, offset($ss, i)));
                    reach!(R__index);
                }
            }
            #[unsafe(export_name = concat!("t__C01_C02_C05__linearmut_", $tag))]
            pub fn tlm($p: P, n: &[N; $R], s: &[isize; $R], i: &[usize; $R]) {
                let ($n, i) = ($z(n), *i);
                let $ss = $new($n, *s);
                if inside($n, i) {
                    let mut v = $vm;
                    let r = &mut v[linear($n, i)] as *mut u64 as P;
                    claim!(C01_C05__linear_mut_addr, r == at($p, offset($ss, i)));
                    let r = unsafe { (*v).get_unchecked_mut(linear($n, i)) as *mut u64 as P };
                    claim!(C01_C05__linear_unchecked_mut_addr, r == at($p, offset($ss, i)));
                    reach!(R__index);
                }
            }
        };
    };
}

/// Multidimensional and linear indexing; dimension and stride queries.
macro_rules! idx {
    ($tag:literal, $R:literal, $new:ident, |$($r:tt)*) => { idx!([z] $tag, $R, $new, |$($r)*); lin!([z] $tag, $R, $new, |$($r)*); };
    ([$z:expr] $tag:literal, $R:literal, $new:ident, |$p:ident, $n:ident, $ss:ident| ($v:expr, $vm:expr)) => {
        const _: () = {
            #[unsafe(export_name = concat!("h__C01_C02__multi_", $tag))]
            pub fn h($p: P, n: &[N; $R], s: &[isize; $R], i: &[usize; $R]) {
                let ($n, i) = ($z(n), *i);
                let $ss = $new($n, *s);
                let v = $v;
                let r = &v[i] as P;
                claim!(C02__index_in_bounds, inside($n, i));
                claim!(C01__index_addr, r == at($p, offset($ss, i)));
                reach!(R__index);
            }
            #[unsafe(export_name = concat!("t__C01_C02__multi_", $tag))]
            pub fn t($p: P, n: &[N; $R], s: &[isize; $R], i: &[usize; $R]) {
                let ($n, i) = ($z(n), *i);
                let $ss = $new($n, *s);
                if inside($n, i) {
                    let v = $v;
                    let r = &v[i] as P;
                    claim!(C01__index_addr, r == at($p, offset($ss, i)));
                    let r = &v[&i[..]] as P;
                    claim!(C01__slice_index_addr, r == at($p, offset($ss, i)));
                    let r = unsafe { (*v).get_unchecked(i) as P };
                    claim!(C01__unchecked_addr, r == at($p, offset($ss, i)));
                    let mut v = $vm;
                    let r = &mut v[i] as *mut u64 as P;
                    claim!(C01_C05__index_mut_addr, r == at($p, offset($ss, i)));
                    let r = unsafe { (*v).get_unchecked_mut(i) as *mut u64 as P };
                    claim!(C01_C05__unchecked_mut_addr, r == at($p, offset($ss, i)));
                    reach!(R__index);
                }
            }
            #[unsafe(export_name = concat!("h__C01_C02_C05__multimut_", $tag))]
            pub fn hm($p: P, n: &[N; $R], s: &[isize; $R], i: &[usize; $R]) {
                let ($n, i) = ($z(n), *i);
                let $ss = $new($n, *s);
                let mut v = $vm;
                let r = &mut v[i] as *mut u64 as P;
                claim!(C02_C05__index_mut_in_bounds, inside($n, i));
                claim!(C01_C05__index_mut_addr, r == at($p, offset($ss, i)));
                reach!(R__index);
            }
            #[unsafe(export_name = concat!("h__C02__rank_", $tag))]
            pub fn hr($p: P, n: &[N; $R], s: &[isize; $R], i: &[usize]) {
                let $n: [usize; $R] = $z(n);
                let $ss = $new($n, *s);
                let v = $v;
                let r = &v[i] as P;
                claim!(C02__index_rank, i.len() == $R);
                reach!(R__index);
            }
            #[unsafe(export_name = concat!("h__C02__rankmut_", $tag))]
            pub fn hrm($p: P, n: &[N; $R], s: &[isize; $R], i: &[usize]) {
                let $n: [usize; $R] = $z(n);
                let $ss = $new($n, *s);
                let mut v = $vm;
                let r = &mut v[i] as *mut u64;
                claim!(C02__index_rank, i.len() == $R);
                reach!(R__index);
            }
            #[unsafe(export_name = concat!("h__C01_C02__linear_", $tag))]
            pub fn hl($p: P, n: &[N; $R], s: &[isize; $R], i: usize) {
                let $n: [usize; $R] = $z(n);
                let $ss = $new($n, *s);
                let v = $v;
                let r = &v[i] as P;
                claim!(C02__linear_in_bounds, i < prod($n));
                reach!(R__index);
            }
            #[unsafe(export_name = concat!("h__C01_C02__linearmut_", $tag))]
            pub fn hlm($p: P, n: &[N; $R], s: &[isize; $R], i: usize) {
                let $n: [usize; $R] = $z(n);
                let $ss = $new($n, *s);
                let mut v = $vm;
                let r = &mut v[i] as *mut u64 as P;
                claim!(C02__linear_in_bounds, i < prod($n));
                reach!(R__index);
            }
            #[unsafe(export_name = concat!("t__C01__query_", $tag))]
            pub fn q($p: P, n: &[N; $R], s: &[isize; $R]) {
                let $n: [usize; $R] = $z(n);
                let $ss = $new($n, *s);
                let v = $v;
                claim!(C01_C13__rank, v.rank() == $R && v.shape().rank() == $R && v.mapping().rank() == $R);
                claim!(C01_C13__len, v.len() == prod($n) && v.shape().len() == prod($n) && v.mapping().len() == prod($n));
                claim!(C01__is_empty, v.is_empty() == (prod($n) == 0));
                claim!(C01__ptr, v.as_ptr() == $p);
                let mut d = 0;
                while d < $R {
                    claim!(C01_C13__dim, v.dim(d) == $n[d] && v.shape().dim(d) == $n[d] && v.mapping().dim(d) == $n[d]);
                    claim!(C01__stride, v.stride(d) == $ss[d] && v.mapping().stride(d) == $ss[d]);
                    d += 1;
                }
                let mut v = $vm;
                claim!(C01__mut_ptr, v.as_mut_ptr() as P == $p);
                reach!(R__query);
            }
            #[unsafe(export_name = concat!("t__C01__contig_", $tag))]
            pub fn qc($p: P, n: &[N; $R], s: &[isize; $R], i: &[usize; $R]) {
                let ($n, i) = ($z(n), *i);
                let $ss = $new($n, *s);
                let v = $v;
                if inside($n, i) && v.is_contiguous() {
                    claim!(C01__contiguous_is_row_major_in_memory, offset($ss, i) == linear($n, i) as isize);
                }
                if v.mapping().is_contiguous() != v.is_contiguous() {
                    claim!(C01__contiguous_mapping, false);
                }
                reach!(R__contig);
            }
            #[unsafe(export_name = concat!("t__C01__dense_", $tag))]
            pub fn qe($p: P, n: &[N; $R]) {
                let $n: [usize; $R] = $z(n);
                let $ss = dense($n, [0; $R]);
                let v = $v;
                claim!(C01__dense_strides_are_contiguous, v.is_contiguous());
                reach!(R__contig);
            }
            #[unsafe(export_name = concat!("h__C02__dimrange_", $tag))]
            pub fn qd($p: P, n: &[N; $R], s: &[isize; $R], d: usize, w: u8) {
                let $n: [usize; $R] = $z(n);
                let $ss = $new($n, *s);
                let v = $v;
                if w == 0 {
                    v.dim(d);
                } else if w == 1 {
                    v.shape().dim(d);
                } else {
                    v.stride(d);
                }
                claim!(C02__dim_in_range, d < $R);
            }
        };
    };
}

idx!("s0", 0, free, |p, n, ss| (vs(p, (), &ss), vsm(p, (), &ss)));
idx!("s1", 1, free, |p, n, ss| (vs(p, (n[0],), &ss), vsm(p, (n[0],), &ss)));
idx!("s2", 2, free, |p, n, ss| (vs(p, (n[0], n[1]), &ss), vsm(p, (n[0], n[1]), &ss)));
idx!("s3", 3, free, |p, n, ss| (vs(p, (n[0], n[1], n[2]), &ss), vsm(p, (n[0], n[1], n[2]), &ss)));
idx!("d0", 0, dense, |p, n, ss| (vd(p, ()), vdm(p, ())));
idx!("d1", 1, dense, |p, n, ss| (vd(p, (n[0],)), vdm(p, (n[0],))));
idx!("d2", 2, dense, |p, n, ss| (vd(p, (n[0], n[1])), vdm(p, (n[0], n[1]))));
idx!("d3", 3, dense, |p, n, ss| (vd(p, (n[0], n[1], n[2])), vdm(p, (n[0], n[1], n[2]))));
idx!("d4", 4, dense, |p, n, ss| (vd(p, (n[0], n[1], n[2], n[3])), vdm(p, (n[0], n[1], n[2], n[3]))));
idx!("s4", 4, free, |p, n, ss| (vs(p, (n[0], n[1], n[2], n[3]), &ss), vsm(p, (n[0], n[1], n[2], n[3]), &ss)));
idx!("x1s", 1, free, |p, n, ss| (vs(p, DynRank::from_dims(&n), &ss), vsm(p, DynRank::from_dims(&n), &ss)));
idx!("x2s", 2, free, |p, n, ss| (vs(p, DynRank::from_dims(&n), &ss), vsm(p, DynRank::from_dims(&n), &ss)));
idx!("x3s", 3, free, |p, n, ss| (vs(p, DynRank::from_dims(&n), &ss), vsm(p, DynRank::from_dims(&n), &ss)));
idx!("x0d", 0, dense, |p, n, ss| (vd(p, DynRank::from_dims(&n)), vdm(p, DynRank::from_dims(&n))));
idx!("x1d", 1, dense, |p, n, ss| (vd(p, DynRank::from_dims(&n)), vdm(p, DynRank::from_dims(&n))));
idx!("x2d", 2, dense, |p, n, ss| (vd(p, DynRank::from_dims(&n)), vdm(p, DynRank::from_dims(&n))));
idx!("x3d", 3, dense, |p, n, ss| (vd(p, DynRank::from_dims(&n)), vdm(p, DynRank::from_dims(&n))));
idx!("x4s", 4, free, |p, n, ss| (vs(p, DynRank::from_dims(&n), &ss), vsm(p, DynRank::from_dims(&n), &ss)));
// constant dimensions
idx!([|n: &[N; 1]| [5]] "c1", 1, free, |p, n, ss| (vs(p, (Const::<5>,), &ss), vsm(p, (Const::<5>,), &ss)));
lin!([|n: &[N; 1]| [5]] "c1", 1, free, |p, n, ss| (vs(p, (Const::<5>,), &ss), vsm(p, (Const::<5>,), &ss)));
idx!([|n: &[N; 2]| [3, z(n)[1]]] "c3y", 2, free, |p, n, ss| (vs(p, (Const::<3>, n[1]), &ss), vsm(p, (Const::<3>, n[1]), &ss)));
lin!([|n: &[N; 2]| [3, z(n)[1]]] "c3y", 2, free, |p, n, ss| (vs(p, (Const::<3>, n[1]), &ss), vsm(p, (Const::<3>, n[1]), &ss)));
idx!([|n: &[N; 2]| [z(n)[0], 3]] "cx3", 2, free, |p, n, ss| (vs(p, (n[0], Const::<3>), &ss), vsm(p, (n[0], Const::<3>), &ss)));
idx!([|n: &[N; 2]| [z(n)[0], 3]] "cx3d", 2, dense, |p, n, ss| (vd(p, (n[0], Const::<3>)), vdm(p, (n[0], Const::<3>))));
lin!([|n: &[N; 2]| [z(n)[0], 3]] "cx3d", 2, dense, |p, n, ss| (vd(p, (n[0], Const::<3>)), vdm(p, (n[0], Const::<3>))));
idx!([|n: &[N; 2]| [3, z(n)[1]]] "c3yd", 2, dense, |p, n, ss| (vd(p, (Const::<3>, n[1])), vdm(p, (Const::<3>, n[1]))));
lin!([|n: &[N; 2]| [3, z(n)[1]]] "c3yd", 2, dense, |p, n, ss| (vd(p, (Const::<3>, n[1])), vdm(p, (Const::<3>, n[1]))));
idx!([|n: &[N; 2]| [4, 3]] "c43", 2, free, |p, n, ss| (vs(p, (Const::<4>, Const::<3>), &ss), vsm(p, (Const::<4>, Const::<3>), &ss)));
idx!([|n: &[N; 2]| [4, 3]] "c43d", 2, dense, |p, n, ss| (vd(p, (Const::<4>, Const::<3>)), vdm(p, (Const::<4>, Const::<3>))));
lin!([|n: &[N; 2]| [4, 3]] "c43d", 2, dense, |p, n, ss| (vd(p, (Const::<4>, Const::<3>)), vdm(p, (Const::<4>, Const::<3>))));
idx!([|n: &[N; 3]| [z(n)[0], 2, z(n)[2]]] "cx2z", 3, free, |p, n, ss| (vs(p, (n[0], Const::<2>, n[2]), &ss), vsm(p, (n[0], Const::<2>, n[2]), &ss)));
idx!([|n: &[N; 3]| [2, z(n)[1], 5]] "c2y5d", 3, dense, |p, n, ss| (vd(p, (Const::<2>, n[1], Const::<5>)), vdm(p, (Const::<2>, n[1], Const::<5>))));
lin!([|n: &[N; 3]| [2, z(n)[1], 5]] "c2y5d", 3, dense, |p, n, ss| (vd(p, (Const::<2>, n[1], Const::<5>)), vdm(p, (Const::<2>, n[1], Const::<5>))));
// highest ranks, with small outer dimensions so that the products stay in range
idx!([|n: &[N; 5]| [2, z(n)[1], 3, z(n)[3], z(n)[4]]] "d5", 5, dense, |p, n, ss| (vd(p, (2, n[1], 3, n[3], n[4])), vdm(p, (2, n[1], 3, n[3], n[4]))));
idx!([|n: &[N; 6]| [z(n)[0], 2, z(n)[2], 3, z(n)[4], 2]] "d6", 6, dense, |p, n, ss| (vd(p, (n[0], 2, n[2], 3, n[4], 2)), vdm(p, (n[0], 2, n[2], 3, n[4], 2))));

/// Ranges of elements of dense arrays.
macro_rules! ranges {
    ($tag:literal, $R:literal, |$p:ident, $n:ident| ($v:expr, $vm:expr)) => {
        ranges!($tag, $R, "full", |$p, $n| ($v, $vm), |a, b, len| .., true, 0, len);
        ranges!($tag, $R, "to", |$p, $n| ($v, $vm), |a, b, len| ..b, b <= len, 0, b);
        ranges!($tag, $R, "from", |$p, $n| ($v, $vm), |a, b, len| a.., a <= len, a, len);
        ranges!($tag, $R, "range", |$p, $n| ($v, $vm), |a, b, len| a..b, a <= b && b <= len, a, b);
        ranges!($tag, $R, "toinc", |$p, $n| ($v, $vm), |a, b, len| ..=b, b < len, 0, b + 1);
        ranges!($tag, $R, "inc", |$p, $n| ($v, $vm), |a, b, len| a..=b, b < len && a <= b + 1, a, b + 1);
        ranges!($tag, $R, "bounds", |$p, $n| ($v, $vm), |a, b, len| (Bound::Included(a), Bound::Excluded(b)), a <= b && b <= len, a, b);
        ranges!($tag, $R, "excl", |$p, $n| ($v, $vm), |a, b, len| (Bound::Excluded(a), Bound::Included(b)), b < len && a <= b, a + 1, b + 1);
    };
    ($tag:literal, $R:literal, $kind:literal, |$p:ident, $n:ident| ($v:expr, $vm:expr), |$a:ident, $b:ident, $len:ident| $r:expr, $ok:expr, $from:expr, $to:expr) => {
        const _: () = {
            #[unsafe(export_name = concat!("h__C01_C02__range", $kind, "_", $tag))]
            pub fn h($p: P, n: &[N; $R], $a: usize, $b: usize) {
                let $n = z(n);
                let $len = prod($n);
                let v = $v;
                let r = &v[$r];
                claim!(C02__range_in_bounds, $ok);
                claim!(C01__range_addr, r.as_ptr() == at($p, $from as isize));
                claim!(C01_C02__range_len, r.len() == $to - $from);
                reach!(R__index);
            }
            #[unsafe(export_name = concat!("h__C01_C02_C05__rangemut", $kind, "_", $tag))]
            pub fn hm($p: P, n: &[N; $R], $a: usize, $b: usize) {
                let $n = z(n);
                let $len = prod($n);
                let mut v = $vm;
                let r = &mut v[$r];
                claim!(C02_C05__range_in_bounds, $ok);
                claim!(C01_C05__range_addr, r.as_ptr() == at($p, $from as isize));
                claim!(C01_C02_C05__range_len, r.len() == $to - $from);
                reach!(R__index);
            }
            #[unsafe(export_name = concat!("t__C01_C02__range", $kind, "_", $tag))]
            pub fn t($p: P, n: &[N; $R], $a: usize, $b: usize) {
                let $n = z(n);
                let $len = prod($n);
                if $ok {
                    let v = $v;
                    let r = &v[$r];
                    claim!(C01__range_addr, r.as_ptr() == at($p, $from as isize) && r.len() == $to - $from);
                    let r = unsafe { (*v).get_unchecked($r) };
                    claim!(C01__range_unchecked, r.as_ptr() == at($p, $from as isize) && r.len() == $to - $from);
                    let mut v = $vm;
                    let r = &mut v[$r];
                    claim!(C01__range_mut, r.as_ptr() == at($p, $from as isize) && r.len() == $to - $from);
                    let r = unsafe { (*v).get_unchecked_mut($r) };
                    claim!(C01__range_mut_unchecked, r.as_ptr() == at($p, $from as isize) && r.len() == $to - $from);
                    reach!(R__index);
                }
            }
        };
    };
}
ranges!("1", 1, |p, n| (vd(p, (n[0],)), vdm(p, (n[0],))));
ranges!("2", 2, |p, n| (vd(p, (n[0], n[1])), vdm(p, (n[0], n[1]))));
ranges!("3", 3, |p, n| (vd(p, (n[0], n[1], n[2])), vdm(p, (n[0], n[1], n[2]))));
ranges!("x2", 2, |p, n| (vd(p, DynRank::from_dims(&n)), vdm(p, DynRank::from_dims(&n))));
