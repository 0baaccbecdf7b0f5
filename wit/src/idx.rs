//! Indexing of owned arrays and views, and queries that return slices.
use crate::common::*;
use crate::life::*;
use std::ops::Bound;

macro_rules! w {
    ($tag:expr, $b:block) => {
        const _: () = {
            #[unsafe(export_name = concat!("d__C01_C02_C03__", $tag))]
            pub fn f() {
                $b
                reach!(R__end);
            }
        };
    };
}
macro_rules! w_panics {
    ($tag:expr, $b:block) => {
        const _: () = {
            #[unsafe(export_name = concat!("d__C02__", $tag))]
            pub fn f() {
                $b
                claim!(C02__accepted_although_out_of_range, false);
            }
        };
    };
}
macro_rules! arr {
    (t, $o:ident) => { let mut $o = Tensor::from_fn([2, 3], |_| quiet()); };
    (m, $o:ident) => { let mut $o = Tensor::from_fn((Const::<2>, 3), |_| quiet()); };
    (k, $o:ident) => { let mut $o = Tensor::from_fn((2, Const::<3>), |_| quiet()); };
    (x, $o:ident) => { let mut $o = Tensor::from_fn(DynRank::from_dims(&[2, 3]), |_| quiet()); };
    (a, $o:ident) => { let mut $o = Array::<D, (C<2>, C<3>)>::from_fn(|_| quiet()); };
    (s, $o:ident) => { let mut o = Tensor::from_fn([2, 3], |_| quiet()); let $o: &mut Slice<D, Rank<2>> = &mut o; };
    (v, $o:ident) => { let mut o = Tensor::from_fn([2, 3], |_| quiet()); let mut $o = o.expr_mut(); };
    (vk, $o:ident) => { let mut o = Array::<D, (C<2>, C<3>)>::from_fn(|_| quiet()); let mut $o = o.expr_mut(); };
    (p, $o:ident) => { let mut o = Tensor::from_fn([3, 2], |_| quiet()); let mut $o = o.permute_mut([1, 0]); };
    (pk, $o:ident) => { let mut o = Array::<D, (C<3>, C<2>)>::from_fn(|_| quiet()); let mut $o = o.permute_mut([1, 0]); };
    (vx, $o:ident) => { let mut o = Tensor::from_fn([4, 5], |_| quiet()); let mut $o = o.view_mut(step(.., -2), 1..4).into_dyn(); };
}
macro_rules! multi {
    ($($k:ident)*) => {$(
        w!(concat!("multi_", stringify!($k)), {
            arr!($k, o);
            let (p, s, t) = (o.as_ptr(), o.stride(0), o.stride(1));
            claim!(C01__shape, o.rank() == 2 && o.dim(0) == 2 && o.dim(1) == 3 && o.len() == 6 && !o.is_empty());
            for i in 0..2 {
                for j in 0..3 {
                    let q = p.wrapping_offset(i as isize * s + j as isize * t);
                    claim!(C01__element, &o[[i, j]] as *const D == q && &o[&[i, j][..]] as *const D == q);
                    claim!(C01__element_mut, &mut o[[i, j]] as *mut D as *const D == q && &mut o[&[i, j][..]] as *mut D as *const D == q);
                    claim!(C01__linear, &o[i * 3 + j] as *const D == q && &mut o[i * 3 + j] as *mut D as *const D == q);
                    claim!(C01__unchecked, unsafe { (*o).get_unchecked([i, j]) as *const D == q && (*o).get_unchecked(&[i, j][..]) as *const D == q && (*o).get_unchecked(i * 3 + j) as *const D == q });
                    claim!(C01__unchecked_mut, unsafe { (*o).get_unchecked_mut([i, j]) as *mut D as *const D == q && (*o).get_unchecked_mut(&[i, j][..]) as *mut D as *const D == q && (*o).get_unchecked_mut(i * 3 + j) as *mut D as *const D == q });
                }
            }
        });
        w_panics!(concat!("multi0_", stringify!($k)), { arr!($k, o); o[[2, 0]].see(); });
        w_panics!(concat!("multi1_", stringify!($k)), { arr!($k, o); o[[0, 3]].see(); });
        w_panics!(concat!("multi2_", stringify!($k)), { arr!($k, o); o[[usize::MAX, 1]].see(); });
        w_panics!(concat!("multis_", stringify!($k)), { arr!($k, o); o[&[1, 3][..]].see(); });
        w_panics!(concat!("linear_", stringify!($k)), { arr!($k, o); o[6].see(); });
        w_panics!(concat!("linearm_", stringify!($k)), { arr!($k, o); o[usize::MAX].see(); });
        w_panics!(concat!("mut0_", stringify!($k)), { arr!($k, o); o[[2, 0]] = quiet(); });
        w_panics!(concat!("mut1_", stringify!($k)), { arr!($k, o); o[[1, 3]] = quiet(); });
        w_panics!(concat!("muts_", stringify!($k)), { arr!($k, o); o[&[2, 2][..]] = quiet(); });
        w_panics!(concat!("mutlinear_", stringify!($k)), { arr!($k, o); o[6] = quiet(); });
        w_panics!(concat!("rank1_", stringify!($k)), { arr!($k, o); o[[1]].see(); });
        w_panics!(concat!("rank3_", stringify!($k)), { arr!($k, o); o[[1, 1, 0]].see(); });
        w_panics!(concat!("rank0_", stringify!($k)), { arr!($k, o); o[[]].see(); });
        w_panics!(concat!("rankmut_", stringify!($k)), { arr!($k, o); o[[1]] = quiet(); });
        w_panics!(concat!("dim_", stringify!($k)), { arr!($k, o); o.dim(2); });
        w_panics!(concat!("stride_", stringify!($k)), { arr!($k, o); o.stride(2); });
        // parts
        w_panics!(concat!("at_", stringify!($k)), { arr!($k, o); o.at(2); });
        w_panics!(concat!("atmut_", stringify!($k)), { arr!($k, o); o.at_mut(2); });
        w_panics!(concat!("axisat_", stringify!($k)), { arr!($k, o); o.axis_at(Const::<1>, 3); });
        w_panics!(concat!("axisatmut_", stringify!($k)), { arr!($k, o); o.axis_at_mut(Const::<1>, 3); });
        w_panics!(concat!("row_", stringify!($k)), { arr!($k, o); o.row(2); });
        w_panics!(concat!("rowmut_", stringify!($k)), { arr!($k, o); o.row_mut(2); });
        w_panics!(concat!("col_", stringify!($k)), { arr!($k, o); o.col(3); });
        w_panics!(concat!("colmut_", stringify!($k)), { arr!($k, o); o.col_mut(3); });
        w_panics!(concat!("split_", stringify!($k)), { arr!($k, o); o.split_at(3); });
        w_panics!(concat!("splitmut_", stringify!($k)), { arr!($k, o); o.split_at_mut(3); });
        w_panics!(concat!("splitaxis_", stringify!($k)), { arr!($k, o); o.split_axis_at(Const::<1>, 4); });
        w_panics!(concat!("splitaxismut_", stringify!($k)), { arr!($k, o); o.split_axis_at_mut(Const::<1>, 4); });
        w!(concat!("parts_", stringify!($k)), {
            arr!($k, o);
            let (p, s, t) = (o.as_ptr(), o.stride(0), o.stride(1));
            let q = |i: usize, j: usize| p.wrapping_offset(i as isize * s + j as isize * t);
            for i in 0..2 {
                let r = o.at(i);
                claim!(C03__at, r.rank() == 1 && r.dim(0) == 3 && r.as_ptr() == q(i, 0) && &r[2] as *const D == q(i, 2));
                let r = o.at_mut(i);
                claim!(C03__at_mut, r.rank() == 1 && r.dim(0) == 3 && r.as_ptr() == q(i, 0) && &r[2] as *const D == q(i, 2));
                let r = o.row(i);
                claim!(C03__row, r.rank() == 1 && r.dim(0) == 3 && &r[0] as *const D == q(i, 0) && &r[2] as *const D == q(i, 2));
                let r = o.row_mut(i);
                claim!(C03__row_mut, r.rank() == 1 && r.dim(0) == 3 && &r[0] as *const D == q(i, 0) && &r[2] as *const D == q(i, 2));
            }
            for j in 0..3 {
                let r = o.col(j);
                claim!(C03__col, r.rank() == 1 && r.dim(0) == 2 && &r[0] as *const D == q(0, j) && &r[1] as *const D == q(1, j));
                let r = o.col_mut(j);
                claim!(C03__col_mut, r.rank() == 1 && r.dim(0) == 2 && &r[0] as *const D == q(0, j) && &r[1] as *const D == q(1, j));
                let r = o.axis_at(Const::<1>, j);
                claim!(C03__axis_at, r.rank() == 1 && r.dim(0) == 2 && &r[0] as *const D == q(0, j) && &r[1] as *const D == q(1, j));
                let r = o.axis_at_mut(Const::<1>, j);
                claim!(C03__axis_at_mut, r.rank() == 1 && r.dim(0) == 2 && &r[0] as *const D == q(0, j) && &r[1] as *const D == q(1, j));
            }
            let r = o.diag(1);
            claim!(C03__diag, r.dim(0) == 2 && &r[0] as *const D == q(0, 1) && &r[1] as *const D == q(1, 2));
            let r = o.diag_mut(-1);
            claim!(C03__diag_mut, r.dim(0) == 1 && &r[0] as *const D == q(1, 0));
            let (a, b) = o.split_at(1);
            claim!(C03__split, a.dim(0) == 1 && b.dim(0) == 1 && a.dim(1) == 3 && b.dim(1) == 3 && &a[[0, 2]] as *const D == q(0, 2) && &b[[0, 1]] as *const D == q(1, 1));
            let (a, b) = o.split_axis_at_mut(Const::<1>, 1);
            claim!(C03__split_axis, a.dim(0) == 2 && b.dim(0) == 2 && a.dim(1) == 1 && b.dim(1) == 2 && &a[[1, 0]] as *const D == q(1, 0) && &b[[1, 1]] as *const D == q(1, 2));
        });
    )*};
}
multi!(t m k x a s v vk p pk vx);

macro_rules! ranges {
    ($($k:ident)*) => {$(
        w!(concat!("range_", stringify!($k)), {
            arr!($k, o);
            let p = o.as_ptr();
            macro_rules! r {
                ($x:expr, $a:literal, $n:literal) => {
                    claim!(C01_C02__range, o[$x].as_ptr() == unsafe { p.add($a) } && o[$x].len() == $n);
                    { let r = &mut o[$x]; claim!(C01_C02__range_mut, r.as_ptr() == unsafe { p.add($a) } && r.len() == $n); }
                };
            }
            r!(.., 0, 6);
            r!(1.., 1, 5);
            r!(6.., 6, 0);
            r!(..4, 0, 4);
            r!(2..5, 2, 3);
            r!(3..3, 3, 0);
            r!(2..=5, 2, 4);
            r!(..=0, 0, 1);
            r!((Bound::Excluded(1), Bound::Included(3)), 2, 2);
        });
        w_panics!(concat!("rangeto_", stringify!($k)), { arr!($k, o); _ = o[..7].len(); });
        w_panics!(concat!("rangefrom_", stringify!($k)), { arr!($k, o); _ = o[7..].len(); });
        w_panics!(concat!("rangerev_", stringify!($k)), { arr!($k, o); _ = o[4..3].len(); });
        w_panics!(concat!("rangeinc_", stringify!($k)), { arr!($k, o); _ = o[0..=6].len(); });
        w_panics!(concat!("rangeincmax_", stringify!($k)), { arr!($k, o); _ = o[0..=usize::MAX].len(); });
        w_panics!(concat!("rangebounds_", stringify!($k)), { arr!($k, o); _ = o[(Bound::Excluded(5), Bound::Included(6))].len(); });
        w_panics!(concat!("rangemut_", stringify!($k)), { arr!($k, o); _ = (&mut o[..7]).len(); });
        w_panics!(concat!("rangemutrev_", stringify!($k)), { arr!($k, o); _ = (&mut o[5..4]).len(); });
        w_panics!(concat!("rangemutinc_", stringify!($k)), { arr!($k, o); _ = (&mut o[..=6]).len(); });
    )*};
}
ranges!(t m k x a s v vk);

// Queries that return all dimensions or strides.
w!("queries", {
    let t = Tensor::from_fn([2, 3, 4], |_| fresh());
    let v = t.view(step(.., -1), 1.., step(.., 3));
    let s = v.strides();
    claim!(C01__strides, s.len() == 3 && s[0] == -12 && s[1] == 4 && s[2] == 3);
    let s = v.mapping().strides();
    claim!(C01__strides, s.len() == 3 && s[0] == -12 && s[1] == 4 && s[2] == 3);
    let x = v.into_dyn();
    let s = x.strides();
    claim!(C01__strides, s.len() == 3 && s[0] == -12 && s[1] == 4 && s[2] == 3);
    let d = x.dims();
    claim!(C01__dims, d.len() == 3 && d[0] == 2 && d[1] == 2 && d[2] == 2);
    let d = x.shape().dims();
    claim!(C01__dims, d.len() == 3 && d[0] == 2 && d[1] == 2 && d[2] == 2);
    let x = t.into_dyn();
    let d = x.dims();
    claim!(C01__dims, d.len() == 3 && d[0] == 2 && d[1] == 3 && d[2] == 4);
    let d = x.mapping().dims();
    claim!(C01__dims, d.len() == 3 && d[0] == 2 && d[1] == 3 && d[2] == 4);
    claim!(C01__strides, x.stride(0) == 12 && x.stride(1) == 4 && x.stride(2) == 1 && x.is_contiguous());
});
w!("contiguous", {
    let t = Tensor::from_fn([2, 3, 4], |_| fresh());
    claim!(C01__contiguous, t.is_contiguous() && t.remap::<Rank<3>, Strided>().is_contiguous() && t.view(1, .., ..).is_contiguous());
    claim!(C01__contiguous, t.remap::<Rank<3>, Strided>().view(1, 2, ..).is_contiguous());
    claim!(C01__not_contiguous, !t.view(.., .., 1..).is_contiguous() && !t.view(.., 1.., ..).is_contiguous() && !t.permute([0, 2, 1]).is_contiguous());
    claim!(C01__not_contiguous, !t.view(.., .., step(.., 2)).is_contiguous() && !t.view(.., .., step(.., -1)).is_contiguous() && !t.reorder().is_contiguous());
    claim!(C01__not_contiguous, !t.view(step(.., -1), .., ..).is_contiguous() && !t.view(.., 1, ..).is_contiguous() && !t.view(1, .., 2).is_contiguous());
    let t = Array::<u64, (C<2>, C<3>)>::from_fn(|_| fresh());
    claim!(C01__contiguous, t.is_contiguous() && t.remap::<(C<2>, C<3>), Strided>().is_contiguous());
    claim!(C01__not_contiguous, !t.permute([1, 0]).is_contiguous() && !t.col(1).is_contiguous() && t.row(1).is_contiguous());
});
w!("empties", {
    let t = Tensor::from_fn([2, 0, 4], |_| fresh());
    claim!(C01__empty, t.is_empty() && t.len() == 0 && t.dim(0) == 2 && t.dim(1) == 0 && t.dim(2) == 4);
    let t = Tensor::from_fn((), |_| fresh());
    claim!(C01__scalar, !t.is_empty() && t.len() == 1 && t.rank() == 0 && &t[[]] as P == t.as_ptr() && &t[0] as P == t.as_ptr());
    let t = Tensor::from_fn(DynRank::from_dims(&[]), |_| fresh());
    claim!(C01__scalar, !t.is_empty() && t.len() == 1 && t.rank() == 0 && &t[[]] as P == t.as_ptr() && &t[0] as P == t.as_ptr());
});
w_panics!("empty_multi", { let t = Tensor::from_fn([2, 0], |_| quiet()); t[[0, 0]].see(); });
w_panics!("empty_linear", { let t = Tensor::from_fn([2, 0], |_| quiet()); t[0].see(); });
w_panics!("empty_array", { let t = Array::<D, (C<0>,)>::from_fn(|_| quiet()); t[[0]].see(); });
w_panics!("scalar_linear", { let t = Tensor::from_fn((), |_| quiet()); t[1].see(); });
w_panics!("scalar_multi", { let t = Tensor::from_fn((), |_| quiet()); t[[0]].see(); });
// Axis numbers of arrays with dynamic rank and of drains.
w_panics!("dynaxis_at", { let t = Tensor::from_fn(DynRank::from_dims(&[2, 3]), |_| quiet()); t.axis_at(2, 0); });
w_panics!("dynaxis_split", { let t = Tensor::from_fn(DynRank::from_dims(&[2, 3]), |_| quiet()); t.split_axis_at(2, 0); });
w_panics!("dynaxis_expr", { let t = Tensor::from_fn(DynRank::from_dims(&[2, 3]), |_| quiet()); t.axis_expr(2); });
w_panics!("dynaxis_lanes", { let t = Tensor::from_fn(DynRank::from_dims(&[2, 3]), |_| quiet()); t.lanes(2); });
w_panics!("dynaxis_const", { let t = Tensor::from_fn(DynRank::from_dims(&[2]), |_| quiet()); t.axis_at(Const::<1>, 0); });
w_panics!("dynaxis_at0", { let t = Tensor::from_fn(DynRank::from_dims(&[]), |_| quiet()); t.at(0); });
w_panics!("dynaxis_rows", { let t = Tensor::from_fn(DynRank::from_dims(&[]), |_| quiet()); t.rows(); });
w_panics!("dynaxis_cols", { let t = Tensor::from_fn(DynRank::from_dims(&[2]), |_| quiet()); t.cols(); });
w_panics!("dynaxis_outer", { let t = Tensor::from_fn(DynRank::from_dims(&[]), |_| quiet()); t.outer_expr(); });
w_panics!("dynaxis_mut", { let mut t = Tensor::from_fn(DynRank::from_dims(&[2, 3]), |_| quiet()); t.axis_at_mut(2, 0); });
w_panics!("dynaxis_splitmut", { let mut t = Tensor::from_fn(DynRank::from_dims(&[2, 3]), |_| quiet()); t.split_axis_at_mut(2, 0); });
w_panics!("dynaxis_exprmut", { let mut t = Tensor::from_fn(DynRank::from_dims(&[2, 3]), |_| quiet()); t.axis_expr_mut(2); });
w_panics!("dynaxis_lanesmut", { let mut t = Tensor::from_fn(DynRank::from_dims(&[2, 3]), |_| quiet()); t.lanes_mut(2); });
w_panics!("drain_to", { let mut t = Tensor::from_fn([2, 3], |_| quiet()); t.drain(..3); });
w_panics!("drain_from", { let mut t = Tensor::from_fn([2, 3], |_| quiet()); t.drain(3..); });
w_panics!("drain_rev", { let mut t = Tensor::from_fn([2, 3], |_| quiet()); t.drain(2..1); });
w_panics!("drain_inc", { let mut t = Tensor::from_fn([2, 3], |_| quiet()); t.drain(..=2); });
w_panics!("drain_incmax", { let mut t = Tensor::from_fn([2, 3], |_| quiet()); t.drain(..=usize::MAX); });
w_panics!("drain_excl", { let mut t = Tensor::from_fn([2, 3], |_| quiet()); t.drain((Bound::Excluded(usize::MAX), Bound::Unbounded)); });
