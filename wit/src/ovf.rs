//! Dimensions whose product does not fit: the operation has to panic before it makes an element.
use crate::common::*;
use crate::life::*;

macro_rules! w {
    ($tag:expr, $b:block) => {
        const _: () = {
            #[unsafe(export_name = concat!("d__C19__", $tag))]
            pub fn f() {
                $b
                reach!(R__end);
            }
        };
    };
}
macro_rules! ovf {
    ($tag:expr, $b:block) => {
        const _: () = {
            #[unsafe(export_name = concat!("d__C19__", $tag))]
            pub fn f() {
                $b
                claim!(C19__accepted_although_the_length_overflows, false);
            }
        };
    };
}
/// Element without size.
#[derive(Clone, Copy, PartialEq)]
pub struct Z;
#[inline(always)]
fn none<T>() -> T {
    claim!(C19__element_made_although_the_length_overflows, false);
    unreachable!()
}
/// Clone that must not happen.
pub struct Q(u64);
impl Clone for Q {
    #[inline(always)]
    fn clone(&self) -> Q {
        none()
    }
}
pub struct ZQ;
impl Clone for ZQ {
    #[inline(always)]
    fn clone(&self) -> ZQ {
        none()
    }
}
const B16: usize = 1 << 16;
const B22: usize = 1 << 22;
const B31: usize = 1 << 31;
const B32: usize = 1 << 32;
const B33: usize = 1 << 33;
const B63: usize = 1 << 63;
const MAX: usize = usize::MAX;

#[inline(always)]
fn zt<S: Shape>(d: &[usize]) -> Tensor<Z, S> {
    Tensor::from_elem(S::from_dims(d), Z)
}

macro_rules! create {
    ($tag:literal, $d:expr, $($s:ty),*) => {
        ovf!(concat!("fromfn_", $tag), { let _x = Tensor::from_fn($d, |_| none::<u64>()); });
        ovf!(concat!("fromfnz_", $tag), { let _x = Tensor::from_fn($d, |_| none::<Z>()); });
        ovf!(concat!("fromfnx_", $tag), { let _x = Tensor::from_fn(DynRank::from_dims(&$d), |_| none::<Z>()); });
        ovf!(concat!("fromelem_", $tag), { let _x = Tensor::from_elem($d, Q(1)); });
        ovf!(concat!("fromelemz_", $tag), { let _x = Tensor::from_elem($d, ZQ); });
        ovf!(concat!("fromelemx_", $tag), { let _x = Tensor::from_elem(DynRank::from_dims(&$d), ZQ); });
        ovf!(concat!("exprfn_", $tag), { let _x = expr::from_fn($d, |_| none::<u64>()); });
        ovf!(concat!("exprfnz_", $tag), { let _x = expr::from_fn($d, |_| none::<Z>()); });
        ovf!(concat!("exprfnx_", $tag), { let _x = expr::from_fn(DynRank::from_dims(&$d), |_| none::<Z>()); });
        ovf!(concat!("exprelem_", $tag), { let _x = expr::from_elem($d, Q(1)); });
        ovf!(concat!("exprelemz_", $tag), { let _x = expr::from_elem($d, ZQ); });
        ovf!(concat!("exprelemx_", $tag), { let _x = expr::from_elem(DynRank::from_dims(&$d), ZQ); });
        ovf!(concat!("resize_", $tag), { let d = $d; let mut t = Tensor::from_fn(d.map(|_| 1usize), |_| 5u64); t.resize_with(&d, || none()); });
        ovf!(concat!("resizez_", $tag), { let d = $d; let mut t = Tensor::from_fn(d.map(|_| 1usize), |_| Z); t.resize_with(&d, || none()); });
        ovf!(concat!("resizee_", $tag), { let d = $d; let mut t = Tensor::<ZQ, _>::from_fn(d.map(|_| 0usize), |_| none()); t.resize(&d, ZQ); });
        ovf!(concat!("resizex_", $tag), { let d = $d; let mut t = Tensor::<Z, _>::from_fn(DynRank::from_dims(&d.map(|_| 1usize)), |_| Z); t.resize_with(&d, || none()); });
        $(
            ovf!(concat!("fromfnk_", $tag), { let _x = Tensor::from_fn(<$s as Shape>::from_dims(&$d), |_| none::<Z>()); });
            ovf!(concat!("fromelemk_", $tag), { let _x = Tensor::from_elem(<$s as Shape>::from_dims(&$d), Q(1)); });
            ovf!(concat!("exprfnk_", $tag), { let _x = expr::from_fn(<$s as Shape>::from_dims(&$d), |_| none::<Z>()); });
            ovf!(concat!("exprelemk_", $tag), { let _x = expr::from_elem(<$s as Shape>::from_dims(&$d), ZQ); });
        )*
    };
}
create!("zero", [B32, B32], (C<B32>, Dyn));
create!("small", [B33, B31 + 1], (Dyn, C<{ B31 + 1 }>));
create!("one", [MAX, MAX], (C<MAX>, C<MAX>));
create!("two", [B63, 2], (Dyn, C<2>));
create!("max", [2, MAX], (C<2>, Dyn));
create!("three", [B22, B22, B22], (C<B22>, Dyn, C<B22>));
create!("mid", [B32, 1, B32], (C<B32>, C<1>, Dyn));
create!("last", [2, B31, B33], (Dyn, C<B31>, C<B33>));
create!("lead", [B32, B32, 3], (Dyn, Dyn, C<3>));
create!("four", [B16, B16, B16, B16], (Dyn, C<B16>, Dyn, C<B16>));
create!("five", [B16, 1, B16, B16, B16], (C<B16>, Dyn, Dyn, C<B16>, Dyn));
create!("six", [2, B22, 2, B22, B22, 2], (Dyn, Dyn, C<2>, C<B22>, C<B22>, Dyn));

// Reshaping to a shape whose product wraps to the length.
macro_rules! shape {
    ($tag:literal, $from:expr, $s:expr) => {
        ovf!(concat!("into_shape_", $tag), { let t = zt::<DynRank>(&$from); let _x = t.into_shape($s); });
        ovf!(concat!("reshape_", $tag), { let t = zt::<DynRank>(&$from); let x = t.reshape($s); claim!(C19__accepted_although_the_length_overflows, false); drop(x); });
        ovf!(concat!("reshape_mut_", $tag), { let mut t = zt::<DynRank>(&$from); let x = t.reshape_mut($s); claim!(C19__accepted_although_the_length_overflows, false); drop(x); });
        ovf!(concat!("reshape_str_", $tag), { let t = zt::<DynRank>(&$from); let v = t.remap::<DynRank, Strided>(); let x = v.reshape($s); claim!(C19__accepted_although_the_length_overflows, false); drop(x); });
    };
}
shape!("zero", [0], [B32, B32]);
shape!("zero3", [2, 0], [B22, B22, B22]);
shape!("zerok", [0], (Const::<B32>, B32));
shape!("one", [1], [MAX - 1, B63 - 1, 1]);
shape!("four", [4], [B63 + 2, 2]);
shape!("infer", [0], [B32, B32, !0]);
shape!("infer2", [4], [!0, B63 + 2, 2]);
shape!("inferk", [4], (!0usize, Const::<{ B63 + 2 }>, Const::<2>));
shape!("dyn", [4], DynRank::from_dims(&[B63 + 2, 2]));
ovf!("shapea_zero", { let a = Array::<Z, (C<0>,)>::from_elem(Z); let _x = a.into_shape::<(C<B32>, C<B32>)>(); });
ovf!("shapea_four", { let a = Array::<Z, (C<4>,)>::from_elem(Z); let _x = a.into_shape::<(C<{ B63 + 2 }>, C<2>)>(); });

// Fixed-size arrays of elements without size.
macro_rules! fixed {
    ($tag:literal, $r:literal, $a:ty, $s:ty, $e:expr) => {
        ovf!(concat!("tensor_", $tag), { let a: $a = $e; let _x: Tensor<Z, Rank<$r>> = Tensor::from(a); });
        ovf!(concat!("tensork_", $tag), { let a: $a = $e; let _x: Tensor<Z, $s> = Tensor::from(a); });
        ovf!(concat!("tensorref_", $tag), { let a: $a = $e; let _x: Tensor<Z, Rank<$r>> = Tensor::from(&a); });
        ovf!(concat!("view_", $tag), { let a: $a = $e; let x: View<Z, Rank<$r>> = View::from(&a); claim!(C19__accepted_although_the_length_overflows, false); drop(x); });
        ovf!(concat!("viewk_", $tag), { let a: $a = $e; let x: View<Z, $s> = View::from(&a); claim!(C19__accepted_although_the_length_overflows, false); drop(x); });
        ovf!(concat!("viewmut_", $tag), { let mut a: $a = $e; let x: ViewMut<Z, Rank<$r>> = ViewMut::from(&mut a); claim!(C19__accepted_although_the_length_overflows, false); drop(x); });
        ovf!(concat!("array_", $tag), { let a: Array<Z, $s> = Array($e); let n = a.len(); claim!(C19__accepted_although_the_length_overflows, n != n); });
        ovf!(concat!("arraymut_", $tag), { let mut a: Array<Z, $s> = Array($e); let p = a.as_mut_ptr(); claim!(C19__accepted_although_the_length_overflows, p != p); });
        ovf!(concat!("arrayexpr_", $tag), { let a: Array<Z, $s> = Array($e); let _x = a.into_expr(); });
        ovf!(concat!("arrayiter_", $tag), { let a: Array<Z, $s> = Array($e); let _x = a.into_iter(); });
        ovf!(concat!("arrayfn_", $tag), { let _x = Array::<Z, $s>::from_fn(|_| none()); });
        ovf!(concat!("arrayelem_", $tag), { let _x = Array::<ZQ, $s>::from_elem(ZQ); });
        ovf!(concat!("arrayten_", $tag), { let a: Array<Z, $s> = Array($e); let _x = Tensor::from(a); });
    };
}
fixed!("2", 2, [[Z; B32]; B32], (C<B32>, C<B32>), [[Z; B32]; B32]);
fixed!("2b", 2, [[Z; 2]; B63 + 2], (C<{ B63 + 2 }>, C<2>), [[Z; 2]; B63 + 2]);
fixed!("3", 3, [[[Z; B22]; B22]; B22], (C<B22>, C<B22>, C<B22>), [[[Z; B22]; B22]; B22]);
fixed!("4", 4, [[[[Z; B16]; B16]; B16]; B16], (C<B16>, C<B16>, C<B16>, C<B16>), [[[[Z; B16]; B16]; B16]; B16]);
fixed!("5", 5, [[[[[Z; 1]; B16]; B16]; B16]; B16], (C<B16>, C<B16>, C<B16>, C<B16>, C<1>), [[[[[Z; 1]; B16]; B16]; B16]; B16]);
fixed!("6", 6, [[[[[[Z; 2]; B16]; B16]; 1]; B16]; B16], (C<B16>, C<B16>, C<1>, C<B16>, C<B16>, C<2>), [[[[[[Z; 2]; B16]; B16]; 1]; B16]; B16]);

// Leaving out an empty dimension.
ovf!("lanes", { let t = zt::<Rank<3>>(&[B32, 0, B32]); let _x = t.lanes(Const::<1>); });
ovf!("lanes_dyn", { let t = zt::<Rank<3>>(&[B32, 0, B32]); let _x = t.lanes(1); });
ovf!("lanes_mut", { let mut t = zt::<Rank<3>>(&[B32, 0, B32]); let _x = t.lanes_mut(Const::<1>); });
ovf!("lanes0", { let t = zt::<Rank<3>>(&[0, B32, B32]); let _x = t.lanes(Const::<0>); });
ovf!("cols", { let t = zt::<Rank<4>>(&[B32, 0, B32, 3]); let v = t.permute([0, 2, 1, 3]); let _x = v.cols(); });
ovf!("rows", { let t = zt::<Rank<3>>(&[B32, 0, B32]); let v = t.permute([0, 2, 1]); let _x = v.rows(); });
ovf!("rows_mut", { let mut t = zt::<Rank<3>>(&[B32, 0, B32]); let mut v = t.permute_mut([0, 2, 1]); let _x = v.rows_mut(); });

// Growing elements without size.
#[inline(always)]
fn huge<S: Shape>(s: S) -> Tensor<Z, S> {
    unsafe { Tensor::from_raw_parts(std::ptr::dangling_mut(), DenseMapping::new(s), MAX) }
}
ovf!("append", { let mut a = huge((B63,)); let mut b = huge((B63,)); a.append(&mut b); });
ovf!("append2", { let mut a = huge((B32, B31)); let mut b = huge((B32, B31)); a.append(&mut b); });
ovf!("appendk", { let mut a = huge((B31, Const::<B32>)); let mut b = huge((B31 + 1, Const::<B32>)); a.append(&mut b); });
ovf!("expand", { let mut a = huge((B63,)); a.expand(expr::from_fn([B63], |_| none::<Z>())); });
ovf!("expand2", { let mut a = huge((B31, B32)); a.expand(expr::from_fn([B31, B32], |_| none::<Z>())); });
ovf!("eval_into", { let mut a = huge((B63, 1)); expr::from_fn([B63, 1], |_| none::<Z>()).eval_into(&mut a); });

// Shapes without elements and shapes that just fit are accepted.
macro_rules! fits {
    ($tag:literal, $d:expr) => {
        w!(concat!("fits_fn_", $tag), { let t = Tensor::from_fn($d, |_| none::<u64>()); claim!(C19__empty_shape_kept, has(&*t, &$d)); });
        w!(concat!("fits_elem_", $tag), { let t = Tensor::from_elem($d, Z); claim!(C19__empty_shape_kept, has(&*t, &$d)); for _ in t { none::<()>() } });
        w!(concat!("fits_x_", $tag), { let t = Tensor::from_elem(DynRank::from_dims(&$d), 1u64); claim!(C19__empty_shape_kept, has(&*t, &$d)); t.expr().for_each(|_| none()) });
        w!(concat!("fits_resize_", $tag), { let d = $d; let mut t = Tensor::from_fn(d.map(|_| 1usize), |_| 5u64); t.resize_with(&d, || none()); claim!(C19__empty_shape_kept, has(&*t, &d)); });
        w!(concat!("fits_shape_", $tag), { let t = zt::<(Dyn,)>(&[0]).into_shape($d); claim!(C19__empty_shape_kept, has(&*t, &$d)); let t = t.into_shape([0]); claim!(C19__empty_shape_kept, has(&*t, &[0])); });
    };
}
fits!("0", [0]);
fits!("00", [0, 0]);
fits!("0b", [0, MAX - 1]);
fits!("b0", [MAX - 1, 0]);
fits!("0bb", [0, B63, B63]);
fits!("b0b", [B63, 0, B63]);
fits!("20bb", [2, 0, B32, B32]);
w!("fits_huge", {
    let a = expr::from_fn([B32, B31], |_| Z);
    claim!(C19__length, a.len() == B63);
    let a = expr::from_elem([1, MAX], Z);
    claim!(C19__length, a.len() == MAX && !a.is_empty());
    let a = Array::<Z, (C<B32>, C<B31>)>([[Z; B31]; B32]);
    claim!(C19__length, a.len() == B63);
    let t = huge((B32, B31));
    claim!(C19__length, t.len() == B63 && t.reshape([B31, B32]).dim(0) == B31);
    let v = t.into_shape([!0, 4]);
    claim!(C19__length, v.dim(0) == B63 / 4 && v.dim(1) == 4);
});
