//! Elements without size: they have no address of their own, so that they are told apart by counting.
use crate::common::*;
use crate::life::*;

static mut MADE: usize = 0;
static mut GONE: usize = 0;

/// An element without size.
pub struct Z;
impl Z {
    #[inline(always)]
    fn new() -> Z {
        unsafe { MADE += 1 };
        Z
    }
}
impl Clone for Z {
    #[inline(always)]
    fn clone(&self) -> Z {
        user();
        Z::new()
    }
}
impl Drop for Z {
    #[inline(always)]
    fn drop(&mut self) {
        unsafe { GONE += 1 };
    }
}
#[inline(always)]
fn alive() -> usize {
    unsafe { MADE - GONE }
}
macro_rules! n {
    ($c:expr) => { claim!(C06_C09_C10_C11_C16__elements_without_size_are_counted, $c) };
}
/// At the end of the scope, also after a panic, nothing may be left.
struct End;
impl Drop for End {
    #[inline(always)]
    fn drop(&mut self) {
        claim!(C09__every_element_without_size_is_dropped_once, alive() == 0);
    }
}
/// The tensor holds all elements there are, also if the scope is left by a panic.
struct Holds<'a, S: Shape>(&'a mut Tensor<Z, S>);
impl<S: Shape> Drop for Holds<'_, S> {
    #[inline(always)]
    fn drop(&mut self) {
        n!(alive() == self.0.len());
    }
}
macro_rules! w {
    ($tag:expr, $b:block) => {
        const _: () = {
            #[unsafe(export_name = concat!("d__C06_C09_C10_C11_C16__zst_", $tag))]
            pub fn f() {
                unsafe { MADE = 0; GONE = 0; }
                let end = End;
                $b
                drop(end);
                reach!(R__end);
            }
        };
    };
}
#[inline(always)]
fn z() -> Z {
    user();
    Z::new()
}
#[inline(always)]
fn q() -> Z {
    Z::new()
}
#[inline(always)]
fn count<I: ExactSizeIterator>(mut it: I, n: usize, s: usize) {
    for k in 0..s {
        n!(it.len() == n - k);
        n!(it.next().is_some());
    }
    let e = it.fold(s, |k, _| k + 1);
    n!(e == n);
}
w!("new", { let t = Tensor::from_fn([3, 2], |_| z()); n!(has(&t, &[3, 2]) && alive() == 6 && t.capacity() == usize::MAX); });
w!("elem", { let t = Tensor::from_elem([3, 2], q()); n!(has(&t, &[3, 2]) && alive() == 6); });
w!("array", { let t = Array::<Z, (C<3>, C<2>)>::from_fn(|_| z()); n!(has(&t, &[3, 2]) && alive() == 6); let u = t.clone(); n!(alive() == 12); drop(t); n!(alive() == 6); });
w!("clone", { let t = Tensor::from_fn([3, 2], |_| q()); let u = t.clone(); n!(has(&u, &[3, 2]) && alive() == 12); drop(t); n!(alive() == 6); });
w!("clonefrom", { let t = Tensor::from_fn([3, 2], |_| q()); let mut u = Tensor::from_fn([2, 2], |_| q()); u.clone_from(&t); n!(has(&u, &[3, 2]) && alive() == 12); });
w!("iter", { let mut t = Tensor::from_fn([3, 2], |_| q()); count(t.iter(), 6, 6); count(t.iter(), 6, 0); count(t.iter_mut(), 6, 4); count(t.permute([1, 0]).iter(), 6, 5); count(t.view(.., 1..).iter(), 3, 2); count(t.rows().into_iter(), 3, 3); count(t.cols().into_iter(), 2, 1); });
w!("intoiter", { let t = Tensor::from_fn([3, 2], |_| q()); let mut it = t.into_iter(); for _ in 0..4 { n!(it.next().is_some()); } n!(alive() == 2 && it.len() == 2); });
w!("intoiter_all", { let t = Array::<Z, (C<3>, C<2>)>::from_fn(|_| q()); count(t.into_iter(), 6, 3); n!(alive() == 0); });
w!("map", { let t = Tensor::from_fn([3, 2], |_| q()); let u = t.map(|x| { user(); x }); n!(has(&u, &[3, 2]) && alive() == 6); });
w!("mapnew", { let t = Array::<Z, (C<3>, C<2>)>::from_fn(|_| q()); let u = t.map(|x| { drop(x); z() }); n!(has(&u, &[3, 2]) && alive() == 6); });
w!("resize", { let mut t = Tensor::from_fn([2, 2], |_| q()); { let h = Holds(&mut t); h.0.resize_with(&[3, 3], || z()); } n!(has(&t, &[3, 3])); { let h = Holds(&mut t); h.0.resize_with(&[2, 1], || z()); } n!(has(&t, &[2, 1])); });
w!("resize_rows", { let mut t = Tensor::from_fn([2, 2], |_| q()); { let h = Holds(&mut t); h.0.resize_with(&[4, 2], || z()); } n!(has(&t, &[4, 2])); { let h = Holds(&mut t); h.0.resize_with(&[1, 2], || z()); } n!(has(&t, &[1, 2])); { let h = Holds(&mut t); h.0.resize_with(&[0, 5], || z()); } n!(has(&t, &[0, 5])); });
w!("resize_value", { let mut t = Tensor::from_fn([2, 2], |_| q()); t.resize(&[2, 3], q()); n!(has(&t, &[2, 3]) && alive() == 6); });
w!("append", { let mut t = Tensor::from_fn([2, 2], |_| q()); let mut u = Tensor::from_fn([3, 2], |_| q()); t.append(&mut u); n!(has(&t, &[5, 2]) && has(&u, &[0, 2]) && alive() == 10); });
w!("expand", { let mut t = Tensor::from_fn([2, 2], |_| q()); let u = Tensor::from_fn([3, 2], |_| q()); { t.expand(&u); } n!(has(&t, &[5, 2]) && alive() == 16); });
w!("expand_own", { let mut t = Tensor::from_fn([0, 2], |_| q()); let u = Tensor::from_fn([3, 2], |_| q()); t.expand(u); n!(has(&t, &[3, 2]) && alive() == 6); });
w!("drain", { let mut t = Tensor::from_fn([5, 2], |_| q()); { let mut d = t.drain(1..3); n!(d.len() == 4); } n!(has(&t, &[3, 2]) && alive() == 6); count(t.drain(..2).into_iter(), 4, 1); n!(has(&t, &[1, 2]) && alive() == 2); });
w!("drain_some", { let mut t = Tensor::from_fn([4], |_| q()); { let mut d = t.drain(1..).into_iter(); n!(d.next().is_some()); n!(alive() == 3); } n!(has(&t, &[1]) && alive() == 1); });
w!("truncate", { let mut t = Tensor::from_fn([5, 2], |_| q()); t.truncate(3); n!(has(&t, &[3, 2]) && alive() == 6); t.truncate(4); n!(has(&t, &[3, 2]) && alive() == 6); t.clear(); n!(t.is_empty() && alive() == 0 && t.capacity() == usize::MAX); });
w!("capacity", { let mut t = Tensor::from_fn([5, 2], |_| q()); t.reserve(100); t.shrink_to_fit(); t.shrink_to(3); t.reserve_exact(7); n!(has(&t, &[5, 2]) && alive() == 10 && t.spare_capacity_mut().len() == usize::MAX - 10); });
w!("vec", { let t = Tensor::from_fn([5, 2], |_| q()); let v = t.into_vec(); n!(v.len() == 10 && alive() == 10); let t = Tensor::<Z, (Dyn,)>::from(v).into_shape([2, 5]); n!(has(&t, &[2, 5]) && alive() == 10); let d = t.into_dyn(); n!(has(&d, &[2, 5]) && alive() == 10); });
w!("toarray", { let t = Tensor::from_fn([2, 2], |_| q()); let a: Array<Z, (C<2>, C<2>)> = t.into_mapping::<(C<2>, C<2>)>().into(); n!(has(&a, &[2, 2]) && alive() == 4); let s: [[Z; 2]; 2] = a.into(); n!(alive() == 4); let t: Tensor<Z, (Dyn, Dyn)> = s.into(); n!(has(&t, &[2, 2]) && alive() == 4); });
w!("collect", { let t: Tensor<Z, (Dyn,)> = (0..5).map(|_| z()).collect(); n!(has(&t, &[5]) && alive() == 5); });
w!("totensor", { let t = Tensor::from_fn([3, 2], |_| q()); let u = t.permute([1, 0]).to_tensor(); n!(has(&u, &[2, 3]) && alive() == 12); });
w!("eval", { let t = Tensor::from_fn([3, 2], |_| q()); let u = t.expr().map(|_| z()).eval(); n!(has(&u, &[3, 2]) && alive() == 12); });
w!("assign", { let mut t = Tensor::from_fn([3, 2], |_| q()); let u = Tensor::from_fn([2], |_| q()); t.assign(&u); n!(has(&t, &[3, 2]) && alive() == 8); t.fill(q()); n!(alive() == 8); });
w!("scalar", { let t = Tensor::from_fn([1, 1], |_| q()); let x = t.into_scalar(); n!(alive() == 1); });
w!("zip", { let t = Tensor::from_fn([3, 2], |_| q()); let u = Tensor::from_fn([3, 2], |_| q()); let mut k = 0; expr::zip(t, u).for_each(|(x, y)| { user(); k += 1; }); n!(k == 6 && alive() == 0); });
