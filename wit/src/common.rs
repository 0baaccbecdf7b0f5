//! Shared vocabulary of the witnesses.
//!
//! A witness is a function `h__<props>__<name>` (may panic on invalid arguments) or
//! `t__<props>__<name>` (total: must not be able to panic). `claim!(<props>__<name>, cond)` puts a
//! call to an undefined external function on the path where `cond` is false; the analyser has to
//! show from the IR that this call site is unreachable. `reach!(<name>)` marks a point which must
//! stay reachable, so that claims are not discharged vacuously.
pub use mdarray::expr::{self, Apply, Expression, FromExpression, IntoExpression};
pub use mdarray::index::{Cols, Rows};
pub use mdarray::{
    Array, Const, DSlice, DTensor, DView, DViewMut, Dense, DenseMapping, Dyn, DynRank, IntoShape, Layout, Mapping,
    Rank, Shape, Slice, Strided, StridedMapping, Tensor, View, ViewMut, array, step, tensor, view,
};

macro_rules! claim {
    ($name:ident, $c:expr) => {{
        unsafe extern "C" {
            safe fn $name() -> !;
        }
        if !($c) {
            $name()
        }
    }};
}

macro_rules! reach {
    ($name:ident) => {{
        unsafe extern "C" {
            safe fn $name();
        }
        $name()
    }};
}

pub type C<const K: usize> = Const<K>;
pub type P = *const u64;

#[inline(always)]
pub fn at(p: P, off: isize) -> P {
    p.wrapping_offset(off)
}

#[inline(always)]
pub fn m(a: isize, b: usize) -> isize {
    a.wrapping_mul(b as isize)
}

/// A dimension: any value up to 65535, so that products of dimensions do not overflow.
#[repr(C, align(8))]
#[derive(Clone, Copy)]
pub struct N(u16);

#[inline(always)]
pub fn z<const R: usize>(n: &[N; R]) -> [usize; R] {
    let mut r = [0; R];
    let mut i = 0;
    while i < R {
        r[i] = n[i].0 as usize;
        i += 1;
    }
    r
}

/// Strided view over arbitrary memory.
#[inline(always)]
pub fn vs<'a, S: Shape>(p: P, shape: S, s: &[isize]) -> View<'a, u64, S, Strided> {
    unsafe { View::new_unchecked(p, StridedMapping::new(shape, s)) }
}

#[inline(always)]
pub fn vsm<'a, S: Shape>(p: P, shape: S, s: &[isize]) -> ViewMut<'a, u64, S, Strided> {
    unsafe { ViewMut::new_unchecked(p as *mut u64, StridedMapping::new(shape, s)) }
}

/// Dense view over arbitrary memory.
#[inline(always)]
pub fn vd<'a, S: Shape>(p: P, shape: S) -> View<'a, u64, S, Dense> {
    unsafe { View::new_unchecked(p, DenseMapping::new(shape)) }
}

#[inline(always)]
pub fn vdm<'a, S: Shape>(p: P, shape: S) -> ViewMut<'a, u64, S, Dense> {
    unsafe { ViewMut::new_unchecked(p as *mut u64, DenseMapping::new(shape)) }
}

#[inline(always)]
pub fn free<const N: usize>(_: [usize; N], s: [isize; N]) -> [isize; N] {
    s
}

#[inline(always)]
pub fn dense<const N: usize>(n: [usize; N], _: [isize; N]) -> [isize; N] {
    let mut s = [1; N];
    let mut i = N;
    while i > 1 {
        s[i - 2] = s[i - 1] * n[i - 1] as isize;
        i -= 1;
    }
    s
}

/// Stands in for an arbitrary value the analysis knows nothing about.
pub fn any<T: Copy>(p: &[T], i: usize) -> T {
    p[i]
}

#[inline(always)]
pub fn offset<const R: usize>(s: [isize; R], i: [usize; R]) -> isize {
    let mut o = 0isize;
    let mut d = 0;
    while d < R {
        o = o.wrapping_add(m(s[d], i[d]));
        d += 1;
    }
    o
}

#[inline(always)]
pub fn inside<const R: usize>(n: [usize; R], i: [usize; R]) -> bool {
    let mut ok = true;
    let mut d = 0;
    while d < R {
        ok = ok && i[d] < n[d];
        d += 1;
    }
    ok
}

/// Row-major position of a multidimensional index.
#[inline(always)]
pub fn linear<const R: usize>(n: [usize; R], i: [usize; R]) -> usize {
    let mut o = 0usize;
    let mut d = 0;
    while d < R {
        o = o.wrapping_mul(n[d]).wrapping_add(i[d]);
        d += 1;
    }
    o
}

pub fn prod<const R: usize>(n: [usize; R]) -> usize {
    let mut o = 1usize;
    let mut d = 0;
    while d < R {
        o *= n[d];
        d += 1;
    }
    o
}

/// Multidimensional index of the k:th element in row-major order.
#[inline(always)]
pub fn unlin<const R: usize>(n: [usize; R], k: usize) -> [usize; R] {
    let mut i = [0; R];
    let mut k = k;
    let mut d = R;
    while d > 0 {
        d -= 1;
        i[d] = k % n[d];
        k /= n[d];
    }
    i
}

/// Checks `next` and `size_hint` of a complete iteration; the k:th item must satisfy `ok(k, item)`.
#[inline(always)]
pub fn walk<I: Iterator>(it: I, len: usize, ok: impl Fn(usize, I::Item) -> bool) {
    walk_on(it, 0, len, ok);
    reach!(R__walked);
}

/// The same with `k` items already taken.
#[inline(always)]
pub fn walk_on<I: Iterator>(mut it: I, mut k: usize, len: usize, ok: impl Fn(usize, I::Item) -> bool) {
    while k < len {
        claim!(C06_C07_C08__size_hint_exact, it.size_hint() == (len - k, Some(len - k)));
        match it.next() {
            None => claim!(C06_C07_C08__every_element_visited, false),
            Some(x) => claim!(C05_C06_C07_C08__element_in_order, ok(k, x)),
        }
        k += 1;
    }
    claim!(C06_C07_C08__size_hint_exact, it.size_hint() == (0, Some(0)));
    claim!(C05_C06_C07_C08__ends_after_last_element, it.next().is_none());
    claim!(C06_C07_C08__size_hint_exact, it.size_hint() == (0, Some(0)));
    claim!(C05_C06_C07_C08__fused, it.next().is_none());
    claim!(C05_C06_C07_C08__fused, it.next().is_none());
}

/// A copy of an iterator continues where the original was, independently of it.
#[inline(always)]
pub fn forked<I: Iterator + Clone>(mut it: I, other: Option<I>, len: usize, skip: usize, ok: impl Fn(usize, I::Item) -> bool) {
    let mut k = 0;
    while k < skip && k < len {
        match it.next() {
            None => claim!(C06_C07_C08__every_element_visited, false),
            Some(x) => claim!(C05_C06_C07_C08__element_in_order, ok(k, x)),
        }
        k += 1;
    }
    if let Some(mut other) = other {
        if len > 0 {
            other.next();
        }
        other.clone_from(&it);
        walk_on(other, k, len, &ok);
    } else {
        let copy = it.clone();
        walk_on(copy, k, len, &ok);
        walk_on(it, k, len, &ok);
    }
    reach!(R__forked);
}

/// The same for `fold` after `skip` calls of `next`.
#[inline(always)]
pub fn folded<I: Iterator>(mut it: I, len: usize, skip: usize, ok: impl Fn(usize, I::Item) -> bool) {
    let mut k = 0;
    while k < skip && k < len {
        match it.next() {
            None => claim!(C06_C07_C08__every_element_visited, false),
            Some(x) => claim!(C05_C06_C07_C08__element_in_order, ok(k, x)),
        }
        k += 1;
    }
    let end = it.fold(k, |k, x| {
        claim!(C05_C06_C07_C08__element_in_order, ok(k, x));
        k + 1
    });
    claim!(C05_C06_C07_C08__every_element_visited, end == len);
    reach!(R__folded);
}
