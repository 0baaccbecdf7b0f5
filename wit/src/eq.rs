//! Equality and hashing, with opaque elements that are equal exactly if their values are.
use crate::common::*;
use crate::life::*;
use std::borrow::{Borrow, BorrowMut};
use std::hash::{Hash, Hasher};

macro_rules! w {
    ($tag:expr, $b:block) => {
        const _: () = {
            #[unsafe(export_name = concat!("d__C14__", $tag))]
            pub fn f() {
                $b
                reach!(R__end);
            }
        };
    };
}

#[derive(Clone, Copy)]
pub struct E(u64);
impl PartialEq for E {
    #[inline(always)]
    fn eq(&self, o: &E) -> bool {
        self.0 == o.0
    }
}
impl Eq for E {}
impl Hash for E {
    #[inline(always)]
    fn hash<H: Hasher>(&self, h: &mut H) {
        h.write_u64(self.0)
    }
}
/// Another type on the right-hand side.
#[derive(Clone, Copy)]
pub struct G(u64);
impl PartialEq<G> for E {
    #[inline(always)]
    fn eq(&self, o: &G) -> bool {
        self.0 == o.0
    }
}
/// Equality without reflexivity.
#[derive(Clone, Copy)]
pub struct Never(u64);
impl PartialEq for Never {
    #[inline(always)]
    fn eq(&self, _: &Never) -> bool {
        false
    }
}
/// Records everything that is hashed.
pub struct Rec {
    v: [u64; 40],
    n: usize,
}
impl Hasher for Rec {
    #[inline(always)]
    fn finish(&self) -> u64 {
        0
    }
    #[inline(always)]
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.put(*x as u64)
        }
    }
    #[inline(always)]
    fn write_u64(&mut self, x: u64) {
        self.put(x)
    }
    #[inline(always)]
    fn write_usize(&mut self, x: usize) {
        self.put(x as u64)
    }
}
impl Rec {
    #[inline(always)]
    fn put(&mut self, x: u64) {
        self.v[self.n] = x;
        self.n += 1;
    }
}
#[inline(always)]
fn hashed<T: Hash + ?Sized>(t: &T) -> Rec {
    let mut r = Rec { v: [0; 40], n: 0 };
    t.hash(&mut r);
    r
}
#[inline(always)]
fn same(a: &Rec, b: &Rec) -> bool {
    let mut ok = a.n == b.n;
    let mut i = 0;
    while ok && i < a.n {
        ok = a.v[i] == b.v[i];
        i += 1;
    }
    ok
}

/// Values 0..n of a fixed sequence, where position `p` differs.
#[derive(Clone, Copy)]
struct V {
    v: [u64; 16],
}
#[inline(always)]
fn seq(n: usize) -> V {
    let mut r = V { v: [0; 16] };
    for i in 0..n {
        r.v[i] = fresh();
    }
    r
}
#[inline(always)]
fn rm(i: &[usize], d: &[usize]) -> usize {
    let mut k = 0;
    for j in 0..d.len() {
        k = k * d[j] + i[j];
    }
    k
}

// Each kind: builds a value with the given dims and values, then evaluates the body.
macro_rules! kind {
    (tensor, $t:ident, $d:expr, $s:ty, $v:expr, |$x:ident| $b:expr) => {{ let $x = Tensor::from_fn($d, |i| $t($v.v[rm(i, &$d)])); $b }};
    (dynrank, $t:ident, $d:expr, $s:ty, $v:expr, |$x:ident| $b:expr) => {{ let $x = Tensor::from_fn(DynRank::from_dims(&$d), |i| $t($v.v[rm(i, &$d)])); $b }};
    (array, $t:ident, $d:expr, $s:ty, $v:expr, |$x:ident| $b:expr) => {{ let $x = Array::<$t, $s>::from_fn(|i| $t($v.v[rm(i, &$d)])); $b }};
    (slice, $t:ident, $d:expr, $s:ty, $v:expr, |$x:ident| $b:expr) => {{ let o = Tensor::from_fn($d, |i| $t($v.v[rm(i, &$d)])); let $x: &Slice<$t, _> = &o; let $x = $x; $b }};
    (view, $t:ident, $d:expr, $s:ty, $v:expr, |$x:ident| $b:expr) => {{ let o = Tensor::from_fn($d, |i| $t($v.v[rm(i, &$d)])); let $x = o.expr(); $b }};
    (viewmut, $t:ident, $d:expr, $s:ty, $v:expr, |$x:ident| $b:expr) => {{ let mut o = Tensor::from_fn($d, |i| $t($v.v[rm(i, &$d)])); let $x = o.expr_mut(); $b }};
    (strided, $t:ident, $d:expr, $s:ty, $v:expr, |$x:ident| $b:expr) => {{
        // reversed memory order with gaps: element k at 2 * (n - 1 - k)
        let n = $d.iter().fold(1, |a, b| a * b);
        let o = Tensor::from_fn([32], |_| $t(fresh()));
        let o2 = Tensor::from_fn([32], |i| if i[0] % 2 == 0 && i[0] / 2 < n { $t($v.v[n - 1 - i[0] / 2]) } else { o[i[0]] });
        let mut st = [0isize; 8];
        let mut s = -2;
        let mut i = $d.len();
        while i > 0 { i -= 1; st[i] = s; s *= $d[i] as isize; }
        let p = if n > 0 { o2.as_ptr().wrapping_add(2 * (n - 1)) } else { o2.as_ptr() };
        let $x = unsafe { View::<$t, _, Strided>::new_unchecked(p, StridedMapping::new(IntoShape::into_shape($d), &st[..$d.len()])) };
        $b
    }};
    // memory order, read backwards without gaps
    (back, $t:ident, $d:expr, $s:ty, $v:expr, |$x:ident| $b:expr) => { kind!(@ -1, true, $t, $d, $v, |$x| $b) };
    // memory order without gaps, as strided
    (flat, $t:ident, $d:expr, $s:ty, $v:expr, |$x:ident| $b:expr) => { kind!(@ 1, true, $t, $d, $v, |$x| $b) };
    // column by column without gaps
    (cols, $t:ident, $d:expr, $s:ty, $v:expr, |$x:ident| $b:expr) => { kind!(@ 1, false, $t, $d, $v, |$x| $b) };
    (@ $u:expr, $rows:expr, $t:ident, $d:expr, $v:expr, |$x:ident| $b:expr) => {{
        let n = $d.iter().fold(1, |a, b| a * b);
        let mut st = [0isize; 8];
        let mut s: isize = $u;
        for j in 0..$d.len() {
            let i = if $rows { $d.len() - 1 - j } else { j };
            st[i] = s;
            s *= $d[i] as isize;
        }
        let at = if $u < 0 && n > 0 { 8 + n - 1 } else { 8 };
        let mut o: [u64; 32] = [0; 32];
        for k in 0..32 { o[k] = fresh(); }
        for k in 0..n {
            let (mut r, mut q) = (k, at as isize);
            for j in 0..$d.len() {
                let i = $d.len() - 1 - j;
                q += (r % $d[i]) as isize * st[i];
                r /= $d[i];
            }
            o[q as usize] = $v.v[k];
        }
        let o2 = Tensor::from_fn([32], |i| $t(o[i[0]]));
        let $x = unsafe { View::<$t, _, Strided>::new_unchecked(o2.as_ptr().wrapping_add(at), StridedMapping::new(IntoShape::into_shape($d), &st[..$d.len()])) };
        $b
    }};
}

macro_rules! eq1 {
    ($tag:literal, $d:expr, $s:ty, $n:literal: $($a:ident $b:ident),*) => {$(
        w!(concat!("eq_", $tag, "_", stringify!($a), "_", stringify!($b)), {
            let v = seq($n);
            kind!($a, E, $d, $s, v, |a| kind!($b, E, $d, $s, v, |b| {
                claim!(C14__equal, a == b);
                claim!(C14__not_unequal, !(a != b));
                claim!(C14_C16__equal_hash, same(&hashed(&a), &hashed(&b)));
            }));
        });
        w!(concat!("ne_", $tag, "_", stringify!($a), "_", stringify!($b)), {
            let v = seq($n);
            for p in 0..$n {
                let mut u = v;
                u.v[p] = fresh();
                kind!($a, E, $d, $s, v, |a| kind!($b, E, $d, $s, u, |b| {
                    claim!(C14__unequal, a != b);
                    claim!(C14__not_equal, !(a == b));
                }));
            }
        });
        w!(concat!("other_", $tag, "_", stringify!($a), "_", stringify!($b)), {
            let v = seq($n);
            kind!($a, E, $d, $s, v, |a| kind!($b, G, $d, $s, v, |b| { claim!(C14__equal_other_type, a == b); }));
            let mut u = v;
            if $n > 0 {
                u.v[if $n > 0 { $n - 1 } else { 0 }] = fresh();
                kind!($a, E, $d, $s, v, |a| kind!($b, G, $d, $s, u, |b| { claim!(C14__unequal_other_type, a != b); }));
            }
        });
    )*};
}
macro_rules! eq_all {
    ($tag:literal, $d:expr, $s:ty, $n:literal) => {
        eq1!($tag, $d, $s, $n: tensor tensor, tensor dynrank, tensor array, tensor view, tensor viewmut, tensor strided,
            array tensor, array array, array view, array strided, array dynrank, dynrank dynrank, dynrank tensor, dynrank strided,
            view view, view strided, view tensor, view array, viewmut viewmut, viewmut strided, viewmut array, strided strided, strided tensor, strided array,
            strided viewmut, strided dynrank, back tensor, tensor back, back back, back array, flat back, cols tensor, tensor cols, cols cols, cols flat,
            back strided, flat strided, dynrank back, flat tensor, view back, view cols);
    };
}
eq_all!("22", [2, 2], (Const<2>, Const<2>), 4);
eq1!("3", [3], (Const<3>,), 3: tensor array, tensor strided, array view, strided strided, strided tensor, dynrank strided, view viewmut,
    back tensor, tensor back, back back, flat back, flat flat, back strided);
eq1!("132", [1, 3, 2], (Const<1>, Const<3>, Const<2>), 6: tensor array, tensor strided, array strided, strided strided, strided view, dynrank strided, dynrank array,
    back tensor, cols tensor, back cols, cols cols, flat array);
eq1!("2121", [2, 1, 2, 1], (Const<2>, Const<1>, Const<2>, Const<1>), 4: tensor strided, array array, strided strided, strided dynrank);
eq1!("0_2", [0, 2], (Const<0>, Const<2>), 0: tensor array, tensor strided, strided strided, array strided, dynrank view);
eq1!("2_0", [2, 0], (Const<2>, Const<0>), 0: tensor array, tensor strided, strided strided, array strided, dynrank view);
w!("eq_rank0", {
    let v = fresh();
    let a = Tensor::from_fn((), |_| E(v));
    let b = Array::<E, ()>::from_fn(|_| E(v));
    let c = Array::<E, ()>::from_fn(|_| E(fresh()));
    claim!(C14__equal_scalar, a == b && b == a && a != c && c != b && b.expr() == a.expr());
    claim!(C14__equal_scalar_hash, same(&hashed(&a), &hashed(&b)));
    let e = Tensor::from_fn([1], |_| E(v));
    claim!(C14__rank_differs, !(a == e) && !(e == b) && a != e);
});

// Different shapes with the same elements are different.
macro_rules! shapes {
    ($tag:literal, $d:expr, $s:ty, $e:expr, $r:ty: $($a:ident $b:ident),*) => {$(
        w!(concat!("shape_", $tag, "_", stringify!($a), "_", stringify!($b)), {
            let x = E(fresh());
            let v = V { v: [x.0; 16] };
            kind!($a, E, $d, $s, v, |a| kind!($b, E, $e, $r, v, |b| {
                claim!(C14__shapes_differ, !(a == b) && a != b);
                claim!(C14__shapes_differ_reversed, !(b == a) && b != a);
            }));
        });
    )*};
}
macro_rules! shapes_all {
    ($tag:literal, $d:expr, $s:ty, $e:expr, $r:ty) => {
        shapes!($tag, $d, $s, $e, $r: tensor tensor, tensor array, tensor strided, array array, array strided, strided strided, view viewmut, dynrank tensor, dynrank dynrank, dynrank strided);
    };
}
shapes_all!("23_32", [2, 3], (Const<2>, Const<3>), [3, 2], (Const<3>, Const<2>));
shapes_all!("14_22", [1, 4], (Const<1>, Const<4>), [2, 2], (Const<2>, Const<2>));
shapes_all!("22_23", [2, 2], (Const<2>, Const<2>), [2, 3], (Const<2>, Const<3>));
shapes_all!("22_32", [2, 2], (Const<2>, Const<2>), [3, 2], (Const<3>, Const<2>));
shapes_all!("4_22", [4], (Const<4>,), [2, 2], (Const<2>, Const<2>));
shapes_all!("22_122", [2, 2], (Const<2>, Const<2>), [1, 2, 2], (Const<1>, Const<2>, Const<2>));
shapes_all!("22_221", [2, 2], (Const<2>, Const<2>), [2, 2, 1], (Const<2>, Const<2>, Const<1>));
shapes_all!("20_02", [2, 0], (Const<2>, Const<0>), [0, 2], (Const<0>, Const<2>));
shapes_all!("03_02", [0, 3], (Const<0>, Const<3>), [0, 2], (Const<0>, Const<2>));
shapes_all!("0_00", [0], (Const<0>,), [0, 0], (Const<0>, Const<0>));
shapes_all!("2_3", [2], (Const<2>,), [3], (Const<3>,));

// No shortcut through identity.
macro_rules! irreflexive {
    ($tag:literal, $d:expr, $s:ty: $($a:ident),*) => {$(
        w!(concat!("never_", $tag, "_", stringify!($a)), {
            let v = V { v: [0; 16] };
            kind!($a, Never, $d, $s, v, |a| { claim!(C14__elements_decide, !(a == a) && a != a); });
        });
    )*};
}
irreflexive!("22", [2, 2], (Const<2>, Const<2>): tensor, array, slice, view, viewmut, strided, dynrank, back, flat, cols);
irreflexive!("1", [1], (Const<1>,): tensor, array, slice, view, viewmut, strided, dynrank, back, flat, cols);

// Slices and borrowed forms.
macro_rules! borrow {
    ($tag:literal, $d:expr, $s:ty, $n:literal) => {
        w!(concat!("slice_", $tag), {
            let v = seq($n);
            let t = Tensor::from_fn($d, |i| E(v.v[rm(i, &$d)]));
            let a = Array::<E, $s>::from_fn(|i| E(v.v[rm(i, &$d)]));
            let (s, r): (&Slice<E, _>, &Slice<E, $s>) = (&t, &a);
            claim!(C14__slices_equal, *s == *r && *r == *s && *s == t && t == *s && a == *s && *s == a && !(*s != *r));
            let (h, g) = (hashed(s), hashed(r));
            claim!(C14__slice_hash, same(&h, &g) && same(&h, &hashed(&t)) && same(&h, &hashed(&a)) && same(&h, &hashed(&t.expr())));
            let b: &Slice<E, _> = t.borrow();
            claim!(C14__borrow_tensor, same(&hashed(b), &hashed(&t)) && *b == t && b.as_ptr() == t.as_ptr() && b.len() == t.len());
            let b: &Slice<E, $s> = a.borrow();
            claim!(C14__borrow_array, same(&hashed(b), &hashed(&a)) && *b == a && b.as_ptr() == a.as_ptr());
            let view = t.expr();
            let b: &Slice<E, _> = view.borrow();
            claim!(C14__borrow_view, same(&hashed(b), &hashed(&view)) && *b == view && b.as_ptr() == view.as_ptr());
        });
        w!(concat!("contains_", $tag), {
            let v = seq($n);
            let t = Tensor::from_fn($d, |i| E(v.v[rm(i, &$d)]));
            for k in 0..$n {
                claim!(C14_C06__contains, t.contains(&E(v.v[k])) && t.expr().contains(&E(v.v[k])));
            }
            claim!(C14_C06__does_not_contain, !t.contains(&E(fresh())));
            kind!(strided, E, $d, $s, v, |s| {
                for k in 0..$n {
                    claim!(C14_C06__strided_contains, s.contains(&E(v.v[k])));
                }
                claim!(C14_C06__strided_does_not_contain, !s.contains(&E(fresh())) && !s.contains(&E(unsafe { (*s.as_ptr().wrapping_add(1)).0 })));
            });
            kind!(back, E, $d, $s, v, |s| {
                for k in 0..$n {
                    claim!(C14_C06__backward_contains, s.contains(&E(v.v[k])));
                }
                claim!(C14_C06__backward_does_not_contain, !s.contains(&E(unsafe { (*s.as_ptr().wrapping_add(1)).0 })) && !s.contains(&E(unsafe { (*s.as_ptr().wrapping_sub($n)).0 })));
            });
            kind!(cols, E, $d, $s, v, |s| {
                for k in 0..$n {
                    claim!(C14_C06__columns_contain, s.contains(&E(v.v[k])));
                }
                claim!(C14_C06__columns_do_not_contain, !s.contains(&E(unsafe { (*s.as_ptr().wrapping_add($n)).0 })) && !s.contains(&E(unsafe { (*s.as_ptr().wrapping_sub(1)).0 })));
            });
            kind!(dynrank, E, $d, $s, v, |s| {
                for k in 0..$n {
                    claim!(C14_C06__dynrank_contains, s.contains(&E(v.v[k])));
                }
                claim!(C14_C06__dynrank_does_not_contain, !s.contains(&E(fresh())));
            });
        });
    };
}
borrow!("22", [2, 2], (Const<2>, Const<2>), 4);
borrow!("3", [3], (Const<3>,), 3);
borrow!("212", [2, 1, 2], (Const<2>, Const<1>, Const<2>), 4);
w!("contains_empty", {
    let t = Tensor::from_fn([0, 2], |_| E(0));
    claim!(C14_C06__empty_contains_nothing, !t.contains(&E(0)) && !t.expr().contains(&E(0)));
    let s = Tensor::from_fn([2, 2], |_| E(0));
    claim!(C14_C06__empty_view_contains_nothing, !s.view(..0, ..).contains(&E(0)) && !s.view(.., ..0).contains(&E(0)) && s.view(.., ..1).contains(&E(0)));
});

// Shapes and mappings.
w!("dynrank", {
    let a = DynRank::from_dims(&[2]);
    let mut b = DynRank::new(1);
    b.with_mut_dims(|d| d[0] = 2);
    let c = DynRank::from_dims(&[2, 1]);
    claim!(C14__dynrank_equal, a == b && same(&hashed(&a), &hashed(&b)) && a.clone() == b.clone());
    claim!(C14__dynrank_unequal, a != c && c != b && a != DynRank::from_dims(&[3]));
    claim!(C14__dynrank_order, a.cmp(&c) == [2usize][..].cmp(&[2, 1][..]) && a.cmp(&b) == std::cmp::Ordering::Equal);
    let mut d = c.clone();
    claim!(C14_C16__dynrank_clone, d == c);
    d.clone_from(&a);
    claim!(C14_C16__dynrank_clone_from, d == a && d.rank() == 1 && d.dim(0) == 2);
    d.clone_from(&c);
    claim!(C14_C16__dynrank_clone_from_longer, d == c && d.rank() == 2 && d.dim(1) == 1);
    let e = DynRank::from_dims(&[5, 6]);
    d.clone_from(&e);
    claim!(C14_C16__dynrank_clone_from_same, d == e && d.dim(0) == 5 && d.dim(1) == 6);
});
w!("dynrank_boxed", {
    let a = DynRank::Dyn(Box::new([2]));
    let b = DynRank::One(2);
    let c = DynRank::Dyn(Box::new([3]));
    claim!(C14__dynrank_equal, a == b && b == a && same(&hashed(&a), &hashed(&b)) && a.cmp(&b) == std::cmp::Ordering::Equal);
    claim!(C14__dynrank_unequal, a != c && c != b && b < c && c > a);
    claim!(C14_C16__dynrank_clone, a.clone() == a && a.clone().rank() == 1 && a.dims() == [2] && b.dims() == [2]);
    let mut d = b.clone();
    d.clone_from(&c);
    claim!(C14_C16__dynrank_clone_from, d == c && d.rank() == 1 && d.dim(0) == 3);
    d.clone_from(&b);
    claim!(C14_C16__dynrank_clone_from_one, d == b && d.dim(0) == 2);
    let mut e = DynRank::Dyn(Box::new([7]));
    e.clone_from(&a);
    claim!(C14_C16__dynrank_clone_from_same, e == a && e.dim(0) == 2);
    e.clone_from(&b);
    claim!(C14_C16__dynrank_clone_from_inline, e == b && e.rank() == 1);
});
w!("dynrank_zero", {
    let a = DynRank::from_dims(&[]);
    let b = DynRank::new(0);
    claim!(C14__dynrank_equal, a == b && a.rank() == 0 && a.len() == 1 && same(&hashed(&a), &hashed(&b)));
    claim!(C14__dynrank_unequal, a != DynRank::One(0) && a != DynRank::One(1) && a != DynRank::default());
    let mut d = DynRank::One(4);
    d.clone_from(&a);
    claim!(C14_C16__dynrank_clone_from, d == a && d.rank() == 0);
    let t = Tensor::from_fn(DynRank::Dyn(Box::new([2])), |i| E(i[0] as u64));
    let u = Tensor::from_fn([2], |i| E(i[0] as u64));
    claim!(C14__boxed_shape_equal, t == u && u == t && t.rank() == 1 && t.dim(0) == 2 && same(&hashed(&t), &hashed(&u)));
});
