//! The operations once more with arrays that are larger than any buffer, block or unrolling factor in sight.
use crate::common::*;
use crate::life::*;
use std::hash::{Hash, Hasher};

macro_rules! w {
    ($tag:expr, $b:block) => {
        const _: () = {
            #[unsafe(export_name = concat!("d__", $tag))]
            pub fn f() {
                $b
                reach!(R__end);
            }
        };
    };
}
macro_rules! ok {
    ($c:expr) => { claim!(C03_C04_C05_C06_C07_C08_C09_C10_C11_C13_C14_C15_C16__large_array, $c) };
}
const N: usize = 300;
const L: usize = 1100;

/// A hasher that compares with what another one has seen.
struct Rec<'a> {
    v: [u64; 200],
    n: usize,
    o: Option<&'a Rec<'a>>,
}
impl Hasher for Rec<'_> {
    #[inline(always)]
    fn finish(&self) -> u64 {
        0
    }
    #[inline(always)]
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64)
        }
    }
    #[inline(always)]
    fn write_u64(&mut self, x: u64) {
        if let Some(o) = self.o {
            ok!(self.n < o.n && o.v[self.n] == x);
        }
        self.v[self.n] = x;
        self.n += 1;
    }
    #[inline(always)]
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
}
#[derive(Clone, Copy)]
struct E(u64);
impl PartialEq for E {
    #[inline(always)]
    fn eq(&self, o: &E) -> bool {
        self.0 == o.0
    }
}
impl Eq for E {}
impl Hash for E {
    #[inline(always)]
    fn hash<H: Hasher>(&self, h: &mut H) {
        h.write_u64(self.0)
    }
}
impl std::ops::Add for E {
    type Output = E;
    #[inline(always)]
    fn add(self, o: E) -> E {
        self
    }
}
impl std::ops::Sub for E {
    type Output = E;
    #[inline(always)]
    fn sub(self, o: E) -> E {
        o
    }
}
impl std::ops::AddAssign for E {
    #[inline(always)]
    fn add_assign(&mut self, o: E) {
        *self = o;
    }
}
impl<'a> std::ops::AddAssign<&'a E> for E {
    #[inline(always)]
    fn add_assign(&mut self, o: &'a E) {
        *self = *o;
    }
}
macro_rules! refs {
    ($($t:ident $f:ident),*) => {$(
        impl<'a> std::ops::$t<&'a E> for E {
            type Output = E;
            #[inline(always)]
            fn $f(self, o: &'a E) -> E { self.$f(*o) }
        }
        impl<'a> std::ops::$t<E> for &'a E {
            type Output = E;
            #[inline(always)]
            fn $f(self, o: E) -> E { (*self).$f(o) }
        }
        impl<'a, 'b> std::ops::$t<&'b E> for &'a E {
            type Output = E;
            #[inline(always)]
            fn $f(self, o: &'b E) -> E { (*self).$f(*o) }
        }
    )*};
}
refs!(Add add, Sub sub);

#[inline(always)]
unsafe fn at64(p: *const u64, i: usize) -> u64 {
    unsafe { *p.add(i) }
}
#[inline(always)]
fn wide() -> Tensor<u64, (Dyn, Dyn)> {
    Tensor::from_fn([3, 100], |_| fresh())
}
/// Checks all items of an iterator, by stepping for the first `s` and in one go for the rest.
#[inline(always)]
fn items<I: ExactSizeIterator>(mut it: I, n: usize, s: usize, f: impl Fn(usize, I::Item) -> bool) {
    let mut k = 0;
    while k < s {
        ok!(it.len() == n - k);
        match it.next() {
            Some(x) => ok!(f(k, x)),
            None => ok!(false),
        }
        k += 1;
    }
    let end = it.fold(k, |k, x| {
        ok!(k < n && f(k, x));
        k + 1
    });
    ok!(end == n);
}
/// Row-major position in the original of the k:th element of the transpose of a 3 x 100 array.
#[inline(always)]
fn tr(k: usize) -> usize {
    (k % 3) * 100 + k / 3
}

w!("C05_C06__big_iter", { let o = wide(); let p = o.as_ptr(); items(o.iter(), N, N, |k, x| x as P == unsafe { p.add(k) }); items(o.iter(), N, 70, |k, x| x as P == unsafe { p.add(k) }); });
w!("C05_C06__big_iter_fold", { let mut o = wide(); let p = o.as_ptr(); items(o.iter_mut(), N, 0, |k, x| x as *mut u64 as P == unsafe { p.add(k) }); });
w!("C05_C06__big_iter_perm", { let mut o = wide(); let p = o.as_ptr(); items(o.permute([1, 0]).iter(), N, N, |k, x| x as P == unsafe { p.add(tr(k)) }); });
w!("C05_C06__big_iter_permm", { let mut o = wide(); let p = o.as_ptr(); items(o.permute_mut([1, 0]).iter_mut(), N, 3, |k, x| x as *mut u64 as P == unsafe { p.add(tr(k)) }); });
w!("C05_C06__big_iter_dyn", { let mut o = wide().into_dyn(); let p = o.as_ptr(); items(o.iter(), N, 299, |k, x| x as P == unsafe { p.add(k) }); });
w!("C05_C06__big_iter_rank1", { let o = Tensor::from_fn([L], |_| fresh()); let p = o.as_ptr(); items(o.view(step(.., -1)).iter(), L, L, |k, x| x as P == unsafe { p.add(L - 1 - k) }); });
w!("C05_C06__big_iter_cube", { let o = Tensor::from_fn([2, 3, 23], |_| fresh()); let p = o.as_ptr(); items(o.view(.., 1.., ..).iter(), 92, 92, |k, x| x as P == unsafe { p.add((k / 46) * 69 + 23 + k % 46) }); });
w!("C06_C09__big_iter_value", { let o = Tensor::from_fn([3, 100], |_| dv(fresh())); let p = o.as_ptr(); let mut v = [0; N]; for i in 0..N { v[i] = unsafe { (*p.add(i)).val() }; } items(o.into_iter(), N, 80, |k, x| x.val() == v[k]); });
w!("C06_C09__big_iter_rest", { let o = Tensor::from_fn([3, 100], |_| quiet()); let mut it = o.into_iter(); for _ in 0..70 { match it.next() { Some(x) => x.see(), None => ok!(false) } } });
w!("C06_C09__big_iter_array", { let o = Array::<D, (C<2>, C<35>)>::from_fn(|_| quiet()); let mut it = o.into_iter(); for _ in 0..67 { match it.next() { Some(x) => x.see(), None => ok!(false) } } });

w!("C07_C05__big_outer", { let mut o = Tensor::from_fn([70, 2], |_| fresh()); let p = o.as_ptr(); items(o.outer_expr().into_iter(), 70, 70, |k, x| has(&x, &[2]) && x.as_ptr() == unsafe { p.add(2 * k) }); items(o.outer_expr_mut().into_iter(), 70, 0, |k, x| has(&x, &[2]) && x.as_ptr() == unsafe { p.add(2 * k) }); });
w!("C07_C05__big_cols", { let mut o = Tensor::from_fn([2, 70], |_| fresh()); let p = o.as_ptr(); items(o.cols().into_iter(), 70, 70, |k, x| has(&x, &[2]) && x.as_ptr() == unsafe { p.add(k) } && x.stride(0) == 70); items(o.cols_mut().into_iter(), 70, 1, |k, x| has(&x, &[2]) && x.as_ptr() == unsafe { p.add(k) } && x.stride(0) == 70); });
w!("C07_C05__big_lanes", { let mut o = Tensor::from_fn([9, 2, 9], |_| fresh()); let p = o.as_ptr(); items(o.lanes(1).into_iter(), 81, 81, |k, x| has(&x, &[2]) && x.as_ptr() == unsafe { p.add(k / 9 * 18 + k % 9) } && x.stride(0) == 9); items(o.lanes_mut(Const::<0>).into_iter(), 18, 1, |k, x| has(&x, &[9]) && x.as_ptr() == unsafe { p.add(k) } && x.stride(0) == 18); });
w!("C07_C05__big_axis", { let mut o = Tensor::from_fn([2, 70], |_| fresh()); let p = o.as_ptr(); items(o.axis_expr(1).into_iter(), 70, 70, |k, x| has(&x, &[2]) && x.as_ptr() == unsafe { p.add(k) } && x.stride(0) == 70); });

w!("C08_C05__big_zip", { let o = wide(); let p = o.as_ptr(); let r = Tensor::from_fn([100], |_| fresh()); let q = r.as_ptr();
    items(o.expr().zip(&r).into_iter(), N, N, |k, x| x.0 as P == unsafe { p.add(k) } && x.1 as P == unsafe { q.add(k % 100) });
    items(r.expr().zip(&o).into_iter(), N, 7, |k, x| x.1 as P == unsafe { p.add(k) } && x.0 as P == unsafe { q.add(k % 100) }); });
w!("C08_C05__big_zip_perm", { let mut o = wide(); let p = o.as_ptr(); let r = Tensor::from_fn([100, 3], |_| fresh()); let q = r.as_ptr();
    items(o.permute_mut([1, 0]).expr_mut().zip(&r).into_iter(), N, 70, |k, x| x.0 as *mut u64 as P == unsafe { p.add(tr(k)) } && x.1 as P == unsafe { q.add(k) }); });
w!("C08_C15__big_assign", { let mut o = wide(); let r = Tensor::from_fn([100], |_| fresh()); let q = r.as_ptr(); o.assign(&r); let p = o.as_ptr(); for k in 0..N { ok!(unsafe { at64(p, k) == at64(q, k % 100) }); } });
w!("C08_C06__big_map", { let o = wide(); let p = o.as_ptr(); let mut k = 0; let t = o.expr().map(|x| { ok!(x as P == unsafe { p.add(k) }); k += 1; *x }).eval(); ok!(k == N && has(&t, &[3, 100])); let q = t.as_ptr(); for k in 0..N { ok!(unsafe { at64(p, k) == at64(q, k) }); } });
w!("C08_C09__big_map_in_place", { let o = Tensor::from_fn([3, 100], |_| quiet()); let mut v = [0; N]; for i in 0..N { v[i] = unsafe { (*o.as_ptr().add(i)).val() }; } let mut k = 0; let t = o.map(|x| { ok!(x.val() == v[k]); k += 1; dv(v[k - 1]) }); ok!(k == N && has(&t, &[3, 100])); for i in 0..N { ok!(unsafe { (*t.as_ptr().add(i)).val() } == v[i]); } });

w!("C16_C04__big_clone", { let o = wide(); let p = o.as_ptr(); let t = o.clone(); let q = t.as_ptr(); ok!(has(&t, &[3, 100])); for k in 0..N { ok!(unsafe { at64(p, k) == at64(q, k) }); } });
w!("C16_C04__big_to_tensor", { let o = wide(); let p = o.as_ptr(); let v = o.permute([1, 0]); let t = v.to_tensor(); let q = t.as_ptr(); ok!(has(&t, &[100, 3])); for k in 0..N { ok!(unsafe { at64(p, tr(k)) == at64(q, k) }); } });
w!("C16_C04__big_shape", { let o = wide(); let p = o.as_ptr(); let t = o.into_shape([2, 2, 75]); ok!(has(&t, &[2, 2, 75]) && t.as_ptr() == p); for k in 0..N { ok!(&t[[k / 150, k / 75 % 2, k % 75]] as P == unsafe { p.add(k) }); } });
w!("C16_C06__big_from_fn", { let mut k = 0; let t = Tensor::from_fn([2, 3, 23], |i| { ok!(k < 138 && i[0] == k / 69 && i[1] == k / 23 % 3 && i[2] == k % 23); k += 1; k as u64 }); ok!(k == 138 && has(&t, &[2, 3, 23])); for i in 0..138 { ok!(unsafe { at64(t.as_ptr(), i) } == i as u64 + 1); } });
w!("C16_C06__big_from_elem", { let x = fresh(); let t = Tensor::from_elem([70, 2], x); ok!(has(&t, &[70, 2])); for i in 0..140 { ok!(unsafe { at64(t.as_ptr(), i) } == x); } });
w!("C16_C10__big_from_vec", { let mut v = Vec::new(); let mut s = [0; L]; for i in 0..L { s[i] = fresh(); v.push(s[i]); } let t: Tensor<u64, (Dyn,)> = Tensor::from(v); ok!(has(&t, &[L])); for i in 0..L { ok!(t[i] == s[i]); } let v = t.into_vec(); ok!(v.len() == L); for i in 0..L { ok!(v[i] == s[i]); } });
w!("C16_C10__big_collect", { let mut s = [0; L]; for i in 0..L { s[i] = fresh(); } let t: Tensor<u64, (Dyn,)> = s.iter().copied().collect(); ok!(has(&t, &[L])); for i in 0..L { ok!(t[i] == s[i]); } });
w!("C16_C13__big_array", { let o = Tensor::from_fn([2, 35], |_| fresh()); let p = o.as_ptr(); let mut s = [0; 70]; for i in 0..70 { s[i] = unsafe { at64(p, i) }; } let a: Array<u64, (C<2>, C<35>)> = o.into_mapping::<(C<2>, C<35>)>().into(); ok!(has(&a, &[2, 35])); for i in 0..70 { ok!(unsafe { at64(a.as_ptr(), i) } == s[i]); } });

/// Values of a tensor of elements.
#[inline(always)]
fn all<S: Shape>(t: &Slice<D, S>) -> [u64; 160] {
    let mut v = [0; 160];
    for i in 0..t.len() {
        v[i] = unsafe { (*t.as_ptr().add(i)).val() };
    }
    v
}
w!("C09_C10_C11__big_resize_grow", { let mut t = Tensor::from_fn([3, 30], |_| quiet()); let v = all(&t); let x = fresh(); t.resize_with(&[4, 33], || dv(x)); ok!(has(&t, &[4, 33]) && t.capacity() >= 132); let u = all(&t); for i in 0..132 { let (r, c) = (i / 33, i % 33); ok!(u[i] == if r < 3 && c < 30 { v[r * 30 + c] } else { x }); } });
w!("C09_C10_C11__big_resize_cut", { let mut t = Tensor::from_fn([3, 44], |_| quiet()); let v = all(&t); t.resize_with(&[2, 40], || quiet()); ok!(has(&t, &[2, 40])); let u = all(&t); for i in 0..80 { ok!(u[i] == v[i / 40 * 44 + i % 40]); } });
w!("C09_C10_C11__big_resize_rows", { let mut t = Tensor::from_fn([35, 2], |_| quiet()); let v = all(&t); let x = fresh(); t.resize(&[70, 2], dv(x)); ok!(has(&t, &[70, 2])); let u = all(&t); for i in 0..140 { ok!(u[i] == if i < 70 { v[i] } else { x }); } });
w!("C09_C10_C11__big_append", { let mut t = Tensor::from_fn([35, 2], |_| quiet()); let mut s = Tensor::from_fn([36, 2], |_| quiet()); let (v, u) = (all(&t), all(&s)); t.append(&mut s); ok!(has(&t, &[71, 2]) && has(&s, &[0, 2])); let a = all(&t); for i in 0..142 { ok!(a[i] == if i < 70 { v[i] } else { u[i - 70] }); } });
w!("C09_C10_C11__big_expand", { let mut t = Tensor::from_fn([1, 2], |_| quiet()); let s = Tensor::from_fn([2, 70], |_| quiet()); let (v, u) = (all(&t), all(&s)); t.expand(s.permute([1, 0])); ok!(has(&t, &[71, 2])); let a = all(&t); for i in 0..142 { ok!(a[i] == if i < 2 { v[i] } else { u[i % 2 * 70 + (i - 2) / 2] }); } });
w!("C09_C10_C11__big_drain", { let mut t = Tensor::from_fn([70, 2], |_| quiet()); let v = all(&t); let mut k = 0; for x in t.drain(1..69) { ok!(x.val() == v[2 + k]); k += 1; } ok!(k == 136 && has(&t, &[2, 2])); let a = all(&t); for i in 0..4 { ok!(a[i] == if i < 2 { v[i] } else { v[136 + i] }); } });
w!("C09_C10_C11__big_drain_tail", { let mut t = Tensor::from_fn([70, 2], |_| quiet()); let v = all(&t); drop(t.drain(1..3)); ok!(has(&t, &[68, 2])); let a = all(&t); for i in 0..136 { ok!(a[i] == if i < 2 { v[i] } else { v[4 + i] }); } });
w!("C09_C10_C11__big_truncate", { let mut t = Tensor::from_fn([70, 2], |_| quiet()); let v = all(&t); t.truncate(34); ok!(has(&t, &[34, 2])); let a = all(&t); for i in 0..68 { ok!(a[i] == v[i]); } t.clear(); ok!(has(&t, &[0, 0])); });
w!("C09_C10_C11__big_panic", { let mut t = Tensor::from_fn([2, 2], |_| quiet()); { let c = Chk(&mut t); c.0.resize_with(&[3, 24], || mk()); } usev(&t); });
w!("C09_C10__big_panic_map", { let t = Tensor::from_fn([72], |_| quiet()); let t = t.map(|x| { user(); x }); usev(&t); });

/// The same values in another array.
#[inline(always)]
fn twin(o: &[u64; 70], f: impl Fn(usize) -> usize) -> Tensor<E, (Dyn, Dyn)> {
    let mut k = 0;
    Tensor::from_fn([35, 2], |_| { k += 1; E(o[f(k - 1)]) })
}
macro_rules! eqs {
    ($name:literal, $at:expr) => {
        w!(concat!("C14__big_eq_", $name), {
            let mut s = [0; 70];
            for i in 0..70 { s[i] = fresh(); }
            let a = twin(&s, |i| i);
            s[$at] = fresh();
            let b = twin(&s, |i| i);
            ok!(a != b && b != a && a == a.clone());
            let c = Tensor::from_fn([2, 35], |i| a[[i[1], i[0]]]);
            ok!(c.permute([1, 0]) == a && a == c.permute([1, 0]) && c.permute([1, 0]) != b && b != c.permute([1, 0]));
        });
    };
}
eqs!("first", 0);
eqs!("middle", 33);
eqs!("64", 64);
eqs!("last", 69);
w!("C14__big_hash", { let mut s = [0; 70]; for i in 0..70 { s[i] = fresh(); } let a = twin(&s, |i| i); let mut h = Rec { v: [0; 200], n: 0, o: None }; a.hash(&mut h); let c = Tensor::from_fn([2, 35], |i| a[[i[1], i[0]]]); let mut g = Rec { v: [0; 200], n: 0, o: Some(&h) }; c.permute([1, 0]).hash(&mut g); ok!(g.n == h.n); });

w!("C15_C08__big_add", { let mut s = [0; 70]; let mut t = [0; 70]; for i in 0..70 { s[i] = fresh(); t[i] = fresh(); } let (a, b) = (twin(&s, |i| i), twin(&t, |i| i));
    let c = (&a + &b).eval(); ok!(has(&c, &[35, 2])); for i in 0..70 { ok!(unsafe { (*c.as_ptr().add(i)).0 } == s[i]); }
    let c = (&a - &b).eval(); for i in 0..70 { ok!(unsafe { (*c.as_ptr().add(i)).0 } == t[i]); }
    let c = a.clone() + &b; ok!(has(&c, &[35, 2])); for i in 0..70 { ok!(unsafe { (*c.as_ptr().add(i)).0 } == s[i]); }
    let c = &a - b.clone(); ok!(has(&c, &[35, 2])); for i in 0..70 { ok!(unsafe { (*c.as_ptr().add(i)).0 } == t[i]); }
    let mut c = a; c += &b; for i in 0..70 { ok!(unsafe { (*c.as_ptr().add(i)).0 } == t[i]); } });
