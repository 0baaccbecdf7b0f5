//! Conversions and construction: shape and elements (values, identities, addresses) before and after.
use crate::common::*;
use crate::life::*;
use mdarray::IntoCloned;
use std::borrow::{Borrow, BorrowMut};

macro_rules! w {
    ($tag:expr, $b:block) => {
        const _: () = {
            #[unsafe(export_name = concat!("d__C16_C09_C10_C13__", $tag))]
            pub fn f() {
                $b
                reach!(R__end);
            }
        };
    };
}
/// Also a change of shape.
macro_rules! w4 {
    ($tag:expr, $b:block) => {
        const _: () = {
            #[unsafe(export_name = concat!("d__C16_C09_C10_C13_C04__", $tag))]
            pub fn f() {
                $b
                reach!(R__end);
            }
        };
    };
}
macro_rules! w_panics {
    ($tag:expr, $b:block) => {
        const _: () = {
            #[unsafe(export_name = concat!("d__C16_C13__", $tag))]
            pub fn f() {
                $b
                claim!(C13_C16__accepted_although_dimensions_differ, false);
            }
        };
    };
}
macro_rules! w4_panics {
    ($tag:expr, $b:block) => {
        const _: () = {
            #[unsafe(export_name = concat!("d__C16_C13_C04__", $tag))]
            pub fn f() {
                $b
                claim!(C04_C13_C16__accepted_although_dimensions_differ, false);
            }
        };
    };
}
macro_rules! w20 {
    ($tag:expr, $b:block) => {
        const _: () = {
            #[unsafe(export_name = concat!("d__C20__", $tag))]
            pub fn f() {
                $b
                reach!(R__end);
            }
        };
    };
}

#[inline(always)]
fn rawids(p: *const D, n: usize) -> Vals {
    let mut r = Vals { v: [0; 40], n };
    for i in 0..n {
        r.v[i] = unsafe { (*p.add(i)).id() };
    }
    r
}
#[inline(always)]
fn rawvals(p: *const D, n: usize) -> Vals {
    let mut r = Vals { v: [0; 40], n };
    for i in 0..n {
        r.v[i] = unsafe { (*p.add(i)).val() };
    }
    r
}
#[inline(always)]
fn p_of<T>(x: &T) -> *const D {
    x as *const T as *const D
}
/// Elements of any view in row-major order, read through the strides.
#[inline(always)]
fn strided<S: Shape, L: Layout>(t: &Slice<D, S, L>) -> Vals {
    let mut r = Vals::new();
    let n = t.len();
    for k in 0..n {
        let mut rest = k;
        let mut o = 0isize;
        let mut d = t.rank();
        while d > 0 {
            d -= 1;
            o += (rest % t.dim(d)) as isize * t.stride(d);
            rest /= t.dim(d);
        }
        r.push(unsafe { (*t.as_ptr().offset(o)).val() });
    }
    r
}
#[inline(always)]
fn hasv<S: Shape, L: Layout>(t: &Slice<D, S, L>, d: &[usize]) -> bool {
    let mut ok = t.rank() == d.len() && t.len() == mul(d);
    let mut i = 0;
    while ok && i < d.len() {
        ok = t.dim(i) == d[i];
        i += 1;
    }
    ok
}
macro_rules! cp {
    ($c:expr) => { claim!(C04_C10_C13_C16__shape_and_elements_kept, $c) };
}

use std::array::from_fn as af;

// Nested arrays. $a: nested type, $k: constant shape, $m: mixed shape, $d: dims
macro_rules! nested {
    ($tag:literal, $r:literal, $a:ty, $k:ty, $m:ty, $d:expr, $n:literal, $e:expr) => {
        w!(concat!("nest_array_", $tag), {
            let a: $a = $e;
            let i = rawids(p_of(&a), $n);
            let x: Array<D, $k> = Array::from(a);
            cp!(has(&*x, &$d) && ids(&*x).same(&i));
            let b = <$a>::from(x);
            cp!(rawids(p_of(&b), $n).same(&i));
        });
        w!(concat!("nest_arrayref_", $tag), {
            let a: $a = $e;
            let i = rawvals(p_of(&a), $n);
            let x: Array<D, $k> = Array::from(&a);
            cp!(has(&*x, &$d) && vals(&*x).same(&i) && rawvals(p_of(&a), $n).same(&i));
        });
        w!(concat!("nest_tensor_", $tag), {
            let a: $a = $e;
            let i = rawids(p_of(&a), $n);
            let x: Tensor<D, Rank<$r>> = Tensor::from(a);
            cp!(has(&*x, &$d) && ids(&*x).same(&i) && x.capacity() >= x.len());
            match <$a>::try_from(x) {
                Ok(b) => cp!(rawids(p_of(&b), $n).same(&i)),
                Err(_) => claim!(C16__conversion_succeeds, false),
            }
        });
        w!(concat!("nest_tensork_", $tag), {
            let a: $a = $e;
            let i = rawids(p_of(&a), $n);
            let x: Tensor<D, $k> = Tensor::from(a);
            cp!(has(&*x, &$d) && ids(&*x).same(&i));
            match <$a>::try_from(x) {
                Ok(b) => cp!(rawids(p_of(&b), $n).same(&i)),
                Err(_) => claim!(C16__conversion_succeeds, false),
            }
        });
        w!(concat!("nest_tensorm_", $tag), {
            let a: $a = $e;
            let i = rawids(p_of(&a), $n);
            let x: Tensor<D, $m> = Tensor::from(a);
            cp!(has(&*x, &$d) && ids(&*x).same(&i));
            match <$a>::try_from(x) {
                Ok(b) => cp!(rawids(p_of(&b), $n).same(&i)),
                Err(_) => claim!(C16__conversion_succeeds, false),
            }
        });
        w!(concat!("nest_tensorref_", $tag), {
            let a: $a = $e;
            let i = rawvals(p_of(&a), $n);
            let x: Tensor<D, Rank<$r>> = Tensor::from(&a);
            cp!(has(&*x, &$d) && vals(&*x).same(&i));
            let y: Tensor<D, $m> = Tensor::from(&a);
            cp!(has(&*y, &$d) && vals(&*y).same(&i) && rawvals(p_of(&a), $n).same(&i));
        });
        w!(concat!("nest_view_", $tag), {
            let mut a: $a = $e;
            let p = p_of(&a);
            let v: View<D, Rank<$r>> = View::from(&a);
            cp!(has(&*v, &$d) && v.as_ptr() == p);
            match <&$a>::try_from(v) {
                Ok(b) => cp!(p_of(b) == p),
                Err(_) => claim!(C16__conversion_succeeds, false),
            }
            let v: View<D, $k> = View::from(&a);
            cp!(has(&*v, &$d) && v.as_ptr() == p);
            match <&$a>::try_from(v) {
                Ok(b) => cp!(p_of(b) == p),
                Err(_) => claim!(C16__conversion_succeeds, false),
            }
            let v: View<D, $m> = View::from(&a);
            cp!(has(&*v, &$d) && v.as_ptr() == p);
            let mut v: ViewMut<D, Rank<$r>> = ViewMut::from(&mut a);
            cp!(has(&*v, &$d) && v.as_mut_ptr() as *const D == p);
            match <&mut $a>::try_from(v) {
                Ok(b) => cp!(p_of(b) == p),
                Err(_) => claim!(C16__conversion_succeeds, false),
            }
            let mut v: ViewMut<D, $m> = ViewMut::from(&mut a);
            cp!(has(&*v, &$d) && v.as_mut_ptr() as *const D == p);
            match <&mut $a>::try_from(v) {
                Ok(b) => cp!(p_of(b) == p),
                Err(_) => claim!(C16__conversion_succeeds, false),
            }
        });
        w!(concat!("nest_asref_", $tag), {
            let mut a: $a = $e;
            let p = p_of(&a);
            let x: &Array<D, $k> = a.as_ref();
            cp!(p_of(x) == p && x.as_ptr() == p && has(&**x, &$d));
            let s: &$a = (**x).as_ref();
            cp!(p_of(s) == p);
            let s: &$a = x.as_ref();
            cp!(p_of(s) == p);
            let s: &Slice<D, $k> = x.borrow();
            cp!(s.as_ptr() == p && has(s, &$d));
            let x: &mut Array<D, $k> = a.as_mut();
            cp!(x.as_mut_ptr() as *const D == p && has(&**x, &$d));
            let s: &mut $a = (**x).as_mut();
            cp!(p_of(s) == p);
            let s: &mut $a = x.as_mut();
            cp!(p_of(s) == p);
            let s: &mut Slice<D, $k> = x.borrow_mut();
            cp!(s.as_ptr() == p && has(s, &$d));
            let t: Tensor<D, $k> = Tensor::from(a);
            let s: &$a = t.as_ref();
            cp!(p_of(s) == t.as_ptr());
        });
    };
}
/// A tensor or view with other dimensions is handed back.
macro_rules! refused {
    ($tag:literal, $r:literal, $a:ty, [$($t:ident $o:expr),*]) => {
        $(
        w!(concat!("refused_tensor_", $tag, "_", stringify!($t)), {
            let o = $o;
            let x: Tensor<D, Rank<$r>> = Tensor::from_fn(o, |_| quiet());
            let i = ids(&*x);
            match <$a>::try_from(x) {
                Ok(_) => claim!(C16__conversion_refused, false),
                Err(x) => cp!(has(&*x, &o) && ids(&*x).same(&i)),
            }
        });
        w!(concat!("refused_view_", $tag, "_", stringify!($t)), {
            let o = $o;
            let mut x: Tensor<D, Rank<$r>> = Tensor::from_fn(o, |_| quiet());
            let p = x.as_ptr();
            match <&$a>::try_from(x.expr()) {
                Ok(_) => claim!(C16__conversion_refused, false),
                Err(v) => cp!(has(&*v, &o) && v.as_ptr() == p),
            }
            match <&mut $a>::try_from(x.expr_mut()) {
                Ok(_) => claim!(C16__conversion_refused, false),
                Err(v) => cp!(has(&*v, &o) && v.as_ptr() == p),
            }
        });
        )*
    };
}
nested!("3", 1, [D; 3], (C<3>,), (Dyn,), [3], 3, af(|_| quiet()));
nested!("0", 1, [D; 0], (C<0>,), (Dyn,), [0], 0, af(|_| quiet()));
nested!("23", 2, [[D; 3]; 2], (C<2>, C<3>), (Dyn, C<3>), [2, 3], 6, af(|_| af(|_| quiet())));
nested!("31", 2, [[D; 1]; 3], (C<3>, C<1>), (C<3>, Dyn), [3, 1], 3, af(|_| af(|_| quiet())));
nested!("20", 2, [[D; 0]; 2], (C<2>, C<0>), (C<2>, Dyn), [2, 0], 0, af(|_| af(|_| quiet())));
nested!("02", 2, [[D; 2]; 0], (C<0>, C<2>), (Dyn, C<2>), [0, 2], 0, af(|_| af(|_| quiet())));
nested!("213", 3, [[[D; 3]; 1]; 2], (C<2>, C<1>, C<3>), (C<2>, Dyn, C<3>), [2, 1, 3], 6, af(|_| af(|_| af(|_| quiet()))));
nested!("1213", 4, [[[[D; 3]; 1]; 2]; 1], (C<1>, C<2>, C<1>, C<3>), (Dyn, Dyn, C<1>, Dyn), [1, 2, 1, 3], 6, af(|_| af(|_| af(|_| af(|_| quiet())))));
nested!("31112", 5, [[[[[D; 2]; 1]; 1]; 1]; 3], (C<3>, C<1>, C<1>, C<1>, C<2>), (C<3>, Dyn, C<1>, Dyn, Dyn), [3, 1, 1, 1, 2], 6,
    af(|_| af(|_| af(|_| af(|_| af(|_| quiet()))))));
nested!("112131", 6, [[[[[[D; 1]; 3]; 1]; 2]; 1]; 1], (C<1>, C<1>, C<2>, C<1>, C<3>, C<1>), (Dyn, C<1>, Dyn, C<1>, C<3>, Dyn), [1, 1, 2, 1, 3, 1], 6,
    af(|_| af(|_| af(|_| af(|_| af(|_| af(|_| quiet())))))));
nested!("121212", 6, [[[[[[D; 2]; 1]; 2]; 1]; 2]; 1], (C<1>, C<2>, C<1>, C<2>, C<1>, C<2>), (Dyn, C<2>, Dyn, Dyn, C<1>, C<2>), [1, 2, 1, 2, 1, 2], 8,
    af(|_| af(|_| af(|_| af(|_| af(|_| af(|_| quiet())))))));
refused!("3", 1, [D; 3], [x2 [2], x4 [4], x0 [0], x1 [1]]);
refused!("23", 2, [[D; 3]; 2], [x32 [3, 2], x61 [6, 1], x16 [1, 6], x22 [2, 2], x24 [2, 4], x33 [3, 3], x13 [1, 3], x03 [0, 3], x20 [2, 0]]);
refused!("213", 3, [[[D; 3]; 1]; 2], [x312 [3, 1, 2], x123 [1, 2, 3], x231 [2, 3, 1], x212 [2, 1, 2], x113 [1, 1, 3], x223 [2, 2, 3], x611 [6, 1, 1]]);
refused!("1213", 4, [[[[D; 3]; 1]; 2]; 1], [x2213 [2, 2, 1, 3], x1113 [1, 1, 1, 3], x1223 [1, 2, 2, 3], x1212 [1, 2, 1, 2], x2113 [2, 1, 1, 3], x1231 [1, 2, 3, 1]]);
refused!("31112", 5, [[[[[D; 2]; 1]; 1]; 1]; 3], [x21112 [2, 1, 1, 1, 2], x32112 [3, 2, 1, 1, 2], x31212 [3, 1, 2, 1, 2], x31122 [3, 1, 1, 2, 2], x31113 [3, 1, 1, 1, 3], x21113 [2, 1, 1, 1, 3]]);
refused!("112131", 6, [[[[[[D; 1]; 3]; 1]; 2]; 1]; 1], [x212131 [2, 1, 2, 1, 3, 1], x122131 [1, 2, 2, 1, 3, 1], x111131 [1, 1, 1, 1, 3, 1], x112231 [1, 1, 2, 2, 3, 1], x112121 [1, 1, 2, 1, 2, 1], x112132 [1, 1, 2, 1, 3, 2], x113121 [1, 1, 3, 1, 2, 1]]);

// One-dimensional: vectors and slices.
macro_rules! flat {
    ($tag:literal, $n:literal) => {
        w!(concat!("vec_", $tag), {
            let mut v = Vec::with_capacity($n + 1);
            for _ in 0..$n { v.push(quiet()); }
            let i = rawids(v.as_ptr(), $n);
            let p = v.as_ptr();
            let t: Tensor<D, (Dyn,)> = Tensor::from(v);
            cp!(has(&*t, &[$n]) && ids(&*t).same(&i));
            {
                let s: &[D] = (*t).as_ref();
                cp!(s.len() == $n && s.as_ptr() == t.as_ptr());
                let s: &[D] = t.as_ref();
                cp!(s.len() == $n && s.as_ptr() == t.as_ptr());
                let v: View<D, (Dyn,)> = View::from(s);
                cp!(has(&*v, &[$n]) && v.as_ptr() == t.as_ptr());
                let s: &[D] = v.into();
                cp!(s.len() == $n && s.as_ptr() == t.as_ptr());
            }
            let mut t = t;
            {
                let p = t.as_ptr();
                let s: &mut [D] = (*t).as_mut();
                cp!(s.len() == $n && s.as_ptr() == p);
                let v: ViewMut<D, (Dyn,)> = ViewMut::from(s);
                cp!(has(&*v, &[$n]) && v.as_ptr() == p);
                let s: &mut [D] = v.into();
                cp!(s.len() == $n && s.as_ptr() == p);
            }
            let v = Vec::from(t);
            cp!(v.len() == $n && rawids(v.as_ptr(), $n).same(&i) && v.capacity() >= $n);
        });
        w!(concat!("veck_", $tag), {
            let t: Tensor<D, (C<$n>,)> = Tensor::from_fn((Const::<$n>,), |_| quiet());
            let i = ids(&*t);
            {
                let s: &[D] = (*t).as_ref();
                cp!(s.len() == $n && s.as_ptr() == t.as_ptr());
                let s: &[D] = t.expr().into();
                cp!(s.len() == $n && s.as_ptr() == t.as_ptr());
            }
            let v = Vec::from(t);
            cp!(v.len() == $n && rawids(v.as_ptr(), $n).same(&i));
        });
        w!(concat!("slice_", $tag), {
            let a: [D; $n] = af(|_| quiet());
            let i = rawvals(p_of(&a), $n);
            let t: Tensor<D, (Dyn,)> = Tensor::from(&a[..]);
            cp!(has(&*t, &[$n]) && vals(&*t).same(&i));
        });
        w!(concat!("iter_", $tag), {
            let a: [D; $n] = af(|_| quiet());
            let i = rawids(p_of(&a), $n);
            let t: Tensor<D, (Dyn,)> = a.into_iter().collect();
            cp!(has(&*t, &[$n]) && ids(&*t).same(&i));
        });
        w!(concat!("extend_", $tag), {
            let a: [D; $n] = af(|_| quiet());
            let i = rawids(p_of(&a), $n);
            let mut t: Tensor<D, (Dyn,)> = Tensor::from_fn([2], |_| quiet());
            let j = ids(&*t);
            t.extend(a);
            cp!(has(&*t, &[$n + 2]) && ids(&*t).at(0, &j, 0, 2) && ids(&*t).at(2, &i, 0, $n));
        });
        w!(concat!("extendref_", $tag), {
            let a: [u64; $n] = af(|_| fresh());
            let mut t: Tensor<u64, (Dyn,)> = Tensor::from_fn([2], |_| fresh());
            let j = [t[0], t[1]];
            t.extend(&a);
            cp!(has(&*t, &[$n + 2]) && t[0] == j[0] && t[1] == j[1]);
            for k in 0..$n { cp!(t[k + 2] == a[k]); }
        });
        w!(concat!("newextend_", $tag), {
            let a: [D; $n] = af(|_| quiet());
            let i = rawids(p_of(&a), $n);
            let mut t: Tensor<D, (Dyn,)> = Tensor::new();
            t.extend(a);
            cp!(has(&*t, &[$n]) && ids(&*t).same(&i));
        });
    };
}
flat!("0", 0);
flat!("1", 1);
flat!("3", 3);

// Same shape in the other kinds of array.
macro_rules! kinds {
    ($tag:literal, $r:literal, $k:ty, $m:ty, $d:expr) => {
        w4!(concat!("kind_", $tag), {
            let a = Array::<D, $k>::from_fn(|_| quiet());
            let i = ids(&*a);
            let t = Tensor::<D, $k>::from(a);
            cp!(has(&*t, &$d) && ids(&*t).same(&i));
            let t = t.into_mapping::<$m>();
            cp!(has(&*t, &$d) && ids(&*t).same(&i));
            let t = t.into_dyn();
            cp!(has(&*t, &$d) && ids(&*t).same(&i));
            let t = t.into_mapping::<Rank<$r>>();
            cp!(has(&*t, &$d) && ids(&*t).same(&i));
            let t = t.into_mapping::<$k>();
            cp!(has(&*t, &$d) && ids(&*t).same(&i));
            let a = Array::from(t);
            cp!(has(&*a, &$d) && ids(&*a).same(&i));
        });
        w4!(concat!("flat_", $tag), {
            let t = Tensor::<D, Rank<$r>>::from_fn($d, |_| quiet());
            let i = ids(&*t);
            let n = mul(&$d);
            let t = t.into_flat();
            cp!(has(&*t, &[n]) && ids(&*t).same(&i));
            let t = t.into_shape([1, n, 1]);
            cp!(has(&*t, &[1, n, 1]) && ids(&*t).same(&i));
            let t = t.into_shape([!0, 1]);
            cp!(has(&*t, &[n, 1]) && ids(&*t).same(&i));
            let t = t.into_shape((Const::<1>, !0usize, Const::<1>));
            cp!(has(&*t, &[1, n, 1]) && ids(&*t).same(&i));
            let t = t.into_shape($d);
            cp!(has(&*t, &$d) && ids(&*t).same(&i));
            let v = t.into_vec();
            cp!(v.len() == n && rawids(v.as_ptr(), n).same(&i));
        });
        w!(concat!("copy_", $tag), {
            let a = Array::<D, $k>::from_fn(|_| quiet());
            let i = vals(&*a);
            let t = a.to_tensor();
            cp!(has(&*t, &$d) && vals(&*t).same(&i));
            let t = Tensor::from(&a);
            cp!(has(&*t, &$d) && vals(&*t).same(&i));
            let t = Tensor::from(&*a);
            cp!(has(&*t, &$d) && vals(&*t).same(&i));
            let t = Tensor::from(a.expr());
            cp!(has(&*t, &$d) && vals(&*t).same(&i));
            let b = Array::from(&t);
            cp!(has(&*b, &$d) && vals(&*b).same(&i));
            let b = Array::from(t.expr());
            cp!(has(&*b, &$d) && vals(&*b).same(&i));
            let b = t.to_array();
            cp!(has(&*b, &$d) && vals(&*b).same(&i));
            let b = b.clone();
            cp!(has(&*b, &$d) && vals(&*b).same(&i));
        });
        w!(concat!("copym_", $tag), {
            let t = Tensor::<D, $m>::from_fn(<$m as Shape>::from_dims(&$d), |_| quiet());
            let i = vals(&*t);
            let v = t.to_vec();
            cp!(rawvals(v.as_ptr(), v.len()).same(&i));
            let b = t.clone();
            cp!(has(&*b, &$d) && vals(&*b).same(&i));
            let b = t.expr().cloned().eval();
            cp!(has(&*b, &$d) && vals(&*b).same(&i));
            let b = (*t).to_owned();
            cp!(has(&*b, &$d) && vals(&*b).same(&i));
            let b = Tensor::<D, $m>::from_expr(t.expr().cloned());
            cp!(has(&*b, &$d) && vals(&*b).same(&i));
            let j = ids(&*t);
            let b = Tensor::<D, $m>::from_expr(t);
            cp!(has(&*b, &$d) && ids(&*b).same(&j));
        });
        w!(concat!("clonefrom_", $tag), {
            let t = Tensor::<D, Rank<$r>>::from_fn($d, |_| quiet());
            let i = vals(&*t);
            let mut a = Tensor::<D, Rank<$r>>::from_fn($d.map(|x: usize| x + 1), |_| quiet());
            a.clone_from(&t);
            cp!(has(&*a, &$d) && vals(&*a).same(&i));
            let mut a = Tensor::<D, Rank<$r>>::from_fn($d.map(|_| 1usize), |_| quiet());
            (*t).clone_into(&mut a);
            cp!(has(&*a, &$d) && vals(&*a).same(&i));
            let mut a = Tensor::<D, DynRank>::from_fn(DynRank::from_dims(&[2, 2]), |_| quiet());
            a.clone_from(&t.clone().into_dyn());
            cp!(has(&*a, &$d) && vals(&*a).same(&i));
        });
        w!(concat!("clonefroma_", $tag), {
            let t = Array::<D, $k>::from_fn(|_| quiet());
            let i = vals(&*t);
            let mut a = Array::<D, $k>::from_fn(|_| quiet());
            a.clone_from(&t);
            cp!(has(&*a, &$d) && vals(&*a).same(&i));
            let mut a = Array::<D, $k>::from_fn(|_| quiet());
            (*t).clone_into(&mut a);
            cp!(has(&*a, &$d) && vals(&*a).same(&i));
        });
        // construction
        w!(concat!("fromfn_", $tag), {
            let mut k = 0;
            let mut i = Vals::new();
            let t = Tensor::<D, Rank<$r>>::from_fn($d, |x| {
                claim!(C16__called_with_the_index_in_order, good(x, &$d, k));
                k += 1;
                let y = quiet();
                i.push(y.id());
                y
            });
            cp!(k == mul(&$d) && has(&*t, &$d) && ids(&*t).same(&i));
        });
        w!(concat!("fromfna_", $tag), {
            let mut k = 0;
            let mut i = Vals::new();
            let t = Array::<D, $k>::from_fn(|x| {
                claim!(C16__called_with_the_index_in_order, good(x, &$d, k));
                k += 1;
                let y = quiet();
                i.push(y.id());
                y
            });
            cp!(k == mul(&$d) && has(&*t, &$d) && ids(&*t).same(&i));
        });
        w!(concat!("fromfnx_", $tag), {
            let mut k = 0;
            let mut i = Vals::new();
            let t = Tensor::from_fn(DynRank::from_dims(&$d), |x| {
                claim!(C16__called_with_the_index_in_order, good(x, &$d, k));
                k += 1;
                let y = quiet();
                i.push(y.id());
                y
            });
            cp!(k == mul(&$d) && has(&*t, &$d) && ids(&*t).same(&i));
        });
        w!(concat!("fromfnm_", $tag), {
            let mut k = 0;
            let mut i = Vals::new();
            let t = expr::from_fn(<$m as Shape>::from_dims(&$d), |x| {
                claim!(C16__called_with_the_index_in_order, good(x, &$d, k));
                k += 1;
                let y = quiet();
                i.push(y.id());
                y
            }).eval();
            cp!(k == mul(&$d) && has(&*t, &$d) && ids(&*t).same(&i));
        });
        // by stepping
        w!(concat!("fromfni_", $tag), {
            let mut k = 0;
            let d = $d;
            let mut j = 0;
            for x in expr::from_fn(<$m as Shape>::from_dims(&d), |x| { (good(x, &d, k), k += 1).0 }) {
                claim!(C06_C16__called_with_the_index_in_order, x);
                j += 1;
            }
            claim!(C06_C16__called_once_per_element, j == mul(&d) && k == j);
        });
        w!(concat!("fromelem_", $tag), {
            let x = quiet();
            let v = x.val();
            let t = Tensor::<D, Rank<$r>>::from_elem($d, x);
            cp!(has(&*t, &$d) && vals(&*t).all(v));
            let x = quiet();
            let v = x.val();
            let t = Array::<D, $k>::from_elem(x);
            cp!(has(&*t, &$d) && vals(&*t).all(v));
            let x = quiet();
            let v = x.val();
            let t = Tensor::from_elem(DynRank::from_dims(&$d), x);
            cp!(has(&*t, &$d) && vals(&*t).all(v));
            let x = quiet();
            let v = x.val();
            let t = expr::from_elem(<$m as Shape>::from_dims(&$d), x).eval();
            cp!(has(&*t, &$d) && vals(&*t).all(v));
        });
        w!(concat!("raw_", $tag), {
            let t = Tensor::<D, $m>::from_fn(<$m as Shape>::from_dims(&$d), |_| quiet());
            let i = ids(&*t);
            let (p, m, c) = t.into_raw_parts();
            cp!(c >= mul(&$d) && rawids(p, mul(&$d)).same(&i));
            let t = unsafe { Tensor::from_raw_parts(p, m, c) };
            cp!(has(&*t, &$d) && ids(&*t).same(&i));
        });
        // moved by iteration and by the expression
        w!(concat!("intoiter_", $tag), {
            let t = Tensor::<D, Rank<$r>>::from_fn($d, |_| quiet());
            let i = ids(&*t);
            let mut j = Vals::new();
            for x in t { j.push(x.id()); }
            claim!(C06_C16__moved_in_order, j.same(&i));
            let t = Array::<D, $k>::from_fn(|_| quiet());
            let i = ids(&*t);
            let mut j = Vals::new();
            for x in t { j.push(x.id()); }
            claim!(C06_C16__moved_in_order, j.same(&i));
            let t = Array::<D, $k>::from_fn(|_| quiet());
            let i = ids(&*t);
            let t = t.into_expr().eval();
            cp!(has(&*t, &$d) && ids(&*t).same(&i));
            let mut j = Vals::new();
            t.into_expr().for_each(|x| j.push(x.id()));
            claim!(C06_C16__moved_in_order, j.same(&i));
        });
        w!(concat!("intoexpr_", $tag), {
            let t = Tensor::<D, Rank<$r>>::from_fn($d, |_| quiet());
            let i = ids(&*t);
            let mut e = t.into_expr();
            cp!(has(e.as_ref(), &$d) && ids(e.as_ref()).same(&i));
            cp!(has(e.as_mut(), &$d) && ids(e.as_mut()).same(&i));
            let t = e.eval();
            cp!(has(&*t, &$d) && ids(&*t).same(&i));
            let t = Array::<D, $k>::from_fn(|_| quiet());
            let i = ids(&*t);
            let e = t.into_expr();
            cp!(has(e.as_ref(), &$d) && ids(e.as_ref()).same(&i));
            let mut j = Vals::new();
            for x in e { j.push(x.id()); }
            claim!(C06_C16__moved_in_order, j.same(&i));
        });
    };
}
#[inline(always)]
fn good(x: &[usize], d: &[usize], mut k: usize) -> bool {
    let mut ok = x.len() == d.len();
    let mut i = d.len();
    while ok && i > 0 {
        i -= 1;
        ok = x[i] == k % d[i];
        k /= d[i];
    }
    ok && k == 0
}
kinds!("3", 1, (C<3>,), (Dyn,), [3]);
kinds!("23", 2, (C<2>, C<3>), (Dyn, C<3>), [2, 3]);
kinds!("32", 2, (C<3>, C<2>), (C<3>, Dyn), [3, 2]);
kinds!("13", 2, (C<1>, C<3>), (C<1>, Dyn), [1, 3]);
kinds!("02", 2, (C<0>, C<2>), (Dyn, C<2>), [0, 2]);
kinds!("20", 2, (C<2>, C<0>), (Dyn, C<0>), [2, 0]);
kinds!("212", 3, (C<2>, C<1>, C<2>), (C<2>, Dyn, C<2>), [2, 1, 2]);
kinds!("123", 3, (C<1>, C<2>, C<3>), (Dyn, Dyn, C<3>), [1, 2, 3]);
kinds!("1212", 4, (C<1>, C<2>, C<1>, C<2>), (Dyn, C<2>, Dyn, C<2>), [1, 2, 1, 2]);
kinds!("11211", 5, (C<1>, C<1>, C<2>, C<1>, C<1>), (Dyn, C<1>, Dyn, C<1>, Dyn), [1, 1, 2, 1, 1]);
kinds!("211112", 6, (C<2>, C<1>, C<1>, C<1>, C<1>, C<2>), (Dyn, C<1>, Dyn, C<1>, C<1>, Dyn), [2, 1, 1, 1, 1, 2]);

// Rank 0.
w4!("rank0", {
    let a = Array::<D, ()>::from_fn(|x| { cp!(x.len() == 0); quiet() });
    let i = ids(&*a);
    cp!(has(&*a, &[]) && a.len() == 1);
    let t = Tensor::<D, ()>::from(a);
    cp!(has(&*t, &[]) && ids(&*t).same(&i));
    let t = t.into_dyn();
    cp!(has(&*t, &[]) && ids(&*t).same(&i));
    let t = t.into_mapping::<()>();
    let t = t.into_shape([1, 1]);
    cp!(has(&*t, &[1, 1]) && ids(&*t).same(&i));
    let t = t.into_shape(());
    cp!(has(&*t, &[]) && ids(&*t).same(&i));
    let a = Array::<D, ()>::from(t);
    cp!(ids(&*a).same(&i));
    let x = a.into_scalar();
    cp!(x.id() == i.v[0]);
});
w!("rank0elem", {
    let x = quiet();
    let v = x.val();
    let t = Tensor::<D, ()>::from_elem((), x);
    cp!(has(&*t, &[]) && vals(&*t).v[0] == v);
    let t = t.to_array();
    cp!(has(&*t, &[]) && vals(&*t).v[0] == v);
    let y = expr::fill(t.into_scalar()).eval();
    cp!(has(&*y, &[]) && vals(&*y).v[0] == v);
    let z = quiet();
    let i = z.id();
    let mut z = Some(z);
    let y = expr::fill_with(|| z.take().unwrap()).eval();
    cp!(has(&*y, &[]) && ids(&*y).v[0] == i);
});
w!("scalar", {
    let t = Tensor::<D, Rank<2>>::from_fn([1, 1], |_| quiet());
    let i = ids(&*t);
    cp!(t.into_scalar().id() == i.v[0]);
    let t = Array::<D, (C<1>, C<1>, C<1>)>::from_fn(|_| quiet());
    let i = ids(&*t);
    cp!(t.into_scalar().id() == i.v[0]);
    let t = Tensor::from_fn(DynRank::from_dims(&[1]), |_| quiet());
    let i = ids(&*t);
    cp!(t.into_scalar().id() == i.v[0]);
});
w4_panics!("scalar_2", { let _x = Tensor::<D, Rank<2>>::from_fn([1, 2], |_| quiet()).into_scalar(); });
w4_panics!("scalar_0", { let _x = Tensor::<D, Rank<2>>::from_fn([1, 0], |_| quiet()).into_scalar(); });
w4_panics!("scalara_2", { let _x = Array::<D, (C<2>,)>::from_fn(|_| quiet()).into_scalar(); });
w4_panics!("scalara_0", { let _x = Array::<D, (C<1>, C<0>)>::from_fn(|_| quiet()).into_scalar(); });
w4_panics!("shapea_longer", { let _x = Array::<D, (C<2>, C<2>)>::from_fn(|_| quiet()).into_shape::<(C<5>,)>(); });
w4_panics!("shapea_shorter", { let _x = Array::<D, (C<2>, C<2>)>::from_fn(|_| quiet()).into_shape::<(C<3>,)>(); });
w4_panics!("shapea_empty", { let _x = Array::<D, (C<2>, C<2>)>::from_fn(|_| quiet()).into_shape::<(C<3>, C<0>)>(); });
w4_panics!("shapea_from_empty", { let _x = Array::<D, (C<0>,)>::from_fn(|_| quiet()).into_shape::<()>(); });
w4_panics!("shape_longer", { let _x = Tensor::<D, Rank<2>>::from_fn([2, 2], |_| quiet()).into_shape([5]); });
w4_panics!("shape_shorter", { let _x = Tensor::<D, Rank<2>>::from_fn([2, 2], |_| quiet()).into_shape([3, 1]); });
w4_panics!("shape_infer", { let _x = Tensor::<D, Rank<2>>::from_fn([2, 2], |_| quiet()).into_shape([3, !0]); });
w4_panics!("shape_infer2", { let _x = Tensor::<D, Rank<2>>::from_fn([2, 2], |_| quiet()).into_shape([!0, !0]); });
w4_panics!("shape_infer0", { let _x = Tensor::<D, Rank<2>>::from_fn([2, 0], |_| quiet()).into_shape([0, !0, 2]); });
w4_panics!("shape_const", { let _x = Tensor::<D, Rank<2>>::from_fn([2, 2], |_| quiet()).into_shape((Const::<3>, !0usize)); });
w4_panics!("mapping_const", { let _x = Tensor::<D, Rank<2>>::from_fn([2, 3], |_| quiet()).into_mapping::<(C<3>, C<2>)>(); });
w4_panics!("mapping_const1", { let _x = Tensor::<D, Rank<2>>::from_fn([2, 3], |_| quiet()).into_mapping::<(Dyn, C<2>)>(); });
w4_panics!("mapping_const2", { let _x = Tensor::<D, Rank<2>>::from_fn([2, 3], |_| quiet()).into_mapping::<(C<3>, Dyn)>(); });
w4_panics!("mapping_rank", { let _x = Tensor::<D, Rank<2>>::from_fn([2, 3], |_| quiet()).into_mapping::<(Dyn,)>(); });
w4_panics!("mapping_rank1", { let _x = Tensor::<D, Rank<2>>::from_fn([2, 3], |_| quiet()).into_dyn().into_mapping::<(Dyn, Dyn, Dyn)>(); });
w4_panics!("mapping_rank0", { let _x = Tensor::<D, Rank<2>>::from_fn([1, 1], |_| quiet()).into_dyn().into_mapping::<()>(); });
w_panics!("new_const", { let _x = Tensor::<D, (Const<2>,)>::new(); });
w_panics!("new_const2", { let _x = Tensor::<D, (Const<2>, Const<1>)>::with_capacity(2); });
w_panics!("new_unit", { let _x = Tensor::<D, ()>::default(); });
w4!("shapea", {
    let a = Array::<D, (C<2>, C<3>)>::from_fn(|_| quiet());
    let i = ids(&*a);
    let a = a.into_shape::<(C<6>,)>();
    cp!(has(&*a, &[6]) && ids(&*a).same(&i));
    let a = a.into_shape::<(C<3>, C<1>, C<2>)>();
    cp!(has(&*a, &[3, 1, 2]) && ids(&*a).same(&i));
    let e = Array::<D, (C<2>, C<0>)>::from_fn(|_| quiet()).into_shape::<(C<0>, C<5>)>();
    cp!(has(&*e, &[0, 5]));
});
w4!("shape_const", {
    let a = Tensor::<D, Rank<2>>::from_fn([2, 3], |_| quiet());
    let i = ids(&*a);
    let a = a.into_shape((Const::<3>, Const::<2>));
    cp!(has(&*a, &[3, 2]) && ids(&*a).same(&i));
    let a = a.into_shape((Const::<2>, !0usize, Const::<1>));
    cp!(has(&*a, &[2, 3, 1]) && ids(&*a).same(&i));
    let a = a.into_shape(DynRank::from_dims(&[6, 1]));
    cp!(has(&*a, &[6, 1]) && ids(&*a).same(&i));
    let a = a.into_shape(DynRank::from_dims(&[1, 2, !0]));
    cp!(has(&*a, &[1, 2, 3]) && ids(&*a).same(&i));
    let e = Tensor::<D, Rank<2>>::from_fn([2, 0], |_| quiet()).into_shape([3, !0]);
    cp!(has(&*e, &[3, 0]));
});
w!("new", {
    cp!(has(&*Tensor::<D, (Dyn,)>::new(), &[0]));
    cp!(has(&*Tensor::<D, (Dyn, Dyn, Dyn)>::default(), &[0, 0, 0]));
    cp!(has(&*Tensor::<D, (Dyn, C<3>)>::new(), &[0, 3]));
    cp!(has(&*Tensor::<D, (C<2>, Dyn)>::new(), &[2, 0]));
    cp!(has(&*Tensor::<D, (C<2>, C<0>)>::new(), &[2, 0]));
    cp!(Tensor::<D, DynRank>::new().len() == 0 && Tensor::<D, DynRank>::new().rank() == 1);
    let t = Tensor::<D, (Dyn, C<3>)>::with_capacity(5);
    cp!(has(&*t, &[0, 3]) && t.capacity() >= 5);
});
w!("default", {
    let a = Array::<u64, (C<2>, C<3>)>::default();
    cp!(has(&*a, &[2, 3]));
    for k in 0..6 { cp!(unsafe { *a.as_ptr().add(k) } == 0); }
});

// Copies of parts.
macro_rules! part {
    ($tag:literal, $t:expr, |$x:ident| $v:expr, $d:expr) => {
        w!(concat!("part_", $tag), {
            let $x = $t;
            let v = $v;
            cp!(hasv(&v, &$d));
            let i = strided(&v);
            let t = v.to_tensor();
            cp!(has(&*t, &$d) && vals(&*t).same(&i));
            let t = Tensor::from(&v);
            cp!(has(&*t, &$d) && vals(&*t).same(&i));
            let t = v.to_vec();
            cp!(rawvals(t.as_ptr(), t.len()).same(&i));
            let t = v.expr().cloned().eval();
            cp!(has(&*t, &$d) && vals(&*t).same(&i));
            let t = v.into_dyn().to_tensor();
            cp!(has(&*t, &$d) && vals(&*t).same(&i));
        });
    };
}
#[inline(always)]
fn t1(n: usize) -> Tensor<D, Rank<1>> {
    Tensor::from_fn([n], |_| quiet())
}
#[inline(always)]
fn t2(n: usize, m: usize) -> Tensor<D, Rank<2>> {
    Tensor::from_fn([n, m], |_| quiet())
}
#[inline(always)]
fn t3(n: usize, m: usize, k: usize) -> Tensor<D, Rank<3>> {
    Tensor::from_fn([n, m, k], |_| quiet())
}
part!("1_range", t1(5), |t| t.view(1..4), [3]);
part!("1_step", t1(5), |t| t.view(step(.., 2)), [3]);
part!("1_back", t1(5), |t| t.view(step(1.., -1)), [4]);
part!("2_range", t2(3, 4), |t| t.view(1.., 1..3), [2, 2]);
part!("2_step", t2(3, 4), |t| t.view(step(.., 2), step(.., 3)), [2, 2]);
part!("2_back", t2(2, 3), |t| t.view(.., step(.., -1)), [2, 3]);
part!("2_perm", t2(2, 3), |t| t.permute([1, 0]), [3, 2]);
part!("2_perm1", t2(1, 3), |t| t.permute([1, 0]), [3, 1]);
part!("2_col", t2(3, 2), |t| t.col(1), [3]);
part!("2_diag", t2(3, 2), |t| t.diag(-1), [2]);
part!("2_empty", t2(3, 2), |t| t.view(1..1, ..), [0, 2]);
part!("3_perm", t3(2, 1, 3), |t| t.permute([2, 0, 1]), [3, 2, 1]);
part!("3_mid", t3(2, 3, 2), |t| t.view(.., 1.., ..), [2, 2, 2]);
part!("3_axis", t3(2, 3, 2), |t| t.axis_at(Const::<1>, 1), [2, 2]);
part!("3_axis2", t3(2, 2, 3), |t| t.axis_at(Const::<2>, 1), [2, 2]);
part!("3_reord", t3(2, 1, 2), |t| t.reorder(), [2, 1, 2]);
w!("sub_tensor", {
    let t = t2(3, 4);
    let i = vals(&*t);
    let a = t.tensor(1.., step(.., 2));
    cp!(has(&*a, &[2, 2]));
    let v = vals(&*a);
    cp!(v.v[0] == i.v[4] && v.v[1] == i.v[6] && v.v[2] == i.v[8] && v.v[3] == i.v[10]);
    let a = t.tensor(2, 1..3);
    let v = vals(&*a);
    cp!(has(&*a, &[2]) && v.v[0] == i.v[9] && v.v[1] == i.v[10]);
    let a = t.tensor(2, 1);
    cp!(has(&*a, &[]) && vals(&*a).v[0] == i.v[9]);
    let t = t3(2, 2, 3);
    let i = vals(&*t);
    let a = t.tensor(1, .., 2);
    let v = vals(&*a);
    cp!(has(&*a, &[2]) && v.v[0] == i.v[8] && v.v[1] == i.v[11]);
    let a = t.tensor(.., 0, 1..);
    let v = vals(&*a);
    cp!(has(&*a, &[2, 2]) && v.v[0] == i.v[1] && v.v[1] == i.v[2] && v.v[2] == i.v[7] && v.v[3] == i.v[8]);
});
w!("sub_array", {
    let t = Array::<D, (C<2>, C<3>)>::from_fn(|_| quiet());
    let i = vals(&*t);
    let a = t.array(.., 1);
    let v = vals(&*a);
    cp!(has(&*a, &[2]) && v.v[0] == i.v[1] && v.v[1] == i.v[4]);
    let a = t.array(1, ..);
    let v = vals(&*a);
    cp!(has(&*a, &[3]) && v.v[0] == i.v[3] && v.v[2] == i.v[5]);
    let a = t.array(.., ..);
    cp!(has(&*a, &[2, 3]) && vals(&*a).same(&i));
    let t = Tensor::<D, (C<3>, Dyn)>::from_fn((Const::<3>, 2), |_| quiet());
    let i = vals(&*t);
    let a = t.array(.., 1);
    let v = vals(&*a);
    cp!(has(&*a, &[3]) && v.v[0] == i.v[1] && v.v[1] == i.v[3] && v.v[2] == i.v[5]);
    let a = t.array(2, 1);
    cp!(has(&*a, &[]) && vals(&*a).v[0] == i.v[5]);
});
w!("into_cloned", {
    let x = quiet();
    let (v, i) = (x.val(), x.id());
    let y: D = (&x).into_cloned();
    cp!(y.val() == v && y.id() != i && x.id() == i);
    let mut z = quiet();
    (&x).clone_to(&mut z);
    cp!(z.val() == v);
    let mut z = quiet();
    x.clone_to(&mut z);
    cp!(z.id() == i);
    let z: D = z.into_cloned();
    cp!(z.id() == i);
});
w!("spare", {
    let mut t = t2(2, 2);
    t.reserve(3);
    let (n, p, c) = (t.len(), t.as_ptr(), t.capacity());
    let s = t.spare_capacity_mut();
    cp!(s.len() == c - n && s.as_ptr() as *const D == unsafe { p.add(n) });
    let x = quiet();
    let y = quiet();
    let (i, j) = (x.id(), y.id());
    s[0].write(x);
    s[1].write(y);
    unsafe { t.set_mapping(DenseMapping::new((3, 2))) };
    claim!(C09_C10_C16__mapping_set, has(&*t, &[3, 2]) && ids(&*t).v[4] == i && ids(&*t).v[5] == j);
});

// Macros.
#[derive(Clone, Copy)]
struct Seq {
    n: usize,
    v: [u64; 16],
}
impl Seq {
    #[inline(always)]
    fn e(&mut self) -> D {
        let x = quiet();
        self.v[self.n] = x.id();
        self.n += 1;
        x
    }
}
macro_rules! seq {
    () => { Seq { n: 0, v: [0; 16] } };
}
#[inline(always)]
fn written<S: Shape>(t: &Slice<D, S>, d: &[usize], s: &Seq) {
    claim!(C20__dimensions_as_written, has(t, d));
    let i = ids(t);
    claim!(C20__elements_evaluated_once, i.n == s.n);
    for k in 0..s.n {
        claim!(C20__elements_as_written, i.v[k] == s.v[k]);
    }
}
macro_rules! lit {
    ($tag:literal, $s:ident, $d:expr, [$($x:tt)*]) => {
        w20!(concat!("array_", $tag), { let mut $s = seq!(); let a = array![$($x)*]; written(&a, &$d, &$s); });
        w20!(concat!("tensor_", $tag), { let mut $s = seq!(); let a = tensor![$($x)*]; written(&a, &$d, &$s); });
        w20!(concat!("view_", $tag), { let mut $s = seq!(); written(&view![$($x)*], &$d, &$s); });
    };
}
lit!("1", s, [3], [s.e(), s.e(), s.e()]);
lit!("1t", s, [2], [s.e(), s.e(),]);
lit!("2", s, [2, 3], [[s.e(), s.e(), s.e()], [s.e(), s.e(), s.e()]]);
lit!("2t", s, [3, 2], [[s.e(), s.e(),], [s.e(), s.e()], [s.e(), s.e()],]);
lit!("2u", s, [1, 3], [[s.e(), s.e(), s.e()]]);
lit!("2v", s, [3, 1], [[s.e()], [s.e()], [s.e()]]);
lit!("3", s, [2, 1, 3], [[[s.e(), s.e(), s.e()]], [[s.e(), s.e(), s.e()]]]);
lit!("3t", s, [1, 2, 2], [[[s.e(), s.e()], [s.e(), s.e()],],]);
lit!("4", s, [1, 2, 1, 2], [[[[s.e(), s.e()]], [[s.e(), s.e()]]]]);
lit!("4b", s, [2, 1, 2, 1], [[[[s.e()], [s.e()]]], [[[s.e()], [s.e()]]]]);
lit!("5", s, [1, 2, 1, 1, 3], [[[[[s.e(), s.e(), s.e()]]], [[[s.e(), s.e(), s.e()]]]]]);
lit!("5b", s, [2, 1, 1, 2, 1], [[[[[s.e()], [s.e()]]]], [[[[s.e()], [s.e()]]]]]);
lit!("6", s, [1, 1, 2, 1, 1, 3], [[[[[[s.e(), s.e(), s.e()]]], [[[s.e(), s.e(), s.e()]]]]]]);
lit!("6b", s, [2, 1, 1, 2, 2, 1], [[[[[[s.e()], [s.e()]], [[s.e()], [s.e()]]]]], [[[[[s.e()], [s.e()]], [[s.e()], [s.e()]]]]]]);
w20!("empty", {
    let a: Array<u64, (C<0>,)> = array![];
    claim!(C20__dimensions_as_written, has(&*a, &[0]));
    let a: Tensor<u64, Rank<1>> = tensor![];
    claim!(C20__dimensions_as_written, has(&*a, &[0]));
    let a: View<u64, Rank<1>> = view![];
    claim!(C20__dimensions_as_written, has(&*a, &[0]));
    let a: Tensor<u64, Rank<2>> = tensor![[]];
    claim!(C20__dimensions_as_written, has(&*a, &[1, 0]));
    let a: Array<u64, (C<2>, C<0>)> = array![[], []];
    claim!(C20__dimensions_as_written, has(&*a, &[2, 0]));
});
/// Repeat form with copyable elements: the expression is evaluated once.
macro_rules! rep {
    ($tag:literal, $k:ident, $d:expr, [$($x:tt)*]) => {
        w20!(concat!("array_rep", $tag), { let mut $k = 0; let a = array![$($x)*]; repeated(&a, &$d, $k); });
        w20!(concat!("tensor_rep", $tag), { let mut $k = 0; let a = tensor![$($x)*]; repeated(&a, &$d, $k); });
        w20!(concat!("view_rep", $tag), { let mut $k = 0; repeated(&view![$($x)*], &$d, $k); });
    };
}
#[inline(always)]
fn repeated<S: Shape>(t: &Slice<u64, S>, d: &[usize], k: usize) {
    let p = t.as_ptr();
    claim!(C20__dimensions_as_written, has(t, d));
    claim!(C20__element_evaluated_once, k == 1);
    for i in 1..t.len() {
        claim!(C20__elements_repeated, unsafe { *p.add(i) == *p });
    }
}
rep!("1", k, [3], [{ k += 1; fresh() }; 3]);
rep!("2", k, [3, 2], [[{ k += 1; fresh() }; 2]; 3]);
rep!("3", k, [2, 1, 3], [[[{ k += 1; fresh() }; 3]; 1]; 2]);
rep!("4", k, [1, 2, 4, 3], [[[[{ k += 1; fresh() }; 3]; 4]; 2]; 1]);
rep!("5", k, [4, 1, 2, 1, 3], [[[[[{ k += 1; fresh() }; 3]; 1]; 2]; 1]; 4]);
rep!("6", k, [2, 4, 1, 3, 1, 1], [[[[[[{ k += 1; fresh() }; 1]; 1]; 3]; 1]; 4]; 2]);
rep!("6b", k, [1, 1, 4, 1, 3, 2], [[[[[[{ k += 1; fresh() }; 2]; 3]; 1]; 4]; 1]; 1]);
/// Tensors clone the element, with any shape.
macro_rules! repd {
    ($tag:literal, $y:ident, $f:ident, $d:expr, [$($x:tt)*]) => {
        w20!(concat!("tensor_clone", $tag), {
            let $y = quiet();
            let v = $y.val();
            let $f = |n: usize| n;
            let a = tensor![$($x)*];
            claim!(C20__dimensions_as_written, has(&*a, &$d));
            claim!(C20__element_cloned, vals(&*a).all(v));
        });
    };
}
repd!("0", y, n, [0], [y; n(0)]);
repd!("1", y, n, [3], [y; n(3)]);
repd!("2", y, n, [3, 2], [[y; n(2)]; n(3)]);
repd!("2z", y, n, [0, 2], [[y; n(2)]; n(0)]);
repd!("3", y, n, [2, 1, 3], [[[y; n(3)]; n(1)]; n(2)]);
repd!("4", y, n, [1, 2, 1, 3], [[[[y; n(3)]; n(1)]; n(2)]; n(1)]);
repd!("5", y, n, [4, 1, 2, 1, 1], [[[[[y; n(1)]; n(1)]; n(2)]; n(1)]; n(4)]);
repd!("6", y, n, [2, 1, 1, 3, 1, 1], [[[[[[y; n(1)]; n(1)]; n(3)]; n(1)]; n(1)]; n(2)]);

// Shapes from every form they can be given in.
#[inline(always)]
fn shape_is<S: Shape>(s: &S, d: &[usize]) -> bool {
    let mut ok = s.rank() == d.len() && s.len() == d.iter().fold(1, |a, b| a * b) && s.is_empty() == d.contains(&0);
    for i in 0..d.len() {
        ok = ok && s.dim(i) == d[i];
    }
    ok && s.with_dims(|x| same_dims(x, d))
}
#[inline(always)]
fn same_dims(x: &[usize], d: &[usize]) -> bool {
    let mut ok = x.len() == d.len();
    for i in 0..d.len() {
        ok = ok && x.len() > i && x[i] == d[i];
    }
    ok
}
macro_rules! forms {
    ($tag:literal, $n:literal, $d:expr) => {
        w!(concat!("form_", $tag), {
            let d: [usize; $n] = $d;
            claim!(C13_C16__shape_of_array, shape_is(&d.into_shape(), &d) && d.into_dims(|x| same_dims(x, &d)));
            claim!(C13_C16__shape_of_array_ref, shape_is(&(&d).into_shape(), &d) && (&d).into_dims(|x| same_dims(x, &d)));
            claim!(C13_C16__shape_of_slice, shape_is(&d[..].into_shape(), &d) && d[..].into_dims(|x| same_dims(x, &d)));
            claim!(C13_C16__shape_of_vec, shape_is(&vec_of(&d).into_shape(), &d) && vec_of(&d).into_dims(|x| same_dims(x, &d)));
            claim!(C13_C16__shape_of_box, shape_is(&vec_of(&d).into_boxed_slice().into_shape(), &d) && vec_of(&d).into_boxed_slice().into_dims(|x| same_dims(x, &d)));
            let s = DynRank::from_dims(&d);
            claim!(C13_C16__shape_of_dynrank, shape_is(&s, &d) && same_dims(s.dims(), &d) && shape_is(&s.clone().into_shape(), &d) && s.clone().into_dims(|x| same_dims(x, &d)));
            let mut s = DynRank::new($n);
            claim!(C13_C16__new_shape, s.rank() == $n);
            s.with_mut_dims(|x| x.copy_from_slice(&d));
            claim!(C13_C16__dimensions_set, shape_is(&s, &d));
            let mut s = d.into_shape();
            s.with_mut_dims(|x| { for i in 0..$n { x[i] += 1; } });
            claim!(C13_C16__dimensions_changed, (0..$n).all(|i| s.dim(i) == d[i] + 1));
        });
        w!(concat!("formed_", $tag), {
            let d: [usize; $n] = $d;
            let t = Tensor::<u8, DynRank>::from_elem(vec_of(&d), 1);
            claim!(C13_C16_C10__shape_of_vec, has(&*t, &d) && shape_is(t.shape(), &d));
            let t = Tensor::<u8, DynRank>::from_elem(&d, 1);
            claim!(C13_C16_C10__shape_of_array_ref, has(&*t, &d) && shape_is(t.shape(), &d));
            let t = Tensor::<u8, _>::from_elem(d, 1);
            claim!(C13_C16_C10__shape_of_array, has(&*t, &d) && shape_is(t.shape(), &d));
            claim!(C13_C16_C04__reshaped, has(&*t.reshape(vec_of(&d)), &d) && has(&*t.reshape(vec_of(&d).into_boxed_slice()), &d) && has(&*t.reshape(&d[..]), &d));
        });
    };
}
#[inline(always)]
fn vec_of(d: &[usize]) -> Vec<usize> {
    let mut v = Vec::with_capacity(8);
    for i in 0..d.len() {
        v.push(d[i]);
    }
    v
}
forms!("0", 0, []);
forms!("1", 1, [3]);
forms!("1u", 1, [1]);
forms!("1z", 1, [0]);
forms!("2", 2, [2, 3]);
forms!("2u", 2, [1, 2]);
forms!("2v", 2, [2, 1]);
forms!("3", 3, [2, 1, 3]);
forms!("3z", 3, [2, 0, 3]);
forms!("4", 4, [1, 2, 1, 3]);
forms!("5", 5, [1, 2, 3, 1, 2]);
forms!("6", 6, [2, 1, 1, 3, 2, 1]);

// A shape or tensor of dynamic rank that is overwritten by another one.
macro_rules! overwrite {
    ($tag:literal, $a:expr, $b:expr) => {
        w!(concat!("overwrite_", $tag), {
            let mut s = DynRank::from_dims(&$a);
            s.clone_from(&DynRank::from_dims(&$b));
            claim!(C13_C14_C16__shape_overwritten, shape_is(&s, &$b));
            let mut s = vec_of(&$a).into_shape();
            s.clone_from(&DynRank::from_dims(&$b));
            claim!(C13_C14_C16__boxed_shape_overwritten, shape_is(&s, &$b));
            let mut s = DynRank::from_dims(&$a);
            s.clone_from(&vec_of(&$b).into_shape());
            claim!(C13_C14_C16__shape_overwritten_by_boxed, shape_is(&s, &$b) && s == DynRank::from_dims(&$b));
            let mut t = Tensor::<u8, DynRank>::from_elem(&$a[..], 1);
            t.clone_from(&Tensor::from_elem(&$b[..], 2));
            claim!(C10_C13_C16__tensor_overwritten, has(&*t, &$b) && shape_is(t.shape(), &$b));
        });
    };
}
overwrite!("1_1", [2], [3]);
overwrite!("1_2", [2], [3, 1]);
overwrite!("2_1", [2, 3], [4]);
overwrite!("2_2", [2, 3], [1, 4]);
overwrite!("3_2", [2, 1, 3], [1, 4]);
overwrite!("3_1", [2, 1, 3], [5]);
overwrite!("2_3", [2, 2], [3, 1, 1]);
overwrite!("4_3", [1, 2, 1, 2], [3, 1, 1]);
overwrite!("3_3", [1, 2, 2], [3, 1, 1]);
overwrite!("3_2z", [1, 0, 2], [3, 0]);
