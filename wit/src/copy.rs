//! Copies of views, expressions and iterators: a copy describes the same elements as the original,
//! whatever was in the place it is copied to, and goes on independently of it.
use crate::common::*;

/// The same memory in the same arrangement.
macro_rules! same {
    ($w:expr, $p:expr, $R:literal, $n:expr, $s:expr) => {{
        let mut d = 0;
        claim!(C01_C03__copy_refers_to_the_same_memory, $w.as_ptr() == $p && $w.rank() == $R);
        while d < $R {
            claim!(C01_C03__copy_has_the_same_dimensions, $w.dim(d) == $n[d]);
            claim!(C01_C03__copy_has_the_same_strides, $w.stride(d) == $s[d]);
            d += 1;
        }
    }};
}

macro_rules! views {
    ($tag:literal, $R:literal, [$($e:literal),*], [$($c:tt)*], [$($o:expr),*]) => {
        const _: () = {
            #[unsafe(export_name = concat!("t__C01_C03__clone_s_", $tag))]
            pub fn s(p: P, q: P, n: &[N; $R], m: &[N; $R], s: &[isize; $R], t: &[isize; $R]) {
                let (n, m) = (z(n), z(m));
                let v = vs(p, ($(n[$e],)*), s);
                let mut w = vs(q, ($(m[$e],)*), t);
                same!(v.clone(), p, $R, n, s);
                w.clone_from(&v);
                same!(w, p, $R, n, s);
                same!(v, p, $R, n, s);
                let x = w;
                same!(x, p, $R, n, s);
                let k = StridedMapping::clone(v.mapping());
                let mut j = StridedMapping::new(($(m[$e],)*), t);
                j.clone_from(&k);
                claim!(C01_C03__copy_of_a_mapping_is_equal, j == k && &k == v.mapping());
                let e = v.expr().clone();
                same!(e, p, $R, n, s);
                reach!(R__end);
            }
            #[unsafe(export_name = concat!("t__C01_C03__clone_d_", $tag))]
            pub fn d(p: P, q: P, n: &[N; $R], m: &[N; $R]) {
                let (n, m) = (z(n), z(m));
                let s = dense(n, [0; $R]);
                let v = vd(p, ($(n[$e],)*));
                let mut w = vd(q, ($(m[$e],)*));
                same!(v.clone(), p, $R, n, s);
                w.clone_from(&v);
                same!(w, p, $R, n, s);
                let k = DenseMapping::clone(v.mapping());
                let mut j = DenseMapping::new(($(m[$e],)*));
                j.clone_from(&k);
                claim!(C01_C03__copy_of_a_mapping_is_equal, j == k && &k == v.mapping());
                reach!(R__end);
            }
            #[unsafe(export_name = concat!("t__C01_C03__clone_x_", $tag))]
            pub fn x(p: P, q: P, n: &[N; $R], m: &[N; $R], s: &[isize; $R], t: &[isize; $R]) {
                let (n, m) = (z(n), z(m));
                let v = vs(p, DynRank::from_dims(&n), s);
                let mut w = vs(q, DynRank::from_dims(&m), t);
                same!(v.clone(), p, $R, n, s);
                w.clone_from(&v);
                same!(w, p, $R, n, s);
                // from another rank
                let mut u = vs(q, DynRank::from_dims(&[$($o),*]), &[$($o as isize),*]);
                u.clone_from(&v);
                same!(u, p, $R, n, s);
                let mut u = vd(q, DynRank::from_dims(&[$($o),*]));
                let v = vd(p, DynRank::from_dims(&n));
                u.clone_from(&v);
                same!(u, p, $R, n, dense(n, [0; $R]));
                same!(v.clone(), p, $R, n, dense(n, [0; $R]));
                reach!(R__end);
            }
            #[unsafe(export_name = concat!("t__C01_C03__clone_c_", $tag))]
            pub fn c(p: P, q: P, n: &[N; $R], m: &[N; $R], s: &[isize; $R], t: &[isize; $R]) {
                let (mut n, m) = (z(n), z(m));
                let v = vs(p, mixed!(n; $($c)*), s);
                let mut w = vs(q, mixed!(m; $($c)*), t);
                fixed!(n; $($c)*);
                same!(v.clone(), p, $R, n, s);
                w.clone_from(&v);
                same!(w, p, $R, n, s);
                reach!(R__end);
            }
        };
    };
}
macro_rules! mixed {
    ($n:ident; $(($e:literal $($k:literal)?))*) => { ($(dim!($n $e $($k)?),)*) };
}
macro_rules! dim {
    ($n:ident $e:literal) => { $n[$e] };
    ($n:ident $e:literal $k:literal) => { Const::<$k> };
}
macro_rules! fixed {
    ($n:ident; $(($e:literal $($k:literal)?))*) => { $($($n[$e] = $k;)?)* };
}
views!("1", 1, [0], [(0)], [4, 5]);
views!("2", 2, [0, 1], [(0 3) (1)], [4]);
views!("3", 3, [0, 1, 2], [(0) (1 2) (2)], [7, 3]);
views!("4", 4, [0, 1, 2, 3], [(0) (1 2) (2 4) (3)], [4, 2, 1]);

fn ptr(x: &u64) -> P {
    x
}
fn index<const R: usize>(i: &[usize]) -> [usize; R] {
    let mut j = [0; R];
    j.copy_from_slice(i);
    j
}

// Iterators
macro_rules! fork {
    ($tag:expr, $pr:literal, $R:literal, [$($d:literal),*], $new:ident, |$p:ident, $s:ident, $n:ident| $it:expr, $len:expr, |$k:ident, $x:ident| $ok:expr) => {
        const _: () = {
            #[unsafe(export_name = concat!("t__", $pr, "__forkf_", $tag))]
            pub fn f0($p: P, s: &[isize; $R]) {
                let $n: [usize; $R] = [$($d),*];
                let $s: [isize; $R] = $new($n, *s);
                forked($it, Some($it), $len, 1, |$k, $x| $ok);
            }
            #[unsafe(export_name = concat!("t__", $pr, "__fork1_", $tag))]
            pub fn f1($p: P, s: &[isize; $R]) {
                let $n: [usize; $R] = [$($d),*];
                let $s: [isize; $R] = $new($n, *s);
                forked($it, None, $len, 1, |$k, $x| $ok);
            }
            #[unsafe(export_name = concat!("t__", $pr, "__fork3_", $tag))]
            pub fn f3($p: P, s: &[isize; $R]) {
                let $n: [usize; $R] = [$($d),*];
                let $s: [isize; $R] = $new($n, *s);
                forked($it, None, $len, 3, |$k, $x| $ok);
            }
        };
    };
}

macro_rules! iters {
    ($tag:literal, $R:literal, [$($d:literal),*]) => {
        fork!(concat!("s_", $tag), "C06", $R, [$($d),*], free, |p, s, n| vs(p, ($($d as usize,)*), &s).into_iter(), prod(n), |k, x| (x as P) == at(p, offset(s, unlin(n, k))));
        fork!(concat!("d_", $tag), "C06", $R, [$($d),*], dense, |p, s, n| vd(p, ($($d as usize,)*)).into_iter(), prod(n), |k, x| (x as P) == at(p, k as isize));
        fork!(concat!("xs_", $tag), "C06", $R, [$($d),*], free, |p, s, n| vs(p, DynRank::from_dims(&n), &s).into_iter(), prod(n), |k, x| (x as P) == at(p, offset(s, unlin(n, k))));
        fork!(concat!("en_", $tag), "C06", $R, [$($d),*], free, |p, s, n| vs(p, ($($d as usize,)*), &s).into_expr().enumerate().into_iter(), prod(n), |k, x| (x.1 as P) == at(p, offset(s, unlin(n, k))) && x.0 == k);
        fork!(concat!("map_", $tag), "C06", $R, [$($d),*], free, |p, s, n| vs(p, ($($d as usize,)*), &s).into_expr().map(ptr).into_iter(), prod(n), |k, x| x == at(p, offset(s, unlin(n, k))));
        fork!(concat!("fn_", $tag), "C06", $R, [$($d),*], free, |p, s, n| expr::from_fn([$($d as usize),*], index::<$R>).into_iter(), prod(n), |k, x| x == unlin(n, k));
        fork!(concat!("el_", $tag), "C06", $R, [$($d),*], free, |p, s, n| expr::from_elem([$($d as usize),*], p).into_iter(), prod(n), |k, x| x == p);
        fork!(concat!("zip_", $tag), "C06_C08", $R, [$($d),*], free, |p, s, n| vs(p, ($($d as usize,)*), &s).into_expr().zip(vd(p, ($($d as usize,)*))).into_iter(), prod(n), |k, x| (x.0 as P) == at(p, offset(s, unlin(n, k))) && (x.1 as P) == at(p, k as isize));
    };
}
iters!("1_4", 1, [4]);
iters!("2_23", 2, [2, 3]);
iters!("2_30", 2, [3, 0]);
iters!("3_212", 3, [2, 1, 2]);

macro_rules! same_view {
    ($w:ident, $K:literal, $dims:expr, $st:expr, $base:expr) => {{
        let dims: [usize; $K] = $dims;
        let st: [isize; $K] = $st;
        let base: P = $base;
        let mut ok = $w.rank() == $K;
        let mut d = 0;
        while d < $K {
            ok = ok && $w.dim(d) == dims[d];
            d += 1;
        }
        let mut k = 0;
        while k < prod(dims) {
            let j = unlin(dims, k);
            ok = ok && $w.len() > k && (unsafe { (*$w).get_unchecked(j) } as P) == at(base, offset(st, j));
            k += 1;
        }
        ok
    }};
}

macro_rules! axis {
    ($tag:expr, $R:literal, $K:literal, [$($d:literal),*], $a:literal, [$($r:literal),*], $axis:expr) => {
        fork!(concat!("axis_s_", $tag), "C07", $R, [$($d),*], free, |p, s, n| vs(p, ($($d as usize,)*), &s).axis_expr($axis).into_iter(), n[$a],
            |k, x| same_view!(x, $K, [$(n[$r]),*], [$(s[$r]),*], at(p, m(s[$a], k))));
        fork!(concat!("axis_xd_", $tag), "C07", $R, [$($d),*], dense, |p, s, n| vd(p, DynRank::from_dims(&n)).axis_expr($axis).into_iter(), n[$a],
            |k, x| same_view!(x, $K, [$(n[$r]),*], [$(s[$r]),*], at(p, m(s[$a], k))));
        fork!(concat!("lanes_s_", $tag), "C07", $R, [$($d),*], free, |p, s, n| vs(p, ($($d as usize,)*), &s).lanes($axis).into_iter(), prod::<$K>([$(n[$r]),*]),
            |k, x| same_view!(x, 1, [n[$a]], [s[$a]], at(p, offset::<$K>([$(s[$r]),*], unlin([$(n[$r]),*], k)))));
        fork!(concat!("lanes_xd_", $tag), "C07", $R, [$($d),*], dense, |p, s, n| vd(p, DynRank::from_dims(&n)).lanes($axis).into_iter(), prod::<$K>([$(n[$r]),*]),
            |k, x| same_view!(x, 1, [n[$a]], [s[$a]], at(p, offset::<$K>([$(s[$r]),*], unlin([$(n[$r]),*], k)))));
        fork!(concat!("lzip_", $tag), "C07_C08", $R, [$($d),*], free, |p, s, n| vs(p, ($($d as usize,)*), &s).lanes($axis).enumerate().into_iter(), prod::<$K>([$(n[$r]),*]),
            |k, y| { let (i, x) = y; i == k && same_view!(x, 1, [n[$a]], [s[$a]], at(p, offset::<$K>([$(s[$r]),*], unlin([$(n[$r]),*], k)))) });
    };
}
axis!("0of2_32", 2, 1, [3, 2], 0, [1], Const::<0>);
axis!("1of2_32", 2, 1, [3, 2], 1, [0], 1usize);
axis!("1of3_222", 3, 2, [2, 2, 2], 1, [0, 2], Const::<1>);
axis!("2of3_232", 3, 2, [2, 3, 2], 2, [0, 1], Rows);

// Expressions copied over others of another array.
macro_rules! over {
    ($tag:literal, $n:expr, $m:expr, |$p:ident, $n1:ident, $s:ident| $e:expr, $R:literal, $K:literal, $len:expr, |$k:ident, $x:ident| $ok:expr) => {
        #[unsafe(export_name = concat!("t__C07__over_", $tag))]
        pub fn f(p: P, q: P, s: &[isize; $R], t: &[isize; $R]) {
            let mut b = { let ($p, $n1, $s) = (q, $m, *t); $e };
            let ($p, $n1, $s) = (p, $n, *s);
            let a = $e;
            b.clone_from(&a);
            let c = a.clone();
            walk_on(b.into_iter(), 0, $len, |$k, $x| $ok);
            walk_on(c.into_iter(), 0, $len, |$k, $x| $ok);
            walk_on(a.into_iter(), 0, $len, |$k, $x| $ok);
            reach!(R__end);
        }
    };
}
const _: () = { over!("axis", [3, 2], [4, 1], |p, n, s| unsafe { &*Box::into_raw(Box::new(vs(p, (n[0], n[1]), &s))) }.axis_expr(0usize), 2, 1, 3, |k, x| same_view!(x, 1, [2], [s[1]], at(p, m(s[0], k)))); };
const _: () = { over!("axisx", [3usize, 2], [4, 1], |p, n, s| unsafe { &*Box::into_raw(Box::new(vs(p, DynRank::from_dims(&n), &s))) }.axis_expr(1usize), 2, 1, 2, |k, x| same_view!(x, 1, [3], [s[0]], at(p, m(s[1], k)))); };
const _: () = { over!("lanes", [3, 2], [4, 1], |p, n, s| unsafe { &*Box::into_raw(Box::new(vs(p, (n[0], n[1]), &s))) }.lanes(0usize), 2, 1, 2, |k, x| same_view!(x, 1, [3], [s[0]], at(p, m(s[1], k)))); };
const _: () = { over!("lanesx", [3usize, 2], [4, 1], |p, n, s| unsafe { &*Box::into_raw(Box::new(vs(p, DynRank::from_dims(&n), &s))) }.lanes(1usize), 2, 1, 3, |k, x| same_view!(x, 1, [2], [s[1]], at(p, m(s[0], k)))); };
