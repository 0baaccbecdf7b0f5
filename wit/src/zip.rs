//! Zip and broadcasting: fixed dimensions, arbitrary base pointers and strides.
use crate::common::*;

#[inline(always)]
fn tail<const M: usize, const R: usize>(i: [usize; M]) -> [usize; R] {
    let mut r = [0; R];
    let mut d = 0;
    while d < R {
        r[d] = i[M - R + d];
        d += 1;
    }
    r
}

#[inline(always)]
fn rp(x: &u64) -> P {
    x
}
#[inline(always)]
fn mp(x: &mut u64) -> P {
    x
}

macro_rules! zp {
    ($tag:expr, $A:literal, $B:literal, $M:literal, $da:expr, $db:expr, $na:ident, $nb:ident,
     |$p:ident, $s:ident, $q:ident, $t:ident| $it:expr, |$x:ident| ($fa:expr, $fb:expr)) => {
        const _: () = {
            #[inline(always)]
            fn dims() -> [usize; $M] {
                let a: [usize; $A] = $da;
                let b: [usize; $B] = $db;
                let mut m = [0; $M];
                let mut i = 0;
                while i < $M {
                    m[i] = if $A >= $B { a[i] } else { b[i] };
                    i += 1;
                }
                m
            }
            #[unsafe(export_name = concat!("t__C05_C08__walk_", $tag))]
            pub fn walk1($p: P, s: &[isize; $A], $q: P, t: &[isize; $B]) {
                let ($s, $t) = ($na($da, *s), $nb($db, *t));
                walk($it, prod(dims()), |k, $x| {
                    let i = unlin(dims(), k);
                    $fa == at($p, offset::<$A>($s, tail(i))) && $fb == at($q, offset::<$B>($t, tail(i)))
                });
            }
            #[unsafe(export_name = concat!("t__C05_C08__fold_", $tag))]
            pub fn fold($p: P, s: &[isize; $A], $q: P, t: &[isize; $B]) {
                let ($s, $t) = ($na($da, *s), $nb($db, *t));
                folded($it, prod(dims()), 1, |k, $x| {
                    let i = unlin(dims(), k);
                    $fa == at($p, offset::<$A>($s, tail(i))) && $fb == at($q, offset::<$B>($t, tail(i)))
                });
            }
        };
    };
}

macro_rules! zips {
    ($tag:literal, $A:literal, $B:literal, $M:literal, [$($a:literal),*], [$($b:literal),*]) => {
        zp!(concat!("ss_", $tag), $A, $B, $M, [$($a),*], [$($b),*], free, free,
            |p, s, q, t| vs(p, ($($a as usize,)*), &s).expr().zip(&vs(q, ($($b as usize,)*), &t)).into_iter(), |x| (rp(x.0), rp(x.1)));
        zp!(concat!("dd_", $tag), $A, $B, $M, [$($a),*], [$($b),*], dense, dense,
            |p, s, q, t| expr::zip(vd(p, ($($a as usize,)*)), vd(q, ($($b as usize,)*))).into_iter(), |x| (rp(x.0), rp(x.1)));
        zp!(concat!("ds_", $tag), $A, $B, $M, [$($a),*], [$($b),*], dense, free,
            |p, s, q, t| expr::zip(vd(p, ($($a as usize,)*)), vs(q, ($($b as usize,)*), &t)).into_iter(), |x| (rp(x.0), rp(x.1)));
        zp!(concat!("sd_", $tag), $A, $B, $M, [$($a),*], [$($b),*], free, dense,
            |p, s, q, t| expr::zip(vs(p, ($($a as usize,)*), &s), vd(q, ($($b as usize,)*))).into_iter(), |x| (rp(x.0), rp(x.1)));
        zp!(concat!("xs_", $tag), $A, $B, $M, [$($a),*], [$($b),*], free, free,
            |p, s, q, t| expr::zip(vs(p, DynRank::from_dims(&[$($a),*]), &s), vs(q, ($($b as usize,)*), &t)).into_iter(), |x| (rp(x.0), rp(x.1)));
        zp!(concat!("xx_", $tag), $A, $B, $M, [$($a),*], [$($b),*], free, free,
            |p, s, q, t| expr::zip(vs(p, DynRank::from_dims(&[$($a),*]), &s), vs(q, DynRank::from_dims(&[$($b),*]), &t)).into_iter(), |x| (rp(x.0), rp(x.1)));
        zp!(concat!("cs_", $tag), $A, $B, $M, [$($a),*], [$($b),*], dense, free,
            |p, s, q, t| expr::zip(vd(p, ($(Const::<$a>,)*)), vs(q, ($($b as usize,)*), &t)).into_iter(), |x| (rp(x.0), rp(x.1)));
        zp!(concat!("cc_", $tag), $A, $B, $M, [$($a),*], [$($b),*], dense, free,
            |p, s, q, t| expr::zip(vd(p, ($(Const::<$a>,)*)), vs(q, ($(Const::<$b>,)*), &t)).into_iter(), |x| (rp(x.0), rp(x.1)));
        zp!(concat!("nest_", $tag), $A, $B, $M, [$($a),*], [$($b),*], free, free,
            |p, s, q, t| expr::zip(expr::zip(vs(p, ($($a as usize,)*), &s), vs(q, ($($b as usize,)*), &t)), vs(q, ($($b as usize,)*), &t)).into_iter(),
            |x| (rp(x.0.0), if rp(x.0.1) == rp(x.1) { rp(x.1) } else { std::ptr::null() }));
        zp!(concat!("map_", $tag), $A, $B, $M, [$($a),*], [$($b),*], free, free,
            |p, s, q, t| vs(p, ($($a as usize,)*), &s).expr().map(|x| rp(x)).zip(vs(q, ($($b as usize,)*), &t).expr().map(|x| rp(x))).map(|(a, b)| (b, a)).into_iter(), |x| (x.1, x.0));
    };
}

macro_rules! zipx {
    ($tag:literal, $A:literal, $B:literal, $M:literal, [$($a:literal),*], [$($b:literal),*]) => {
        zp!(concat!("sx_", $tag), $A, $B, $M, [$($a),*], [$($b),*], free, dense,
            |p, s, q, t| expr::zip(vs(p, ($($a as usize,)*), &s), vd(q, DynRank::from_dims(&[$($b),*]))).into_iter(), |x| (rp(x.0), rp(x.1)));
    };
}

macro_rules! zipm {
    ($tag:literal, $A:literal, $B:literal, [$($a:literal),*], [$($b:literal),*]) => {
        zp!(concat!("ms_", $tag), $A, $B, $A, [$($a),*], [$($b),*], free, free,
            |p, s, q, t| vsm(p, ($($a as usize,)*), &s).expr_mut().zip(&vs(q, ($($b as usize,)*), &t)).into_iter(), |x| (mp(x.0), rp(x.1)));
        zp!(concat!("md_", $tag), $A, $B, $A, [$($a),*], [$($b),*], dense, dense,
            |p, s, q, t| vdm(p, ($($a as usize,)*)).expr_mut().zip(&vd(q, ($($b as usize,)*))).into_iter(), |x| (mp(x.0), rp(x.1)));
        zp!(concat!("sm_", $tag), $B, $A, $A, [$($b),*], [$($a),*], free, free,
            |p, s, q, t| expr::zip(vs(p, ($($b as usize,)*), &s), vsm(q, ($($a as usize,)*), &t)).into_iter(), |x| (rp(x.0), mp(x.1)));
        zp!(concat!("xm_", $tag), $B, $A, $A, [$($b),*], [$($a),*], free, free,
            |p, s, q, t| expr::zip(vs(p, DynRank::from_dims(&[$($b),*]), &s), vsm(q, DynRank::from_dims(&[$($a),*]), &t)).into_iter(), |x| (rp(x.0), mp(x.1)));
    };
}

zips!("0_0", 0, 0, 0, [], []);
zips!("3_3", 1, 1, 1, [3], [3]);
zips!("0_3", 0, 1, 1, [], [3]);
zips!("3_0", 1, 0, 1, [3], []);
zips!("23_23", 2, 2, 2, [2, 3], [2, 3]);
zips!("23_3", 2, 1, 2, [2, 3], [3]);
zips!("3_23", 1, 2, 2, [3], [2, 3]);
zips!("23_0", 2, 0, 2, [2, 3], []);
zips!("222_2", 3, 1, 3, [2, 2, 2], [2]);
zips!("2_222", 1, 3, 3, [2], [2, 2, 2]);
zips!("232_32", 3, 2, 3, [2, 3, 2], [3, 2]);
zips!("32_232", 2, 3, 3, [3, 2], [2, 3, 2]);
zips!("232_232", 3, 3, 3, [2, 3, 2], [2, 3, 2]);
zips!("2212_12", 4, 2, 4, [2, 2, 1, 2], [1, 2]);
zips!("03_3", 2, 1, 2, [0, 3], [3]);
zips!("20_0", 2, 1, 2, [2, 0], [0]);
zips!("0_20", 1, 2, 2, [0], [2, 0]);
zipx!("0_0", 0, 0, 0, [], []);
zipx!("3_3", 1, 1, 1, [3], [3]);
zipx!("0_3", 0, 1, 1, [], [3]);
zipx!("3_0", 1, 0, 1, [3], []);
zipx!("23_23", 2, 2, 2, [2, 3], [2, 3]);
zipx!("23_3", 2, 1, 2, [2, 3], [3]);
zipx!("3_23", 1, 2, 2, [3], [2, 3]);
zipx!("222_2", 3, 1, 3, [2, 2, 2], [2]);
zipx!("2_222", 1, 3, 3, [2], [2, 2, 2]);
zipx!("03_3", 2, 1, 2, [0, 3], [3]);
zipm!("3_3", 1, 1, [3], [3]);
zipm!("23_23", 2, 2, [2, 3], [2, 3]);
zipm!("23_3", 2, 1, [2, 3], [3]);
zipm!("23_0", 2, 0, [2, 3], []);
zipm!("222_2", 3, 1, [2, 2, 2], [2]);
zipm!("232_32", 3, 2, [2, 3, 2], [3, 2]);
zipm!("2122_2122", 4, 4, [2, 1, 2, 2], [2, 1, 2, 2]);
zipm!("03_3", 2, 1, [0, 3], [3]);

// Other sources that are repeated or broadcast.
macro_rules! src {
    ($tag:literal, $A:literal, [$($a:literal),*], $k:expr) => {
        const _: () = {
            #[unsafe(export_name = concat!("t__C08__fill_", $tag))]
            pub fn fill(p: P, s: &[isize; $A], v: u64) {
                let n: [usize; $A] = [$($a),*];
                walk(vs(p, ($($a as usize,)*), s).expr().zip(expr::fill(v)).into_iter(), prod(n), |k, x| rp(x.0) == at(p, offset(*s, unlin(n, k))) && x.1 == v);
            }
            #[unsafe(export_name = concat!("t__C08__fillwith_", $tag))]
            pub fn fillwith(p: P, s: &[isize; $A]) {
                let n: [usize; $A] = [$($a),*];
                let mut c = 0;
                walk(expr::fill_with(|| { c += 1; c - 1 }).zip(&vs(p, ($($a as usize,)*), s)).into_iter(), prod(n), |k, x| rp(x.1) == at(p, offset(*s, unlin(n, k))) && x.0 == k);
            }
            #[unsafe(export_name = concat!("t__C08__elem_", $tag))]
            pub fn elem(p: P, s: &[isize; $A], v: u64) {
                let n: [usize; $A] = [$($a),*];
                walk(vs(p, ($($a as usize,)*), s).expr().zip(expr::from_elem([n[$A - 1]], v)).into_iter(), prod(n), |k, x| rp(x.0) == at(p, offset(*s, unlin(n, k))) && x.1 == v);
            }
            #[unsafe(export_name = concat!("t__C08__fn1_", $tag))]
            pub fn fn1(p: P, s: &[isize; $A]) {
                let n: [usize; $A] = [$($a),*];
                walk(vs(p, ($($a as usize,)*), s).expr().zip(expr::from_fn([n[$A - 1]], |i| i[0])).into_iter(), prod(n),
                    |k, x| rp(x.0) == at(p, offset(*s, unlin(n, k))) && x.1 == unlin(n, k)[$A - 1]);
            }
            #[unsafe(export_name = concat!("t__C08_C07__axis_", $tag))]
            pub fn axis(p: P, s: &[isize; $A], q: P, t: isize) {
                let n: [usize; $A] = [$($a),*];
                walk(vs(p, ($($a as usize,)*), s).outer_expr().zip(&vs(q, [$k, n[0]].into_shape(), &[t, 7])).into_iter(), $k * n[0], |k, x| {
                    x.0.as_ptr() == at(p, m(s[0], k % n[0])) && rp(x.1) == at(q, m(t, k / n[0]) + 7 * (k % n[0]) as isize)
                });
            }
        };
    };
}
macro_rules! fnr {
    ($tag:literal, $A:literal, [$($a:literal),*]) => {
        const _: () = {
            #[unsafe(export_name = concat!("t__C08__fnr_", $tag))]
            pub fn fnr(p: P, s: &[isize; $A]) {
                let n: [usize; $A] = [$($a),*];
                walk(expr::from_fn(n, |i| { let mut j = [0; $A]; j.copy_from_slice(i); j }).zip(&vs(p, DynRank::from_dims(&n), s)).into_iter(), prod(n),
                    |k, x| rp(x.1) == at(p, offset(*s, unlin(n, k))) && x.0 == unlin(n, k));
            }
        };
    };
}
fnr!("3", 1, [3]);
fnr!("23", 2, [2, 3]);
fnr!("222", 3, [2, 2, 2]);
fnr!("2112", 4, [2, 1, 1, 2]);
src!("3", 1, [3], 2);
src!("23", 2, [2, 3], 2);
src!("232", 3, [2, 3, 2], 2);
src!("2122", 4, [2, 1, 2, 2], 3);

// Lanes repeated over an outer dimension.
#[unsafe(export_name = "t__C08_C07__lanes_23")]
pub fn lanes_23(p: P, s: &[isize; 2], q: P, t: &[isize; 2]) {
    walk(vs(p, (2usize, 3usize), s).cols().zip(&vs(q, (2usize, 3usize), t)).into_iter(), 6, |k, x| {
        x.0.as_ptr() == at(p, m(s[1], k % 3)) && x.0.dim(0) == 2 && rp(x.1) == at(q, offset(*t, unlin([2, 3], k)))
    });
}
#[unsafe(export_name = "t__C08_C07__lanes_232")]
pub fn lanes_232(p: P, s: &[isize; 3], q: P, t: &[isize; 3]) {
    walk(vs(p, (2usize, 3usize, 2usize), s).lanes(Const::<1>).zip(&vs(q, (3usize, 2usize, 2usize), t)).into_iter(), 12, |k, x| {
        x.0.as_ptr() == at(p, m(s[0], k / 2 % 2) + m(s[2], k % 2)) && x.0.dim(0) == 3 && rp(x.1) == at(q, offset(*t, unlin([3, 2, 2], k)))
    });
}

// The shape of the result, and which shapes are rejected.
macro_rules! shp {
    ($tag:expr, $A:literal, $B:literal, $M:literal, |$p:ident, $n:ident, $s:ident, $q:ident, $k:ident, $t:ident| ($a:expr, $b:expr)) => {
        const _: () = {
            #[inline(always)]
            fn body($p: P, $n: [usize; $A], $s: &[isize; $A], $q: P, $k: [usize; $B], $t: &[isize; $B], total: bool) {
                let mut ok = true;
                let mut d = 0;
                while d < if $A < $B { $A } else { $B } {
                    ok = ok && $n[$A - 1 - d] == $k[$B - 1 - d];
                    d += 1;
                }
                if total && !ok {
                    return;
                }
                let e = expr::zip($a, $b);
                claim!(C08__inner_dimensions_checked, ok);
                claim!(C08_C13__zip_rank, e.rank() == $M);
                let mut d = 0;
                while d < $M {
                    claim!(C08_C13__zip_dim, e.dim(d) == if $A >= $B { $n[d] } else { $k[d] });
                    d += 1;
                }
                reach!(R__zip);
            }
            #[unsafe(export_name = concat!("h__C08_C13__shape_", $tag))]
            pub fn h(p: P, n: &[N; $A], s: &[isize; $A], q: P, k: &[N; $B], t: &[isize; $B]) {
                body(p, z(n), s, q, z(k), t, false);
            }
            #[unsafe(export_name = concat!("t__C08_C13__shape_", $tag))]
            pub fn t(p: P, n: &[N; $A], s: &[isize; $A], q: P, k: &[N; $B], t: &[isize; $B]) {
                body(p, z(n), s, q, z(k), t, true);
            }
        };
    };
}
macro_rules! shps {
    ($tag:literal, $A:literal, $B:literal, $M:literal, [$($a:tt),*], [$($b:tt),*]) => {
        shp!(concat!("ss_", $tag), $A, $B, $M, |p, n, s, q, k, t| (vs(p, ($(n[$a],)*), s), vs(q, ($(k[$b],)*), t)));
        shp!(concat!("dx_", $tag), $A, $B, $M, |p, n, s, q, k, t| (vd(p, ($(n[$a],)*)), vs(q, DynRank::from_dims(&k), t)));
        shp!(concat!("xx_", $tag), $A, $B, $M, |p, n, s, q, k, t| (vs(p, DynRank::from_dims(&n), s), vd(q, DynRank::from_dims(&k))));
    };
}
shps!("1_1", 1, 1, 1, [0], [0]);
shps!("2_2", 2, 2, 2, [0, 1], [0, 1]);
shps!("2_1", 2, 1, 2, [0, 1], [0]);
shps!("1_2", 1, 2, 2, [0], [0, 1]);
shps!("3_2", 3, 2, 3, [0, 1, 2], [0, 1]);
shps!("1_3", 1, 3, 3, [0], [0, 1, 2]);
shps!("3_3", 3, 3, 3, [0, 1, 2], [0, 1, 2]);
shps!("0_2", 0, 2, 2, [], [0, 1]);

// Mixed constant and dynamic dimensions: the constant one is kept and must agree.
#[unsafe(export_name = "h__C08_C13__const_first")]
pub fn const_first(p: P, q: P, n: &[N; 2]) {
    let n = z(n);
    let e: expr::Zip<_, _> = expr::zip(vd(p, (Const::<4>, n[0])), vd(q, (n[1], Const::<3>)));
    let s: &(Const<4>, Const<3>) = e.shape();
    claim!(C08_C13__const_dims_agree, n[0] == 3 && n[1] == 4);
    reach!(R__zip);
}
#[unsafe(export_name = "h__C08_C13__const_outer")]
pub fn const_outer(p: P, q: P, n: &[N; 2]) {
    let n = z(n);
    let e: expr::Zip<_, _> = expr::zip(vd(p, (n[0], n[1])), vd(q, (Const::<3>,)));
    let s: &(Dyn, Const<3>) = e.shape();
    claim!(C08_C13__const_dims_agree, n[1] == 3 && e.dim(0) == n[0] && e.dim(1) == 3);
    reach!(R__zip);
}
#[unsafe(export_name = "h__C08_C13__const_clash")]
pub fn const_clash(p: P, q: P) {
    let e = expr::zip(vd(p, (Const::<4>, Const::<2>)), vd(q, (Const::<2>, Const::<4>)));
    claim!(C08_C13__const_dims_agree, false);
}

// Expressions that can only be traversed once must not be repeated.
macro_rules! once {
    ($tag:literal, |$p:ident, $n:ident, $q:ident, $k:ident| $e:expr) => {
        #[unsafe(export_name = concat!("h__C05_C08_C09__once_", $tag))]
        pub fn $p($p: P, n: &[N; 1], $q: P, k: &[N; 2]) {
            let $n = z(n);
            let $k = z(k);
            let _e = $e;
            claim!(C05_C08_C09__not_repeated, false);
        }
    };
}
mod once_ {
    use super::*;
    mod a { use super::*; once!("mut_ref", |p, n, q, k| vdm(p, (n[0],)).into_iter_expr().zip(&vd(q, (k[0], k[1])))); }
    mod b { use super::*; once!("ref_mut", |p, n, q, k| expr::zip(vd(q, (k[0], k[1])), vdm(p, (n[0],)))); }
    mod c { use super::*; once!("mutx_ref", |p, n, q, k| expr::zip(vdm(p, DynRank::from_dims(&n)), vd(q, DynRank::from_dims(&k)))); }
    mod d { use super::*; once!("map_mut", |p, n, q, k| expr::zip(vdm(p, (n[0],)).into_iter_expr().map(|x| x), vd(q, (k[0], k[1])))); }
    mod e { use super::*; once!("enum_mut", |p, n, q, k| expr::zip(vdm(p, (n[0],)).into_iter_expr().enumerate(), vd(q, (k[0], k[1])))); }
    mod f { use super::*; once!("zip_mut", |p, n, q, k| expr::zip(expr::zip(vdm(p, (n[0],)), vd(p, (n[0],))), vd(q, (k[0], k[1])))); }
    mod g { use super::*; once!("zip_mut2", |p, n, q, k| expr::zip(expr::zip(vd(p, (n[0],)), vdm(p, (n[0],))), vd(q, (k[0], k[1])))); }
    mod h { use super::*; once!("axis_mut", |p, n, q, k| expr::zip(vdm(p, (n[0],)).outer_expr_mut(), vd(q, (k[0], k[1])))); }
    mod i { use super::*; once!("lanes_mut", |p, n, q, k| expr::zip(vdm(p, (n[0], 2usize)).rows_mut(), vd(q, (k[0], k[1])))); }
    mod j { use super::*; once!("array", |p, n, q, k| expr::zip(Array::<u64, (Const<2>,)>([1, 2]), vd(q, (k[0], k[1])))); }
    mod k_ { use super::*; once!("array_map", |p, n, q, k| expr::zip(vd(q, (k[0], k[1])), Array::<u64, (Const<2>,)>([1, 2]).into_expr().map(|x| x))); }
}

trait IntoIterExpr: Sized + IntoExpression {
    fn into_iter_expr(self) -> Self::IntoExpr {
        self.into_expr()
    }
}
impl<T: IntoExpression> IntoIterExpr for T {}
