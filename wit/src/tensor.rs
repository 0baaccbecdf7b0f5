//! What is in a tensor after growing and shrinking it (values and shape), with opaque elements.
use crate::common::*;
use crate::life::*;

macro_rules! w {
    ($tag:expr, $b:block) => {
        const _: () = {
            #[unsafe(export_name = concat!("d__C11_C10_C09__", $tag))]
            pub fn f() {
                $b
                reach!(R__end);
            }
        };
    };
}
macro_rules! w_panics {
    ($tag:expr, $b:block) => {
        const _: () = {
            #[unsafe(export_name = concat!("d__C11_C10_C13_C09__", $tag))]
            pub fn f() {
                $b
                claim!(C10_C11_C13__accepted_invalid_arguments, false);
            }
        };
    };
}
macro_rules! w_if {
    (ok, $tag:expr, $b:block) => { w!($tag, $b); };
    (panics, $tag:expr, $b:block) => { w_panics!($tag, $b); };
}

/// Row-major position of an index, or none if it is outside.
#[inline(always)]
fn pos(mut k: usize, of: &[usize], into: &[usize]) -> Option<usize> {
    let (mut p, mut step) = (0, 1);
    let mut i = of.len();
    while i > 0 {
        i -= 1;
        let x = k % of[i];
        k /= of[i];
        if x >= into[i] {
            return None;
        }
        p += x * step;
        step *= into[i];
    }
    Some(p)
}

#[inline(always)]
fn resized<S: Shape>(t: &Tensor<D, S>, old: &Vals, ids0: &Vals, n: &[usize], m: &[usize], fill: &Vals, with: bool) {
    claim!(C10_C11_C13__resized_shape, has(&**t, m));
    let new = vals(t);
    let newid = ids(t);
    let mut next = 0;
    for k in 0..mul(m) {
        match pos(k, m, n) {
            Some(p) => {
                claim!(C11__kept_value, new.v[k] == old.v[p]);
                if with {
                    claim!(C11__kept_in_place, newid.v[k] == ids0.v[p]);
                }
            }
            None => {
                let mut found = false;
                for q in 0..fill.n {
                    found = found || fill.v[q] == new.v[k];
                }
                claim!(C11__filled, found);
                next += 1;
            }
        }
    }
    if with {
        // each element from the closure is used
        for i in 0..newid.n {
            for j in 0..i {
                claim!(C11__elements_are_distinct, newid.v[i] != newid.v[j]);
            }
        }
        claim!(C11__closure_called_once_per_new_element, next == fill.n);
    }
}

macro_rules! resize {
    ($tag:literal, $t:ty, $n:expr, $m:expr) => {
        w!(concat!("resize_", $tag), {
            let n = $n;
            let m = $m;
            let mut t = <$t>::from_fn(<$t as Sh>::shape(&n), |_| quiet());
            let (old, oid) = (vals(&t), ids(&t));
            let x = quiet();
            let mut fill = Vals::new();
            fill.push(x.val());
            t.resize(&m, x);
            resized(&t, &old, &oid, &n, &m, &fill, false);
        });
        w!(concat!("resizew_", $tag), {
            let n = $n;
            let m = $m;
            let mut t = <$t>::from_fn(<$t as Sh>::shape(&n), |_| quiet());
            let (old, oid) = (vals(&t), ids(&t));
            let mut fill = Vals::new();
            t.resize_with(&m, || { let x = quiet(); fill.push(x.val()); x });
            resized(&t, &old, &oid, &n, &m, &fill, true);
        });
    };
}
trait Sh {
    type S: Shape;
    fn shape(d: &[usize]) -> Self::S;
}
impl<T, S: Shape> Sh for Tensor<T, S> {
    type S = S;
    #[inline(always)]
    fn shape(d: &[usize]) -> S {
        S::from_dims(d)
    }
}
type T1 = Tensor<D, (Dyn,)>;
type T2 = Tensor<D, (Dyn, Dyn)>;
type T3 = Tensor<D, (Dyn, Dyn, Dyn)>;
type T4 = Tensor<D, (Dyn, Dyn, Dyn, Dyn)>;
type TX = Tensor<D, DynRank>;
type TC2 = Tensor<D, (Dyn, Const<2>)>;
type TK2 = Tensor<D, (Const<2>, Dyn)>;
type TC3 = Tensor<D, (Dyn, Const<2>, Dyn)>;
resize!("1_3_5", T1, [3], [5]);
resize!("1_3_3", T1, [3], [3]);
resize!("1_3_2", T1, [3], [2]);
resize!("1_3_0", T1, [3], [0]);
resize!("1_0_2", T1, [0], [2]);
resize!("2_23_34", T2, [2, 3], [3, 4]);
resize!("2_23_32", T2, [2, 3], [3, 2]);
resize!("2_32_23", T2, [3, 2], [2, 3]);
resize!("2_33_22", T2, [3, 3], [2, 2]);
resize!("2_23_33", T2, [2, 3], [3, 3]);
resize!("2_23_24", T2, [2, 3], [2, 4]);
resize!("2_23_22", T2, [2, 3], [2, 2]);
resize!("2_23_13", T2, [2, 3], [1, 3]);
resize!("2_23_21", T2, [2, 3], [2, 1]);
resize!("2_12_31", T2, [1, 2], [3, 1]);
resize!("2_03_22", T2, [0, 3], [2, 2]);
resize!("2_20_22", T2, [2, 0], [2, 2]);
resize!("2_22_02", T2, [2, 2], [0, 2]);
resize!("2_22_20", T2, [2, 2], [2, 0]);
resize!("2_32_32", T2, [3, 2], [3, 2]);
resize!("3_222_232", T3, [2, 2, 2], [2, 3, 2]);
resize!("3_222_323", T3, [2, 2, 2], [3, 2, 3]);
resize!("3_232_213", T3, [2, 3, 2], [2, 1, 3]);
resize!("3_323_222", T3, [3, 2, 3], [2, 2, 2]);
resize!("3_222_223", T3, [2, 2, 2], [2, 2, 3]);
resize!("3_223_221", T3, [2, 2, 3], [2, 2, 1]);
resize!("3_131_313", T3, [1, 3, 1], [3, 1, 3]);
resize!("4_1212_2121", T4, [1, 2, 1, 2], [2, 1, 2, 1]);
resize!("4_2122_2222", T4, [2, 1, 2, 2], [2, 2, 2, 2]);
resize!("4_2222_1221", T4, [2, 2, 2, 2], [1, 2, 2, 1]);
resize!("x_23_34", TX, [2, 3], [3, 4]);
resize!("x_23_32", TX, [2, 3], [3, 2]);
resize!("x_232_213", TX, [2, 3, 2], [2, 1, 3]);
resize!("x_3_5", TX, [3], [5]);
resize!("c_22_32", TC2, [2, 2], [3, 2]);
resize!("c_22_12", TC2, [2, 2], [1, 2]);
resize!("k_22_23", TK2, [2, 2], [2, 3]);
resize!("k_23_21", TK2, [2, 3], [2, 1]);
resize!("c3_222_323", TC3, [2, 2, 2], [3, 2, 3]);
resize!("c3_223_122", TC3, [2, 2, 3], [1, 2, 2]);

macro_rules! resize_bad {
    ($tag:literal, $t:ty, $n:expr, $m:expr) => {
        w_panics!(concat!("resizebad_", $tag), { let mut t = <$t>::from_fn(<$t as Sh>::shape(&$n), |_| quiet()); { let c = Chk(&mut t); c.0.resize(&$m, quiet()); } });
        w_panics!(concat!("resizewbad_", $tag), { let mut t = <$t>::from_fn(<$t as Sh>::shape(&$n), |_| quiet()); { let c = Chk(&mut t); c.0.resize_with(&$m, || mk()); } });
    };
}
resize_bad!("c_22_33", TC2, [2, 2], [3, 3]);
resize_bad!("c_22_21", TC2, [2, 2], [2, 1]);
resize_bad!("k_22_32", TK2, [2, 2], [3, 2]);
resize_bad!("k_22_12", TK2, [2, 2], [1, 2]);
resize_bad!("2_22_2", T2, [2, 2], [2]);
resize_bad!("2_22_221", T2, [2, 2], [2, 2, 1]);
resize_bad!("c3_222_232", TC3, [2, 2, 2], [2, 3, 2]);

#[inline(always)]
fn joined<S: Shape>(t: &Tensor<D, S>, a: &Vals, b: &Vals, m: &[usize]) {
    claim!(C10_C11_C13__joined_shape, has(&**t, m));
    let v = vals(t);
    claim!(C11__old_elements_first, v.at(0, a, 0, a.n));
    claim!(C11__new_elements_after, v.at(a.n, b, 0, b.n));
    claim!(C11__joined_length, v.n == a.n + b.n);
}

// [n..] joined with [m..] gives [r..]
macro_rules! join {
    ($tag:literal, $t:ty, $u:ty, $n:expr, $m:expr, $r:expr) => {
        w!(concat!("append_", $tag), {
            let mut t = <$t>::from_fn(<$t as Sh>::shape(&$n), |_| quiet());
            let mut s = <$t>::from_fn(<$t as Sh>::shape(&$m), |_| quiet());
            let (a, b, ib) = (vals(&t), vals(&s), ids(&s));
            t.append(&mut s);
            joined(&t, &a, &b, &$r);
            claim!(C11__moved_not_cloned, ids(&t).at(a.n, &ib, 0, ib.n));
            claim!(C10_C11__source_is_empty, s.len() == 0 && s.dim(0) == 0 && s.rank() == ($m).len());
        });
        w!(concat!("expandc_", $tag), {
            let mut t = <$t>::from_fn(<$t as Sh>::shape(&$n), |_| quiet());
            let s = <$u>::from_fn(<$u as Sh>::shape(&$m), |_| quiet());
            let (a, b, ib) = (vals(&t), vals(&s), ids(&s));
            t.expand(&s);
            joined(&t, &a, &b, &$r);
            claim!(C11__source_kept, ids(&s).same(&ib));
        });
        w!(concat!("expandm_", $tag), {
            let mut t = <$t>::from_fn(<$t as Sh>::shape(&$n), |_| quiet());
            let s = <$u>::from_fn(<$u as Sh>::shape(&$m), |_| quiet());
            let (a, b) = (ids(&t), ids(&s));
            t.expand(s);
            claim!(C11__expand_moves, ids(&t).at(0, &a, 0, a.n) && ids(&t).at(a.n, &b, 0, b.n));
            claim!(C10_C11_C13__expand_shape, has(&*t, &$r));
        });
        w!(concat!("evalinto_", $tag), {
            let mut t = <$t>::from_fn(<$t as Sh>::shape(&$n), |_| quiet());
            let s = <$u>::from_fn(<$u as Sh>::shape(&$m), |_| quiet());
            let (a, b) = (ids(&t), ids(&s));
            s.into_expr().eval_into(&mut t);
            claim!(C11__eval_into_moves, ids(&t).at(0, &a, 0, a.n) && ids(&t).at(a.n, &b, 0, b.n));
            claim!(C10_C11_C13__eval_into_shape, has(&*t, &$r));
        });
        w!(concat!("expandm_cap_", $tag), {
            let mut t = <$t>::from_fn(<$t as Sh>::shape(&$n), |_| quiet());
            t.reserve(50);
            let s = <$u>::from_fn(<$u as Sh>::shape(&$m), |_| quiet());
            let (a, b) = (ids(&t), ids(&s));
            let p = t.as_ptr();
            t.expand(s);
            claim!(C11__expand_moves, ids(&t).at(0, &a, 0, a.n) && ids(&t).at(a.n, &b, 0, b.n));
            claim!(C10_C11_C13__expand_shape, has(&*t, &$r));
            claim!(C10_C11__capacity_is_used, t.as_ptr() == p);
        });
    };
}
join!("1", T1, T1, [2], [3], [5]);
join!("1_0", T1, T1, [0], [3], [3]);
join!("1_n0", T1, T1, [2], [0], [2]);
join!("2_22_32", T2, T2, [2, 2], [3, 2], [5, 2]);
join!("2_21_11", T2, T2, [2, 1], [1, 1], [3, 1]);
join!("2_02_23", T2, T2, [0, 2], [2, 3], [2, 3]);
join!("2_20_13", T2, T2, [2, 0], [1, 3], [1, 3]);
join!("2_22_02", T2, T2, [2, 2], [0, 2], [2, 2]);
join!("3", T3, T3, [1, 2, 2], [2, 2, 2], [3, 2, 2]);
join!("3b", T3, T3, [2, 1, 3], [1, 1, 3], [3, 1, 3]);
join!("x", TX, TX, [2, 2], [1, 2], [3, 2]);
join!("x_2", TX, T2, [2, 2], [1, 2], [3, 2]);
join!("2_x", T2, TX, [2, 2], [1, 2], [3, 2]);
join!("c", TC2, T2, [2, 2], [1, 2], [3, 2]);
join!("c0", TC2, T2, [0, 2], [1, 2], [1, 2]);
join!("c_x", TC2, TX, [2, 2], [1, 2], [3, 2]);
join!("c3", TC3, T3, [1, 2, 2], [2, 2, 2], [3, 2, 2]);
join!("c3_0", TC3, T3, [0, 2, 2], [2, 2, 3], [2, 2, 3]);
w!("expand_x0", {
    // dynamic rank takes the rank of the expression if it is empty
    let mut t = TX::new();
    let s = T2::from_fn([2, 2], |_| quiet());
    let b = ids(&s);
    t.expand(s);
    claim!(C10_C11__expand_sets_rank, has(&*t, &[2, 2]) && ids(&t).same(&b));
});

macro_rules! join_bad {
    ($tag:literal, $t:ty, $u:ty, $n:expr, $m:expr) => {
        w_panics!(concat!("expandbad_", $tag), { let mut t = <$t>::from_fn(<$t as Sh>::shape(&$n), |_| quiet()); let s = <$u>::from_fn(<$u as Sh>::shape(&$m), |_| quiet());
            { let c = Chk(&mut t); c.0.expand(&s); } });
        w_panics!(concat!("expandmbad_", $tag), { let mut t = <$t>::from_fn(<$t as Sh>::shape(&$n), |_| quiet()); let s = <$u>::from_fn(<$u as Sh>::shape(&$m), |_| quiet());
            { let c = Chk(&mut t); c.0.expand(s); } });
        w_panics!(concat!("evalintobad_", $tag), { let mut t = <$t>::from_fn(<$t as Sh>::shape(&$n), |_| quiet()); let s = <$u>::from_fn(<$u as Sh>::shape(&$m), |_| quiet());
            { let c = Chk(&mut t); s.into_expr().eval_into(&mut *c.0); } });
    };
}
join_bad!("22_23", T2, T2, [2, 2], [2, 3]);
join_bad!("22_221", T2, T3, [2, 2], [2, 2, 1]);
join_bad!("22_122", T2, T3, [2, 2], [1, 2, 2]);
join_bad!("22_2", T2, T1, [2, 2], [2]);
join_bad!("02_2", T2, T1, [0, 2], [2]);
join_bad!("223_232", T3, T3, [2, 2, 3], [2, 3, 2]);
join_bad!("12_x", T2, TX, [1, 2], [2]);
join_bad!("x_rank", TX, T3, [1, 2], [1, 2, 2]);
join_bad!("c_23", TC2, T2, [2, 2], [1, 3]);
join_bad!("c0_23", TC2, T2, [0, 2], [2, 3]);
join_bad!("c0_x", TC2, TX, [0, 2], [2, 3]);
join_bad!("k", TK2, T2, [2, 2], [2, 2]);
join_bad!("c3_0", TC3, T3, [0, 2, 2], [2, 3, 2]);

#[inline(always)]
fn d_drop<E: Expression<Item = D>>(e: E) {
    drop(e)
}
#[inline(always)]
fn d_each<E: Expression<Item = D>>(e: E) {
    e.for_each(|x| x.see())
}
#[inline(always)]
fn d_part<E: Expression<Item = D>>(e: E) {
    let mut i = e.into_iter();
    let x = i.next();
    drop(i);
    drop(x)
}

// Removal of the range a..b of the first dimension with row length r.
macro_rules! remove {
    ($tag:literal, $t:ty, $n:expr, $r:literal, $a:literal, $b:literal) => {
        remove!(@ concat!("drop_", $tag), $t, $n, $r, $a, $b, d_drop);
        remove!(@ concat!("each_", $tag), $t, $n, $r, $a, $b, d_each);
        remove!(@ concat!("part_", $tag), $t, $n, $r, $a, $b, d_part);
        w!(concat!("drainv_", $tag), {
            let n = $n;
            let mut t = <$t>::from_fn(<$t as Sh>::shape(&n), |_| quiet());
            let old = ids(&t);
            let mut m = n;
            m[0] = $b - $a;
            let d = t.drain($a..$b);
            claim!(C11__drain_shape, d.len() == mul(&m) && has(d.as_ref(), &m));
            let got = d.eval();
            claim!(C11__drained_elements, ids(&got).same(&Vals { v: old.v, n: 0 }) || ids(&got).at(0, &old, $a * $r, ($b - $a) * $r));
            claim!(C11__drained_shape, has(&*got, &m));
        });
        w!(concat!("drainleak_", $tag), {
            let n = $n;
            let mut t = <$t>::from_fn(<$t as Sh>::shape(&n), |_| quiet());
            let old = ids(&t);
            leaky(());
            std::mem::forget(t.drain($a..$b));
            claim!(C10_C11__leaked_drain_keeps_the_front, t.len() <= $a * $r && ids(&t).at(0, &old, 0, t.len()));
            usev(&t);
        });
        w!(concat!("trunc_", $tag), {
            let n = $n;
            let mut t = <$t>::from_fn(<$t as Sh>::shape(&n), |_| quiet());
            let (old, cap) = (ids(&t), t.capacity());
            t.truncate($a);
            let mut m = n;
            m[0] = if $a < n[0] { $a } else { n[0] };
            claim!(C10_C11_C13__truncated_shape, has(&*t, &m));
            claim!(C11__truncated_elements, ids(&t).at(0, &old, 0, mul(&m)));
            claim!(C10_C11__capacity_kept, t.capacity() == cap);
        });
        w!(concat!("trunc_more_", $tag), {
            let n = $n;
            let mut t = <$t>::from_fn(<$t as Sh>::shape(&n), |_| quiet());
            let old = ids(&t);
            t.truncate(n[0] + $a);
            claim!(C10_C11__truncate_beyond_keeps, has(&*t, &n) && ids(&t).same(&old));
        });
        w!(concat!("clear_", $tag), {
            let n = $n;
            let mut t = <$t>::from_fn(<$t as Sh>::shape(&n), |_| quiet());
            let cap = t.capacity();
            t.clear();
            claim!(C10_C11__cleared, t.len() == 0 && t.is_empty() && t.capacity() == cap);
            for i in 0..t.rank() {
                claim!(C11_C13__cleared_dims, t.dim(i) == 0 || t.dim(i) == 2);
            }
        });
        w!(concat!("drainall_", $tag), {
            let n = $n;
            let mut t = <$t>::from_fn(<$t as Sh>::shape(&n), |_| quiet());
            t.drain(..);
            let mut m = n;
            m[0] = 0;
            claim!(C10_C11__drained_all, has(&*t, &m));
        });
        w!(concat!("drainrange_", $tag), {
            // the other kinds of ranges
            let n = $n;
            let mut t = <$t>::from_fn(<$t as Sh>::shape(&n), |_| quiet());
            let old = ids(&t);
            t.drain($b..);
            let mut m = n;
            m[0] = $b;
            claim!(C10_C11__drained_tail, has(&*t, &m) && ids(&t).at(0, &old, 0, $b * $r));
            t.drain(..$a);
            m[0] = $b - $a;
            claim!(C10_C11__drained_head, has(&*t, &m) && ids(&t).at(0, &old, $a * $r, ($b - $a) * $r));
            if $b > $a {
                t.drain(0..=0);
                m[0] = $b - $a - 1;
                claim!(C10_C11__drained_first, has(&*t, &m) && ids(&t).at(0, &old, ($a + 1) * $r, ($b - $a - 1) * $r));
            }
        });
    };
    (@ $tag:expr, $t:ty, $n:expr, $r:literal, $a:literal, $b:literal, $f:expr) => {
        w!(concat!("drain_", $tag), {
            let n = $n;
            let mut t = <$t>::from_fn(<$t as Sh>::shape(&n), |_| quiet());
            let (old, cap) = (ids(&t), t.capacity());
            $f(t.drain($a..$b));
            let mut m = n;
            m[0] = n[0] - ($b - $a);
            claim!(C10_C11__rest_shape, has(&*t, &m));
            let new = ids(&t);
            claim!(C11__rest_front, new.at(0, &old, 0, $a * $r));
            claim!(C11__rest_tail, new.at($a * $r, &old, $b * $r, (n[0] - $b) * $r));
        });
    };
}
remove!("1_5_1_3", T1, [5], 1, 1, 3);
remove!("1_5_0_2", T1, [5], 1, 0, 2);
remove!("1_5_3_5", T1, [5], 1, 3, 5);
remove!("1_5_2_2", T1, [5], 1, 2, 2);
remove!("1_5_5_5", T1, [5], 1, 5, 5);
remove!("1_5_0_5", T1, [5], 1, 0, 5);
remove!("2_42_1_2", T2, [4, 2], 2, 1, 2);
remove!("2_42_1_3", T2, [4, 2], 2, 1, 3);
remove!("2_43_0_1", T2, [4, 3], 3, 0, 1);
remove!("2_33_2_3", T2, [3, 3], 3, 2, 3);
remove!("2_20_1_2", T2, [2, 0], 0, 1, 2);
remove!("3_322_1_2", T3, [3, 2, 2], 4, 1, 2);
remove!("3_412_1_3", T3, [4, 1, 2], 2, 1, 3);
remove!("x_42_1_3", TX, [4, 2], 2, 1, 3);
remove!("x_322_0_1", TX, [3, 2, 2], 4, 0, 1);
remove!("c_42_1_3", TC2, [4, 2], 2, 1, 3);
remove!("c3_322_1_2", TC3, [3, 2, 2], 4, 1, 2);

macro_rules! remove_bad {
    ($tag:literal, $t:ty, $n:expr, $r:expr) => {
        w_panics!(concat!("drainbad_", $tag), { let mut t = <$t>::from_fn(<$t as Sh>::shape(&$n), |_| quiet()); { let c = Chk(&mut t); drop(c.0.drain($r)); } });
    };
}
remove_bad!("end", T2, [3, 2], 1..4);
remove_bad!("rev", T2, [3, 2], 2..1);
remove_bad!("start", T1, [3], 4..);
remove_bad!("incl", T1, [3], 1..=3);
remove_bad!("to", T1, [3], ..5);
remove_bad!("max", T1, [3], 0..=usize::MAX);
remove_bad!("k", TK2, [2, 2], 0..1);
remove_bad!("kfull", TK2, [2, 2], 0..2);
w_panics!("truncbad_k", { let mut t = TK2::from_fn(<TK2 as Sh>::shape(&[2, 2]), |_| quiet()); { let c = Chk(&mut t); c.0.truncate(1); } });
w_panics!("truncbad_0", { let mut t = Tensor::from_fn((), |_| quiet()); { let c = Chk(&mut t); c.0.truncate(0); } });
w_panics!("drainbad_0", { let mut t = Tensor::from_fn((), |_| quiet()); { let c = Chk(&mut t); c.0.drain(..); } });
w_panics!("clearbad_0", { let mut t = Tensor::from_fn((), |_| quiet()); { let c = Chk(&mut t); c.0.clear(); } });
w_panics!("clearbad_c", { let mut t = Tensor::from_fn((Const::<2>, Const::<1>), |_| quiet()); { let c = Chk(&mut t); c.0.clear(); } });
w_panics!("newbad_0", { let _t = Tensor::<D, ()>::new(); });
w_panics!("newbad_c", { let _t = Tensor::<D, (Const<2>,)>::new(); });
w_panics!("capbad_c", { let _t = Tensor::<D, (Const<2>, Const<1>)>::with_capacity(3); });
w_panics!("expandbad_0", { let mut t = Tensor::from_fn((), |_| quiet()); { let c = Chk(&mut t); c.0.expand(Tensor::from_fn((), |_| quiet())); } });

// Sequences of operations.
macro_rules! seq {
    ($tag:literal, $t:ty) => {
        w!(concat!("seq1_", $tag), {
            let mut t = <$t>::from_fn(<$t as Sh>::shape(&[2, 2]), |_| quiet());
            let a = ids(&t);
            t.reserve(3);
            claim!(C10_C11__reserved, t.capacity() >= 7 && has(&*t, &[2, 2]) && ids(&t).same(&a));
            let mut s = <$t>::from_fn(<$t as Sh>::shape(&[1, 2]), |_| quiet());
            let b = ids(&s);
            t.append(&mut s);
            t.drain(1..2);
            t.shrink_to_fit();
            claim!(C10_C11__shrunk, t.capacity() >= 4 && has(&*t, &[2, 2]));
            let c = ids(&t);
            claim!(C11__seq, c.at(0, &a, 0, 2) && c.at(2, &b, 0, 2));
            t.truncate(1);
            s.append(&mut t);
            claim!(C11__seq_back, has(&*s, &[1, 2]) && ids(&s).at(0, &a, 0, 2));
            t.resize(&[2, 2], quiet());
            s.clone_from(&t);
            claim!(C11_C16__seq_clone, has(&*s, &[2, 2]) && vals(&s).same(&vals(&t)));
        });
        w!(concat!("reserve_", $tag), {
            let mut t = <$t>::from_fn(<$t as Sh>::shape(&[3, 2]), |_| quiet());
            let a = ids(&t);
            t.reserve(4);
            claim!(C10_C11__reserve, t.capacity() >= 10 && has(&*t, &[3, 2]) && ids(&t).same(&a));
            t.reserve_exact(20);
            claim!(C10_C11__reserve_exact, t.capacity() >= 26 && has(&*t, &[3, 2]) && ids(&t).same(&a));
            t.shrink_to(12);
            claim!(C10_C11__shrink_to, t.capacity() >= 12 && has(&*t, &[3, 2]) && ids(&t).same(&a));
            t.shrink_to_fit();
            claim!(C10_C11__shrink_to_fit, t.capacity() >= 6 && has(&*t, &[3, 2]) && ids(&t).same(&a));
            claim!(C10_C11__try_reserve, t.try_reserve(5).is_ok() && t.capacity() >= 11 && ids(&t).same(&a));
            claim!(C10_C11__try_reserve_exact, t.try_reserve_exact(15).is_ok() && t.capacity() >= 21 && has(&*t, &[3, 2]) && ids(&t).same(&a));
            claim!(C10_C11__spare, t.spare_capacity_mut().len() == t.capacity() - 6 && t.spare_capacity_mut().as_ptr() as usize == t.as_ptr() as usize + 6 * size_of::<D>());
        });
    };
}
seq!("2", T2);
seq!("x", TX);
seq!("c", TC2);
w!("new", {
    let t = T2::new();
    claim!(C10_C11__new_is_empty, has(&*t, &[0, 0]) && t.capacity() == 0);
    let t = TX::new();
    claim!(C10_C11__new_dyn_is_empty, has(&*t, &[0]));
    let t = TC2::new();
    claim!(C10_C11_C13__new_const, has(&*t, &[0, 2]));
    let t = T3::with_capacity(5);
    claim!(C10_C11__with_capacity, has(&*t, &[0, 0, 0]) && t.capacity() >= 5);
    let t = Tensor::<D, (Const<0>, Dyn)>::default();
    claim!(C10_C11__default, t.len() == 0 && t.dim(0) == 0);
});
w!("clear_x", {
    let mut t = TX::from_fn(DynRank::from_dims(&[2, 2]), |_| quiet());
    t.clear();
    claim!(C10_C11__cleared_rank, has(&*t, &[0]));
});
w!("extend", {
    let mut t = T1::from_fn([2], |_| quiet());
    let a = vals(&t);
    let s = [quiet(), quiet(), quiet()];
    let v = [s[0].val(), s[1].val(), s[2].val()];
    t.extend(s);
    let c = vals(&t);
    claim!(C10_C11_C16__extended, has(&*t, &[5]) && c.at(0, &a, 0, 2) && c.v[2] == v[0] && c.v[3] == v[1] && c.v[4] == v[2]);
});
