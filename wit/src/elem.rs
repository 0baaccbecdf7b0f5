//! Element-wise operations: every source of elements with every way of consuming it. The consumer
//! must see each element once, in row-major order, and the results must be those of the calls.
use crate::common::*;
use crate::life::*;

macro_rules! w {
    ($tag:expr, $b:block) => {
        const _: () = {
            #[unsafe(export_name = concat!("d__C05_C06_C08__", $tag))]
            pub fn f() {
                $b
                reach!(R__end);
            }
        };
    };
}

/// What identifies an item.
pub trait Key {
    fn key(&self) -> u64;
}
impl Key for u64 {
    #[inline(always)]
    fn key(&self) -> u64 {
        *self
    }
}
impl Key for D {
    #[inline(always)]
    fn key(&self) -> u64 {
        self.val()
    }
}
impl<T: Key> Key for &T {
    #[inline(always)]
    fn key(&self) -> u64 {
        (**self).key()
    }
}
impl<T: Key> Key for &mut T {
    #[inline(always)]
    fn key(&self) -> u64 {
        (**self).key()
    }
}

/// Keys of any view in row-major order, read through the strides.
#[inline(always)]
fn keys<T: Key, S: Shape, L: Layout>(t: &Slice<T, S, L>) -> Vals {
    let mut r = Vals::new();
    let n = t.len();
    for k in 0..n {
        let mut rest = k;
        let mut o = 0isize;
        let mut d = t.rank();
        while d > 0 {
            d -= 1;
            o += (rest % t.dim(d)) as isize * t.stride(d);
            rest /= t.dim(d);
        }
        r.push(unsafe { (*t.as_ptr().offset(o)).key() });
    }
    r
}
/// Keys of the elements in memory order.
#[inline(always)]
fn raw<T: Key>(p: *const T, n: usize) -> Vals {
    let mut r = Vals::new();
    for i in 0..n {
        r.push(unsafe { (*p.add(i)).key() });
    }
    r
}
macro_rules! once {
    ($c:expr) => { claim!(C05_C06_C08__each_element_once_in_order, $c) };
}
macro_rules! kept {
    ($c:expr) => { claim!(C06_C08__result_at_the_position_of_its_operands, $c) };
}
#[inline(always)]
fn ends<T>(mut i: impl ExactSizeIterator<Item = T>) {
    claim!(C06__nothing_remains_at_the_end, i.len() == 0 && i.size_hint() == (0, Some(0)));
    once!(i.next().is_none());
    claim!(C06__nothing_remains_at_the_end, i.len() == 0);
    once!(i.next().is_none());
    i.for_each(|_| once!(false));
}

/// Sources: evaluates `$b` with the expression, the keys in row-major order and the dimensions.
macro_rules! src {
    (tref, |$e:ident, $k:ident, $d:ident| $b:expr) => {{ let $d = [3, 2]; let o = Tensor::from_fn($d, |_| fresh()); let $k = keys(&*o); let $e = &o; $b }};
    (aref, |$e:ident, $k:ident, $d:ident| $b:expr) => {{ let $d = [3, 2]; let o = Array::<u64, (C<3>, C<2>)>::from_fn(|_| fresh()); let $k = keys(&*o); let $e = &o; $b }};
    (sref, |$e:ident, $k:ident, $d:ident| $b:expr) => {{ let $d = [3, 2]; let o = Tensor::from_fn($d, |_| fresh()); let $k = keys(&*o); let $e: &Slice<u64, _> = &*o; $b }};
    (mref, |$e:ident, $k:ident, $d:ident| $b:expr) => {{ let $d = [3, 2]; let o = Tensor::from_fn((Const::<3>, 2), |_| fresh()); let $k = keys(&*o); let $e = &o; $b }};
    (tx, |$e:ident, $k:ident, $d:ident| $b:expr) => {{ let $d = [3, 2]; let o = Tensor::from_fn(DynRank::from_dims(&$d), |_| fresh()); let $k = keys(&*o); let $e = &o; $b }};
    (perm, |$e:ident, $k:ident, $d:ident| $b:expr) => {{ let $d = [3, 2]; let o = Tensor::from_fn([2, 3], |_| fresh()); let $e = o.permute([1, 0]); let $k = keys(&*$e); $b }};
    (part, |$e:ident, $k:ident, $d:ident| $b:expr) => {{ let $d = [3, 2]; let o = Tensor::from_fn([3, 4], |_| fresh()); let $e = o.view(.., 1..3); let $k = keys(&*$e); $b }};
    (back, |$e:ident, $k:ident, $d:ident| $b:expr) => {{ let $d = [3, 2]; let o = Tensor::from_fn([5, 2], |_| fresh()); let $e = o.view(step(.., -2), ..); let $k = keys(&*$e); $b }};
    (px, |$e:ident, $k:ident, $d:ident| $b:expr) => {{ let $d = [3, 2]; let o = Tensor::from_fn([2, 3], |_| fresh()); let $e = o.permute([1, 0]).into_dyn(); let $k = keys(&*$e); $b }};
    (col, |$e:ident, $k:ident, $d:ident| $b:expr) => {{ let $d = [3]; let o = Tensor::from_fn([3, 2], |_| fresh()); let $e = o.col(1); let $k = keys(&*$e); $b }};
    (mid, |$e:ident, $k:ident, $d:ident| $b:expr) => {{ let $d = [2, 2, 2]; let o = Tensor::from_fn([2, 3, 2], |_| fresh()); let $e = o.view(.., 1.., ..); let $k = keys(&*$e); $b }};
    (cube, |$e:ident, $k:ident, $d:ident| $b:expr) => {{ let $d = [2, 1, 3]; let o = Tensor::from_fn([3, 2, 1], |_| fresh()); let $e = o.permute([1, 2, 0]); let $k = keys(&*$e); $b }};
    (zero, |$e:ident, $k:ident, $d:ident| $b:expr) => {{ let $d: [usize; 0] = []; let o = Tensor::from_fn((), |_| fresh()); let $k = keys(&*o); let $e = &o; $b }};
    (none, |$e:ident, $k:ident, $d:ident| $b:expr) => {{ let $d = [2, 0]; let o = Tensor::from_fn($d, |_| fresh()); let $k = keys(&*o); let $e = &o; $b }};
    (nonestr, |$e:ident, $k:ident, $d:ident| $b:expr) => {{ let $d = [0, 2]; let o = Tensor::from_fn([2, 3], |_| fresh()); let $e = o.view(1..1, 1..); let $k = keys(&*$e); $b }};
    (nonemid, |$e:ident, $k:ident, $d:ident| $b:expr) => {{ let $d = [2, 0, 2]; let o = Tensor::from_fn([2, 3, 2], |_| fresh()); let $e = o.view(.., 1..1, ..); let $k = keys(&*$e); $b }};
    // mutable
    (tmut, |$e:ident, $k:ident, $d:ident| $b:expr) => {{ let $d = [3, 2]; let mut o = Tensor::from_fn($d, |_| fresh()); let $k = keys(&*o); let $e = &mut o; $b }};
    (amut, |$e:ident, $k:ident, $d:ident| $b:expr) => {{ let $d = [3, 2]; let mut o = Array::<u64, (C<3>, C<2>)>::from_fn(|_| fresh()); let $k = keys(&*o); let $e = &mut o; $b }};
    (pmut, |$e:ident, $k:ident, $d:ident| $b:expr) => {{ let $d = [3, 2]; let mut o = Tensor::from_fn([2, 3], |_| fresh()); let $e = o.permute_mut([1, 0]); let $k = keys(&*$e); $b }};
    (vmut, |$e:ident, $k:ident, $d:ident| $b:expr) => {{ let $d = [3, 2]; let mut o = Tensor::from_fn([3, 4], |_| fresh()); let $e = o.view_mut(.., 1..3); let $k = keys(&*$e); $b }};
    (xmut, |$e:ident, $k:ident, $d:ident| $b:expr) => {{ let $d = [3, 2]; let mut o = Tensor::from_fn([2, 3], |_| fresh()); let $e = o.permute_mut([1, 0]).into_dyn(); let $k = keys(&*$e); $b }};
    // by value
    (tval, |$e:ident, $k:ident, $d:ident| $b:expr) => {{ let $d = [3, 2]; let $e = Tensor::from_fn($d, |_| quiet()); let $k = keys(&*$e); $b }};
    (aval, |$e:ident, $k:ident, $d:ident| $b:expr) => {{ let $d = [3, 2]; let $e = Array::<D, (C<3>, C<2>)>::from_fn(|_| quiet()); let $k = keys(&*$e); $b }};
    (xval, |$e:ident, $k:ident, $d:ident| $b:expr) => {{ let $d = [2, 1, 2]; let $e = Tensor::from_fn(DynRank::from_dims(&$d), |_| quiet()); let $k = keys(&*$e); $b }};
    (mval, |$e:ident, $k:ident, $d:ident| $b:expr) => {{ let $d = [3, 2]; let $e = Tensor::from_fn((3, Const::<2>), |_| quiet()); let $k = keys(&*$e); $b }};
    (val1, |$e:ident, $k:ident, $d:ident| $b:expr) => {{ let $d = [4]; let $e = Tensor::from_fn($d, |_| quiet()); let $k = keys(&*$e); $b }};
    (val0, |$e:ident, $k:ident, $d:ident| $b:expr) => {{ let $d = [0, 2]; let $e = Tensor::from_fn($d, |_| quiet()); let $k = keys(&*$e); $b }};
    (texpr, |$e:ident, $k:ident, $d:ident| $b:expr) => {{ let $d = [3, 2]; let e = Tensor::from_fn($d, |_| quiet()); let $k = keys(&*e); let $e = e.into_expr(); $b }};
    (aexpr, |$e:ident, $k:ident, $d:ident| $b:expr) => {{ let $d = [1, 2, 2]; let e = Array::<D, (C<1>, C<2>, C<2>)>::from_fn(|_| quiet()); let $k = keys(&*e); let $e = e.into_expr(); $b }};
    (drain, |$e:ident, $k:ident, $d:ident| $b:expr) => {{ let $d = [3, 2]; let mut o = Tensor::from_fn([5, 2], |_| quiet()); let $k = raw(unsafe { o.as_ptr().add(2) }, 6); let $e = o.drain(1..4); $b }};
    (drain1, |$e:ident, $k:ident, $d:ident| $b:expr) => {{ let $d = [2]; let mut o = Tensor::from_fn([4], |_| quiet()); let $k = raw(unsafe { o.as_ptr().add(2) }, 2); let $e = o.drain(2..); $b }};
    (drain0, |$e:ident, $k:ident, $d:ident| $b:expr) => {{ let $d = [0, 2]; let mut o = Tensor::from_fn([2, 2], |_| quiet()); let $k = raw(o.as_ptr(), 0); let $e = o.drain(1..1); $b }};
    (drainx, |$e:ident, $k:ident, $d:ident| $b:expr) => {{ let $d = [2, 2]; let mut o = Tensor::from_fn(DynRank::from_dims(&[3, 2]), |_| quiet()); let $k = raw(o.as_ptr(), 4); let $e = o.drain(..2); $b }};
    // adapters
    (cloned, |$e:ident, $k:ident, $d:ident| $b:expr) => {{ let $d = [3, 2]; let o = Tensor::from_fn([2, 3], |_| quiet()); let v = o.permute([1, 0]); let $k = keys(&*v); let $e = v.expr().cloned(); $b }};
    (copied, |$e:ident, $k:ident, $d:ident| $b:expr) => {{ let $d = [3, 2]; let o = Tensor::from_fn([3, 4], |_| fresh()); let v = o.view(.., 1..3); let $k = keys(&*v); let $e = v.expr().copied(); $b }};
    (map, |$e:ident, $k:ident, $d:ident| $b:expr) => {{ let $d = [3, 2]; let o = Tensor::from_fn([2, 3], |_| fresh()); let v = o.permute([1, 0]); let k = keys(&*v);
        let f: Vals = Vals { v: std::array::from_fn(|_| fresh()), n: 6 }; let $k = f; let mut c = 0;
        let $e = v.expr().map(|x| { once!(c < 6 && x.key() == k.v[c]); c += 1; f.v[c - 1] }); $b }};
    (enumer, |$e:ident, $k:ident, $d:ident| $b:expr) => {{ let $d = [3, 2]; let o = Tensor::from_fn([2, 3], |_| fresh()); let v = o.permute([1, 0]); let $k = keys(&*v); let mut c = 0;
        let $e = v.expr().enumerate().map(|(i, x)| { once!(i == c); c += 1; x }); $b }};
    (zipl, |$e:ident, $k:ident, $d:ident| $b:expr) => {{ let $d = [3, 2]; let o = Tensor::from_fn([2, 3], |_| fresh()); let v = o.permute([1, 0]); let $k = keys(&*v); let r = Tensor::from_fn([2], |_| fresh()); let q = keys(&*r); let mut c = 0;
        let $e = expr::zip(v, &r).map(|(x, y)| { once!(y.key() == q.v[c % 2]); c += 1; x }); $b }};
    (zipr, |$e:ident, $k:ident, $d:ident| $b:expr) => {{ let $d = [3, 2]; let o = Tensor::from_fn([3, 2], |_| quiet()); let $k = keys(&*o); let r = Tensor::from_fn((), |_| fresh()); let q = keys(&*r);
        let $e = r.expr().zip(o).map(|(y, x)| { once!(y.key() == q.v[0]); x }); $b }};
    (zipv, |$e:ident, $k:ident, $d:ident| $b:expr) => {{ let $d = [3, 2]; let o = Tensor::from_fn([3, 2], |_| quiet()); let $k = keys(&*o); let r = Array::<D, (C<3>, C<2>)>::from_fn(|_| quiet()); let q = keys(&*r); let mut c = 0;
        let $e = expr::zip(o, r).map(|(x, y)| { once!(y.key() == q.v[c]); c += 1; x }); $b }};
    (zipm, |$e:ident, $k:ident, $d:ident| $b:expr) => {{ let $d = [3, 2]; let mut o = Tensor::from_fn([3, 2], |_| fresh()); let $k = keys(&*o); let r = Tensor::from_fn([2, 3], |_| fresh()); let r = r.reorder(); let q = keys(&*r); let mut c = 0;
        let $e = o.expr_mut().zip(r).map(|(x, y)| { once!(y.key() == q.v[c]); c += 1; x }); $b }};
    (fillw, |$e:ident, $k:ident, $d:ident| $b:expr) => {{ let $d = [3, 2]; let o = Tensor::from_fn([3, 2], |_| ()); let f: Vals = Vals { v: std::array::from_fn(|_| fresh()), n: 6 }; let $k = f; let mut c = 0;
        let $e = expr::zip(&o, expr::fill_with(|| { once!(c < 6); c += 1; f.v[c - 1] })).map(|(_, x)| x); $b }};
    (fill, |$e:ident, $k:ident, $d:ident| $b:expr) => {{ let $d = [3, 2]; let o = Tensor::from_fn([3, 2], |_| ()); let x = quiet(); let $k = Vals { v: [x.val(); 40], n: 6 };
        let $e = expr::zip(expr::fill(x), &o).map(|(x, _)| x); $b }};
    (fromelem, |$e:ident, $k:ident, $d:ident| $b:expr) => {{ let $d = [2, 1, 2]; let x = quiet(); let $k = Vals { v: [x.val(); 40], n: 4 }; let $e = expr::from_elem($d, x); $b }};
    (fromfn, |$e:ident, $k:ident, $d:ident| $b:expr) => {{ let $d = [2, 1, 2]; let f: Vals = Vals { v: std::array::from_fn(|_| fresh()), n: 4 }; let $k = f;
        let $e = expr::from_fn($d, |i| f.v[i[0] * 2 + i[1] * 2 + i[2]]); $b }};
}

#[inline(always)]
fn dims_are<E: Expression>(e: &E, d: &[usize]) -> bool {
    let mut ok = e.rank() == d.len() && e.len() == mul(d) && e.is_empty() == (mul(d) == 0) && e.shape().len() == mul(d);
    let mut i = 0;
    while ok && i < d.len() {
        ok = e.dim(i) == d[i] && e.shape().dim(i) == d[i];
        i += 1;
    }
    ok
}

macro_rules! consume {
    ($($s:ident)*) => {$(
        w!(concat!("foreach_", stringify!($s)), { src!($s, |e, k, d| {
            let e = e.into_expr();
            claim!(C06_C08__shape_of_expression, dims_are(&e, &d));
            let mut c = 0;
            e.for_each(|x| { once!(c < k.n && x.key() == k.v[c]); c += 1; });
            once!(c == k.n);
        }) });
        w!(concat!("foreachf_", stringify!($s)), { src!($s, |e, k, d| {
            let mut c = 0;
            expr::for_each(e, |x| { once!(c < k.n && x.key() == k.v[c]); c += 1; });
            once!(c == k.n);
        }) });
        w!(concat!("fold_", stringify!($s)), { src!($s, |e, k, d| {
            let c = e.into_expr().fold(0, |c, x| { once!(c < k.n && x.key() == k.v[c]); c + 1 });
            once!(c == k.n);
        }) });
        w!(concat!("foldf_", stringify!($s)), { src!($s, |e, k, d| {
            let c = expr::fold(e, 0, |c, x| { once!(c < k.n && x.key() == k.v[c]); c + 1 });
            once!(c == k.n);
        }) });
        w!(concat!("step_", stringify!($s)), { src!($s, |e, k, d| {
            let mut i = e.into_iter();
            let mut c = 0;
            while c < k.n {
                claim!(C06__remaining_length, i.len() == k.n - c && i.size_hint() == (k.n - c, Some(k.n - c)));
                match i.next() {
                    Some(x) => once!(x.key() == k.v[c]),
                    None => once!(false),
                }
                c += 1;
            }
            ends(i);
        }) });
        w!(concat!("mix1_", stringify!($s)), { src!($s, |e, k, d| mixed(e.into_iter(), &k, 1)) });
        w!(concat!("mix2_", stringify!($s)), { src!($s, |e, k, d| mixed(e.into_iter(), &k, 2)) });
        w!(concat!("mix3_", stringify!($s)), { src!($s, |e, k, d| mixed(e.into_iter(), &k, 3)) });
        w!(concat!("mixall_", stringify!($s)), { src!($s, |e, k, d| mixed(e.into_iter(), &k, k.n)) });
        w!(concat!("nth_", stringify!($s)), { src!($s, |e, k, d| {
            let mut i = e.into_iter();
            match i.nth(1) {
                Some(x) => once!(k.n > 1 && x.key() == k.v[1]),
                None => once!(k.n <= 1),
            }
            match i.nth(1) {
                Some(x) => once!(k.n > 3 && x.key() == k.v[3]),
                None => once!(k.n <= 3),
            }
            claim!(C06__remaining_length, i.len() == k.n.saturating_sub(4));
            once!(i.count() == k.n.saturating_sub(4));
        }) });
        w!(concat!("last_", stringify!($s)), { src!($s, |e, k, d| {
            match e.into_iter().last() {
                Some(x) => once!(k.n > 0 && x.key() == k.v[k.n - 1]),
                None => once!(k.n == 0),
            }
        }) });
        w!(concat!("take_", stringify!($s)), { src!($s, |e, k, d| {
            let mut i = e.into_iter();
            let mut c = 0;
            for x in i.by_ref().take(3) { once!(c < k.n && x.key() == k.v[c]); c += 1; }
            once!(c == k.n.min(3));
            for x in i { once!(c < k.n && x.key() == k.v[c]); c += 1; }
            once!(c == k.n);
        }) });
        w!(concat!("collect_", stringify!($s)), { src!($s, |e, k, d| {
            let v: Vec<_> = e.into_iter().collect();
            once!(v.len() == k.n);
            for c in 0..k.n { once!(v[c].key() == k.v[c]); }
        }) });
        w!(concat!("eval_", stringify!($s)), { src!($s, |e, k, d| {
            let t = e.into_expr().eval();
            kept!(has(&t, &d) && raw(t.as_ptr(), k.n).same(&k));
        }) });
        w!(concat!("tensor_", stringify!($s)), { src!($s, |e, k, d| {
            let t: Tensor<_, _> = FromExpression::from_expr(e);
            kept!(has(&*t, &d) && raw(t.as_ptr(), k.n).same(&k));
        }) });
        w!(concat!("mapeval_", stringify!($s)), { src!($s, |e, k, d| {
            let mut r = Vals::new();
            let t = expr::map(e, |x| { once!(r.n < k.n && x.key() == k.v[r.n]); let y = quiet(); r.push(y.val()); y }).eval();
            kept!(has(&t, &d) && raw(t.as_ptr(), k.n).same(&r));
        }) });
        w!(concat!("apply_", stringify!($s)), { src!($s, |e, k, d| {
            let mut r = Vals::new();
            let t = Apply::apply(e.into_expr(), |x| { once!(r.n < k.n && x.key() == k.v[r.n]); let y = fresh(); r.push(y); y }).eval();
            kept!(has(&t, &d) && raw(t.as_ptr(), k.n).same(&r));
        }) });
        w!(concat!("zipwith_", stringify!($s)), { src!($s, |e, k, d| {
            let mut r = Vals::new();
            let z = fresh();
            let t = e.into_expr().zip_with(expr::fill(z), |(x, y)| { once!(r.n < k.n && x.key() == k.v[r.n] && y == z); let y = fresh(); r.push(y); y }).eval();
            kept!(has(&t, &d) && raw(t.as_ptr(), k.n).same(&r));
        }) });
        w!(concat!("enum_", stringify!($s)), { src!($s, |e, k, d| {
            let mut c = 0;
            expr::enumerate(e).for_each(|(i, x)| { once!(c < k.n && i == c && x.key() == k.v[c]); c += 1; });
            once!(c == k.n);
        }) });
    )*};
}
#[inline(always)]
fn mixed<T: Key>(mut i: impl ExactSizeIterator<Item = T>, k: &Vals, n: usize) {
    let mut c = 0;
    while c < n && c < k.n {
        match i.next() {
            Some(x) => once!(x.key() == k.v[c]),
            None => once!(false),
        }
        c += 1;
    }
    claim!(C06__remaining_length, i.len() == k.n - c);
    let c = i.fold(c, |c, x| {
        once!(c < k.n && x.key() == k.v[c]);
        c + 1
    });
    once!(c == k.n);
}
consume!(tref aref sref mref tx perm part back px col mid cube zero none nonestr nonemid);
consume!(tmut amut pmut vmut xmut tval aval xval mval val1 val0 texpr aexpr drain drain1 drain0 drainx);
consume!(cloned copied map enumer zipl zipr zipv zipm fillw fill fromelem fromfn);

// Applying a closure to the array itself.
macro_rules! apply_in_place {
    ($($s:ident)*) => {$(
        w!(concat!("inplace_apply_", stringify!($s)), { src!($s, |e, k, d| {
            let mut r = Vals::new();
            let t = e.apply(|x| { once!(r.n < k.n && x.key() == k.v[r.n]); let y = quiet(); r.push(y.val()); y });
            kept!(has(&*t, &d) && raw(t.as_ptr(), k.n).same(&r));
        }) });
        w!(concat!("inplace_map_", stringify!($s)), { src!($s, |e, k, d| {
            let mut r = Vals::new();
            let t = e.map(|x| { once!(r.n < k.n && x.key() == k.v[r.n]); let y = quiet(); r.push(y.val()); y });
            kept!(has(&*t, &d) && raw(t.as_ptr(), k.n).same(&r));
        }) });
        w!(concat!("inplace_zip_", stringify!($s)), { src!($s, |e, k, d| {
            let o = Tensor::from_fn(d, |_| quiet());
            let q = keys(&*o);
            let mut r = Vals::new();
            let t = e.zip_with(o, |(x, y)| { once!(r.n < k.n && x.key() == k.v[r.n] && y.key() == q.v[r.n]); let z = quiet(); r.push(z.val()); z });
            kept!(has(&*t, &d) && raw(t.as_ptr(), k.n).same(&r));
        }) });
    )*};
}
apply_in_place!(tval aval xval mval val1 val0);
// Reference operands of `apply` and `zip_with`.
macro_rules! apply_ref {
    ($($s:ident)*) => {$(
        w!(concat!("ref_apply_", stringify!($s)), { src!($s, |e, k, d| {
            let mut r = Vals::new();
            let t = Apply::<u64>::apply(e, |x| { once!(r.n < k.n && x.key() == k.v[r.n]); let y = fresh(); r.push(y); y }).into_expr().eval();
            kept!(has(&t, &d) && raw(t.as_ptr(), k.n).same(&r));
        }) });
        w!(concat!("ref_zip_", stringify!($s)), { src!($s, |e, k, d| {
            let o = Tensor::from_fn(d, |_| quiet());
            let q = keys(&*o);
            let mut r = Vals::new();
            let t = Apply::<u64>::zip_with(e, &o, |(x, y)| { once!(r.n < k.n && x.key() == k.v[r.n] && y.key() == q.v[r.n]); let y = fresh(); r.push(y); y }).into_expr().eval();
            kept!(has(&t, &d) && raw(t.as_ptr(), k.n).same(&r));
        }) });
    )*};
}
apply_ref!(tref aref sref mref perm part back col mid cube none nonestr tmut amut pmut vmut zero);
w!("ref_apply_views", {
    let mut o = Tensor::from_fn([2, 3], |_| fresh());
    let (k, mut r) = (keys(&*o.permute([1, 0])), Vals::new());
    let v = o.permute([1, 0]);
    let t = (&v).apply(|x| { once!(r.n < k.n && x.key() == k.v[r.n]); let y = fresh(); r.push(y); y }).eval();
    kept!(has(&t, &[3, 2]) && raw(t.as_ptr(), 6).same(&r));
    let mut v = o.permute_mut([1, 0]);
    let mut r = Vals::new();
    let t = (&v).apply(|x| { once!(r.n < k.n && x.key() == k.v[r.n]); let y = fresh(); r.push(y); y }).eval();
    kept!(has(&t, &[3, 2]) && raw(t.as_ptr(), 6).same(&r));
    let mut r = Vals::new();
    let t = (&mut v).apply(|x| { once!(r.n < k.n && x.key() == k.v[r.n]); let y = fresh(); r.push(y); *x = y; y }).eval();
    kept!(has(&t, &[3, 2]) && raw(t.as_ptr(), 6).same(&r) && keys(&*v).same(&r));
    let z = Tensor::from_fn([2], |_| fresh());
    let q = keys(&*z);
    let mut c = 0;
    (&mut v).zip_with(&z, |(x, y)| { once!(x.key() == r.v[c] && y.key() == q.v[c % 2]); c += 1; }).for_each(|()| ());
    once!(c == 6);
    let mut c = 0;
    (&v).zip_with(&z, |(x, y)| { once!(x.key() == r.v[c] && y.key() == q.v[c % 2]); c += 1; }).for_each(|()| ());
    once!(c == 6);
    let mut c = 0;
    v.zip_with(&z, |(x, y)| { once!(x.key() == r.v[c] && y.key() == q.v[c % 2]); c += 1; }).for_each(|()| ());
    once!(c == 6);
});

/// Targets that are written in place: `$t` is the array of `$o`, elements outside stay.
macro_rules! dst {
    (t, |$t:ident, $o:ident, $s:expr, $d:ident| $b:block) => {{ let $d = [3, 2]; let mut $o = Tensor::from_fn([3, 2], |_| quiet()); { let $t = &mut $o; $b } }};
    (a, |$t:ident, $o:ident, $s:expr, $d:ident| $b:block) => {{ let $d = [3, 2]; let mut $o = Array::<D, (C<3>, C<2>)>::from_fn(|_| quiet()); { let $t = &mut $o; $b } }};
    (x, |$t:ident, $o:ident, $s:expr, $d:ident| $b:block) => {{ let $d = [3, 2]; let mut $o = Tensor::from_fn(DynRank::from_dims(&[3, 2]), |_| quiet()); { let $t = &mut $o; $b } }};
    (p, |$t:ident, $o:ident, $s:expr, $d:ident| $b:block) => {{ let $d = [3, 2]; let mut $o = Tensor::from_fn([2, 3], |_| quiet()); { let mut v = $o.permute_mut([1, 0]); let $t = &mut v; $b } }};
    (v, |$t:ident, $o:ident, $s:expr, $d:ident| $b:block) => {{ let $d = [3, 2]; let mut $o = Tensor::from_fn([3, 3], |_| quiet()); let k = keys(&*$o); { let mut v = $o.view_mut(.., 1..); let $t = &mut v; $b }
        let l = keys(&*$o); for i in 0..3 { claim!(C05_C08__elements_outside_are_kept, k.v[3 * i] == l.v[3 * i]); } }};
}
macro_rules! write {
    ($($t:ident)*) => {$(
        w!(concat!("fill_", stringify!($t)), { dst!($t, |t, o, _, d| { let x = quiet(); let v = x.val(); t.fill(x); kept!(keys(&**t).all(v) && t.len() == 6); }) });
        w!(concat!("fillwith_", stringify!($t)), { dst!($t, |t, o, _, d| { let mut r = Vals::new(); t.fill_with(|| { once!(r.n < 6); let x = quiet(); r.push(x.val()); x }); kept!(keys(&**t).same(&r)); }) });
        w!(concat!("assign_t_", stringify!($t)), { dst!($t, |t, o, _, d| { let s = Tensor::from_fn([3, 2], |_| quiet()); let k = keys(&*s); t.assign(&s); kept!(keys(&**t).same(&k) && keys(&*s).same(&k)); t.assign(s); kept!(keys(&**t).same(&k)); }) });
        w!(concat!("assign_a_", stringify!($t)), { dst!($t, |t, o, _, d| { let s = Array::<D, (C<3>, C<2>)>::from_fn(|_| quiet()); let k = keys(&*s); t.assign(&s); kept!(keys(&**t).same(&k)); t.assign(s); kept!(keys(&**t).same(&k)); }) });
        w!(concat!("assign_p_", stringify!($t)), { dst!($t, |t, o, _, d| { let s = Tensor::from_fn([2, 3], |_| quiet()); let s = s.reorder(); let k = keys(&*s); t.assign(&s); kept!(keys(&**t).same(&k)); t.assign(s); kept!(keys(&**t).same(&k)); }) });
        w!(concat!("assign_v_", stringify!($t)), { dst!($t, |t, o, _, d| { let s = Tensor::from_fn([3, 3], |_| quiet()); let s = s.view(.., ..2); let k = keys(&*s); t.assign(s); kept!(keys(&**t).same(&k)); }) });
        w!(concat!("assign_1_", stringify!($t)), { dst!($t, |t, o, _, d| { let s = Tensor::from_fn([2], |_| quiet()); let k = keys(&*s); t.assign(&s); let l = keys(&**t); kept!(l.n == 6); for i in 0..6 { kept!(l.v[i] == k.v[i % 2]); } }) });
        w!(concat!("assign_0_", stringify!($t)), { dst!($t, |t, o, _, d| { let x = quiet(); let v = x.val(); t.assign(expr::fill(x)); kept!(keys(&**t).all(v)); }) });
        w!(concat!("assign_m_", stringify!($t)), { dst!($t, |t, o, _, d| { let s = Tensor::from_fn([3, 2], |_| quiet()); let k = keys(&*s); let mut r = Vals::new(); t.assign(s.into_expr().map(|x| { once!(x.val() == k.v[r.n]); let y = quiet(); r.push(y.val()); y })); kept!(keys(&**t).same(&r)); }) });
        w!(concat!("modify_", stringify!($t)), { dst!($t, |t, o, _, d| { let k = keys(&**t); let mut r = Vals::new(); for x in t.iter_mut() { once!(x.val() == k.v[r.n]); *x = quiet(); r.push(x.val()); } kept!(keys(&**t).same(&r)); }) });
        w!(concat!("modify2_", stringify!($t)), { dst!($t, |t, o, _, d| { let k = keys(&**t); let s = Tensor::from_fn([3, 2], |_| quiet()); let q = keys(&*s); let mut c = 0;
            expr::zip(t.expr_mut(), s).for_each(|(x, y)| { once!(x.val() == k.v[c] && y.val() == q.v[c]); c += 1; *x = y; }); once!(c == 6); kept!(keys(&**t).same(&q)); }) });
        w!(concat!("swap_", stringify!($t)), { dst!($t, |t, o, _, d| { let k = keys(&**t); let mut s = Tensor::from_fn([2, 3], |_| quiet()); let mut s = s.permute_mut([1, 0]); let q = keys(&*s);
            t.expr_mut().zip(&mut *s).for_each(|(x, y)| std::mem::swap(x, y)); kept!(keys(&**t).same(&q) && keys(&*s).same(&k)); }) });
    )*};
}
write!(t a x p v);

// Appending to a tensor: the elements of any source follow the old ones.
macro_rules! appended {
    ($($s:ident)*) => {$(
        const _: () = {
            #[unsafe(export_name = concat!("d__C06_C08_C10_C11__evalinto_", stringify!($s)))]
            pub fn f() {
                src!($s, |e, k, d| {
                    let mut t = Tensor::from_fn([1, 2], |_| quiet());
                    let o = keys(&*t);
                    let r = e.into_expr().map(|x| dv(x.key())).eval_into(&mut t);
                    let l = keys(&**r);
                    claim!(C10_C11__dimensions_grow, has(&**r, &[1 + d[0], 2]));
                    claim!(C06_C08_C11__elements_appended, l.at(0, &o, 0, 2) && l.at(2, &k, 0, k.n));
                });
                reach!(R__end);
            }
            #[unsafe(export_name = concat!("d__C06_C08_C10_C11__evalnew_", stringify!($s)))]
            pub fn g() {
                src!($s, |e, k, d| {
                    let mut t = Tensor::<D, DynRank>::new();
                    t.expand(e.into_expr().map(|x| dv(x.key())));
                    claim!(C10_C11__shape_taken_over, k.n == 0 || has(&*t, &d));
                    claim!(C06_C08_C11__elements_appended, keys(&*t).same(&k));
                });
                reach!(R__end);
            }
        };
    )*};
}
appended!(tref aref perm part px tmut pmut tval aval texpr drain cloned map zipl zipr zipv fillw fill nonestr);

// Search.
macro_rules! search {
    ($($s:ident)*) => {$(
        w!(concat!("contains_", stringify!($s)), { src!($s, |e, k, d| {
            for c in 0..k.n { claim!(C06__contains_every_element, e.contains(&k.v[c])); }
            claim!(C06__contains_no_other, !e.contains(&fresh()));
        }) });
    )*};
}
search!(tref aref sref mref perm part back col mid cube zero none nonestr nonemid tmut amut pmut vmut);
