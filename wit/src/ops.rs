//! Operators: the result at each position records the operator and both operands in order.
use crate::common::*;
use crate::life::*;
use std::ops::*;

macro_rules! w {
    ($tag:expr, $b:block) => {
        const _: () = {
            #[unsafe(export_name = concat!("d__C15_C08__", $tag))]
            pub fn f() {
                $b
                reach!(R__end);
            }
        };
    };
}
macro_rules! w_panics {
    ($tag:expr, $b:block) => {
        const _: () = {
            #[unsafe(export_name = concat!("d__C15_C08__", $tag))]
            pub fn f() {
                $b
                claim!(C08_C15__accepted_although_shapes_differ, false);
            }
        };
    };
}

/// Element: its identity and how it was made.
#[derive(Clone, Copy)]
pub struct X {
    k: u64,
    op: u64,
    l: u64,
    r: u64,
}
#[inline(always)]
fn x() -> X {
    X { k: fresh(), op: 0, l: 0, r: 0 }
}
trait Key {
    fn key(&self) -> u64;
}
impl Key for X {
    #[inline(always)]
    fn key(&self) -> u64 {
        self.k
    }
}
impl Key for &X {
    #[inline(always)]
    fn key(&self) -> u64 {
        self.k
    }
}
macro_rules! bin {
    ($n:literal, $t:ident, $f:ident, $ta:ident, $fa:ident) => {
        impl<R: Key> $t<R> for X {
            type Output = X;
            #[inline(always)]
            fn $f(self, r: R) -> X {
                X { k: fresh(), op: $n, l: self.k, r: r.key() }
            }
        }
        impl<R: Key> $t<R> for &X {
            type Output = X;
            #[inline(always)]
            fn $f(self, r: R) -> X {
                X { k: fresh(), op: $n, l: self.k, r: r.key() }
            }
        }
        impl<R: Key> $ta<R> for X {
            #[inline(always)]
            fn $fa(&mut self, r: R) {
                *self = X { k: fresh(), op: 100 + $n, l: self.k, r: r.key() }
            }
        }
    };
}
bin!(1, Add, add, AddAssign, add_assign);
bin!(2, Sub, sub, SubAssign, sub_assign);
bin!(3, Mul, mul, MulAssign, mul_assign);
bin!(4, Div, div, DivAssign, div_assign);
bin!(5, Rem, rem, RemAssign, rem_assign);
bin!(6, BitAnd, bitand, BitAndAssign, bitand_assign);
bin!(7, BitOr, bitor, BitOrAssign, bitor_assign);
bin!(8, BitXor, bitxor, BitXorAssign, bitxor_assign);
bin!(9, Shl, shl, ShlAssign, shl_assign);
bin!(10, Shr, shr, ShrAssign, shr_assign);
macro_rules! un {
    ($n:literal, $t:ident, $f:ident) => {
        impl $t for X {
            type Output = X;
            #[inline(always)]
            fn $f(self) -> X {
                X { k: fresh(), op: $n, l: self.k, r: self.k }
            }
        }
        impl $t for &X {
            type Output = X;
            #[inline(always)]
            fn $f(self) -> X {
                X { k: fresh(), op: $n, l: self.k, r: self.k }
            }
        }
    };
}
un!(21, Neg, neg);
un!(22, Not, not);

/// Operand values in row-major order and their dimensions.
#[derive(Clone, Copy)]
struct O {
    v: [u64; 12],
    d: &'static [usize],
}
impl O {
    /// Value that belongs to position k of a result of the same or higher rank.
    #[inline(always)]
    fn get(&self, k: usize) -> u64 {
        self.v[k % mul(self.d)]
    }
}
#[inline(always)]
fn keys<S: Shape, L: Layout>(t: &Slice<X, S, L>, d: &'static [usize]) -> O {
    let mut o = O { v: [0; 12], d };
    for k in 0..mul(d) {
        o.v[k] = elem(t, k, d).k;
    }
    o
}
#[inline(always)]
fn elem<S: Shape, L: Layout>(t: &Slice<X, S, L>, mut k: usize, d: &[usize]) -> X {
    // by address, from the strides
    let mut p = t.as_ptr();
    let mut i = d.len();
    while i > 0 {
        i -= 1;
        p = p.wrapping_offset(t.stride(i) * (k % d[i]) as isize);
        k /= d[i];
    }
    unsafe { *p }
}
#[inline(always)]
fn is<S: Shape, L: Layout>(t: &Slice<X, S, L>, op: u64, l: O, r: O, d: &[usize]) {
    let mut ok = t.rank() == d.len() && t.len() == mul(d);
    for i in 0..d.len() {
        ok = ok && t.dim(i) == d[i];
    }
    claim!(C15_C08__result_shape, ok);
    for k in 0..mul(d) {
        let e = elem(t, k, d);
        claim!(C15__operator, e.op == op);
        claim!(C15_C08__left_operand, e.l == l.get(k));
        claim!(C15_C08__right_operand, e.r == r.get(k));
    }
}

const A22: &[usize] = &[2, 2];
const A32: &[usize] = &[3, 2];
type S2 = (Const<3>, Const<2>);

// What can stand on either side: name, statements, operand expression, keys, dims.
macro_rules! operand {
    (tensor_ref, $n:ident, $k:ident, $c:ident) => { let $n = Tensor::from_fn([3, 2], |_| x()); let $k = keys(&$n, A32); let $n = &$n; $c!($n); };
}

/// Left-hand sides with shape 3 x 2: evaluates `$body` with `l` and its keys `lk`.
macro_rules! lhs {
    (tref, |$l:ident, $k:ident| $b:expr) => {{ let o = Tensor::from_fn([3, 2], |_| x()); let $k = keys(&o, A32); let $l = &o; $b }};
    (aref, |$l:ident, $k:ident| $b:expr) => {{ let o = Array::<X, S2>::from_fn(|_| x()); let $k = keys(&o, A32); let $l = &o; $b }};
    (sref, |$l:ident, $k:ident| $b:expr) => {{ let o = Tensor::from_fn([3, 2], |_| x()); let $k = keys(&o, A32); let $l: &Slice<X, _> = &*o; $b }};
    (vref, |$l:ident, $k:ident| $b:expr) => {{ let o = Tensor::from_fn([2, 3], |_| x()); let v = o.reorder(); let $k = keys(&v, A32); let $l = &v; $b }};
    (sstr, |$l:ident, $k:ident| $b:expr) => {{ let o = Tensor::from_fn([3, 3], |_| x()); let v = o.view(.., ..2); let $k = keys(&v, A32); let $l: &Slice<X, _, Strided> = &*v; $b }};
    (vmref, |$l:ident, $k:ident| $b:expr) => {{ let mut o = Tensor::from_fn([3, 3], |_| x()); let v = o.view_mut(.., 1..); let $k = keys(&v, A32); let $l = &v; $b }};
    (view, |$l:ident, $k:ident| $b:expr) => {{ let o = Tensor::from_fn([4, 2], |_| x()); let $l = o.view(1.., ..); let $k = keys(&$l, A32); $b }};
    (tx, |$l:ident, $k:ident| $b:expr) => {{ let o = Tensor::from_fn(DynRank::from_dims(&[3, 2]), |_| x()); let $k = keys(&o, A32); let $l = &o; $b }};
    (iexpr, |$l:ident, $k:ident| $b:expr) => {{ let o = Tensor::from_fn([3, 2], |_| x()); let $k = keys(&o, A32); let $l = o.into_expr(); $b }};
    (aexpr, |$l:ident, $k:ident| $b:expr) => {{ let o = Array::<X, S2>::from_fn(|_| x()); let $k = keys(&o, A32); let $l = o.into_expr(); $b }};
    (map, |$l:ident, $k:ident| $b:expr) => {{ let o = Tensor::from_fn([3, 2], |_| x()); let $k = keys(&o, A32); let $l = o.expr().map(|e| *e); $b }};
    (fromelem, |$l:ident, $k:ident| $b:expr) => {{ let e = x(); let $k = O { v: [e.k; 12], d: A32 }; let $l = expr::from_elem([3, 2], e); $b }};
    (fromfn, |$l:ident, $k:ident| $b:expr) => {{ let o = Tensor::from_fn([3, 2], |_| x()); let $k = keys(&o, A32); let $l = expr::from_fn([3, 2], |i| unsafe { *o.as_ptr().add(i[0] * 2 + i[1]) }); $b }};
    (fill, |$l:ident, $k:ident| $b:expr) => {{ let e = x(); let $k = O { v: [e.k; 12], d: &[] }; let $l = expr::fill(e); $b }};
    (fillw, |$l:ident, $k:ident| $b:expr) => {{ let e = x(); let $k = O { v: [e.k; 12], d: &[] }; let $l = expr::fill_with(|| e); $b }};
    (t1ref, |$l:ident, $k:ident| $b:expr) => {{ let o = Tensor::from_fn([2], |_| x()); let $k = keys(&o, &[2]); let $l = &o; $b }};
    (v1, |$l:ident, $k:ident| $b:expr) => {{ let o = Tensor::from_fn([2, 3], |_| x()); let $l = o.col(1); let $k = keys(&$l, &[2]); $b }};
    (t0ref, |$l:ident, $k:ident| $b:expr) => {{ let o = Tensor::from_fn((), |_| x()); let $k = keys(&o, &[]); let $l = &o; $b }};
    // by value
    (tensor, |$l:ident, $k:ident| $b:expr) => {{ let $l = Tensor::from_fn([3, 2], |_| x()); let $k = keys(&$l, A32); $b }};
    (array, |$l:ident, $k:ident| $b:expr) => {{ let $l = Array::<X, S2>::from_fn(|_| x()); let $k = keys(&$l, A32); $b }};
}
/// The same as second operand.
macro_rules! rhs { ($($t:tt)*) => { lhs!($($t)*) }; }

macro_rules! lazy {
    ($op:tt, $n:literal, $tag:literal: $($l:ident $r:ident),*) => {$(
        w!(concat!("bin_", $tag, "_", stringify!($l), "_", stringify!($r)), {
            lhs!($l, |l, lk| rhs!($r, |r, rk| { let e = (l $op r).eval(); is(&e, $n, lk, rk, A32); }))
        });
    )*};
}
macro_rules! owned {
    ($op:tt, $n:literal, $tag:literal: $($l:ident $r:ident),*) => {$(
        w!(concat!("own_", $tag, "_", stringify!($l), "_", stringify!($r)), {
            lhs!($l, |l, lk| rhs!($r, |r, rk| { let e = l $op r; is(&e, $n, lk, rk, A32); }))
        });
    )*};
}
macro_rules! lazy_all {
    ($op:tt, $n:literal, $tag:literal: $($l:ident),*) => {$(
        lazy!($op, $n, $tag: $l tref, $l aref, $l sref, $l vref, $l sstr, $l vmref, $l view, $l tx, $l iexpr, $l aexpr, $l map, $l fromelem, $l fromfn, $l fill, $l fillw, $l t1ref, $l v1, $l t0ref);
        owned!($op, $n, $tag: $l tensor, $l array);
    )*};
}
lazy_all!(-, 2, "sub": tref, aref, sref, vref, sstr, vmref, view, iexpr, aexpr, map, fromelem, fromfn);
// one side of lower rank on the left
lazy!(-, 2, "sub": fill tref, fill aref, fill vref, fill map, fill iexpr, fillw tref, fillw view, t1ref tref, t1ref vref, t1ref aref, t1ref map, v1 tref, v1 fromelem,
    t0ref tref, t0ref view, tx tref, tx view, t1ref iexpr, fill fromfn);
owned!(-, 2, "sub": fill tensor, fill array, fillw tensor, t1ref tensor, t1ref array, v1 tensor, t0ref array, tx array);
owned!(-, 2, "sub": tensor tref, tensor aref, tensor sref, tensor vref, tensor sstr, tensor vmref, tensor view, tensor iexpr, tensor aexpr, tensor map, tensor fromelem,
    tensor fromfn, tensor fill, tensor fillw, tensor t1ref, tensor v1, tensor t0ref, tensor tensor, tensor array, tensor tx);
owned!(-, 2, "sub": array tref, array aref, array sref, array vref, array sstr, array vmref, array view, array iexpr, array aexpr, array map, array fromelem,
    array fromfn, array fill, array fillw, array t1ref, array v1, array t0ref, array tensor, array array, array tx);

macro_rules! every_op {
    ($op:tt, $n:literal, $tag:literal) => {
        lazy!($op, $n, $tag: tref tref, aref vref, sref t1ref, vref view, vmref aref, view fill, fill tref, fillw aref, fromelem tref, fromfn view, iexpr map, map tref);
        owned!($op, $n, $tag: tensor tref, tensor fill, tensor tensor, array aref, array fill, array array, tref tensor, tref array, fill tensor, fill array);
    };
}
every_op!(+, 1, "add");
every_op!(*, 3, "mul");
every_op!(/, 4, "div");
every_op!(%, 5, "rem");
every_op!(&, 6, "and");
every_op!(|, 7, "or");
every_op!(^, 8, "xor");
every_op!(<<, 9, "shl");
every_op!(>>, 10, "shr");

// Compound assignment.
macro_rules! assign {
    ($op:tt, $n:literal, $tag:literal: $($r:ident),*) => {$(
        w!(concat!("asg_", $tag, "_t_", stringify!($r)), { rhs!($r, |r, rk| { let mut l = Tensor::from_fn([3, 2], |_| x()); let lk = keys(&l, A32); l $op r; is(&l, $n, lk, rk, A32); }) });
        w!(concat!("asg_", $tag, "_a_", stringify!($r)), { rhs!($r, |r, rk| { let mut l = Array::<X, S2>::from_fn(|_| x()); let lk = keys(&l, A32); l $op r; is(&l, $n, lk, rk, A32); }) });
        w!(concat!("asg_", $tag, "_s_", stringify!($r)), { rhs!($r, |r, rk| { let mut o = Tensor::from_fn([3, 2], |_| x()); let l: &mut Slice<X, _> = &mut o; let lk = keys(l, A32); *l $op r; is(l, $n, lk, rk, A32); }) });
        w!(concat!("asg_", $tag, "_v_", stringify!($r)), { rhs!($r, |r, rk| { let mut o = Tensor::from_fn([3, 3], |_| x()); let edge = [0, 3, 6].map(|i| unsafe { (*o.as_ptr().add(i)).k });
            { let mut l = o.view_mut(.., 1..); let lk = keys(&l, A32); l $op r; is(&l, $n, lk, rk, A32); }
            for i in 0..3 { claim!(C15__elements_outside_are_kept, unsafe { (*o.as_ptr().add(3 * i)).k } == edge[i]); } }) });
    )*};
}
assign!(-=, 102, "sub": tref, aref, sref, vref, sstr, vmref, view, iexpr, aexpr, map, fromelem, fromfn, fill, fillw, t1ref, v1, t0ref, tensor, array, tx);
assign!(+=, 101, "add": tref, fill, tensor, t1ref);
assign!(*=, 103, "mul": tref, fill, tensor, t1ref);
assign!(/=, 104, "div": tref, fill, tensor, t1ref);
assign!(%=, 105, "rem": tref, fill, tensor, t1ref);
assign!(&=, 106, "and": tref, fill, tensor, t1ref);
assign!(|=, 107, "or": tref, fill, tensor, t1ref);
assign!(^=, 108, "xor": tref, fill, tensor, t1ref);
assign!(<<=, 109, "shl": tref, fill, tensor, t1ref);
assign!(>>=, 110, "shr": tref, fill, tensor, t1ref);

// Unary operators.
macro_rules! unary {
    ($op:tt, $n:literal, $tag:literal: $($l:ident),*) => {$(
        w!(concat!("un_", $tag, "_", stringify!($l)), { lhs!($l, |l, lk| { let e = ($op l).eval(); is(&e, $n, lk, lk, A32); }) });
    )*};
}
unary!(-, 21, "neg": tref, aref, sref, vref, sstr, vmref, view, tx, iexpr, aexpr, map, fromelem, fromfn);
unary!(!, 22, "not": tref, aref, sref, vref, sstr, vmref, view, tx, iexpr, aexpr, map, fromelem, fromfn);
w!("un_neg_tensor", { lhs!(tensor, |l, lk| { let p = l.as_ptr(); let e: Tensor<X, (Dyn, Dyn)> = -l; is(&e, 21, lk, lk, A32); }) });
w!("un_neg_array", { lhs!(array, |l, lk| { let e: Array<X, S2> = -l; is(&e, 21, lk, lk, A32); }) });
w!("un_not_tensor", { lhs!(tensor, |l, lk| { let e: Tensor<X, (Dyn, Dyn)> = !l; is(&e, 22, lk, lk, A32); }) });
w!("un_not_array", { lhs!(array, |l, lk| { let e: Array<X, S2> = !l; is(&e, 22, lk, lk, A32); }) });
w!("un_neg_fill", { let a = Tensor::from_fn([2], |_| x()); let e = x(); let r = expr::zip(&a, -expr::fill(e)).map(|(_, y)| y).eval(); is(&r, 21, O { v: [e.k; 12], d: &[] }, O { v: [e.k; 12], d: &[] }, &[2]); });
w!("un_not_fillw", { let a = Tensor::from_fn([2], |_| x()); let e = x(); let r = expr::zip(&a, !expr::fill_with(|| e)).map(|(_, y)| y).eval(); is(&r, 22, O { v: [e.k; 12], d: &[] }, O { v: [e.k; 12], d: &[] }, &[2]); });

// Chains: precedence and association are those of the expression.
w!("chain", {
    let a = Tensor::from_fn([3, 2], |_| x());
    let b = Tensor::from_fn([2], |_| x());
    let (ak, bk) = (keys(&a, A32), keys(&b, &[2]));
    let r = (&a - &b - expr::fill(x())).eval();
    for k in 0..6 {
        let e = elem(&r, k, A32);
        claim!(C15__chain, e.op == 2 && e.l != ak.get(k) && e.r != bk.get(k));
    }
});

// Shapes that do not match.
macro_rules! mismatch {
    ($tag:literal, $l:expr, $r:expr) => {
        w_panics!(concat!("bad_", $tag), { let l = $l; let r = $r; let e = (&l - &r).eval(); drop(e); });
        w_panics!(concat!("badown_", $tag), { let l = $l; let r = $r; let e = l - &r; drop(e); });
        w_panics!(concat!("badown2_", $tag), { let l = $l; let r = $r; let e = &l - r; drop(e); });
        w_panics!(concat!("badasg_", $tag), { let mut l = $l; let r = $r; l -= &r; });
        w_panics!(concat!("badasgv_", $tag), { let mut l = $l; let r = $r; l -= r; });
    };
}
mismatch!("22_23", Tensor::from_fn([2, 2], |_| x()), Tensor::from_fn([2, 3], |_| x()));
mismatch!("22_32", Tensor::from_fn([2, 2], |_| x()), Tensor::from_fn([3, 2], |_| x()));
mismatch!("22_12", Tensor::from_fn([2, 2], |_| x()), Tensor::from_fn([1, 2], |_| x()));
mismatch!("22_21", Tensor::from_fn([2, 2], |_| x()), Tensor::from_fn([2, 1], |_| x()));
mismatch!("22_3", Tensor::from_fn([2, 2], |_| x()), Tensor::from_fn([3], |_| x()));
mismatch!("22_1", Tensor::from_fn([2, 2], |_| x()), Tensor::from_fn([1], |_| x()));
mismatch!("2_3", Array::<X, (Const<2>,)>::from_fn(|_| x()), Tensor::from_fn([3], |_| x()));
mismatch!("32_23a", Array::<X, S2>::from_fn(|_| x()), Tensor::from_fn([2, 3], |_| x()));
// an owned or assigned operand cannot be repeated
macro_rules! repeat {
    ($tag:literal, $l:expr, $r:expr) => {
        w_panics!(concat!("rep_", $tag), { let l = $l; let r = $r; let e = l - &r; drop(e); });
        w_panics!(concat!("repasg_", $tag), { let mut l = $l; let r = $r; l -= &r; });
    };
}
repeat!("1_2", Tensor::from_fn([2], |_| x()), Tensor::from_fn([2, 2], |_| x()));
repeat!("a1_2", Array::<X, (Const<2>,)>::from_fn(|_| x()), Tensor::from_fn([3, 2], |_| x()));
repeat!("0_1", Tensor::from_fn((), |_| x()), Tensor::from_fn([2], |_| x()));
repeat!("x", Tensor::from_fn(DynRank::from_dims(&[2]), |_| x()), Tensor::from_fn([2, 2], |_| x()));
