//! Subarray views: every selected element is the specified element of the parent.
use crate::common::*;
use mdarray::StepRange;
use std::ops::{Bound, Range, RangeFrom, RangeFull, RangeInclusive, RangeTo, RangeToInclusive};

/// What an index argument selects from a dimension of size `n`.
pub struct Sel {
    ok: bool,
    start: usize,
    len: usize,
    step: isize,
    keep: bool,
}

pub trait Spec {
    fn sel(&self, n: usize) -> Sel;
}

fn rng(n: usize, a: usize, b: usize) -> Sel {
    Sel { ok: a <= b && b <= n, start: a, len: b.wrapping_sub(a), step: 1, keep: true }
}

impl Spec for usize {
    #[inline(always)]
    fn sel(&self, n: usize) -> Sel {
        Sel { ok: *self < n, start: *self, len: 1, step: 0, keep: false }
    }
}
impl Spec for RangeFull {
    #[inline(always)]
    fn sel(&self, n: usize) -> Sel {
        rng(n, 0, n)
    }
}
impl Spec for Range<usize> {
    #[inline(always)]
    fn sel(&self, n: usize) -> Sel {
        rng(n, self.start, self.end)
    }
}
impl Spec for RangeFrom<usize> {
    #[inline(always)]
    fn sel(&self, n: usize) -> Sel {
        rng(n, self.start, n)
    }
}
impl Spec for RangeTo<usize> {
    #[inline(always)]
    fn sel(&self, n: usize) -> Sel {
        rng(n, 0, self.end)
    }
}
impl Spec for RangeInclusive<usize> {
    #[inline(always)]
    fn sel(&self, n: usize) -> Sel {
        let mut s = rng(n, *self.start(), self.end().wrapping_add(1));
        s.ok &= *self.end() != usize::MAX;
        s
    }
}
impl Spec for RangeToInclusive<usize> {
    #[inline(always)]
    fn sel(&self, n: usize) -> Sel {
        let mut s = rng(n, 0, self.end.wrapping_add(1));
        s.ok &= self.end != usize::MAX;
        s
    }
}
impl Spec for (Bound<usize>, Bound<usize>) {
    #[inline(always)]
    fn sel(&self, n: usize) -> Sel {
        let (a, b) = (self.0, self.1);
        match (a, b) {
            // With two strict bounds the comparison is made on the values before one is added.
            (Bound::Excluded(a), Bound::Included(b)) => {
                Sel { ok: b < n && a <= b, start: a.wrapping_add(1), len: b.wrapping_sub(a), step: 1, keep: true }
            }
            (Bound::Excluded(a), Bound::Excluded(b)) => {
                Sel { ok: b <= n && a < b, start: a.wrapping_add(1), len: b.wrapping_sub(a.wrapping_add(1)), step: 1, keep: true }
            }
            (Bound::Excluded(a), Bound::Unbounded) => {
                Sel { ok: a < n, start: a.wrapping_add(1), len: n.wrapping_sub(a.wrapping_add(1)), step: 1, keep: true }
            }
            (Bound::Included(a), Bound::Included(b)) => {
                Sel { ok: b < n && a <= b.wrapping_add(1), start: a, len: b.wrapping_add(1).wrapping_sub(a), step: 1, keep: true }
            }
            (Bound::Included(a), Bound::Excluded(b)) => rng(n, a, b),
            (Bound::Included(a), Bound::Unbounded) => rng(n, a, n),
            (Bound::Unbounded, Bound::Included(b)) => {
                Sel { ok: b < n, start: 0, len: b.wrapping_add(1), step: 1, keep: true }
            }
            (Bound::Unbounded, Bound::Excluded(b)) => rng(n, 0, b),
            (Bound::Unbounded, Bound::Unbounded) => rng(n, 0, n),
        }
    }
}
impl<R: Spec> Spec for StepRange<R, isize> {
    #[inline(always)]
    fn sel(&self, n: usize) -> Sel {
        let r = self.range.sel(n);
        let k = self.step.unsigned_abs();
        let ok = r.ok && k != 0;
        let len = if k == 0 { 0 } else { r.len / k + (r.len % k != 0) as usize };
        let start = if self.step < 0 && r.len > 0 { r.start + r.len - 1 } else { r.start };
        Sel { ok, start, len, step: self.step, keep: true }
    }
}

// Index arguments of every kind, from two symbolic bounds and a symbolic step.
type X = (usize, usize, isize);
fn k_usize(x: X) -> usize { x.0 }
fn k_full(_: X) -> RangeFull { .. }
fn k_range(x: X) -> Range<usize> { x.0..x.1 }
fn k_from(x: X) -> RangeFrom<usize> { x.0.. }
fn k_to(x: X) -> RangeTo<usize> { ..x.1 }
fn k_incl(x: X) -> RangeInclusive<usize> { x.0..=x.1 }
fn k_toincl(x: X) -> RangeToInclusive<usize> { ..=x.1 }
fn k_bnd(x: X) -> (Bound<usize>, Bound<usize>) { (Bound::Excluded(x.0), Bound::Included(x.1)) }
fn k_bnd3(x: X) -> (Bound<usize>, Bound<usize>) { (Bound::Excluded(x.0), Bound::Excluded(x.1)) }
fn k_bnd4(x: X) -> (Bound<usize>, Bound<usize>) { (Bound::Excluded(x.0), Bound::Unbounded) }
fn k_bnd5(x: X) -> (Bound<usize>, Bound<usize>) { (Bound::Included(x.0), Bound::Included(x.1)) }
fn k_bnd6(x: X) -> (Bound<usize>, Bound<usize>) { (Bound::Unbounded, Bound::Included(x.1)) }
fn k_bnd2(x: X) -> (Bound<usize>, Bound<usize>) { (Bound::Included(x.0), Bound::Unbounded) }
fn k_step(x: X) -> StepRange<Range<usize>, isize> { step(x.0..x.1, x.2) }
fn k_stepf(x: X) -> StepRange<RangeFull, isize> { step(.., x.2) }
fn k_step2(x: X) -> StepRange<Range<usize>, isize> { step(x.0..x.1, 2) }
fn k_stepm2(x: X) -> StepRange<Range<usize>, isize> { step(x.0..x.1, -2) }
fn k_rev(x: X) -> StepRange<RangeFull, isize> { step(.., -1) }

macro_rules! view_body {
    ($p:ident, $v:expr, $view:ident, $nn:ident, $ss:ident, $x:ident, $j:ident, $R:literal, ($($k:ident $d:tt),+), $kind:ident) => {{
        let sel = [$($k($x[$d]).sel($nn[$d])),+];
        let ok = true $(&& sel[$d].ok)+;
        if $kind && !ok {
            return;
        }
        let mut v = $v;
        let w = v.$view($($k($x[$d])),+);
        claim!(C02_C03__view_args_valid, ok);
        let mut r = 0;
        let mut jj = [0usize; $R];
        let mut off = 0isize;
        let mut inb = true;
        $(
            off += m($ss[$d], sel[$d].start);
            if sel[$d].keep {
                claim!(C03_C05__view_dim, w.dim(r) == sel[$d].len);
                inb = inb && $j[r] < sel[$d].len;
                jj[r] = $j[r];
                off += $ss[$d].wrapping_mul(sel[$d].step).wrapping_mul($j[r] as isize);
                r += 1;
            }
        )+
        claim!(C03__view_rank, w.rank() == r);
        if inb {
            let a = &w[&jj[..r]] as P;
            claim!(C03_C05__view_addr, a == at($p, off));
            reach!(R__view);
        }
    }};
}


// One partial and one total witness per combination.
macro_rules! pair {
    ($tag:literal, [$($names:ident)+], $R:literal, $new:ident, $view:ident, $p:ident, $n:ident, $ss:ident, $v:expr, ($($k:ident $d:tt),+)) => {
        const _: () = {
            #[unsafe(export_name = concat!("h__C02_C03__", $tag $(, "_", stringify!($names))+))]
            pub fn h($p: P, n: &[N; $R], s: &[isize; $R], x: &[X; $R], j: &[usize; $R]) {
                let ($n, s, x, j) = (z(n), *s, *x, *j);
                let $ss = $new($n, s);
                view_body!($p, $v, $view, $n, $ss, x, j, $R, ($($k $d),+), false);
            }
            #[unsafe(export_name = concat!("t__C02_C03__", $tag $(, "_", stringify!($names))+))]
            pub fn t($p: P, n: &[N; $R], s: &[isize; $R], x: &[X; $R], j: &[usize; $R]) {
                let ($n, s, x, j) = (z(n), *s, *x, *j);
                let $ss = $new($n, s);
                view_body!($p, $v, $view, $n, $ss, x, j, $R, ($($k $d),+), true);
            }
        };
    };
}

macro_rules! v1 {
    ($($a:ident)+) => { $(
        pair!("view1s", [$a], 1, free, view, p, n, ss, vs(p, (n[0],), &ss), ($a 0));
        pair!("view1d", [$a], 1, dense, view, p, n, ss, vd(p, (n[0],)), ($a 0));
        pair!("view1dm", [$a], 1, dense, view_mut, p, n, ss, vdm(p, (n[0],)), ($a 0));
    )+ };
}
macro_rules! v2 {
    ($a:ident $b:ident) => {
        pair!("view2s", [$a $b], 2, free, view, p, n, ss, vs(p, (n[0], n[1]), &ss), ($a 0, $b 1));
        pair!("view2sm", [$a $b], 2, free, view_mut, p, n, ss, vsm(p, (n[0], n[1]), &ss), ($a 0, $b 1));
        pair!("view2d", [$a $b], 2, dense, view, p, n, ss, vd(p, (n[0], n[1])), ($a 0, $b 1));
    };
}
macro_rules! v3 {
    ($a:ident $b:ident $c:ident) => {
        pair!("view3s", [$a $b $c], 3, free, view, p, n, ss, vs(p, (n[0], n[1], n[2]), &ss), ($a 0, $b 1, $c 2));
        pair!("view3d", [$a $b $c], 3, dense, view, p, n, ss, vd(p, (n[0], n[1], n[2])), ($a 0, $b 1, $c 2));
    };
}
macro_rules! cart2 {
    ([$($a:ident)*] $bs:tt) => { $( cart2!(@ $a $bs); )* };
    (@ $a:ident [$($b:ident)*]) => { $( v2!($a $b); )* };
}
macro_rules! cart3 {
    ([$($a:ident)*] $bs:tt $cs:tt) => { $( cart3!(@ $a $bs $cs); )* };
    (@ $a:ident [$($b:ident)*] $cs:tt) => { $( cart3!(@@ $a $b $cs); )* };
    (@@ $a:ident $b:ident [$($c:ident)*]) => { $( v3!($a $b $c); )* };
}

v1!(k_usize k_full k_range k_from k_to k_incl k_toincl k_bnd k_bnd2 k_bnd3 k_bnd4 k_bnd5 k_bnd6 k_step k_stepf k_step2 k_stepm2 k_rev);
cart2!([k_usize k_full k_range k_from k_to k_incl k_step2 k_stepm2] [k_usize k_full k_range k_toincl k_bnd k_step2 k_rev]);
cart3!([k_usize k_full k_range] [k_usize k_full k_range k_rev] [k_usize k_full k_range]);
