//! Elements with an observable life cycle, see tools/typestate.py.
use crate::common::*;

unsafe extern "C" {
    /// Start of life: returns a new, unique element.
    safe fn life_fresh() -> u64;
    /// A value different from all others.
    safe fn life_value() -> u64;
    /// Either of two values.
    safe fn life_choice() -> bool;
    /// End of life.
    safe fn life_end(x: u64);
    /// Use of a live element.
    safe fn life_use(x: u64);
    /// From here on elements and memory may be leaked, as documented.
    safe fn life_may_leak();
}
unsafe extern "C-unwind" {
    /// A call into user code, which may panic.
    safe fn life_user();
    /// A destructor that may panic.
    safe fn life_user_drop();
}

/// An element: its identity, and its value, which is shared with clones.
pub struct D(u64, u64);
impl Drop for D {
    #[inline(always)]
    fn drop(&mut self) {
        life_end(self.0)
    }
}
impl Clone for D {
    #[inline(always)]
    fn clone(&self) -> Self {
        life_use(self.0);
        life_user();
        D(life_fresh(), self.1)
    }
}
impl D {
    #[inline(always)]
    pub fn val(&self) -> u64 {
        life_use(self.0);
        self.1
    }
    #[inline(always)]
    pub fn id(&self) -> u64 {
        life_use(self.0);
        self.0
    }
    #[inline(always)]
    pub fn see(&self) {
        life_use(self.0)
    }
}

/// The same with a destructor that may panic.
pub struct P1(u64);
impl Drop for P1 {
    #[inline(always)]
    fn drop(&mut self) {
        life_end(self.0);
        life_user_drop()
    }
}

#[inline(always)]
pub fn mk() -> D {
    life_user();
    quiet()
}
#[inline(always)]
pub fn quiet() -> D {
    let x = life_fresh();
    D(x, x)
}
/// Element with the given value.
#[inline(always)]
pub fn dv(v: u64) -> D {
    D(life_fresh(), v)
}
/// Unique value that is not an element.
#[inline(always)]
pub fn fresh() -> u64 {
    life_value()
}
#[inline(always)]
pub fn pquiet() -> P1 {
    P1(life_fresh())
}
#[inline(always)]
pub fn user() {
    life_user()
}
#[inline(always)]
pub fn user_q() {}
#[inline(always)]
pub fn leaky<T>(x: T) -> T {
    life_may_leak();
    x
}

/// All elements are live, and there are as many as the shape says.
#[inline(always)]
pub fn usev<S: Shape>(t: &Slice<D, S>) {
    let mut n = 1;
    for i in 0..t.rank() {
        n *= t.dim(i);
    }
    claim!(C09_C10_C11__len_is_product_of_dims, t.len() == n);
    for i in 0..n {
        unsafe { (*t.as_ptr().add(i)).see() }
    }
}

/// Checks the tensor at the end of the scope, also if it is left by a panic.
pub struct Chk<'a, S: Shape>(pub &'a mut Tensor<D, S>);
impl<S: Shape> Drop for Chk<'_, S> {
    #[inline(always)]
    fn drop(&mut self) {
        claim!(C09_C10_C11__len_within_capacity, self.0.len() <= self.0.capacity());
        usev(self.0)
    }
}
pub struct ChkP<'a, S: Shape>(pub &'a mut Tensor<P1, S>);
impl<S: Shape> Drop for ChkP<'_, S> {
    #[inline(always)]
    fn drop(&mut self) {
        claim!(C09_C10_C11__len_within_capacity, self.0.len() <= self.0.capacity());
        let n = self.0.len();
        for i in 0..n {
            unsafe { life_use((*self.0.as_ptr().add(i)).0) }
        }
    }
}

/// Values of the elements in memory order.
#[derive(Clone, Copy)]
pub struct Vals {
    pub v: [u64; 40],
    pub n: usize,
}
#[inline(always)]
pub fn vals<S: Shape>(t: &Slice<D, S>) -> Vals {
    let mut r = Vals { v: [0; 40], n: t.len() };
    for i in 0..r.n {
        r.v[i] = unsafe { (*t.as_ptr().add(i)).val() };
    }
    r
}
#[inline(always)]
pub fn ids<S: Shape>(t: &Slice<D, S>) -> Vals {
    let mut r = Vals { v: [0; 40], n: t.len() };
    for i in 0..r.n {
        r.v[i] = unsafe { (*t.as_ptr().add(i)).id() };
    }
    r
}
impl Vals {
    #[inline(always)]
    pub fn same(&self, o: &Vals) -> bool {
        self.n == o.n && self.at(0, o, 0, self.n)
    }
    /// Whether self[i..i + n] equals o[j..j + n].
    #[inline(always)]
    pub fn at(&self, i: usize, o: &Vals, j: usize, n: usize) -> bool {
        let mut ok = i + n <= self.n && j + n <= o.n;
        let mut k = 0;
        while ok && k < n {
            ok = self.v[i + k] == o.v[j + k];
            k += 1;
        }
        ok
    }
    #[inline(always)]
    pub fn all(&self, x: u64) -> bool {
        let mut ok = true;
        for k in 0..self.n {
            ok = ok && self.v[k] == x;
        }
        ok
    }
    #[inline(always)]
    pub fn push(&mut self, x: u64) {
        self.v[self.n] = x;
        self.n += 1;
    }
    #[inline(always)]
    pub fn new() -> Vals {
        Vals { v: [0; 40], n: 0 }
    }
}
#[inline(always)]
pub fn mul(d: &[usize]) -> usize {
    let mut n = 1;
    for x in d {
        n *= *x;
    }
    n
}
/// Whether rank, dimensions and length are as given.
#[inline(always)]
pub fn has<T, S: Shape, L: Layout>(t: &Slice<T, S, L>, d: &[usize]) -> bool {
    let mut ok = t.rank() == d.len() && t.len() == mul(d) && t.is_empty() == (mul(d) == 0);
    let mut i = 0;
    while ok && i < d.len() {
        ok = t.dim(i) == d[i];
        i += 1;
    }
    ok
}
