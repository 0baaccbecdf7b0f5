"""Type-level cases. The expected types are computed here from the documented rules, not from the library's own traits."""
import itertools

PRELUDE = '''#![allow(warnings)]
pub use mdarray::*;
pub use mdarray::expr::{self, *};
pub use mdarray::index::*;
pub use std::borrow::*;
pub use std::cell::*;
pub use std::mem::*;
pub use std::ops::*;
pub use std::rc::Rc;
pub fn is<T>(_: T) {}
pub fn us<T>(_: T) {}
pub trait Same<B: ?Sized> {}
impl<A: ?Sized> Same<A> for A {}
pub fn same<A: ?Sized + Same<B>, B: ?Sized>() {}
pub fn shape_of<E: IntoExpression<Shape: Same<S>>, S>(_: E) {}
pub fn item_of<E: IntoExpression<Item: Same<I>>, I>(_: E) {}
pub fn send<T: ?Sized + Send>() {}
pub fn sync<T: ?Sized + Sync>() {}
pub fn clone<T: ?Sized + Clone>() {}
pub fn copy<T: ?Sized + Copy>() {}
pub struct Nor(*const u8);
pub struct OnlySend(Cell<u8>);
pub struct OnlySync(*const u8);
unsafe impl Sync for OnlySync {}
pub type A23 = Array<i32, (Const<2>, Const<3>)>;
pub type T2 = Tensor<i32, (usize, usize)>;
pub type TN = Tensor<i32>;
'''

D = ['X', 'Y', 'Z', 'W', 'U', 'V']


class Case:
    def __init__(self, group, name, code, kind='pos', twin=None):
        self.group, self.name, self.code, self.kind, self.twin = group, name, code, kind, twin


def tup(xs):
    return '(' + ''.join(x + ', ' for x in xs) + ')'


def gen(n, extra=''):
    return '<T, ' + ''.join(d + ': Dim, ' for d in D[:n]) + 'L: Layout' + extra + '>'


# --- C12: shape and layout algebra -------------------------------------------------------------------------------------

FULL = [('..', 'F')]
IDX = [('0', 'I')]
RANGES = [('1..2', 'R'), ('1..', 'R'), ('..2', 'R'), ('1..=2', 'R'), ('..=2', 'R'),
          ('(Bound::Excluded(0), Bound::Unbounded::<usize>)', 'R')]
STEPS = [('step(.., 2)', 'S'), ('step(1..3, -1)', 'S')]


def view_layout(kinds):
    """Dense is kept iff the selected elements are one contiguous run of the row-major order of a dense parent."""
    k = list(kinds)
    while k and k[0] == 'I':
        k = k[1:]
    if not k:
        return 'L'
    if k[0] == 'S' or any(c != 'F' for c in k[1:]):
        return 'Strided'
    return 'L'


def view_shape(dims, kinds):
    return tup([d if k == 'F' else 'usize' for d, k in zip(dims, kinds) if k != 'I'])


def c12_view(out):
    for n in range(1, 7):
        if n == 1:
            opts = FULL + IDX + RANGES + STEPS
        elif n == 2:
            opts = FULL + IDX + RANGES + STEPS
        elif n <= 4:
            opts = FULL + IDX + RANGES[:1] + STEPS[:1]
        else:
            opts = FULL + IDX + RANGES[1:2]
        for combo in itertools.product(opts, repeat=n):
            kinds = ''.join(k for _, k in combo)
            if n == 6 and len(set(kinds)) == 3 and hash_(kinds) % 3:
                continue
            args = ', '.join(a for a, _ in combo)
            sh, la = view_shape(D, kinds), view_layout(kinds)
            s = tup(D[:n])
            out.append(Case('view', 'view/%d/%s' % (n, args), '''fn f%s(s: &Slice<T, %s, L>) { is::<View<'_, T, %s, %s>>(s.view(%s)); }''' % (gen(n), s, sh, la, args)))
            if n <= 3:
                out.append(Case('view', 'view_mut/%d/%s' % (n, args), '''fn f%s(s: &mut Slice<T, %s, L>) { is::<ViewMut<'_, T, %s, %s>>(s.view_mut(%s)); }''' % (gen(n), s, sh, la, args)))
                out.append(Case('view', 'into_view/%d/%s' % (n, args), '''fn f<'a, %s(s: View<'a, T, %s, L>, m: ViewMut<'a, T, %s, L>) { is::<View<'a, T, %s, %s>>(s.into_view(%s)); is::<ViewMut<'a, T, %s, %s>>(m.into_view(%s)); }''' % (gen(n)[1:], s, s, sh, la, args, sh, la, args)))
                out.append(Case('view', 'tensor/%d/%s' % (n, args), '''fn f%s(s: &Slice<T, %s, L>) where T: Clone { is::<Tensor<T, %s>>(s.tensor(%s)); }''' % (gen(n), s, sh, args)))
            if 'R' not in kinds and 'S' not in kinds and n <= 4:
                cd = ['Const<%d>' % (k + 2) for k in range(n)]
                out.append(Case('view', 'array/%d/%s' % (n, args), '''fn f<T: Clone, L: Layout>(s: &Slice<T, %s, L>) { is::<Array<T, %s>>(s.array(%s)); }''' % (tup(cd), view_shape(cd, kinds), args)))


def hash_(s):
    h = 7
    for c in s:
        h = (h * 31 + ord(c)) & 0xffff
    return h


def axes(n):
    """(expression, type, position from the left) of the axes of a rank n array; None for an axis known at run time."""
    r = [('Const::<%d>' % k, 'Const<%d>' % k, k) for k in range(n)]
    r.append(('0usize', 'usize', None))
    r.append(('Rows', 'Rows', n - 1))
    if n > 1:
        r.append(('Cols', 'Cols', n - 2))
    return r


def ax(n, k, dims):
    """dim, removed shape, resized shape, layout along the axis, layout without the axis."""
    if k is None:
        return 'usize', tup(['usize'] * (n - 1)), tup(['usize'] * n), 'Strided', 'Strided'
    rem = dims[:k] + dims[k + 1:]
    rs = dims[:k] + ['usize'] + dims[k + 1:]
    return dims[k], tup(rem), tup(rs), 'L' if k == n - 1 else 'Strided', 'L' if k == 0 else 'Strided'


def c12_axis(out):
    for n in range(1, 7):
        dims = D[:n]
        s = tup(dims)
        for e, t, k in axes(n):
            dim, rem, rs, along, rest = ax(n, k, dims)
            g = gen(n)
            out.append(Case('axis', 'axis_at/%d/%s' % (n, t), '''fn f%s(s: &mut Slice<T, %s, L>) { is::<View<'_, T, %s, %s>>(s.axis_at(%s, 0)); is::<ViewMut<'_, T, %s, %s>>(s.axis_at_mut(%s, 0)); }''' % (g, s, rem, rest, e, rem, rest, e)))
            out.append(Case('axis', 'into_axis_at/%d/%s' % (n, t), '''fn f<'a, %s(s: View<'a, T, %s, L>, m: ViewMut<'a, T, %s, L>) { is::<View<'a, T, %s, %s>>(s.into_axis_at(%s, 0)); is::<ViewMut<'a, T, %s, %s>>(m.into_axis_at(%s, 0)); }''' % (g[1:], s, s, rem, rest, e, rem, rest, e)))
            out.append(Case('axis', 'split_axis_at/%d/%s' % (n, t), '''fn f%s(s: &mut Slice<T, %s, L>) { is::<(View<'_, T, %s, %s>, View<'_, T, %s, %s>)>(s.split_axis_at(%s, 0)); is::<(ViewMut<'_, T, %s, %s>, ViewMut<'_, T, %s, %s>)>(s.split_axis_at_mut(%s, 0)); }''' % (g, s, rs, rest, rs, rest, e, rs, rest, rs, rest, e)))
            out.append(Case('axis', 'into_split_axis_at/%d/%s' % (n, t), '''fn f<'a, %s(s: View<'a, T, %s, L>, m: ViewMut<'a, T, %s, L>) { is::<(View<'a, T, %s, %s>, View<'a, T, %s, %s>)>(s.into_split_axis_at(%s, 0)); is::<(ViewMut<'a, T, %s, %s>, ViewMut<'a, T, %s, %s>)>(m.into_split_axis_at(%s, 0)); }''' % (g[1:], s, s, rs, rest, rs, rest, e, rs, rest, rs, rest, e)))
            out.append(Case('axis', 'axis_expr/%d/%s' % (n, t), '''fn f<'a, %s(s: &'a Slice<T, %s, L>) { shape_of::<_, (%s,)>(s.axis_expr(%s)); item_of::<_, View<'a, T, %s, %s>>(s.axis_expr(%s)); }''' % (g[1:], s, dim, e, rem, rest, e)))
            out.append(Case('axis', 'axis_expr_mut/%d/%s' % (n, t), '''fn f<'a, %s(s: &'a mut Slice<T, %s, L>) { shape_of::<_, (%s,)>(s.axis_expr_mut(%s)); } fn g<'a, %s(s: &'a mut Slice<T, %s, L>) { item_of::<_, ViewMut<'a, T, %s, %s>>(s.axis_expr_mut(%s)); }''' % (g[1:], s, dim, e, g[1:], s, rem, rest, e)))
            out.append(Case('axis', 'lanes/%d/%s' % (n, t), '''fn f<'a, %s(s: &'a Slice<T, %s, L>) { shape_of::<_, %s>(s.lanes(%s)); item_of::<_, View<'a, T, (%s,), %s>>(s.lanes(%s)); }''' % (g[1:], s, rem, e, dim, along, e)))
            out.append(Case('axis', 'lanes_mut/%d/%s' % (n, t), '''fn f<'a, %s(s: &'a mut Slice<T, %s, L>) { shape_of::<_, %s>(s.lanes_mut(%s)); } fn g<'a, %s(s: &'a mut Slice<T, %s, L>) { item_of::<_, ViewMut<'a, T, (%s,), %s>>(s.lanes_mut(%s)); }''' % (g[1:], s, rem, e, g[1:], s, dim, along, e)))
        g = gen(n)
        rem, rs = tup(dims[1:]), tup(['usize'] + dims[1:])
        out.append(Case('axis', 'at/%d' % n, '''fn f%s(s: &mut Slice<T, %s, L>) { is::<View<'_, T, %s, L>>(s.at(0)); is::<ViewMut<'_, T, %s, L>>(s.at_mut(0)); }''' % (g, s, rem, rem)))
        out.append(Case('axis', 'into_at/%d' % n, '''fn f<'a, %s(s: View<'a, T, %s, L>, m: ViewMut<'a, T, %s, L>) { is::<View<'a, T, %s, L>>(s.into_at(0)); is::<ViewMut<'a, T, %s, L>>(m.into_at(0)); }''' % (g[1:], s, s, rem, rem)))
        out.append(Case('axis', 'split_at/%d' % n, '''fn f%s(s: &mut Slice<T, %s, L>) { is::<(View<'_, T, %s, L>, View<'_, T, %s, L>)>(s.split_at(0)); is::<(ViewMut<'_, T, %s, L>, ViewMut<'_, T, %s, L>)>(s.split_at_mut(0)); }''' % (g, s, rs, rs, rs, rs)))
        out.append(Case('axis', 'into_split_at/%d' % n, '''fn f<'a, %s(s: View<'a, T, %s, L>, m: ViewMut<'a, T, %s, L>) { is::<(View<'a, T, %s, L>, View<'a, T, %s, L>)>(s.into_split_at(0)); is::<(ViewMut<'a, T, %s, L>, ViewMut<'a, T, %s, L>)>(m.into_split_at(0)); }''' % (g[1:], s, s, rs, rs, rs, rs)))
        out.append(Case('axis', 'outer_expr/%d' % n, '''fn f<'a, %s(s: &'a Slice<T, %s, L>) { shape_of::<_, (X,)>(s.outer_expr()); item_of::<_, View<'a, T, %s, L>>(s.outer_expr()); } fn g<'a, %s(s: &'a mut Slice<T, %s, L>) { item_of::<_, ViewMut<'a, T, %s, L>>(s.outer_expr_mut()); }''' % (g[1:], s, rem, g[1:], s, rem)))
        for name, k in [('rows', n - 1), ('cols', n - 2)]:
            if k < 0:
                continue
            dim, rem, rs, along, rest = ax(n, k, dims)
            out.append(Case('axis', '%s/%d' % (name, n), '''fn f<'a, %s(s: &'a Slice<T, %s, L>) { shape_of::<_, %s>(s.%s()); item_of::<_, View<'a, T, (%s,), %s>>(s.%s()); } fn g<'a, %s(s: &'a mut Slice<T, %s, L>) { item_of::<_, ViewMut<'a, T, (%s,), %s>>(s.%s_mut()); }''' % (g[1:], s, rem, name, dim, along, name, g[1:], s, dim, along, name)))
    g = gen(2)
    out.append(Case('axis', 'row col diag', '''fn f<'a, %s(s: &mut Slice<T, (X, Y), L>) { is::<View<'_, T, (Y,), L>>(s.row(0)); is::<View<'_, T, (X,), Strided>>(s.col(0)); is::<View<'_, T, (usize,), Strided>>(s.diag(0)); is::<ViewMut<'_, T, (Y,), L>>(s.row_mut(0)); is::<ViewMut<'_, T, (X,), Strided>>(s.col_mut(0)); is::<ViewMut<'_, T, (usize,), Strided>>(s.diag_mut(0)); }''' % g[1:]))
    out.append(Case('axis', 'into_row col diag', '''fn f<'a, %s(s: View<'a, T, (X, Y), L>) { is::<View<'a, T, (Y,), L>>(s.clone().into_row(0)); is::<View<'a, T, (X,), Strided>>(s.clone().into_col(0)); is::<View<'a, T, (usize,), Strided>>(s.into_diag(0)); } fn g<'a, %s(s: ViewMut<'a, T, (X, Y), L>) { is::<ViewMut<'a, T, (Y,), L>>(s.into_row(0)); } fn h<'a, %s(s: ViewMut<'a, T, (X, Y), L>) { is::<ViewMut<'a, T, (X,), Strided>>(s.into_col(0)); } fn i<'a, %s(s: ViewMut<'a, T, (X, Y), L>) { is::<ViewMut<'a, T, (usize,), Strided>>(s.into_diag(0)); }''' % (g[1:], g[1:], g[1:], g[1:])))
    for e, t, along, rest in [('Const::<0>', 'Const<0>', 'Strided', 'L'), ('Const::<1>', 'Const<1>', 'Strided', 'Strided'), ('1usize', 'usize', 'Strided', 'Strided')]:
        out.append(Case('axis', 'dynrank/%s' % t, '''fn f<'a, T, L: Layout>(s: &'a Slice<T, DynRank, L>) { is::<View<'_, T, DynRank, %s>>(s.axis_at(%s, 0)); is::<(View<'_, T, DynRank, %s>, View<'_, T, DynRank, %s>)>(s.split_axis_at(%s, 0)); shape_of::<_, (usize,)>(s.axis_expr(%s)); item_of::<_, View<'a, T, DynRank, %s>>(s.axis_expr(%s)); shape_of::<_, DynRank>(s.lanes(%s)); item_of::<_, View<'a, T, (usize,), %s>>(s.lanes(%s)); }''' % (rest, e, rest, rest, e, e, rest, e, e, along, e)))


def c12_permute(out):
    for n in range(1, 7):
        dims = D[:n]
        s = tup(dims)
        perms = list(itertools.permutations(range(n)))
        if n > 4:
            perms = [p for p in perms if p == tuple(range(n)) or hash_(str(p)) % (8 if n == 5 else 40) == 0] + \
                    [tuple(range(n - 2)) + (n - 1, n - 2), (1, 0) + tuple(range(2, n))]
        for p in perms:
            la = 'L' if p == tuple(range(n)) or n == 1 else 'Strided'
            sh = tup([dims[k] for k in p])
            arg = tup(['Const::<%d>' % k for k in p])
            out.append(Case('perm', 'permute/%s' % (p,), '''fn f%s(s: &mut Slice<T, %s, L>) { is::<View<'_, T, %s, %s>>(s.permute(%s)); is::<ViewMut<'_, T, %s, %s>>(s.permute_mut(%s)); }''' % (gen(n), s, sh, la, arg, sh, la, arg)))
            if n < 4:
                out.append(Case('perm', 'into_permuted/%s' % (p,), '''fn f<'a, %s(s: View<'a, T, %s, L>, m: ViewMut<'a, T, %s, L>) { is::<View<'a, T, %s, %s>>(s.into_permuted(%s)); is::<ViewMut<'a, T, %s, %s>>(m.into_permuted(%s)); }''' % (gen(n)[1:], s, s, sh, la, arg, sh, la, arg)))
        la = 'L' if n == 1 else 'Strided'
        out.append(Case('perm', 'permute/dyn %d' % n, '''fn f%s(s: &Slice<T, %s, L>) { is::<View<'_, T, %s, %s>>(s.permute([0usize; %d])); is::<View<'_, T, %s, Strided>>(s.permute(&[0usize; %d])); is::<View<'_, T, %s, Strided>>(s.permute(&[0usize; %d][..])); }''' % (gen(n), s, tup(['usize'] * n), la, n, tup(['usize'] * n), n, tup(['usize'] * n), n)))
        out.append(Case('perm', 'permute/dynrank %d' % n, '''fn f<T, L: Layout>(s: &Slice<T, DynRank, L>) { is::<View<'_, T, %s, %s>>(s.permute([0usize; %d])); is::<View<'_, T, DynRank, Strided>>(s.permute(&[0usize; %d])); }''' % (tup(['usize'] * n), la, n, n)))
        out.append(Case('perm', 'reorder/%d' % n, '''fn f<'a, %s(s: &mut Slice<T, %s, L>, v: View<'a, T, %s, L>, w: ViewMut<'a, T, %s, L>) { is::<View<'_, T, %s, %s>>(s.reorder()); is::<ViewMut<'_, T, %s, %s>>(s.reorder_mut()); is::<View<'a, T, %s, %s>>(v.into_reordered()); is::<ViewMut<'a, T, %s, %s>>(w.into_reordered()); }''' % (gen(n)[1:], s, s, s, tup(dims[::-1]), la, tup(dims[::-1]), la, tup(dims[::-1]), la, tup(dims[::-1]), la)))
    out.append(Case('perm', 'reorder/dyn', '''fn f<T, L: Layout>(s: &Slice<T, DynRank, L>, z: &Slice<T, (), L>) { is::<View<'_, T, DynRank, Strided>>(s.reorder()); is::<View<'_, T, (), L>>(z.reorder()); }'''))
    out.append(Case('perm', 'permute/mixed', '''fn f%s(s: &Slice<T, (X, Y), L>) { is::<View<'_, T, (usize, X), Strided>>(s.permute((1usize, Const::<0>))); is::<View<'_, T, (Y, usize), Strided>>(s.permute((Const::<1>, 0usize))); }''' % gen(2)))
    for p, q in itertools.product(itertools.permutations(range(3)), repeat=2):
        sh = tup([['X', 'Y', 'Z'][p[k]] for k in q])
        out.append(Case('perm', 'compose/%s%s' % (p, q), '''fn f%s(s: &Slice<T, (X, Y, Z), L>) { is::<View<'_, T, %s, _>>(s.permute(%s).permute(%s)); }''' % (gen(3), sh, tup(['Const::<%d>' % k for k in p]), tup(['Const::<%d>' % k for k in q]))))


def c12_shape(out):
    SH = [('[usize; 0]', '()'), ('[usize; 1]', '(usize,)')] + [('[usize; %d]' % n, tup(['usize'] * n)) for n in range(2, 7)]
    for a, b in SH:
        out.append(Case('shape', 'IntoShape/%s' % a, 'fn f() { same::<<%s as IntoShape>::IntoShape, %s>(); same::<Rank<%s>, %s>(); }' % (a, b, a[8], b)))
    for a in ['&[usize]', '&[usize; 3]', 'Box<[usize]>', 'Vec<usize>', 'DynRank']:
        out.append(Case('shape', 'IntoShape/%s' % a, 'fn f() { same::<<%s as IntoShape>::IntoShape, DynRank>(); }' % a))
    for n in range(0, 7):
        g = '<' + ', '.join(d + ': Dim' for d in D[:n]) + ', L: Layout, Q: Dim>'
        g = g.replace('<, ', '<')
        dims = D[:n]
        s = tup(dims)
        dyn = tup(['usize'] * n)
        head = dims[0] if n else 'usize'
        tail = tup(dims[1:]) if n else '()'
        pre = tup(['Q'] + dims) if n < 6 else 'DynRank'
        keep = 'L' if n == 0 else 'Strided'
        out.append(Case('shape', 'Shape/%d' % n, '''fn f%s() { same::<<%s as IntoShape>::IntoShape, %s>(); same::<<%s as Shape>::Head, %s>(); same::<<%s as Shape>::Tail, %s>(); same::<<%s as Shape>::Reverse, %s>(); same::<<%s as Shape>::Prepend<Q>, %s>(); same::<<%s as Shape>::Dyn, %s>(); same::<<%s as Shape>::Layout<L>, %s>(); const { assert!(matches!(<%s as Shape>::RANK, Some(%d))) } }''' % (g, s, s, s, head, s, tail, s, tup(dims[::-1]), s, pre, s, dyn, s, keep, s, n)))
        out.append(Case('shape', 'rank const/%d' % n, 'const _: () = assert!(matches!(<%s as Shape>::RANK, Some(%d)));' % (tup(['Const<3>'] * n), n)))
        out.append(Case('shape', 'rank dyn const/%d' % n, 'const _: () = assert!(matches!(<%s as Shape>::RANK, Some(%d)));' % (dyn, n)))
        # owned kinds: fixed-size exactly if all dimensions are constant
        for mask in range(1 << n):
            ds = ['Const<%d>' % (k + 2) if mask >> k & 1 else 'usize' for k in range(n)]
            own = 'Array' if mask == (1 << n) - 1 else 'Tensor'
            out.append(Case('owned', 'Owned/%s' % tup(ds), 'fn f<T>() { same::<<%s as Shape>::Owned<T>, %s<T, %s>>(); }' % (tup(ds), own, tup(ds))))
            if n <= 3:
                out.append(Case('owned', 'eval/%s' % tup(ds), '''fn f<T: Clone, L: Layout>(s: &Slice<T, %s, L>) { is::<%s<T, %s>>(s.expr().cloned().eval()); is::<%s<T, %s>>(s.expr().map(|x| x.clone()).eval()); is::<Tensor<T, %s>>(s.to_tensor()); }''' % (tup(ds), own, tup(ds), own, tup(ds), tup(ds))))
            if n and n <= 3:
                out.append(Case('owned', 'ToOwned/%s' % tup(ds), '''fn f<T: Clone>(s: &Slice<T, %s>) { is::<%s<T, %s>>(s.to_owned()); }''' % (tup(ds), own, tup(ds))))
        # reshape
        out.append(Case('shape', 'reshape/%d' % n, '''fn f<T, L: Layout, %s>(s: &mut Slice<T, DynRank, L>, d: %s) { is::<View<'_, T, %s, L>>(s.reshape(d.clone())); is::<ViewMut<'_, T, %s, L>>(s.reshape_mut(d)); }''' % (', '.join(d + ': Dim' for d in dims), s, s, s)))
        out.append(Case('shape', 'flatten/%d' % n, '''fn f<'a, T, L: Layout, %s>(s: &mut Slice<T, %s, L>, v: View<'a, T, %s, L>, w: ViewMut<'a, T, %s, L>) { is::<View<'_, T, (usize,), L>>(s.flatten()); is::<ViewMut<'_, T, (usize,), L>>(s.flatten_mut()); is::<View<'a, T, (usize,), L>>(v.clone().into_flat()); is::<View<'a, T, DynRank, L>>(v.into_dyn()); is::<ViewMut<'a, T, DynRank, L>>(w.into_dyn()); }''' % (', '.join(d + ': Dim' for d in dims), s, s, s)))
        out.append(Case('shape', 'tensor/%d' % n, '''fn f<T, %s>(s: Tensor<T, %s>) { is::<Tensor<T, DynRank>>(s.into_dyn()); } fn g<T, %s>(s: Tensor<T, %s>) { is::<Tensor<T, (usize,)>>(s.into_flat()); } fn h<T, R: Shape, %s>(s: Tensor<T, %s>) { is::<Tensor<T, R>>(s.into_mapping()); } fn i<T, R: Shape, %s>(s: Tensor<T, %s>, r: R) { is::<Tensor<T, R>>(s.into_shape(r)); }''' % tuple(x for _ in range(4) for x in (', '.join(d + ': Dim' for d in dims), s))))
    out.append(Case('shape', 'DynRank', '''fn f<L: Layout, Q: Dim, S: Shape, T>() { same::<<DynRank as Shape>::Head, usize>(); same::<<DynRank as Shape>::Tail, DynRank>(); same::<<DynRank as Shape>::Reverse, DynRank>(); same::<<DynRank as Shape>::Prepend<Q>, DynRank>(); same::<<DynRank as Shape>::Dyn, DynRank>(); same::<<DynRank as Shape>::Merge<S>, DynRank>(); same::<<DynRank as Shape>::Layout<L>, Strided>(); same::<<DynRank as Shape>::Owned<T>, Tensor<T, DynRank>>(); }'''))
    out.append(Case('shape', 'DynRank rank', 'const _: () = assert!(<DynRank as Shape>::RANK.is_none());'))
    out.append(Case('shape', 'aliases', '''fn f<'a, T: 'a>() { same::<Dyn, usize>(); same::<DTensor<T, 2>, Tensor<T, (usize, usize)>>(); same::<DSlice<T, 3>, Slice<T, (usize, usize, usize), Dense>>(); same::<DSlice<T, 1, Strided>, Slice<T, (usize,), Strided>>(); same::<DView<'a, T, 2>, View<'a, T, (usize, usize), Dense>>(); same::<DViewMut<'a, T, 2, Strided>, ViewMut<'a, T, (usize, usize), Strided>>(); same::<View<'a, T>, View<'a, T, DynRank, Dense>>(); same::<Tensor<T>, Tensor<T, DynRank>>(); same::<Slice<T>, Slice<T, DynRank, Dense>>(); }'''))
    out.append(Case('shape', 'dims', '''fn f<Q: Dim>() { same::<<Const<3> as Dim>::Merge<Q>, Const<3>>(); same::<<usize as Dim>::Merge<Q>, Q>(); } const _: () = assert!(matches!(<Const<5> as Dim>::SIZE, Some(5)) && <usize as Dim>::SIZE.is_none());'''))
    out.append(Case('shape', 'layouts', '''fn f<S: Shape>() { same::<<Dense as Layout>::Mapping<S>, DenseMapping<S>>(); same::<<Strided as Layout>::Mapping<S>, StridedMapping<S>>(); } const _: () = assert!(<Dense as Layout>::IS_DENSE && !<Strided as Layout>::IS_DENSE);'''))
    out.append(Case('shape', 'mapping', '''fn f<S: Shape>() { same::<<DenseMapping<S> as Mapping>::Shape, S>(); same::<<DenseMapping<S> as Mapping>::Layout, Dense>(); same::<<StridedMapping<S> as Mapping>::Shape, S>(); same::<<StridedMapping<S> as Mapping>::Layout, Strided>(); }'''))
    for n, ty, el in [(0, '()', 1), (1, '(Const<5>,)', 5), (2, '(Const<2>, Const<3>)', 6), (3, '(Const<2>, Const<3>, Const<4>)', 24), (4, '(Const<2>, Const<3>, Const<4>, Const<1>)', 24), (5, '(Const<2>, Const<3>, Const<4>, Const<1>, Const<2>)', 48), (6, '(Const<2>, Const<3>, Const<4>, Const<1>, Const<2>, Const<1>)', 48), (2, '(Const<0>, Const<3>)', 0)]:
        out.append(Case('shape', 'array size/%s' % ty, 'const _: () = assert!(size_of::<Array<u16, %s>>() == %d);' % (ty, 2 * el)))
    # merging two shapes position by position, from the left for equal ranks
    cd = {'C': 'Const<%d>', 'D': 'usize'}
    for n in range(1, 4):
        for a in itertools.product('CD', repeat=n):
            for b in itertools.product('CD', repeat=n):
                A = [cd[x] % (k + 2) if x == 'C' else 'usize' for k, x in enumerate(a)]
                B = [cd[x] % (k + 2) if x == 'C' else 'usize' for k, x in enumerate(b)]
                M = [p if p != 'usize' else q for p, q in zip(A, B)]
                own = 'Tensor' if 'usize' in M else 'Array'
                out.append(Case('merge', 'merge/%s/%s' % (tup(A), tup(B)), '''fn f<'a, L: Layout, K: Layout>(a: &'a Slice<u8, %s, L>, b: &'a Slice<i8, %s, K>) { same::<<%s as Shape>::Merge<%s>, %s>(); shape_of::<_, %s>(a.expr().zip(b)); item_of::<_, (&'a u8, &'a i8)>(a.expr().zip(b)); is::<%s<i32, %s>>(a.expr().zip(b).map(|(x, y)| *x as i32 + *y as i32).eval()); shape_of::<_, %s>(expr::zip(a, b)); }''' % (tup(A), tup(B), tup(A), tup(B), tup(M), tup(M), own, tup(M), tup(M))))
                if n <= 2:
                    out.append(Case('merge', 'operator/%s/%s' % (tup(A), tup(B)), '''fn f<L: Layout, K: Layout>(a: &Slice<i32, %s, L>, b: &Slice<i32, %s, K>) { is::<%s<i32, %s>>((a + b).eval()); is::<%s<i32, %s>>((a.expr() - b.expr()).eval()); is::<%s<i32, %s>>((a * b.expr() + a).eval()); }''' % (tup(A), tup(B), own, tup(M), own, tup(M), own, tup(M))))
    # broadcasting: aligned at the last dimension
    for a, b in itertools.product(range(0, 4), repeat=2):
        if a == b:
            continue
        A = ['Const<%d>' % (9 - k) for k in range(a)][::-1]
        B = ['usize'] * b
        lo = min(a, b)
        long = A if a > b else B
        # constants win where the positions overlap, counted from the last dimension
        M = list(long)
        for k in range(1, lo + 1):
            M[-k] = A[-k]
        out.append(Case('merge', 'broadcast/%d/%d' % (a, b), '''fn f<L: Layout, K: Layout>(a: &Slice<u8, %s, L>, b: &Slice<i8, %s, K>) { shape_of::<_, %s>(a.expr().zip(b)); shape_of::<_, %s>(b.expr().zip(a)); }''' % (tup(A), tup(B), tup(M), tup(M))))
    out.append(Case('merge', 'zip dynrank', '''fn f<L: Layout, K: Layout>(a: &Slice<u8, (Const<2>, usize), L>, b: &Slice<i8, DynRank, K>) { shape_of::<_, DynRank>(a.expr().zip(b)); shape_of::<_, DynRank>(b.expr().zip(a)); is::<Tensor<i32>>(a.expr().zip(b).map(|_| 0).eval()); }'''))
    # adapters keep the shape
    out.append(Case('adapter', 'adapters', '''fn f<'a, T: Copy + 'a, S: Shape, L: Layout>(a: &'a Slice<T, S, L>) { shape_of::<_, S>(a); shape_of::<_, S>(a.expr()); shape_of::<_, S>(a.expr().map(|x| 0u8)); item_of::<_, u8>(a.expr().map(|x| 0u8)); shape_of::<_, S>(a.expr().cloned()); item_of::<_, T>(a.expr().cloned()); shape_of::<_, S>(a.expr().copied()); item_of::<_, T>(a.expr().copied()); shape_of::<_, S>(a.expr().enumerate()); item_of::<_, (usize, &'a T)>(a.expr().enumerate()); item_of::<_, &'a T>(a); }'''))
    out.append(Case('adapter', 'sources', '''fn f<S: Shape>(s: S) { shape_of::<_, ()>(expr::fill(1u8)); shape_of::<_, ()>(expr::fill_with(|| 1u8)); item_of::<_, u8>(expr::fill(1u8)); shape_of::<_, S>(expr::from_elem(s.clone(), 1u8)); shape_of::<_, S>(expr::from_fn(s, |i: &[usize]| i[0])); shape_of::<_, (usize, usize)>(expr::from_elem([1usize, 2], 1u8)); shape_of::<_, DynRank>(expr::from_fn(&[1usize, 2][..], |_| 1u8)); }'''))
    out.append(Case('adapter', 'by value', '''fn f<S: Shape, C: ConstShape>(t: Tensor<u8, S>, a: Array<u8, C>) { item_of::<_, u8>(t); item_of::<_, u8>(a); } fn g<S: Shape, C: ConstShape>(t: Tensor<u8, S>, a: Array<u8, C>) { shape_of::<_, S>(t); shape_of::<_, C>(a); } fn h<'a, S: Shape, C: ConstShape, L: Layout>(t: &'a mut Tensor<u8, S>, a: &'a mut Array<u8, C>, s: &'a mut Slice<u8, S, L>) { item_of::<_, &'a mut u8>(t); item_of::<_, &'a mut u8>(a); item_of::<_, &'a mut u8>(s); } fn i<'a, S: Shape>(t: &'a mut Tensor<u8, S>) { shape_of::<_, S>(t.drain(..)); } fn j<'a, S: Shape>(t: &'a mut Tensor<u8, S>) { item_of::<_, u8>(t.drain(..)); }'''))
    # deref targets and layouts of owned types
    out.append(Case('adapter', 'targets', '''fn f<'a, T: 'a, S: Shape, C: ConstShape, L: Layout>() { same::<<Tensor<T, S> as Deref>::Target, Slice<T, S, Dense>>(); same::<<Array<T, C> as Deref>::Target, Slice<T, C, Dense>>(); same::<<View<'a, T, S, L> as Deref>::Target, Slice<T, S, L>>(); same::<<ViewMut<'a, T, S, L> as Deref>::Target, Slice<T, S, L>>(); same::<<Slice<T, S, L> as Index<usize>>::Output, T>(); }'''))
    out.append(Case('adapter', 'remap', '''fn f<'a, T, S: Shape, R: Shape, L: Layout, K: Layout>(s: &mut Slice<T, S, L>, v: View<'a, T, S, L>, w: ViewMut<'a, T, S, L>) { is::<View<'_, T, R, K>>(s.remap()); is::<ViewMut<'_, T, R, K>>(s.remap_mut()); is::<View<'a, T, R, K>>(v.into_mapping()); is::<ViewMut<'a, T, R, K>>(w.into_mapping()); } fn g<'a, T, S: Shape, R: Shape, L: Layout>(v: View<'a, T, S, L>, w: ViewMut<'a, T, S, L>, r: R) { is::<View<'a, T, R, L>>(v.into_shape(r.clone())); is::<ViewMut<'a, T, R, L>>(w.into_shape(r)); }'''))
    # operators: kinds of results
    for n, (op, tr) in enumerate([('+', 'Add'), ('-', 'Sub'), ('*', 'Mul'), ('/', 'Div'), ('%', 'Rem'), ('&', 'BitAnd'), ('|', 'BitOr'), ('^', 'BitXor'), ('<<', 'Shl'), ('>>', 'Shr')]):
        out.append(Case('oper', 'owned/%s' % tr, '''fn f(a: A23, b: A23, t: T2) { is::<A23>(a %s &t); is::<A23>(b %s t); } fn g(a: A23, t: T2, u: T2) { is::<T2>(t %s &a); is::<T2>(u %s a); } fn h(a: A23, t: T2) { is::<A23>(a %s expr::fill(1)); is::<T2>(t %s expr::fill(1)); } fn i(a: A23, t: T2) { is::<A23>(&t %s a); } fn j(a: A23, t: T2) { is::<T2>(&a %s t); }''' % ((op,) * 8)))
        out.append(Case('oper', 'borrowed/%s' % tr, '''fn f<'a>(a: &'a A23, t: &'a T2) { shape_of::<_, (Const<2>, Const<3>)>(a %s t); shape_of::<_, (Const<2>, Const<3>)>(t %s a); item_of::<_, i32>(a %s t); is::<A23>((a %s t).eval()); is::<A23>((t %s expr::fill(2) %s a).eval()); } fn g<L: Layout>(s: View<'_, i32, (usize, usize), L>, a: &A23) { is::<A23>((s %s a).eval()); } fn h<L: Layout>(mut s: ViewMut<'_, i32, (usize, usize), L>, a: &A23) { s %s= a; s %s= expr::fill(1); }''' % ((op,) * 9)))
    out.append(Case('oper', 'unary', '''fn f(a: A23, t: T2) { is::<A23>((-&a).eval()); is::<T2>((!&t).eval()); is::<A23>(-a); is::<T2>(!t); } fn g(a: A23, t: T2) { is::<A23>(!a); is::<T2>(-t); } fn h<L: Layout>(s: &Slice<i32, (usize, Const<3>), L>) { is::<Tensor<i32, (usize, Const<3>)>>((-s).eval()); is::<Tensor<i32, (usize, Const<3>)>>((!s.expr()).eval()); }'''))
    # conversions
    arr = 'T'
    ty = []
    for n in range(1, 7):
        names = ['A', 'B', 'C', 'E', 'F', 'G'][:n]
        arr = 'T'
        for x in reversed(names):
            arr = '[%s; %s]' % (arr, x)
        g = '<T: Clone, ' + ', '.join('const %s: usize' % x for x in names) + '>'
        cs = tup(['Const<%s>' % x for x in names])
        ds = tup(['usize'] * n)
        out.append(Case('conv', 'nested/%d' % n, '''fn f%s(a: %s) { is::<Array<T, %s>>(a.into()); } fn g%s(a: Array<T, %s>) { is::<%s>(a.into()); } fn h%s(a: %s) { is::<Tensor<T, %s>>(a.into()); } fn i%s(a: %s) { is::<Tensor<T, %s>>(a.into()); } fn j%s(a: &%s) { is::<View<'_, T, %s>>(a.into()); is::<View<'_, T, %s>>(a.into()); } fn k%s(a: Tensor<T, %s>) { is::<Result<%s, Tensor<T, %s>>>(a.try_into()); } fn l%s(a: View<'_, T, %s>) { is::<Result<&%s, _>>(<&%s>::try_from(a)); }''' % (g, arr, cs, g, cs, arr, g, arr, cs, g, arr, ds, g, arr, cs, ds, g, ds, arr, ds, g, ds, arr, arr)))
    out.append(Case('conv', 'flat', '''fn f<T>(v: Vec<T>) { is::<Tensor<T, (usize,)>>(v.into()); } fn g<T, Q: Dim>(t: Tensor<T, (Q,)>) { is::<Vec<T>>(t.into()); } fn h<T, S: Shape>(t: Tensor<T, S>) { is::<Vec<T>>(t.into_vec()); } fn i<T, C: ConstShape>(t: Tensor<T, C>) { is::<Array<T, C>>(t.into()); } fn j<T, C: ConstShape>(t: Array<T, C>) { is::<Tensor<T, C>>(t.into()); } fn k<T>(v: &[T]) { is::<View<'_, T, (usize,)>>(v.into()); } fn l<T, Q: Dim>(v: View<'_, T, (Q,)>) { is::<&[T]>(v.into()); } fn m<T>(i: std::vec::IntoIter<T>) { is::<Tensor<T, (usize,)>>(i.collect()); }'''))
    # rejected programs
    N = lambda name, code, twin: out.append(Case('neg', 'reject/' + name, code, 'type', twin))
    N('array with a dynamic dimension', 'fn f(a: Array<u8, (usize, Const<2>)>) {}', 'fn f(a: Array<u8, (Const<2>, Const<2>)>) {}')
    N('array of dynamic rank', 'fn f(a: Array<u8, DynRank>) {}', 'fn f(a: Array<u8, ()>) {}')
    N('range index of strided', 'fn f(a: &Slice<u8, (usize, usize), Strided>) { us(&a[0..2]); }', 'fn f(a: &Slice<u8, (usize, usize), Dense>) { us(&a[0..2]); }')
    N('full range index of strided', 'fn f(a: &Slice<u8, (usize,), Strided>) { us(&a[..]); }', 'fn f(a: &Slice<u8, (usize,), Dense>) { us(&a[..]); }')
    N('range index of generic layout', 'fn f<L: Layout>(a: &Slice<u8, (usize,), L>) { us(&a[1..]); }', 'fn f(a: &Slice<u8, (usize,)>) { us(&a[1..]); }')
    for n in range(1, 7):
        for m in (n - 1, n + 1):
            if m < 1:
                continue
            N('view arity %d of %d' % (m, n), 'fn f<L: Layout>(a: &Slice<u8, %s, L>) { us(a.view(%s)); }' % (tup(['usize'] * n), ', '.join(['..'] * m)), 'fn f<L: Layout>(a: &Slice<u8, %s, L>) { us(a.view(%s)); }' % (tup(['usize'] * n), ', '.join(['..'] * n)))
    N('strided as slice', "fn f<'a>(a: View<'a, u8, (usize,), Strided>) -> &'a [u8] { a.into() }", "fn f<'a>(a: View<'a, u8, (usize,), Dense>) -> &'a [u8] { a.into() }")
    N('strided as_ref slice', "fn f(a: &Slice<u8, (usize,), Strided>) -> &[u8] { a.as_ref() }", "fn f(a: &Slice<u8, (usize,), Dense>) -> &[u8] { a.as_ref() }")
    N('strided as array', "fn f(a: &Slice<u8, (Const<2>, Const<3>), Strided>) -> &[[u8; 3]; 2] { a.as_ref() }", "fn f(a: &Slice<u8, (Const<2>, Const<3>), Dense>) -> &[[u8; 3]; 2] { a.as_ref() }")
    N('wrong nested array', "fn f(a: &Slice<u8, (Const<2>, Const<3>)>) -> &[[u8; 2]; 3] { a.as_ref() }", "fn f(a: &Slice<u8, (Const<2>, Const<3>)>) -> &[[u8; 3]; 2] { a.as_ref() }")
    N('wrong constant', "fn f(a: [[u8; 3]; 2]) -> Array<u8, (Const<3>, Const<2>)> { a.into() }", "fn f(a: [[u8; 3]; 2]) -> Array<u8, (Const<2>, Const<3>)> { a.into() }")
    N('wrong constant tensor', "fn f(a: [[u8; 3]; 2]) -> Tensor<u8, (Const<2>, Const<2>)> { a.into() }", "fn f(a: [[u8; 3]; 2]) -> Tensor<u8, (Const<2>, usize)> { a.into() }")
    N('wrong constant view', "fn f(a: &[[u8; 3]; 2]) -> View<'_, u8, (Const<3>, Const<3>)> { a.into() }", "fn f(a: &[[u8; 3]; 2]) -> View<'_, u8, (Const<2>, Const<3>)> { a.into() }")
    N('vec as constant', "fn f(a: Vec<u8>) -> Tensor<u8, (Const<3>,)> { a.into() }", "fn f(a: Vec<u8>) -> Tensor<u8, (usize,)> { a.into() }")
    N('slice as constant', "fn f(a: &[u8]) -> View<'_, u8, (Const<3>,)> { a.into() }", "fn f(a: &[u8]) -> View<'_, u8, (usize,)> { a.into() }")
    N('collect as constant', "fn f(a: std::vec::IntoIter<u8>) -> Tensor<u8, (Const<3>,)> { a.collect() }", "fn f(a: std::vec::IntoIter<u8>) -> Tensor<u8, (usize,)> { a.collect() }")
    N('extend constant', "fn f(mut a: Tensor<u8, (Const<3>,)>) { a.extend([1u8]); }", "fn f(mut a: Tensor<u8, (usize,)>) { a.extend([1u8]); }")
    N('array from elem with shape mismatch', "fn f() -> Tensor<u8, (Const<2>,)> { Tensor::from_elem([2usize], 1) }", "fn f() -> Tensor<u8, (usize,)> { Tensor::from_elem([2usize], 1) }")
    N('eval of dynamic as array', "fn f(a: &T2) -> Array<i32, (Const<2>, Const<3>)> { a.expr().copied().eval() }", "fn f(a: &A23) -> Array<i32, (Const<2>, Const<3>)> { a.expr().copied().eval() }")
    N('array from tensor of other constants', "fn f(a: Tensor<u8, (Const<2>, Const<3>)>) -> Array<u8, (Const<3>, Const<2>)> { a.into() }", "fn f(a: Tensor<u8, (Const<2>, Const<3>)>) -> Array<u8, (Const<2>, Const<3>)> { a.into() }")
    N('array from dynamic tensor', "fn f(a: Tensor<u8, (usize, Const<3>)>) -> Array<u8, (Const<3>, Const<2>)> { a.into() }", "fn f(a: Tensor<u8, (Const<3>, Const<2>)>) -> Array<u8, (Const<3>, Const<2>)> { a.into() }")
    N('array method with a range', "fn f(a: &A23) { us(a.array(.., 0..2)); }", "fn f(a: &A23) { us(a.array(.., 1)); }")
    N('to_array of dynamic', "fn f(a: &T2) { us(a.to_array()); }", "fn f(a: &A23) { us(a.to_array()); }")
    N('strides of dense', "fn f(a: &T2) { us(a.strides()); }", "fn f(a: View<'_, u8, (usize, usize), Strided>) { us(a.strides()); }")
    N('dims of static rank', "fn f(a: &T2) { us(a.dims()); }", "fn f(a: &TN) { us(a.dims()); }")
    N('axis beyond the supported ones', "fn f(a: &TN) { us(a.axis_at(Const::<6>, 0)); }", "fn f(a: &TN) { us(a.axis_at(Const::<5>, 0)); }")
    N('seven dimensions', "fn f(a: Tensor<u8, (usize, usize, usize, usize, usize, usize, usize)>) {}", "fn f(a: Tensor<u8, (usize, usize, usize, usize, usize, usize)>) {}")
    N('view_mut of shared view', "fn f(mut a: View<'_, u8, (usize, usize)>) { us(a.view_mut(.., ..)); }".replace('us(a', 'let b: ViewMut<u8, _, _> = (a').replace(');', ');'), "fn f(mut a: ViewMut<'_, u8, (usize, usize)>) { us(a.view_mut(.., ..)); }")
    N('index mut of shared view', "fn f(mut a: View<'_, u8, (usize, usize)>) { a[[0, 0]] = 1; }", "fn f(mut a: ViewMut<'_, u8, (usize, usize)>) { a[[0, 0]] = 1; }")
    N('assign to shared view', "fn f(mut a: View<'_, i32, (usize, usize)>, b: &T2) { a.assign(b); }", "fn f(mut a: ViewMut<'_, i32, (usize, usize)>, b: &T2) { a.assign(b); }")
    N('compound on shared view', "fn f(mut a: View<'_, i32, (usize, usize)>, b: &T2) { a += b; }", "fn f(mut a: ViewMut<'_, i32, (usize, usize)>, b: &T2) { a += b; }")


def c12():
    out = []
    c12_view(out)
    c12_axis(out)
    c12_permute(out)
    c12_shape(out)
    return out


# --- C18: thread safety and variance -----------------------------------------------------------------------------------

# type constructor -> (Send iff, Sync iff), in terms of the element
OWNED = ('Send', 'Sync')
SHARED = ('Sync', 'Sync')
CONS = [
    ('Tensor<%s, (usize, usize)>', OWNED), ('Tensor<%s>', OWNED), ('Tensor<%s, (Const<2>, usize)>', OWNED),
    ('Array<%s, (Const<2>, Const<3>)>', OWNED), ('Array<%s, ()>', OWNED),
    ('Slice<%s, (usize, usize), Dense>', OWNED), ('Slice<%s, DynRank, Strided>', OWNED),
    ("&'static Slice<%s, (usize, usize), Strided>", SHARED), ("&'static mut Slice<%s, (usize, usize), Strided>", OWNED),
    ("&'static Tensor<%s, (usize, usize)>", SHARED), ("&'static Array<%s, (Const<2>, )>", SHARED),
    ("View<'static, %s, (usize, usize)>", SHARED), ("View<'static, %s, DynRank, Strided>", SHARED), ("View<'static, %s, (Const<2>,), Strided>", SHARED),
    ("ViewMut<'static, %s, (usize, usize)>", OWNED), ("ViewMut<'static, %s, DynRank, Strided>", OWNED), ("ViewMut<'static, %s, (Const<2>,), Dense>", OWNED),
    ("Iter<View<'static, %s, (usize, usize), Strided>>", SHARED), ("Iter<ViewMut<'static, %s, (usize, usize), Strided>>", OWNED),
    ("<Tensor<%s, (usize,)> as IntoExpression>::IntoExpr", OWNED), ("<Array<%s, (Const<2>,)> as IntoExpression>::IntoExpr", OWNED),
    ("<Tensor<%s, (usize,)> as IntoIterator>::IntoIter", OWNED), ("<Array<%s, (Const<2>,)> as IntoIterator>::IntoIter", OWNED),
    ("IntoExpr<Drain<'static, %s, (usize, usize)>>", OWNED), ("IntoExpr<Drain<'static, %s, DynRank>>", OWNED),
    ("AxisExpr<'static, %s, (usize, usize), Dense, Const<1>>", SHARED), ("AxisExprMut<'static, %s, (usize, usize), Strided, Const<0>>", OWNED),
    ("Lanes<'static, %s, (usize, usize), Dense, Rows>", SHARED), ("LanesMut<'static, %s, (usize, usize), Strided, Cols>", OWNED),
    ("Iter<AxisExpr<'static, %s, (usize, usize), Dense, usize>>", SHARED), ("Iter<LanesMut<'static, %s, (usize, usize), Dense, usize>>", OWNED),
    ("Cloned<View<'static, %s, (usize,)>>", SHARED), ("Enumerate<View<'static, %s, (usize,)>>", SHARED), ("Enumerate<ViewMut<'static, %s, (usize,)>>", OWNED),
    ("Zip<View<'static, %s, (usize,)>, View<'static, u8, (usize,)>>", SHARED), ("Zip<View<'static, u8, (usize,)>, ViewMut<'static, %s, (usize,)>>", OWNED),
    ("Fill<%s>", OWNED), ("FromElem<%s, (usize, usize)>", OWNED),
]
KIND = {'i32': {'Send', 'Sync'}, 'OnlySend': {'Send'}, 'OnlySync': {'Sync'}, 'Nor': set(), 'Rc<u8>': set(), 'Cell<i32>': {'Send'}}


def c18():
    out = []
    for con, (se, sy) in CONS:
        for tr, need in (('send', se), ('sync', sy)):
            for el, has in KIND.items():
                if el in ('Rc<u8>', 'Cell<i32>') and con not in ('Tensor<%s>', "View<'static, %s, (usize, usize)>", "ViewMut<'static, %s, (usize, usize)>"):
                    continue
                if con.startswith('Cloned') and el != 'i32':
                    pass
                name = '%s/%s of %s' % (tr, con.replace("'static ", '').replace("'static, ", '') % el, el)
                code = 'fn f() { %s::<%s>(); }' % (tr, con % el)
                if need in has:
                    out.append(Case('auto', name, code))
                else:
                    out.append(Case('auto', 'not ' + name, code, 'type', 'fn f() { %s::<%s>(); }' % (tr, con % 'i32')))
    P = lambda name, code: out.append(Case('auto', name, code))
    P('generic/view', "fn f<'a, T: Sync + 'a, S: Shape, L: Layout>() { send::<View<'a, T, S, L>>(); sync::<View<'a, T, S, L>>(); sync::<ViewMut<'a, T, S, L>>(); }")
    P('generic/view_mut', "fn f<'a, T: Send + 'a, S: Shape, L: Layout>() { send::<ViewMut<'a, T, S, L>>(); }")
    P('generic/tensor', "fn f<T: Send, S: Shape>() { send::<Tensor<T, S>>(); } fn g<T: Sync, S: Shape>() { sync::<Tensor<T, S>>(); }")
    P('generic/slice', "fn f<T: Send, S: Shape>() { send::<Slice<T, S, Dense>>(); send::<Slice<T, S, Strided>>(); } fn g<T: Sync, S: Shape>() { sync::<Slice<T, S, Dense>>(); sync::<Slice<T, S, Strided>>(); }")
    P('generic/shapes', "fn f<S: Shape, Q: Dim, A: Axis>() { send::<S>(); sync::<S>(); send::<Q>(); sync::<Q>(); send::<A>(); sync::<A>(); send::<DenseMapping<S>>(); sync::<DenseMapping<S>>(); send::<StridedMapping<S>>(); sync::<StridedMapping<S>>(); }")
    for tr in ('Send', 'Sync'):
        for t, b in (('View', 'Sync'), ('ViewMut', tr), ('Tensor', tr)):
            ty = "Tensor<T, S>" if t == 'Tensor' else "%s<'a, T, S, L>" % t
            lt = "'a, " if t != 'Tensor' else ''
            la = ", L: Layout" if t != 'Tensor' else ''
            bo = " + 'a" if t != 'Tensor' else ''
            g = "fn f<%sT: %%s%s, S: Shape%s>() { %s::<%s>(); }" % (lt, bo, la, tr.lower(), ty)
            other = 'Send' if b == 'Sync' else 'Sync'
            out.append(Case('auto', 'not generic %s %s for elements that are only %s' % (t, tr, other), g % other, 'type', g % b))
    # variance
    V = lambda name, code: out.append(Case('var', 'variance/' + name, code))
    for t in ("View<'l, T, S, L>", "ViewMut<'l, T, S, L>"):
        V('shorten ' + t, "fn f<'l: 's, 's, T, S: Shape, L: Layout>(v: %s) -> %s { v }" % (t, t.replace("'l", "'s")))
        out.append(Case('var', 'variance/no lengthening ' + t, "fn f<'l: 's, 's, T, S: Shape, L: Layout>(v: %s) -> %s { v }" % (t.replace("'l", "'s"), t), 'borrow',
                        "fn f<'l: 's, 's, T, S: Shape, L: Layout>(v: %s) -> %s { v }" % (t, t)))
    for sh, la in itertools.product(('(usize, usize)', 'DynRank', '(Const<2>,)'), ('Dense', 'Strided')):
        V('view element %s %s' % (sh, la), "fn f<'a, 'l: 's, 's: 'a, T>(v: View<'a, &'l T, %s, %s>) -> View<'a, &'s T, %s, %s> { v }" % (sh, la, sh, la))
        out.append(Case('var', 'variance/view_mut element %s %s' % (sh, la), "fn f<'a, 'l: 's, 's: 'a, T>(v: ViewMut<'a, &'l T, %s, %s>) -> ViewMut<'a, &'s T, %s, %s> { v }" % (sh, la, sh, la), 'borrow',
                        "fn f<'a, 'l: 's + 'a, 's: 'a, T>(v: ViewMut<'a, &'l T, %s, %s>) -> ViewMut<'a, &'l T, %s, %s> { v }" % (sh, la, sh, la)))
        out.append(Case('var', 'variance/mut slice element %s %s' % (sh, la), "fn f<'a, 'l: 's, 's: 'a, T>(v: &'a mut Slice<&'l T, %s, %s>) -> &'a mut Slice<&'s T, %s, %s> { v }" % (sh, la, sh, la), 'borrow',
                        "fn f<'a, 'l: 's, 's: 'a, T>(v: &'a Slice<&'l T, %s, %s>) -> &'a Slice<&'s T, %s, %s> { v }" % (sh, la, sh, la)))
    V('tensor element', "fn f<'l: 's, 's, T>(v: Tensor<&'l T, (usize, usize)>) -> Tensor<&'s T, (usize, usize)> { v } fn g<'l: 's, 's, T>(v: Tensor<&'l T>) -> Tensor<&'s T> { v }")
    for t in ("Tensor<&'l T, (usize,)>", "Array<&'l T, (Const<2>,)>", "View<'static, &'l T, (usize,)>", "<Tensor<&'l T, (usize,)> as IntoExpression>::IntoExpr"):
        if 'View' in t:
            continue
        out.append(Case('var', 'variance/no lengthening of element ' + t, "fn f<'l: 's, 's, T>(v: %s) -> %s { v }" % (t.replace("'l", "'s"), t), 'borrow', "fn f<'l: 's, 's, T>(v: %s) -> %s { v }" % (t, t)))
    out.append(Case('var', 'variance/view no lengthening of element', "fn f<'a, 'l: 's, 's: 'a, T>(v: View<'a, &'s T, (usize,)>) -> View<'a, &'l T, (usize,)> where 'l: 'a { v }", 'borrow', "fn f<'a, 'l: 's, 's: 'a, T>(v: View<'a, &'l T, (usize,)>) -> View<'a, &'s T, (usize,)> { v }"))
    # drop check: owned containers own their elements
    pre = "pub struct Dr<'a>(&'a String); impl<'a> Drop for Dr<'a> { fn drop(&mut self) { us(self.0.len()); } } "
    for name, mk in [('tensor', "Tensor::from_elem([1usize], Dr(&s))"), ('array', 'Array::from([Dr(&s)])'), ('into_expr', 'Tensor::<_, (usize,)>::from([Dr(&s)]).into_expr()'), ('array into_expr', 'Array::from([Dr(&s)]).into_expr()'), ('into_iter', 'Array::from([Dr(&s)]).into_iter()')]:
        p = pre + ("impl<'a> Clone for Dr<'a> { fn clone(&self) -> Self { Dr(self.0) } } " if name == 'tensor' else '')
        out.append(Case('var', 'dropck/' + name, p + 'fn f() { let t; let s = String::new(); t = %s; }' % mk, 'borrow', p + 'fn f() { let s = String::new(); let t; t = %s; }' % mk))
    return out


# --- C05: borrows ------------------------------------------------------------------------------------------------------

MUT = ['at_mut(0)', 'axis_at_mut(Const::<1>, 0)', 'axis_at_mut(1usize, 0)', 'axis_expr_mut(Const::<1>)', 'axis_expr_mut(Rows)', 'col_mut(0)', 'cols_mut()', 'diag_mut(0)', 'expr_mut()',
       'flatten_mut()', 'iter_mut()', 'lanes_mut(Const::<0>)', 'lanes_mut(1usize)', 'outer_expr_mut()', 'permute_mut((Const::<1>, Const::<0>))', 'permute_mut([1usize, 0])', 'remap_mut::<DynRank, Strided>()',
       'reorder_mut()', 'reshape_mut([6usize])', 'row_mut(0)', 'rows_mut()', 'split_at_mut(1)', 'split_axis_at_mut(Const::<1>, 1)', 'view_mut(.., ..)', 'view_mut(0, ..)', 'view_mut(1.., step(.., 2))', 'view_mut(0, 0)']
SHR = ['at(0)', 'axis_at(Const::<1>, 0)', 'axis_at(1usize, 0)', 'axis_expr(Const::<1>)', 'axis_expr(Rows)', 'col(0)', 'cols()', 'diag(0)', 'expr()', 'flatten()', 'iter()', 'lanes(Const::<0>)', 'lanes(1usize)', 'outer_expr()',
       'permute((Const::<1>, Const::<0>))', 'permute([1usize, 0])', 'remap::<DynRank, Strided>()', 'reorder()', 'reshape([6usize])', 'row(0)', 'rows()', 'split_at(1)', 'split_axis_at(Const::<1>, 1)', 'view(.., ..)', 'view(0, ..)',
       'view(1.., step(.., 2))', 'view(0, 0)', 'mapping()', 'shape()']
MUTX = ['(&mut x).into_expr()', '(&mut x).into_iter()', '&mut x[[0, 0]]', '&mut x[0]', '&mut *x',
        '(&mut x).into_iter().next()', 'x.iter_mut().next()', 'x.axis_expr_mut(Const::<1>).into_iter().next()', 'x.lanes_mut(Const::<0>).into_iter().next()', 'x.rows_mut().into_iter().next()', 'x.cols_mut().into_iter().next()',
        'x.outer_expr_mut().into_iter().next()', 'x.view_mut(.., ..).into_view(0, ..)', 'x.expr_mut().into_flat()', 'x.expr_mut().into_at(0)', 'x.expr_mut().into_split_at(1)', 'x.expr_mut().into_reordered()', 'x.expr_mut().into_dyn()',
        'x.expr_mut().zip(expr::fill(1))', 'x.expr_mut().map(|p| p)', 'x.expr_mut().enumerate()', 'expr::map(&mut x, |p| p)', 'expr::zip(&mut x, expr::fill(1))', 'expr::enumerate(&mut x)']
SHRX = ['(&x).into_expr()', '(&x).into_iter()', '&x[[0, 0]]', '&x[0]', '&*x', '(&x).into_iter().next()', 'x.iter().next()', 'x.axis_expr(Const::<1>).into_iter().next()', 'x.lanes(Const::<0>).into_iter().next()', 'x.rows().into_iter().next()',
        'x.expr().cloned()', 'x.expr().copied()', 'x.expr().map(|p| *p)', 'x.expr().zip(expr::fill(1))', 'x.expr().enumerate()', 'x.view(.., ..).into_view(0, ..)', 'x.expr().into_flat()', 'x.expr().into_at(0)', 'x.expr().into_dyn()', 'expr::map(&x, |p| p)',
        '&x + expr::fill(1)', '-&x']
DMUT = ['&mut x[..]', '&mut x[1..2]', '&mut x[(Bound::Included(0), Bound::Unbounded)]']
DSHR = ['&x[..]', '&x[..=1]']
RECV = [
    ('array', 'fn f() { let mut x: A23 = Array::from([[1, 2, 3], [4, 5, 6]]); %s }', 'own', True),
    ('tensor', 'fn f() { let mut x: T2 = Tensor::from([[1, 2, 3], [4, 5, 6]]); %s }', 'own', True),
    ('slice', 'fn f<L: Layout>(mut x: &mut Slice<i32, (usize, usize), L>) { %s }', 'ref', False),
    ('view_mut', "fn f<L: Layout>(mut x: ViewMut<'_, i32, (usize, usize), L>) { %s }", 'own', False),
]


def c05():
    out = []
    B = lambda name, fn, bad, good: out.append(Case('borrow', name, fn % bad, 'borrow', fn % good))
    for rn, fn, how, dense in RECV:
        mut = ['x.' + m for m in MUT] + MUTX + (DMUT if dense else [])
        shr = ['x.' + m for m in SHR] + SHRX + (DSHR if dense else [])
        if rn == 'slice':
            fixs = lambda e: e.replace('(&mut x)', '(&mut *x)').replace('&mut x,', '&mut *x,').replace('(&x)', '(&*x)').replace('&x,', '&*x,').replace('(&x,', '(&*x,').replace('expr::enumerate(&mut x)', 'expr::enumerate(&mut *x)').replace('&x +', '&*x +').replace('-&x', '-&*x')
            mut, shr = [fixs(e) for e in mut], [fixs(e) for e in shr]
        if rn == 'tensor':
            mut += ['x.drain(0..1)', 'x.drain(..).into_iter()', 'x.spare_capacity_mut()', 'BorrowMut::<Slice<i32, (usize, usize)>>::borrow_mut(&mut x)', "ViewMut::<i32, (usize, usize)>::from(&mut x)", 'AsMut::<Slice<i32, (usize, usize)>>::as_mut(&mut x)']
            shr += ['Borrow::<Slice<i32, (usize, usize)>>::borrow(&x)', "View::<i32, (usize, usize)>::from(&x)", 'AsRef::<Slice<i32, (usize, usize)>>::as_ref(&x)']
        if rn == 'array':
            mut += ['AsMut::<[[i32; 3]; 2]>::as_mut(&mut x)', 'BorrowMut::<Slice<i32, (Const<2>, Const<3>)>>::borrow_mut(&mut x)']
            shr += ['AsRef::<[[i32; 3]; 2]>::as_ref(&x)', 'Borrow::<Slice<i32, (Const<2>, Const<3>)>>::borrow(&x)']
        for e in mut:
            B('two mutable/%s/%s' % (rn, e), fn, 'let a = %s; let b = %s; us(a); us(b);' % (e, e), '{ let a = %s; us(a); } { let b = %s; us(b); }' % (e, e))
            B('mutable and read/%s/%s' % (rn, e), fn, 'let a = %s; us(x.dim(0)); us(a);' % e, '{ let a = %s; us(a); } us(x.dim(0));' % e)
            B('mutable and write/%s/%s' % (rn, e), fn, 'let a = %s; x.fill(0); us(a);' % e, '{ let a = %s; us(a); } x.fill(0);' % e)
        for e in shr:
            B('shared and write/%s/%s' % (rn, e), fn, 'let a = %s; x.fill(0); us(a);' % e, '{ let a = %s; us(a); } x.fill(0);' % e)
            out.append(Case('borrow', 'two shared/%s/%s' % (rn, e), fn % ('let a = %s; let b = %s; us(x.dim(0)); us(a); us(b);' % (e, e))))
        if how == 'own':
            for e in mut + shr:
                if rn == 'view_mut':
                    B('outlives/%s/%s' % (rn, e), fn, 'let a = %s; drop(x); us(a);' % e, '{ let a = %s; us(a); } drop(x);' % e)
                else:
                    ty, cons = ('A23', 'Array') if rn == 'array' else ('T2', 'Tensor')
                    mk = 'let mut x: %s = %s::from([[1, 2, 3], [4, 5, 6]]);' % (ty, cons)
                    B('outlives/%s/%s' % (rn, e), 'fn f() { %s }', 'let a; { %s a = %s; } us(a);' % (mk, e), '%s let a; a = %s; us(a);' % (mk, e))
    # tensors may not change size while borrowed
    for op in ['x.truncate(0)', 'x.clear()', 'x.reserve(9)', 'x.shrink_to_fit()', 'x.resize(&[0, 0], 1)', 'x.append(&mut T2::new())', 'x.expand(&T2::new())', 'us(x.into_vec())', 'us(x.into_dyn())', 'drop(x)']:
        for e in ['x.iter()', 'x.iter_mut()', 'x.view(.., ..)', 'x.row(0)', '&x[0]', '&x[..]', 'x.drain(..)', 'x.axis_expr(Const::<1>)', 'x.lanes_mut(Rows)', 'x.iter().next()', 'x.rows().into_iter().next()']:
            fn = RECV[1][1]
            B('size change/%s/%s' % (op, e), fn, 'let a = %s; %s; us(a);' % (e, op), '{ let a = %s; us(a); } %s;' % (e, op))
    # parts of a mutable split and successive items live together, items outlive the iterator
    for rn, fn, how, dense in RECV:
        x = '(&mut *x)' if rn == 'slice' else '(&mut x)'
        for e in ['x.iter_mut()', 'x.axis_expr_mut(Const::<1>).into_iter()', 'x.lanes_mut(Const::<0>).into_iter()', 'x.rows_mut().into_iter()', 'x.cols_mut().into_iter()', 'x.outer_expr_mut().into_iter()', x + '.into_iter()', 'x.expr_mut().zip(expr::fill(1)).into_iter()', 'x.expr_mut().enumerate().into_iter()']:
            out.append(Case('borrow', 'items/%s/%s' % (rn, e), fn % ('let (a, b) = { let mut i = %s; (i.next(), i.next()) }; us(a); us(b);' % e)))
        out.append(Case('borrow', 'split/%s' % rn, fn % 'let (mut a, mut b) = x.split_at_mut(1); a.fill(0); b.fill(1); a.fill(2);'))
        out.append(Case('borrow', 'split axis/%s' % rn, fn % 'let (mut a, mut b) = x.split_axis_at_mut(Const::<1>, 1); a.fill(0); b.fill(1); a.fill(2);'))
    # mutable and owning accessors are not duplicable
    NC = [("ViewMut<'static, i32, (usize, usize)>", "View<'static, i32, (usize, usize)>"), ("AxisExprMut<'static, i32, (usize, usize), Dense, Const<0>>", "AxisExpr<'static, i32, (usize, usize), Dense, Const<0>>"),
          ("LanesMut<'static, i32, (usize, usize), Dense, Rows>", "Lanes<'static, i32, (usize, usize), Dense, Rows>"), ("Iter<ViewMut<'static, i32, (usize, usize)>>", "Iter<View<'static, i32, (usize, usize)>>"),
          ("IntoExpr<Drain<'static, i32, (usize,)>>", "<Tensor<i32, (usize,)> as IntoExpression>::IntoExpr"), ("Zip<ViewMut<'static, i32, (usize,)>, View<'static, i32, (usize,)>>", "Zip<View<'static, i32, (usize,)>, View<'static, i32, (usize,)>>"),
          ("Zip<View<'static, i32, (usize,)>, ViewMut<'static, i32, (usize,)>>", "Zip<View<'static, i32, (usize,)>, View<'static, i32, (usize,)>>"),
          ("Map<ViewMut<'static, i32, (usize,)>, fn(&'static mut i32)>", "Map<View<'static, i32, (usize,)>, fn(&'static i32)>"), ("Enumerate<ViewMut<'static, i32, (usize,)>>", "Enumerate<View<'static, i32, (usize,)>>"),
          ("Iter<LanesMut<'static, i32, (usize, usize), Dense, Rows>>", "Lanes<'static, i32, (usize, usize), Dense, Rows>")]
    for a, b in NC:
        if a.startswith('Iter<ViewMut'):
            b = "View<'static, i32, (usize, usize)>"
        out.append(Case('clone', 'not clone/%s' % a, 'fn f() { clone::<%s>(); }' % a, 'type', 'fn f() { clone::<%s>(); }' % b))
    out.append(Case('clone', 'tensor of non-clone', 'fn f() { clone::<Tensor<Nor>>(); }', 'type', 'fn f() { clone::<Tensor<u8>>(); }'))
    out.append(Case('clone', 'array of non-clone', 'fn f() { clone::<Array<Nor, (Const<2>,)>>(); }', 'type', 'fn f() { clone::<Array<u8, (Const<2>,)>>(); }'))
    out.append(Case('clone', 'into_expr of non-clone', 'fn f() { clone::<<Tensor<Nor> as IntoExpression>::IntoExpr>(); }', 'type', 'fn f() { clone::<<Tensor<u8> as IntoExpression>::IntoExpr>(); }'))
    out.append(Case('clone', 'array of non-copy', 'fn f() { copy::<Array<String, (Const<2>,)>>(); }', 'type', 'fn f() { copy::<Array<u8, (Const<2>,)>>(); }'))
    out.append(Case('clone', 'tensor is not copy', 'fn f() { copy::<Tensor<u8, (Const<2>,)>>(); }', 'type', 'fn f() { clone::<Tensor<u8, (Const<2>,)>>(); }'))
    # repeatable expressions: only those that yield shared or freshly made items
    REP = [("View<'static, i32, (usize,)>", True), ("ViewMut<'static, i32, (usize,)>", False), ("View<'static, i32, DynRank, Strided>", True), ("ViewMut<'static, i32, DynRank, Strided>", False),
           ("AxisExpr<'static, i32, (usize, usize), Dense, Const<0>>", True), ("AxisExprMut<'static, i32, (usize, usize), Dense, Const<0>>", False), ("Lanes<'static, i32, (usize, usize), Dense, Rows>", True),
           ("LanesMut<'static, i32, (usize, usize), Dense, Rows>", False), ("<Tensor<i32, (usize,)> as IntoExpression>::IntoExpr", False), ("<Array<i32, (Const<2>,)> as IntoExpression>::IntoExpr", False), ("IntoExpr<Drain<'static, i32, (usize,)>>", False),
           ("Fill<i32>", True), ("FillWith<fn() -> i32>", True), ("FromElem<i32, (usize,)>", True), ("FromFn<(usize,), fn(&[usize]) -> i32>", True)]
    for t, r in REP:
        no = '' if r else '!'
        out.append(Case('rep', 'repeatable/%s' % t, 'const _: () = assert!(%s<%s as Expression>::IS_REPEATABLE);' % (no, t)))
        out.append(Case('rep', 'repeatable/Map %s' % t, "const _: () = assert!(%s<Map<%s, fn(<%s as IntoIterator>::Item) -> u8> as Expression>::IS_REPEATABLE);" % (no, t, t)))
        out.append(Case('rep', 'repeatable/Enumerate %s' % t, "const _: () = assert!(%s<Enumerate<%s> as Expression>::IS_REPEATABLE);" % (no, t)))
        for u, q in REP:
            both = '' if r and q else '!'
            out.append(Case('rep', 'repeatable/Zip %s, %s' % (t, u), "const _: () = assert!(%s<Zip<%s, %s> as Expression>::IS_REPEATABLE);" % (both, t, u)))
    out.append(Case('rep', 'repeatable/Cloned', "const _: () = assert!(<Cloned<View<'static, i32, (usize,)>> as Expression>::IS_REPEATABLE && <Copied<View<'static, i32, (usize,)>> as Expression>::IS_REPEATABLE);"))
    return out


# --- operations that bypass the checks need unsafe ---------------------------------------------------------------------

def c02():
    out = []
    UNSAFE = [
        ('get_unchecked', 'fn f(a: &T2) { us(%s); }', 'a.get_unchecked([9, 9])'), ('get_unchecked linear', 'fn f(a: &T2) { us(%s); }', 'a.get_unchecked(99)'), ('get_unchecked range', 'fn f(a: &T2) { us(%s); }', 'a.get_unchecked(5..99)'),
        ('get_unchecked_mut', 'fn f(mut a: A23) { us(%s); }', 'a.get_unchecked_mut([9, 9])'),
        ('view new_unchecked', 'fn f<S: Shape>(p: *const u8, m: DenseMapping<S>) { us::<View<u8, S>>(%s); }', 'View::new_unchecked(p, m)'), ('view_mut new_unchecked', 'fn f<S: Shape>(p: *mut u8, m: DenseMapping<S>) { us::<ViewMut<u8, S>>(%s); }', 'ViewMut::new_unchecked(p, m)'),
        ('from_raw_parts', 'fn f<S: Shape>(p: *mut u8, m: DenseMapping<S>) { us::<Tensor<u8, S>>(%s); }', 'Tensor::from_raw_parts(p, m, 1)'),
        ('set_mapping', 'fn f<S: Shape>(mut t: Tensor<u8, S>, m: DenseMapping<S>) { %s }', 't.set_mapping(m);'),
        ('expression get_unchecked', "fn f<E: Expression>(mut e: E) { us(%s); }", 'e.get_unchecked(7)'), ('expression step_dim', "fn f<E: Expression>(mut e: E) { us(%s); }", 'e.step_dim(0)'), ('expression reset_dim', "fn f<E: Expression>(mut e: E) { us(%s); }", 'e.reset_dim(0, 9)'),
    ]
    for n, fn, c in UNSAFE:
        out.append(Case('unsafe', 'needs unsafe/' + n, fn % c, 'type', fn % ('unsafe { %s }' % c)))
    return out


SETS = {'C12': c12, 'C18': c18, 'C05': c05, 'C02': c02}


def collect(which):
    out = []
    for w in which:
        out += SETS[w]()
    return out
