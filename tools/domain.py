"""Abstract domain of the residual analysis.

Integer and pointer values are polynomials modulo 2^w over hash-consed atoms (value numbering).
A set of facts (the branch conditions that hold at a program point) is closed under
  * equality substitution,
  * a linear-inequality domain over monomials (Fourier-Motzkin with integer tightening),
  * case distinction on select / min / max / saturating-subtraction atoms.
`infeasible(facts)` is true only if no assignment satisfies all facts, so a program point whose facts
are infeasible is unreachable.  Everything the domain does not understand becomes an opaque atom.
"""
import time
from functools import lru_cache
from math import gcd

# ---------------------------------------------------------------- atoms
ATOMS = []  # id -> (key, lo, hi)
ATOM_IX = {}


def atom(key, lo, hi):
    i = ATOM_IX.get(key)
    if i is None:
        i = len(ATOMS)
        ATOM_IX[key] = i
        ATOMS.append((key, lo, hi))
    return i


# ---------------------------------------------------------------- polynomials: tuple of (mono, coef)
def norm(d, w):
    m = 1 << w
    out = []
    for k in sorted(d):
        c = d[k] % m
        if c:
            if c >= m >> 1:
                c -= m
            out.append((k, c))
    return tuple(out)


ZERO = ()


def const(c, w):
    return norm({(): c}, w)


def var(i, w):
    return norm({(i,): 1}, w)


def is_const(p):
    return not p or (len(p) == 1 and p[0][0] == ())


def cval(p):
    return p[0][1] if p else 0


def padd(a, b, w, s=1):
    d = dict(a)
    for k, c in b:
        d[k] = d.get(k, 0) + s * c
    return norm(d, w)


def psub(a, b, w):
    return padd(a, b, w, -1)


def pmul(a, b, w):
    d = {}
    for k, c in a:
        for l, e in b:
            m = tuple(sorted(k + l))
            d[m] = d.get(m, 0) + c * e
    return norm(d, w)


def pscale(a, c, w):
    return norm({k: v * c for k, v in a}, w)


def atoms_of(p):
    s = set()
    for k, _ in p:
        s.update(k)
    return s


def irange(p):
    """Integer range of the centred form, from atom ranges only."""
    lo = hi = 0
    for k, c in p:
        l = h = 1
        for a in k:
            _, al, ah = ATOMS[a]
            v = (l * al, l * ah, h * al, h * ah)
            l, h = min(v), max(v)
        if c >= 0:
            lo, hi = lo + c * l, hi + c * h
        else:
            lo, hi = lo + c * h, hi + c * l
    return lo, hi


# ---------------------------------------------------------------- constructors
def low(p, w, k):
    """Value of the k low bits of p (a poly modulo 2^w, w >= k)."""
    q = norm(dict(p), k)
    l, h = irange(q)
    if l >= 0 and h < 1 << k:
        return q
    if is_const(q):
        return const(cval(q) % (1 << k), w)
    # unsigned representation of coefficients does not matter modulo 2^k
    return var(atom(('low', q, k), 0, (1 << k) - 1), w)


def zext(p, w, w2):
    l, h = irange(p)
    if l >= 0 and h < 1 << w:
        return norm(dict(p), w2)
    if is_const(p):
        return const(cval(p) % (1 << w), w2)
    return var(atom(('low', p, w), 0, (1 << w) - 1), w2)


def sext(p, w, w2):
    l, h = irange(p)
    if l >= -(1 << (w - 1)) and h < 1 << (w - 1):
        return norm(dict(p), w2)
    return var(atom(('sext', p, w), -(1 << (w - 1)), (1 << (w - 1)) - 1), w2)


def udiv(a, b, w):
    if is_const(b):
        c = cval(b) % (1 << w)
        if c == 0:
            return var(atom(('udiv', a, b, w), 0, (1 << w) - 1), w)
        if is_const(a):
            return const((cval(a) % (1 << w)) // c, w)
        if c == 1:
            return a
        l, h = irange(a)
        if l >= 0 and h < 1 << w and all(x % c == 0 for _, x in a):
            return norm({k: x // c for k, x in a}, w)
        return var(atom(('udiv', a, b, w), 0, ((1 << w) - 1) // c), w)
    if a == ZERO:
        return ZERO
    return var(atom(('udiv', a, b, w), 0, (1 << w) - 1), w)


def urem(a, b, w):
    if is_const(b):
        c = cval(b) % (1 << w)
        if c:
            if c & (c - 1) == 0:
                return low(a, w, c.bit_length() - 1)
            if is_const(a):
                return const((cval(a) % (1 << w)) % c, w)
            return var(atom(('urem', a, b, w), 0, c - 1), w)
    if a == ZERO:
        return ZERO
    return var(atom(('urem', a, b, w), 0, (1 << w) - 1), w)


def binop_atom(kind, a, b, w):
    if is_const(a) and is_const(b):
        M = 1 << w
        x, y = cval(a) % M, cval(b) % M
        sx, sy = (x - M if x >= M >> 1 else x), (y - M if y >= M >> 1 else y)
        r = {'usubsat': max(0, x - y), 'umin': min(x, y), 'umax': max(x, y), 'smin': min(sx, sy),
             'smax': max(sx, sy), 'xor': x ^ y, 'and': x & y, 'or': x | y,
             'uaddsat': min(M - 1, x + y)}[kind]
        return const(r, w)
    if kind in ('umin', 'umax', 'smin', 'smax', 'xor', 'and', 'or'):
        if a == b:
            return ZERO if kind == 'xor' else a
        if b < a:
            a, b = b, a
    if kind == 'usubsat':
        if a == b or a == ZERO:
            return ZERO
        if b == ZERO:
            return a
    if kind in ('xor', 'or') and ZERO in (a, b):
        return a or b
    if kind in ('and', 'umin') and ZERO in (a, b):
        return ZERO
    hi = (1 << w) - 1
    if kind in ('umin', 'and'):
        for p in (a, b):
            l, h = irange(p)
            if l >= 0 and h < 1 << w:
                hi = min(hi, h)
    if kind == 'usubsat':
        l, h = irange(a)
        if l >= 0 and h < 1 << w:
            hi = h
    if kind in ('smin', 'smax'):
        # value as an unsigned residue; not given a tighter range
        la, ha = irange(a)
        lb, hb = irange(b)
        if kind == 'smax' and (la >= 0 and ha < 1 << (w - 1) or lb >= 0 and hb < 1 << (w - 1)):
            return var(atom((kind, a, b, w), 0, (1 << (w - 1)) - 1), w)
    return var(atom((kind, a, b, w), 0, hi), w)


def absval(a, w):
    l, h = irange(a)
    if l >= 0 and h < 1 << (w - 1):
        return a
    if is_const(a):
        return const(abs(cval(a)), w)
    return var(atom(('abs', a, w), 0, 1 << (w - 1)), w)


def select(f, a, b, w):
    if f == TRUE or a == b:
        return a
    if f == FALSE:
        return b
    la, ha = irange(a)
    lb, hb = irange(b)
    if min(la, lb) >= 0 and max(ha, hb) < 1 << w:
        return var(atom(('sel', f, a, b, w), min(la, lb), max(ha, hb)), w)
    return var(atom(('sel', f, a, b, w), 0, (1 << w) - 1), w)


# ---------------------------------------------------------------- formulas
TRUE = ('t',)
FALSE = ('f',)


def fnot(f):
    k = f[0]
    if k == 't':
        return FALSE
    if k == 'f':
        return TRUE
    if k == 'eq':
        return ('ne',) + f[1:]
    if k == 'ne':
        return ('eq',) + f[1:]
    if k == 'ult':
        return ('ule', f[1], f[3], f[2])
    if k == 'ule':
        return ('ult', f[1], f[3], f[2])
    if k == 'slt':
        return ('sle', f[1], f[3], f[2])
    if k == 'sle':
        return ('slt', f[1], f[3], f[2])
    if k == 'b':
        return ('nb', f[1])
    if k == 'nb':
        return ('b', f[1])
    if k == 'and':
        return for_(fnot(f[1]), fnot(f[2]))
    if k == 'or':
        return fand(fnot(f[1]), fnot(f[2]))
    raise AssertionError(f)


def fand(f, g):
    if f == FALSE or g == FALSE:
        return FALSE
    if f == TRUE or f == g:
        return g
    if g == TRUE:
        return f
    return ('and', f, g)


def for_(f, g):
    if f == TRUE or g == TRUE:
        return TRUE
    if f == FALSE or f == g:
        return g
    if g == FALSE:
        return f
    return ('or', f, g)


def single(p):
    """The atom of a poly that is exactly one atom."""
    if len(p) == 1 and p[0][1] == 1 and len(p[0][0]) == 1:
        return p[0][0][0]
    return None


def eq0(w, p):
    """p == 0 modulo 2^w."""
    p = norm(dict(p), w)
    if not p:
        return TRUE
    if is_const(p):
        return FALSE
    # divide by a common power of two
    g = 0
    for _, c in p:
        g = gcd(g, c)
    t = (g & -g).bit_length() - 1
    if t:
        w -= t
        p = norm({k: c >> t for k, c in p}, w)
        if is_const(p):
            return TRUE if not p else FALSE
    # only one polynomial sign
    if p[-1][1] < 0:
        p = norm({k: -c for k, c in p}, w)
    a = single(p)
    if a is not None:
        key = ATOMS[a][0]
        if key[0] == 'low' and key[2] <= w:
            return eq0(key[2], key[1])
        if key[0] == 'xor':
            k = min(w, key[3])
            return eq0(k, psub(key[1], key[2], k))
        if key[0] == 'or':
            k = min(w, key[3])
            return fand(eq0(k, key[1]), eq0(k, key[2]))
        if key[0] == 'sel' and key[4] == w:
            return for_(fand(key[1], eq0(w, key[2])), fand(fnot(key[1]), eq0(w, key[3])))
    # sel - const / sel with constant arms
    if len(p) == 2 and p[0][0] == () and len(p[1][0]) == 1 and p[1][1] == 1:
        key = ATOMS[p[1][0][0]][0]
        if key[0] == 'sel' and key[4] == w and (is_const(key[2]) or is_const(key[3])):
            c = const(p[0][1], w)
            return for_(fand(key[1], eq0(w, padd(key[2], c, w))), fand(fnot(key[1]), eq0(w, padd(key[3], c, w))))
    # the halves of a double word
    if w > 64:
        hi = {k: c >> 64 for k, c in p if c & (1 << 64) - 1 == 0}
        rest = {k: c for k, c in p if c & (1 << 64) - 1}
        if hi and rest:
            lo = norm(rest, w)
            l, h = irange(lo)
            if l > -(1 << 64) and h < 1 << 64:
                return fand(eq0(64, norm(rest, 64)), eq0(w - 64, norm(hi, w - 64)))
    l, h = irange(p)
    if l > 0 and h < 1 << w or h < 0 and l > -(1 << w):
        return FALSE
    # a common factor of a polynomial which cannot wrap
    if len(p) == 2 and l > -(1 << w) and h < 1 << w and p[0][0]:
        for a in p[0][0]:
            if a in p[1][0]:
                q = {}
                for k, c in p:
                    k = list(k)
                    k.remove(a)
                    q[tuple(k)] = c
                return for_(eq0(w, var(a, w)), eq0(w, norm(q, w)))
    return ('eq', w, p)


def cmp_(pred, w, a, b):
    if pred == 'eq':
        return eq0(w, psub(a, b, w))
    if pred == 'ne':
        return fnot(eq0(w, psub(a, b, w)))
    if pred in ('ugt', 'uge', 'sgt', 'sge'):
        return cmp_({'g': 'l'}.get(pred[1], '') and pred[0] + 'l' + pred[2], w, b, a)
    if a == b:
        return TRUE if pred.endswith('e') else FALSE
    M = 1 << w
    if is_const(a) and is_const(b):
        x, y = cval(a), cval(b)
        if pred[0] == 'u':
            x, y = x % M, y % M
        return TRUE if (x <= y if pred[2] == 'e' else x < y) else FALSE
    if pred == 'ult' and b == ZERO:
        return FALSE
    if pred == 'ule' and a == ZERO:
        return TRUE
    if pred == 'ult' and is_const(b) and cval(b) == 1:
        return eq0(w, a)
    if pred == 'ule' and b == ZERO:
        return eq0(w, a)
    if pred == 'ult' and a == ZERO:
        return fnot(eq0(w, b))
    la, ha = irange(a)
    lb, hb = irange(b)
    if pred[0] == 'u':
        if la >= 0 and ha < M and lb >= 0 and hb < M:
            if (ha <= lb if pred[2] == 'e' else ha < lb):
                return TRUE
            if (la > hb if pred[2] == 'e' else la >= hb):
                return FALSE
    else:
        H = M >> 1
        if la >= -H and ha < H and lb >= -H and hb < H:
            if (ha <= lb if pred[2] == 'e' else ha < lb):
                return TRUE
            if (la > hb if pred[2] == 'e' else la >= hb):
                return FALSE
    return (pred, w, a, b)


def bool_atom(key):
    return ('b', key)


# ---------------------------------------------------------------- substitution
def fpolys(f):
    k = f[0]
    if k in ('eq', 'ne'):
        return [f[2]]
    if k in ('ult', 'ule', 'slt', 'sle'):
        return [f[2], f[3]]
    if k in ('and', 'or'):
        return fpolys(f[1]) + fpolys(f[2])
    return []


def closure_atoms(polys):
    """All atoms occurring, also inside compound atoms."""
    seen, work = set(), list(polys)
    while work:
        p = work.pop()
        for a in atoms_of(p):
            if a not in seen:
                seen.add(a)
                for x in ATOMS[a][0][1:]:
                    if isinstance(x, tuple):
                        if x and isinstance(x[0], str):
                            work.extend(fpolys(x))
                        elif ATOMS[a][0][0] not in ('in',):
                            work.append(x)
    return seen


KINDW = {'low': None}


def rebuild(a, w, sub, cache):
    """Poly (mod 2^w) of atom a with `sub` applied inside."""
    if (a, w) in cache:
        return cache[(a, w)]
    s = sub(a)
    if s is not None:
        pw, p = s
        if pw >= w:
            r = norm(dict(p), w)
            cache[(a, w)] = r
            return r
    key = ATOMS[a][0]
    k = key[0]
    S = lambda p, ww: subst(p, ww, sub, cache)
    if k == 'low':
        q = S(key[1], key[2])
        r = zext(q, key[2], w) if q != key[1] else var(a, w)
    elif k == 'sext':
        q = S(key[1], key[2])
        r = sext(q, key[2], w) if q != key[1] else var(a, w)
    elif k in ('udiv', 'urem'):
        x, y = S(key[1], key[3]), S(key[2], key[3])
        if (x, y) == key[1:3]:
            r = var(a, w)
        else:
            r = norm(dict((udiv if k == 'udiv' else urem)(x, y, key[3])), w) if key[3] >= w else zext(
                (udiv if k == 'udiv' else urem)(x, y, key[3]), key[3], w)
    elif k in ('usubsat', 'umin', 'umax', 'smin', 'smax', 'xor', 'and', 'or', 'uaddsat'):
        x, y = S(key[1], key[3]), S(key[2], key[3])
        if (x, y) == key[1:3]:
            r = var(a, w)
        else:
            q = binop_atom(k, x, y, key[3])
            r = norm(dict(q), w) if key[3] >= w else zext(q, key[3], w)
    elif k == 'abs':
        x = S(key[1], key[2])
        if x == key[1]:
            r = var(a, w)
        else:
            q = absval(x, key[2])
            r = norm(dict(q), w) if key[2] >= w else zext(q, key[2], w)
    elif k == 'sel':
        f = fsubst(key[1], sub, cache)
        x, y = S(key[2], key[4]), S(key[3], key[4])
        if (f, x, y) == key[1:4]:
            r = var(a, w)
        else:
            q = select(f, x, y, key[4])
            r = norm(dict(q), w) if key[4] >= w else zext(q, key[4], w)
    else:
        r = var(a, w)
    cache[(a, w)] = r
    return r


def subst(p, w, sub, cache):
    out = ZERO
    changed = False
    for k, c in p:
        t = const(c, w)
        for a in k:
            r = rebuild(a, w, sub, cache)
            t = pmul(t, r, w)
        out = padd(out, t, w)
    return out


def fsubst(f, sub, cache):
    k = f[0]
    if k in ('t', 'f'):
        return f
    if k in ('eq', 'ne'):
        r = eq0(f[1], subst(f[2], f[1], sub, cache))
        return r if k == 'eq' else fnot(r)
    if k in ('ult', 'ule', 'slt', 'sle'):
        return cmp_(k, f[1], subst(f[2], f[1], sub, cache), subst(f[3], f[1], sub, cache))
    if k == 'and':
        return fand(fsubst(f[1], sub, cache), fsubst(f[2], sub, cache))
    if k == 'or':
        return for_(fsubst(f[1], sub, cache), fsubst(f[2], sub, cache))
    if k in ('b', 'nb'):
        return f
    raise AssertionError(f)


# ---------------------------------------------------------------- linear inequalities
class Lin:
    """Conjunction of  sum c_m * m + c0 >= 0  over monomials m (integers)."""

    def __init__(self):
        self.cs = {}  # lhs tuple -> smallest const (tightest)

    @staticmethod
    def tighten(d, c):
        g = 0
        for v in d.values():
            g = gcd(g, v)
        if g > 1:
            d = {k: v // g for k, v in d.items()}
            c = c // g
        return d, c

    def add(self, d, c):
        d = {k: v for k, v in d.items() if v}
        if not d:
            if c < 0:
                self.cs[()] = -1
            return
        d, c = self.tighten(d, c)
        key = tuple(sorted(d.items()))
        o = self.cs.get(key)
        if o is None or c < o:
            self.cs[key] = c

    def add_poly(self, p):
        d = dict(p)
        c = d.pop((), 0)
        self.add(d, c)

    def copy(self):
        n = Lin()
        n.cs = dict(self.cs)
        return n


def fm_infeasible(cs, limit=600):
    """cs: list of (dict, const). Fourier-Motzkin."""
    cur = {}
    for d, c in cs:
        if not d:
            if c < 0:
                return True
            continue
        key = tuple(sorted(d.items()))
        if key not in cur or c < cur[key]:
            cur[key] = c
    while cur:
        pos, neg = {}, {}
        for key, c in cur.items():
            for v, k in key:
                (pos if k > 0 else neg).setdefault(v, []).append(key)
        best, bv = None, None
        for v in set(pos) | set(neg):
            n = len(pos.get(v, ())) * len(neg.get(v, ()))
            r = n - len(pos.get(v, ())) - len(neg.get(v, ()))
            if best is None or r < best:
                best, bv = r, v
        v = bv
        P, N = pos.get(v, []), neg.get(v, [])
        if len(P) * len(N) + len(cur) > limit:
            return False
        nxt = {k: c for k, c in cur.items() if k not in set(P) and k not in set(N)}
        for p in P:
            dp = dict(p)
            cp = cur[p]
            for n in N:
                dn = dict(n)
                a, b = -dn[v], dp[v]
                g = gcd(a, b)
                a, b = a // g, b // g
                d = {}
                for k, x in dp.items():
                    d[k] = d.get(k, 0) + a * x
                for k, x in dn.items():
                    d[k] = d.get(k, 0) + b * x
                c = a * cp + b * cur[n]
                d = {k: x for k, x in d.items() if x}
                if not d:
                    if c < 0:
                        return True
                    continue
                d, c = Lin.tighten(d, c)
                key = tuple(sorted(d.items()))
                if key not in nxt or c < nxt[key]:
                    nxt[key] = c
        cur = nxt
    return False


def mono_range(k):
    l = h = 1
    for a in k:
        _, al, ah = ATOMS[a]
        v = (l * al, l * ah, h * al, h * ah)
        l, h = min(v), max(v)
    return l, h


class System:
    """Linear facts plus on-demand ranges and products."""

    def __init__(self):
        self.base = Lin()
        self.bd, self.bdn = None, -1

    def add(self, p):
        """Assert integer polynomial p >= 0."""
        self.base.add_poly(p)

    def bounds(self, lin):
        """Interval propagation over the degree-one constraints."""
        bd = {}
        cs = [(key, c) for key, c in lin.cs.items() if key and all(len(k) == 1 for k, _ in key) and len(key) <= 4]
        for _ in range(4):
            ch = False
            for key, c in cs:
                mx = []
                for (a,), k in key:
                    lo, hi = bd.get(a) or ATOMS[a][1:]
                    mx.append(k * hi if k > 0 else k * lo)
                tot = sum(mx) + c
                for ((a,), k), m in zip(key, mx):
                    rest = tot - m  # k*x >= -rest
                    lo, hi = bd.get(a) or ATOMS[a][1:]
                    if k > 0:
                        v = -((rest) // k)
                        if v > lo:
                            bd[a] = (v, hi)
                            ch = True
                    else:
                        v = rest // (-k)
                        if v < hi:
                            bd[a] = (lo, v)
                            ch = True
            if not ch:
                break
        return bd

    def constraints(self, extra=(), level=2):
        """Slice of the constraints relevant for the variables in `extra` (all if empty)."""
        lin = self.base.copy()
        for e in extra:
            lin.add_poly(e)
        monos = set()
        for key in lin.cs:
            for k, _ in key:
                monos.add(k)
        # ranges and products
        linear = []
        singles = set()
        for k in monos:
            for a in k:
                singles.add(a)
        for a in singles:
            _, l, h = ATOMS[a]
            lin.add({(a,): 1}, -l)
            lin.add({(a,): -1}, h)
        big = [k for k in monos if len(k) > 1]
        if big:
            monos |= {(a,) for a in singles}
            bd = self.bounds(lin)
            for k in big:
                l = h = 1
                for a in k:
                    al, ah = bd.get(a) or ATOMS[a][1:]
                    v = (l * al, l * ah, h * al, h * ah)
                    l, h = min(v), max(v)
                lin.add({k: 1}, -l)
                lin.add({k: -1}, h)
            # products of a degree-one fact and a nonnegative monomial, towards the monomials in use
            facts = [(key, c) for key, c in lin.cs.items() if 1 < len(key) <= 4 and abs(c) < 1 << 40 and
                     all(len(k) == 1 for k, _ in key)]
            if level > 1:
              facts += [(key, c) for key, c in lin.cs.items() if len(key) == 1 and len(key[0][0]) == 1 and
                      key[0][1] == 1 and c < 0 and abs(c) < 1 << 40]
            for a, (l, h) in bd.items() if level > 1 else ():
                if h < 1 << 40 and (((a,), -1),) in lin.cs:
                    facts.append(((((a,), -1),), h))
            todo, seen, n = list(big) if level else [], set(big), 0
            while todo and n < 200:
                M = todo.pop(0)
                for key, c in facts:
                    for (x,), _ in key:
                        if x not in M:
                            continue
                        g = list(M)
                        g.remove(x)
                        g = tuple(g)
                        if (key, g) in seen or any(ATOMS[y][1] < 0 for y in g):
                            continue
                        seen.add((key, g))
                        nd = {}
                        for k, v in key:
                            m = tuple(sorted(k + g))
                            nd[m] = nd.get(m, 0) + v
                        if c:
                            nd[g] = nd.get(g, 0) + c
                        lin.add(nd, 0)
                        n += 1
                        for m in nd:
                            if len(m) > 1 and m not in seen:
                                seen.add(m)
                                todo.append(m)
                                l = h = 1
                                for y in m:
                                    al, ah = bd.get(y) or ATOMS[y][1:]
                                    v = (l * al, l * ah, h * al, h * ah)
                                    l, h = min(v), max(v)
                                lin.add({m: 1}, -l)
                                lin.add({m: -1}, h)
        return lin

    def infeasible(self, extra=()):
        if spent():
            raise Budget()
        for level in (0, 1, 2):
            lin = self.constraints(extra, level)
            if () in lin.cs:
                return True
            cs = [(dict(k), c) for k, c in lin.cs.items()]
            # connected components
            if any(fm_infeasible(comp) for comp in components(cs)):
                return True
            if not any(len(k) > 1 for key in lin.cs for k, _ in key):
                break
        return False

    def proves(self, p):
        """Facts imply p >= 0 (integers)?"""
        if is_const(p):
            return cval(p) >= 0
        l, _ = irange(p)
        if l >= 0:
            return True
        if self.bd is None or self.bdn != len(self.base.cs):
            lin = self.base.copy()
            for key in self.base.cs:
                for k, _ in key:
                    for a in k:
                        lin.add({(a,): 1}, -ATOMS[a][1])
                        lin.add({(a,): -1}, ATOMS[a][2])
            self.bd, self.bdn = self.bounds(lin), len(self.base.cs)
        lo = 0
        for k, c in p:
            l = h = 1
            for a in k:
                al, ah = self.bd.get(a) or ATOMS[a][1:]
                v = (l * al, l * ah, h * al, h * ah)
                l, h = min(v), max(v)
            lo += c * l if c >= 0 else c * h
        if lo >= 0:
            return True
        neg = {k: -c for k, c in p}
        neg[()] = neg.get((), 0) - 1
        return self.infeasible([tuple(sorted((k, v) for k, v in neg.items() if v))])


def components(cs):
    parent = {}

    def find(x):
        while parent[x] != x:
            parent[x] = parent[parent[x]]
            x = parent[x]
        return x
    for d, _ in cs:
        it = iter(d)
        f = next(it, None)
        if f is None:
            continue
        parent.setdefault(f, f)
        for k in it:
            parent.setdefault(k, k)
            parent[find(k)] = find(f)
    out = {}
    for d, c in cs:
        if d:
            out.setdefault(find(next(iter(d))), []).append((d, c))
        elif c < 0:
            return [[(d, c)]]
    return list(out.values())


# ---------------------------------------------------------------- the decision
LIMIT = [None]


def spent():
    return LIMIT[0] is not None and time.process_time() > LIMIT[0]


class Budget(Exception):
    pass


def literals(fs):
    """Flatten conjunctions; returns (literals, disjunctions) or None if false."""
    lits, ors, work = [], [], list(fs)
    seen = set()
    while work:
        f = work.pop()
        if f == TRUE or f in seen:
            continue
        if f == FALSE:
            return None
        seen.add(f)
        if f[0] == 'and':
            work += [f[1], f[2]]
        elif f[0] == 'or':
            ors.append(f)
        else:
            lits.append(f)
    for f in lits:
        if fnot(f) in seen:
            return None
        # both directions of an inequality
        if f[0] in ('ule', 'sle') and (f[0], f[1], f[3], f[2]) in seen:
            e = eq0(f[1], psub(f[2], f[3], f[1]))
            if e not in seen and e != TRUE:
                return literals(list(fs) + [e])
    # resolve disjunctions against known literals
    out = []
    for f in ors:
        if f[1] in seen or f[2] in seen:
            continue
        if all(x in seen for x in conj(f[1])) or all(x in seen for x in conj(f[2])):
            continue
        if fnot(f[1]) in seen or any(fnot(x) in seen for x in conj(f[1])):
            return literals(list(fs) + [f[2]]) if f[2] not in seen else (lits, out)
        if fnot(f[2]) in seen or any(fnot(x) in seen for x in conj(f[2])):
            return literals(list(fs) + [f[1]]) if f[1] not in seen else (lits, out)
        out.append(f)
    return lits, out


def conj(f):
    if f[0] == 'and':
        return conj(f[1]) + conj(f[2])
    return [f]


def solve_eqs(lits):
    """Substitution from the equalities with a unit-coefficient atom."""
    sub = {}

    def get(a):
        return sub.get(a)
    rest = [f for f in lits]
    for f in rest:
        if f[0] != 'eq':
            continue
        w = f[1]
        p = subst(f[2], w, get, {}) if sub else f[2]
        if is_const(p):
            continue
        # an atom holding the low bits of p, or of p plus a constant, is a constant
        c0 = dict(p).get((), 0)
        rest_ = tuple((m, x) for m, x in p if m != ())
        for q0, c1 in ((rest_, -c0), (tuple((m, -x) for m, x in rest_), c0), (p, 0)):
            l = ATOM_IX.get(('low', q0, w))
            if l is not None and l not in sub:
                new = {l: (64, const(c1 % (1 << w), 64))}
                for b, (bw, bq) in list(sub.items()):
                    sub[b] = (bw, subst(bq, bw, lambda x: new.get(x), {}))
                sub.update(new)
        best = None
        cnt = {}
        for k, c in p:
            for a in k:
                cnt[a] = cnt.get(a, 0) + 1
        for k, c in p:
            if len(k) == 1 and abs(c) == 1 and cnt[k[0]] == 1:
                a = k[0]
                # atom must be determined by its residue modulo 2^w
                if ATOMS[a][1] < 0 or ATOMS[a][2] >= 1 << w:
                    continue
                others = tuple((m, x) for m, x in p if m != k)
                if a in closure_atoms([others]):
                    continue
                rank = (len(closure_atoms([others])), 0 if ATOMS[a][0][0] in ('in', 'v') else -1, a)
                if is_const(others):
                    rank = (-1, 0, a)
                if best is None or rank < best[0]:
                    best = (rank, a, norm({m: (-x if c == 1 else x) for m, x in others}, w))
        if best is None:
            continue
        _, a, q = best
        # the substituted value has to be the atom itself, not only modulo 2^w
        lo, hi = irange(q)
        if not (lo >= 0 and hi < 1 << w) and w < 64:
            continue
        if lo >= 0 and hi < 1 << w:
            w = 64
        new = {a: (w, q)}
        for b, (bw, bq) in list(sub.items()):
            sub[b] = (bw, subst(bq, bw, lambda x: new.get(x), {}))
        sub.update(new)
    return sub


def build_system(lits):
    """Linear system implied by the literals."""
    sysm = System()
    M = lambda w: 1 << w
    atoms = closure_atoms([p for f in lits for p in fpolys(f)])
    def fits(p, w):
        l, h = irange(p)
        if l >= 0 and h < M(w):
            return True
        return late[0] and sysm.proves(p) and sysm.proves(tuple(sorted(sum_({(): M(w) - 1}, p, -1).items())))

    late = [False]
    done = set()

    def definitions():
        for a in atoms:
            key = ATOMS[a][0]
            k = key[0]
            if k == 'udiv' or k == 'urem':
                x, y, w = key[1:4]
                if a not in done and fits(x, w) and fits(y, w):
                    done.add(a)
                    q = udiv(x, y, w)
                    r = urem(x, y, w)
                    e = dict(x)
                    for kk, c in q:
                        for ll, d in y:
                            m = tuple(sorted(kk + ll))
                            e[m] = e.get(m, 0) - c * d
                    for kk, c in r:
                        e[kk] = e.get(kk, 0) - c
                    e = tuple(sorted((m, c) for m, c in e.items() if c))
                    sysm.add(e)
                    sysm.add(tuple((m, -c) for m, c in e))
                    e = dict(y)
                    for kk, c in r:
                        e[kk] = e.get(kk, 0) - c
                    e[()] = e.get((), 0) - 1
                    sysm.add(tuple(sorted(e.items())))
            elif k in ('umin', 'umax'):
                x, y, w = key[1:4]
                for p in (x, y):
                    if fits(p, w):
                        e = dict(p)
                        e[(a,)] = e.get((a,), 0) - 1
                        s = 1 if k == 'umin' else -1
                        sysm.add(tuple(sorted((m, s * c) for m, c in e.items() if c)))
            elif k == 'usubsat':
                x, y, w = key[1:4]
                if fits(x, w):
                    e = dict(x)
                    e[(a,)] = e.get((a,), 0) - 1
                    sysm.add(tuple(sorted((m, c) for m, c in e.items() if c)))
                    if fits(y, w):
                        # a >= x - y
                        e = {(a,): 1}
                        for m, c in x:
                            e[m] = e.get(m, 0) - c
                        for m, c in y:
                            e[m] = e.get(m, 0) + c
                        sysm.add(tuple(sorted((m, c) for m, c in e.items() if c)))
            elif k == 'low' and a not in done and key[2] < 64:
                # low bits belong to a quotient by the same power of two
                x, w = key[1], key[2]
                q = ATOM_IX.get(('udiv', x, const(1 << w, 64), 64))
                if q is not None and fits(x, 64):
                    done.add(a)
                    e = tuple(sorted(sum_(dict(x), (((a,), 1), ((q,), 1 << w)), -1).items()))
                    sysm.add(e)
                    sysm.add(tuple((m, -c) for m, c in e))

    definitions()
    pend = list(lits)
    progress = True

    def uform(p, w, final):
        l, h = irange(p)
        if l >= 0 and h < M(w):
            return p
        if l >= -M(w) and h < 0:
            # a negative value read as an unsigned one
            return tuple(sorted(sum_({(): M(w)}, p, 1).items()))
        if sysm.proves(p) and sysm.proves(tuple(sorted(sum_({(): M(w) - 1}, p, -1).items()))):
            return p
        if final:
            return ((( atom(('u', p, w), 0, M(w) - 1),), 1),)
        return None

    def sform(p, w, final):
        H = M(w) >> 1
        l, h = irange(p)
        if l >= -H and h < H:
            return p
        if sysm.proves(tuple(sorted(sum_({(): H}, p, 1).items()))) and sysm.proves(
                tuple(sorted(sum_({(): H - 1}, p, -1).items()))):
            return p
        if final:
            a = single(p)
            return (((atom(('s', p, w), -H, H - 1),), 1),)
        return None

    rounds = 0
    while pend and rounds < 6:
        rounds += 1
        nxt = []
        for f in pend:
            final = rounds > 1 and not progress
            k, w = f[0], f[1]
            if k in ('b', 'nb'):
                continue
            if k == 'eq':
                p = f[2]
                l, h = irange(p)
                if (l > -M(w) and h < M(w)) or (
                        sysm.proves(tuple(sorted(sum_({(): M(w) - 1}, p, 1).items()))) and
                        sysm.proves(tuple(sorted(sum_({(): M(w) - 1}, p, -1).items())))):
                    sysm.add(p)
                    sysm.add(tuple((m, -c) for m, c in p))
                else:
                    nxt.append(f)
                continue
            if k == 'ne':
                p = f[2]
                # nonzero and one-sided
                l, h = irange(p)
                r = [(m, c) for m, c in p if m]
                if len(r) == 1 and len(r[0][0]) == 1 and abs(r[0][1]) == 1 and rounds == 1:
                    a, c = r[0][0][0], dict(p).get((), 0)
                    v = (-c if r[0][1] == 1 else c) % M(w)
                    if ATOMS[a][1] == 0 and ATOMS[a][2] < M(w):
                        if v == ATOMS[a][2]:
                            sysm.add((((), ATOMS[a][2] - 1), ((a,), -1)))
                        elif v == 0:
                            sysm.add((((), -1), ((a,), 1)))
                if h < M(w) and (l >= 0 or sysm.proves(p)):
                    sysm.add(tuple(sorted(sum_({(): -1}, p, 1).items())))
                elif l > -M(w) and (h <= 0 or sysm.proves(tuple((m, -c) for m, c in p))):
                    sysm.add(tuple(sorted(sum_({(): -1}, p, -1).items())))
                else:
                    nxt.append(f)
                continue
            form = uform if k[0] == 'u' else sform
            a = form(f[2], w, final)
            b = form(f[3], w, final)
            if a is None or b is None:
                # upper bounds are useful on their own: a < b implies a <= 2^w - 2
                nxt.append(f)
                continue
            d = sum_(dict(b), a, -1)
            if k.endswith('t'):
                d[()] = d.get((), 0) - 1
            sysm.add(tuple(sorted((m, c) for m, c in d.items() if c)))
        progress = len(nxt) < len(pend)
        if not progress and rounds > 1 and all(f[0] in ('eq', 'ne') for f in nxt):
            break
        pend = nxt
        if rounds <= 2:
            late[0] = True
            definitions()
    return sysm


def sum_(d, p, s):
    d = dict(d)
    for k, c in p:
        d[k] = d.get(k, 0) + s * c
    return {k: c for k, c in d.items() if c}


_cache = {}


class Solver:
    def __init__(self, budget=400):
        self.budget = budget

    def infeasible(self, fs, depth=8):
        self.budget -= 1
        if self.budget < 0 or spent():
            raise Budget()
        r = literals(fs)
        if r is None:
            return True
        lits, ors = r
        key = (frozenset(lits), frozenset(ors))
        if key in _cache:
            return _cache[key]
        res = self._inf(lits, ors, depth)
        _cache[key] = res
        return res

    def _inf(self, lits, ors, depth):
        # equalities
        for _ in range(4):
            sub = solve_eqs(lits)
            if not sub:
                break
            get = lambda a: sub.get(a)
            cache = {}
            new = [fsubst(f, get, cache) for f in lits + ors]
            keep = [f for f in lits if f[0] == 'eq']
            r = literals(new + keep)
            if r is None:
                return True
            if set(r[0]) == set(lits) and set(r[1]) == set(ors):
                break
            lits, ors = r
        sysm = build_system(lits)
        if sysm.infeasible():
            return True
        # resolve compound atoms by the linear facts
        atoms = closure_atoms([p for f in lits + ors for p in fpolys(f)])
        rep, cand = {}, []
        for a in sorted(atoms):
            key = ATOMS[a][0]
            k = key[0]
            if k == 'sel':
                v = self.decide(key[1], lits, sysm)
                if v is True:
                    rep[a] = (key[4], key[2])
                elif v is False:
                    rep[a] = (key[4], key[3])
                else:
                    cand.append((0, key[1]))
            elif k in ('usubsat', 'umin', 'umax', 'smin', 'smax'):
                x, y, w = key[1:4]
                c = cmp_(('s' if k[0] == 's' else 'u') + 'le', w, x, y)
                v = self.decide(c, lits, sysm)
                if v is None and self.decide(cmp_(('s' if k[0] == 's' else 'u') + 'le', w, y, x), lits, sysm) is True:
                    v = False  # y <= x: both arms agree when they are equal
                if v is not None:
                    if k == 'usubsat':
                        r = ZERO if v else psub(x, y, w)
                    elif k.endswith('min'):
                        r = x if v else y
                    else:
                        r = y if v else x
                    rep[a] = (w, r)
                else:
                    cand.append((1, c))
            elif k == 'abs':
                c = cmp_('slt', key[2], key[1], ZERO)
                v = self.decide(c, lits, sysm)
                if v is not None:
                    rep[a] = (key[2], pscale(key[1], -1, key[2]) if v else key[1])
                else:
                    cand.append((1, c))
            elif k == 'low':
                # identity when the value fits
                p, w = key[1], key[2]
                if sysm.proves(p) and sysm.proves(tuple(sorted(sum_({(): (1 << w) - 1}, p, -1).items()))):
                    rep[a] = (64, p)
            elif k in ('udiv', 'urem'):
                x, y, w = key[1:4]
                c = cmp_('ult', w, x, y)
                if self.decide(c, lits, sysm) is True:
                    fit = sysm.proves(x) and sysm.proves(tuple(sorted(sum_({(): (1 << w) - 1}, x, -1).items())))
                    rep[a] = (64 if fit else w, ZERO if k == 'udiv' else x)
                elif len(y) == 1 and y[0][0] and y[0][1] == 1:
                    # x = g * y + r with 0 <= r < y
                    g, r = {}, {}
                    for mono, cf in x:
                        q = mono_div(mono, y[0][0])
                        if q is None:
                            r[mono] = cf
                        else:
                            g[q] = cf
                    if g:
                        r = tuple(sorted(r.items()))
                        g = tuple(sorted(g.items()))
                        if sysm.proves(r) and sysm.proves(tuple(sorted(sum_(sum_({(): -1}, y, 1), r, -1).items()))) \
                                and sysm.proves(g) and sysm.proves(tuple(sorted(sum_({(): (1 << w) - 1}, x, -1).items()))):
                            rep[a] = (64, norm(dict(g if k == 'udiv' else r), 64))
        # atoms which the linear facts pin to zero
        pins = []
        for f in lits:
            if f[0] == 'ne' and any(len(k) > 1 for k, _ in f[2]):
                for a in sorted({x for k, _ in f[2] for x in k}):
                    if a not in rep and ATOMS[a][1] == 0 and a not in pins and ATOMS[a][0][0] in ('in', 'v', 'low', 'mem') \
                            and sysm.proves((((a,), -1),)):
                        pins.append(a)
                        rep[a] = (64, ZERO)
        if rep:
            get = lambda a: rep.get(a)
            cache = {}
            new = [fsubst(f, get, cache) for f in lits + ors]
            new += [('eq', 64, var(a, 64)) for a in pins]
            r = literals(new)
            if r is None:
                return True
            if set(r[0]) != set(lits) or set(r[1]) != set(ors):
                if depth <= 0:
                    return False
                return self.infeasible(r[0] + r[1] + [f for f in lits if f not in r[0] and no_rep(f, rep)], depth - 1)
        if depth <= 0:
            return False
        # literals decided by the linear facts
        for f in lits:
            if f[0] in ('ne',) and self.decide(('eq',) + f[1:], lits, sysm) is True:
                return True
        for f in ors:
            a, b = self.decide(f[1], lits, sysm), self.decide(f[2], lits, sysm)
            if a is False and b is False:
                return True
            if a is False:
                return self.infeasible(lits + [g for g in ors if g != f] + [f[2]], depth - 1)
            if b is False:
                return self.infeasible(lits + [g for g in ors if g != f] + [f[1]], depth - 1)
        # zero products
        for f in lits:
            if f[0] == 'eq' and len(f[2]) == 1 and len(f[2][0][0]) > 1:
                if sysm.proves(f[2]) and sysm.proves(tuple(sorted(sum_({(): (1 << f[1]) - 1}, f[2], -1).items()))):
                    ats = sorted(set(f[2][0][0]))
                    rest = [g for g in lits if g != f] + ors
                    return all(self.infeasible(rest + [eq0(64, var(a, 64))], depth - 1) for a in ats)
            if f[0] == 'eq' and len(f[2]) > 1:
                # common factor: x * q = 0 over the integers
                com = set(f[2][0][0])
                for k, _ in f[2]:
                    com &= set(k)
                for x in sorted(com):
                    q = {}
                    for k, c in f[2]:
                        kk = list(k)
                        kk.remove(x)
                        q[tuple(kk)] = c
                    q = tuple(sorted(q.items()))
                    W = 1 << f[1]
                    if sysm.proves(tuple(sorted(sum_({(): W - 1}, f[2], 1).items()))) and \
                            sysm.proves(tuple(sorted(sum_({(): W - 1}, f[2], -1).items()))):
                        rest = [g for g in lits if g != f] + ors
                        return self.infeasible(rest + [eq0(64, var(x, 64))], depth - 1) and \
                            self.infeasible(rest + [eq0(f[1], q)], depth - 1)
        # factors: f * g = 0 over the integers where f is a side of a known inequality
        forms = []
        for f in lits:
            if f[0] in ('ult', 'ule'):
                for q in (f[2], f[3], psub(f[3], f[2], f[1])):
                    if len(q) > 1 and q not in forms:
                        forms.append(q)
        for f in lits + [x for c in cand for x in conj(c[1]) if x[0] in ('eq', 'ne')]:
            if f[0] in ('eq', 'ne') and any(len(k) > 1 for k, _ in f[2]):
                for q in forms:
                    g = divide(f[2], q)
                    if g is None or is_const(g):
                        continue
                    W = 1 << f[1]
                    if sysm.proves(tuple(sorted(sum_({(): W - 1}, f[2], 1).items()))) and \
                            sysm.proves(tuple(sorted(sum_({(): W - 1}, f[2], -1).items()))):
                        e = ('eq',) + f[1:]
                        alt = for_(eq0(f[1], q), eq0(f[1], g))
                        if f[0] == 'eq' and f in lits:
                            rest = [h for h in lits if h != f] + ors
                            return self.infeasible(rest + [eq0(f[1], q)], depth - 1) and \
                                self.infeasible(rest + [eq0(f[1], g)], depth - 1)
                        if e not in lits and fnot(e) not in lits:
                            return self.infeasible(lits + ors + [e], depth - 1) and \
                                self.infeasible(lits + ors + [fnot(e)], depth - 1)
        # case distinctions
        cand.sort(key=lambda t: t[0])
        for f in ors:
            rest = lits + [g for g in ors if g != f]
            return self.infeasible(rest + [f[1]], depth - 1) and self.infeasible(rest + [fnot(f[1]), f[2]], depth - 1)
        for _, c in cand:
            if c in (TRUE, FALSE):
                continue
            return self.infeasible(lits + ors + [c], depth - 1) and self.infeasible(lits + ors + [fnot(c)], depth - 1)
        for f in lits:
            if f[0] == 'ne':
                l, h = irange(f[2])
                if l > -(1 << f[1]) and h < (1 << f[1]) and l < 0 < h:
                    rest = [g for g in lits if g != f] + ors
                    a = sysm.infeasible([tuple(sorted(sum_({(): -1}, f[2], 1).items()))])
                    b = sysm.infeasible([tuple(sorted(sum_({(): -1}, f[2], -1).items()))])
                    if a and b:
                        return True
        return False

    def decide(self, c, lits, sysm):
        if c == TRUE:
            return True
        if c == FALSE:
            return False
        s = set(lits)
        if all(x in s for x in conj(c)):
            return True
        n = fnot(c)
        if all(x in s for x in conj(n)):
            return False
        if c[0] == 'and':
            a, b = self.decide(c[1], lits, sysm), self.decide(c[2], lits, sysm)
            if a is False or b is False:
                return False
            if a is True and b is True:
                return True
            return None
        if c[0] == 'or':
            v = self.decide(n, lits, sysm)
            return None if v is None else not v
        for g, v in ((n, True), (c, False)):
            lin = self.lin(g, sysm)
            if lin is not None and sysm.infeasible(lin):
                return v
            if lin is None and g[0] == 'ne':
                # ne is p >= 1 or p <= -1
                p, w = g[2], g[1]
                lo, hi = irange(p)
                if lo > -(1 << w) and hi < 1 << w or (
                        sysm.proves(tuple(sorted(sum_({(): (1 << w) - 1}, p, 1).items()))) and
                        sysm.proves(tuple(sorted(sum_({(): (1 << w) - 1}, p, -1).items())))):
                    if sysm.infeasible([tuple(sorted(sum_({(): -1}, p, 1).items()))]) and \
                            sysm.infeasible([tuple(sorted(sum_({(): -1}, p, -1).items()))]):
                        return v
        return None

    def lin(self, f, sysm):
        """Linear constraints implied by literal f, or None."""
        k = f[0]
        if k in ('b', 'nb', 'ne', 'and', 'or'):
            return None
        w = f[1]
        M = 1 << w
        if k == 'eq':
            p = f[2]
            lo, hi = irange(p)
            if lo > -M and hi < M:
                return [p, tuple((m, -c) for m, c in p)]
            return None
        for p in (f[2], f[3]):
            lo, hi = irange(p)
            if k[0] == 'u':
                if not (lo >= 0 and hi < M) and not (
                        sysm.proves(p) and sysm.proves(tuple(sorted(sum_({(): M - 1}, p, -1).items())))):
                    return None
            else:
                H = M >> 1
                if not (lo >= -H and hi < H) and not (
                        sysm.proves(tuple(sorted(sum_({(): H}, p, 1).items()))) and
                        sysm.proves(tuple(sorted(sum_({(): H - 1}, p, -1).items())))):
                    return None
        d = sum_(dict(f[3]), f[2], -1)
        if k.endswith('t'):
            d[()] = d.get((), 0) - 1
        return [tuple(sorted((m, c) for m, c in d.items() if c))]


def mono_div(m, d):
    m = list(m)
    for x in d:
        if x not in m:
            return None
        m.remove(x)
    return tuple(m)


def divide(p, f):
    """g with p == f * g over the integers, or None."""
    for k, c in f:
        if len(k) == 1 and abs(c) == 1:
            v = k[0]
            if sum(v in m for m, _ in f) != 1:
                continue
            A, B = {}, {}
            for m, x in p:
                n = m.count(v)
                if n > 1:
                    return None
                if n == 1:
                    mm = list(m)
                    mm.remove(v)
                    A[tuple(mm)] = A.get(tuple(mm), 0) + x * c
                else:
                    B[m] = x
            if not A:
                return None
            g = tuple(sorted(A.items()))
            d = dict(p)
            for m, x in f:
                for n, y in g:
                    t = tuple(sorted(m + n))
                    d[t] = d.get(t, 0) - x * y
            if all(x == 0 for x in d.values()):
                return g
            return None
    return None


def no_rep(f, rep):
    return not (closure_atoms(fpolys(f)) & set(rep))
