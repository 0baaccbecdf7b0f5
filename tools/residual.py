"""Residual analysis: is a call site that survived normalisation reachable?

Forward dataflow over the CFG of one function.  The abstract value of a program point is a bounded set
of partitions; each partition holds the branch conditions that lead to it (facts) and the values that
phi nodes take there.  A site is discharged if the facts of every partition are infeasible.
"""
import re
import sys

import domain as D
from domain import TRUE, FALSE, ZERO
from ir import split_top, unq

sys.setrecursionlimit(20000)
MAXPART = 48


def width(t):
    if t == 'ptr':
        return 64
    if re.fullmatch(r'i\d+', t):
        return int(t[1:])
    return None


def tsize(t):
    t = t.strip()
    if t == 'ptr':
        return 8
    m = re.fullmatch(r'i(\d+)', t)
    if m:
        return (int(m.group(1)) + 7) // 8
    m = re.fullmatch(r'\[(\d+) x (.*)\]', t)
    if m:
        s = tsize(m.group(2))
        return None if s is None else int(m.group(1)) * s
    m = re.fullmatch(r'\{(.*)\}', t)
    if m:
        off, al = 0, 1
        for e in split_top(m.group(1)):
            s, a = tsize(e), talign(e)
            if s is None:
                return None
            off = (off + a - 1) // a * a + s
            al = max(al, a)
        return (off + al - 1) // al * al
    return {'float': 4, 'double': 8}.get(t)


def talign(t):
    t = t.strip()
    m = re.fullmatch(r'\[(\d+) x (.*)\]', t)
    if m:
        return talign(m.group(2))
    m = re.fullmatch(r'\{(.*)\}', t)
    if m:
        return max([talign(e) for e in split_top(m.group(1))] or [1])
    return max(1, min(8, tsize(t) or 8))


def take_type(s):
    """Split 'type rest'."""
    s = s.strip()
    if s[0] in '[{<':
        depth = 0
        for i, ch in enumerate(s):
            if ch in '[{<':
                depth += 1
            elif ch in ']}>':
                depth -= 1
                if depth == 0:
                    return s[:i + 1], s[i + 1:].strip()
    p = s.split(None, 1)
    return p[0], (p[1] if len(p) > 1 else '')


FLAGS = re.compile(r'^((nuw|nsw|exact|disjoint|samesign|nneg|inbounds|nusw|fast|nnan|inrange\([^)]*\)) )+')


class State:
    __slots__ = ('facts', 'env', 'memo')

    def __init__(self, facts, env):
        self.facts, self.env, self.memo = facts, env, {}


class Analysis:
    def __init__(self, fn, budget=300):
        self.fn = fn
        self.budget = budget
        self.stats = {'partitions': 0, 'queries': 0}
        self.rpo()

    # ------------------------------------------------------------ CFG
    def rpo(self):
        fn = self.fn
        seen, post = set(), []
        entry = fn.order[0]
        stack = [(entry, iter(fn.blocks[entry].succs))]
        seen.add(entry)
        onstack = {entry}
        self.back = set()
        while stack:
            b, it = stack[-1]
            for s in it:
                if s in onstack:
                    self.back.add((b, s))
                elif s not in seen:
                    seen.add(s)
                    onstack.add(s)
                    stack.append((s, iter(fn.blocks[s].succs)))
                    break
            else:
                stack.pop()
                onstack.discard(b)
                post.append(b)
        self.order = post[::-1]
        self.heads = {h for _, h in self.back}

    # ------------------------------------------------------------ values
    def val(self, tok, ty, st):
        """Poly of an integer/pointer token, Formula for i1."""
        tok = tok.strip()
        if ty == 'i1':
            return self.boolean(tok, st)
        w = width(ty)
        if w is None:
            return None
        if tok.startswith('%'):
            name = unq(tok[1:])
            return self.ssa(name, w, st)
        if re.fullmatch(r'-?\d+', tok):
            return D.const(int(tok), w)
        if tok in ('null', 'zeroinitializer', 'false'):
            return ZERO
        if tok in ('undef', 'poison'):
            return D.var(D.atom(('v', self.fn.name, 'undef', tok), 0, (1 << w) - 1), w)
        m = re.match(r'inttoptr \(i64 (-?\d+) to ptr\)', tok)
        if m:
            return D.const(int(m.group(1)), 64)
        return D.var(D.atom(('in', 'const', tok), 0, (1 << w) - 1), w)

    def boolean(self, tok, st):
        tok = tok.strip()
        if tok == 'true':
            return TRUE
        if tok == 'false':
            return FALSE
        if not tok.startswith('%'):
            return D.bool_atom(('in', tok))
        name = unq(tok[1:])
        if name in st.env:
            return st.env[name]
        if name in st.memo:
            return st.memo[name]
        r = self.bool_ssa(name, st)
        st.memo[name] = r
        return r

    def opaque_bool(self, name):
        return D.bool_atom(('v', self.fn.name, name))

    def element(self, p):
        """The value is an offset from one pointer argument."""
        base = [c for k, c in p for a in k if D.ATOMS[a][0][:2] == ('in', self.fn.name) and len(D.ATOMS[a][0]) == 3
                and self.fn.params.get(D.ATOMS[a][0][2], '').startswith('ptr')]
        return base == [1]

    def bool_ssa(self, name, st):
        if name in self.fn.params:
            return self.opaque_bool(name)
        ins = self.fn.defs[name]
        op, t = ins.op, ins.text
        if op == 'icmp':
            body = re.sub(r'^icmp (samesign )?', '', t)
            pred, rest = body.split(None, 1)
            ty, rest = take_type(rest)
            a, b = split_top(rest)
            if ty == 'i1':
                x, y = self.boolean(a, st), self.boolean(b, st)
                e = D.for_(D.fand(x, y), D.fand(D.fnot(x), D.fnot(y)))
                if pred == 'eq':
                    return e
                if pred == 'ne':
                    return D.fnot(e)
                return self.opaque_bool(name)
            w = width(ty)
            if w is None:
                return self.opaque_bool(name)
            x, y = self.val(a, ty, st), self.val(b, ty, st)
            if ty == 'ptr' and pred in ('eq', 'ne') and self.element(x) and D.is_const(y) and D.cval(y) == 0:
                # Addresses computed from the base of an array are those of its elements and not null. A wrong
                # one is seen by the claims about addresses; `None` is a null pointer that has no base.
                return D.FALSE if pred == 'eq' else D.TRUE
            return D.cmp_(pred, w, x, y)
        if op in ('and', 'or', 'xor'):
            body = t.split(None, 1)[1]
            body = FLAGS.sub('', body)
            ty, rest = take_type(body)
            a, b = split_top(rest)
            x, y = self.boolean(a, st), self.boolean(b, st)
            if op == 'and':
                return D.fand(x, y)
            if op == 'or':
                return D.for_(x, y)
            return D.for_(D.fand(x, D.fnot(y)), D.fand(D.fnot(x), y))
        if op == 'select':
            c, a, b = split_top(t[len('select '):])
            f = self.boolean(take_type(c)[1], st)
            x, y = self.boolean(take_type(a)[1], st), self.boolean(take_type(b)[1], st)
            if y == FALSE:
                return D.fand(f, x)
            if x == TRUE:
                return D.for_(f, y)
            return D.for_(D.fand(f, x), D.fand(D.fnot(f), y))
        if op == 'freeze':
            return self.boolean(take_type(t.split(None, 1)[1])[1], st)
        if op == 'trunc':
            m = re.match(r'trunc (?:nuw |nsw )*(\S+) (\S+) to i1', t)
            if m:
                p = self.val(m.group(2), m.group(1), st)
                return D.fnot(D.eq0(1, p))
        if op == 'extractvalue':
            m = re.match(r'extractvalue \{ (\S+), i1 \} (\S+), 1$', t)
            if m:
                src = self.fn.defs.get(unq(m.group(2)[1:]))
                if src is not None and src.op == 'call' and src.callee:
                    k = re.match(r'llvm\.(\w+)\.with\.overflow\.i(\d+)', src.callee)
                    if k:
                        w = int(k.group(2))
                        ty = 'i%d' % w
                        x = self.val(take_type(src.args[0])[1], ty, st)
                        y = self.val(take_type(src.args[1])[1], ty, st)
                        if k.group(1) == 'usub':
                            return D.cmp_('ult', w, x, y)
                        if k.group(1) in ('uadd', 'umul'):
                            z = D.zext(x, w, 2 * w), D.zext(y, w, 2 * w)
                            r = D.padd(*z, 2 * w) if k.group(1) == 'uadd' else D.pmul(*z, 2 * w)
                            return D.cmp_('ule', 2 * w, D.const(1 << w, 2 * w), r)
        return self.opaque_bool(name)

    def ssa(self, name, w, st):
        if name in st.env:
            return st.env[name]
        if name in st.memo:
            return st.memo[name]
        r = self.int_ssa(name, w, st)
        if r is None:
            r = self.opaque(name, w)
        st.memo[name] = r
        return r

    def opaque(self, name, w):
        return D.var(D.atom(('v', self.fn.name, name), 0, (1 << w) - 1), w)

    def int_ssa(self, name, w, st):
        fn = self.fn
        if name in fn.params:
            return D.var(D.atom(('in', fn.name, name), 0, (1 << w) - 1), w)
        ins = fn.defs[name]
        op, t = ins.op, ins.text
        if op in ('add', 'sub', 'mul', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'udiv', 'urem', 'sdiv', 'srem'):
            body = t.split(None, 1)[1]
            fl = FLAGS.match(body)
            flags = fl.group(0).split() if fl else []
            body = FLAGS.sub('', body)
            ty, rest = take_type(body)
            a, b = split_top(rest)
            if width(ty) is None:
                return None
            x, y = self.val(a, ty, st), self.val(b, ty, st)
            M = 1 << w
            c = D.cval(y) % M if D.is_const(y) else None
            if op == 'add' or (op == 'or' and 'disjoint' in flags):
                return D.padd(x, y, w)
            if op == 'sub':
                return D.psub(x, y, w)
            if op == 'mul':
                return D.pmul(x, y, w)
            if op == 'shl':
                if c is not None:
                    return D.pscale(x, 1 << c, w)
                return None
            if op == 'lshr':
                if c is not None:
                    return D.udiv(x, D.const(1 << c, w), w)
                return None
            if op == 'udiv':
                return D.udiv(x, y, w)
            if op == 'urem':
                return D.urem(x, y, w)
            if op == 'and':
                for p, q in ((x, y), (y, x)):
                    if D.is_const(q):
                        m = D.cval(q) % M
                        if m & (m + 1) == 0:
                            return D.low(p, w, m.bit_length())
                        n = (~m) % M
                        if n & (n + 1) == 0:
                            return D.psub(p, D.low(p, w, n.bit_length()), w)
                return D.binop_atom('and', x, y, w)
            if op == 'or':
                return D.binop_atom('or', x, y, w)
            if op == 'xor':
                if c == M - 1:
                    return D.psub(D.const(-1, w), x, w)
                return D.binop_atom('xor', x, y, w)
            if op in ('sdiv', 'srem') and c is not None and 0 < c < M >> 1:
                l, h = D.irange(x)
                if l >= 0 and h < M >> 1:
                    return D.udiv(x, y, w) if op == 'sdiv' else D.urem(x, y, w)
            return D.var(D.atom(('x', op, x, y, w), 0, M - 1), w)
        if op in ('zext', 'sext', 'trunc'):
            m = re.match(r'\w+ (?:nneg |nuw |nsw )*(\S+) (.*) to (\S+)$', t)
            if not m or width(m.group(1)) is None:
                return None
            if m.group(1) == 'i1':
                f = self.boolean(m.group(2), st)
                return D.select(f, D.const(1 if op == 'zext' else -1, w), ZERO, w)
            x = self.val(m.group(2), m.group(1), st)
            w1 = width(m.group(1))
            if op == 'zext':
                return D.zext(x, w1, w)
            if op == 'sext':
                return D.sext(x, w1, w)
            return D.norm(dict(x), w)
        if op in ('ptrtoint', 'inttoptr', 'bitcast', 'freeze', 'ptrtoaddr'):
            m = re.match(r'\w+ (\S+) (\S+)(?: to (\S+))?$', t)
            if not m or width(m.group(1)) is None or (m.group(3) and width(m.group(3)) != width(m.group(1))):
                return None
            return self.val(m.group(2), m.group(1), st)
        if op == 'select':
            c, a, b = split_top(t[len('select '):])
            f = self.boolean(take_type(c)[1], st)
            ty, av = take_type(a)
            _, bv = take_type(b)
            if not take_type(c)[0] == 'i1':
                return None
            return D.select(f, self.val(av, ty, st), self.val(bv, ty, st), w)
        if op == 'getelementptr':
            body = FLAGS.sub('', t.split(None, 1)[1])
            parts = split_top(body)
            size = tsize(parts[0])
            base = self.val(take_type(parts[1])[1], 'ptr', st)
            if size is None or len(parts) < 3:
                return None
            cur = parts[0]
            for i, p in enumerate(parts[2:]):
                ty, v = take_type(p)
                ix = self.val(v, ty, st)
                wi = width(ty)
                if wi < 64:
                    ix = D.sext(ix, wi, 64)
                if i == 0:
                    base = D.padd(base, D.pscale(ix, size, 64), 64)
                else:
                    m = re.fullmatch(r'\[(\d+) x (.*)\]', cur)
                    if not m:
                        return None
                    cur = m.group(2)
                    base = D.padd(base, D.pscale(ix, tsize(cur), 64), 64)
            return base
        if op == 'call' and ins.callee:
            k = ins.callee
            m = re.match(r'llvm\.(usub\.sat|uadd\.sat|umin|umax|smin|smax)\.i(\d+)', k)
            if m:
                ty = 'i' + m.group(2)
                x = self.val(take_type(ins.args[0])[1], ty, st)
                y = self.val(take_type(ins.args[1])[1], ty, st)
                return D.binop_atom(m.group(1).replace('.', ''), x, y, w)
            m = re.match(r'llvm\.abs\.i(\d+)', k)
            if m:
                return D.absval(self.val(take_type(ins.args[0])[1], 'i' + m.group(1), st), w)
            return None
        if op == 'extractvalue':
            m = re.match(r'extractvalue \{ (\S+), i1 \} (\S+), 0$', t)
            if m:
                src = fn.defs.get(unq(m.group(2)[1:]))
                if src is not None and src.op == 'call' and src.callee:
                    k = re.match(r'llvm\.(\w+)\.with\.overflow\.i(\d+)', src.callee)
                    if k:
                        ty = 'i' + k.group(2)
                        x = self.val(take_type(src.args[0])[1], ty, st)
                        y = self.val(take_type(src.args[1])[1], ty, st)
                        o = k.group(1)[1:]
                        return D.padd(x, y, w) if o == 'add' else D.psub(x, y, w) if o == 'sub' else D.pmul(x, y, w)
            return None
        if op == 'load':
            m = re.match(r'load (\S+), ptr (%\S+?)(?:,|$)', t)
            if m:
                p = self.val(m.group(2), 'ptr', st)
                base = [k for k, c in p if c == 1 and len(k) == 1 and D.ATOMS[k[0]][0][:2] == ('in', fn.name)]
                if len(base) == 1:
                    key = D.ATOMS[base[0][0]][0]
                    par = fn.params.get(key[2], '')
                    if 'readonly' in par and 'noalias' in par:
                        off = tuple(x for x in p if x[0] != base[0])
                        if D.is_const(off):
                            return D.var(D.atom(('in', fn.name, 'mem', key[2], D.cval(off), w), 0, (1 << w) - 1), w)
            r = re.search(r'range\((-?\d+), (-?\d+)\)', t)
            return None
        return None

    # ------------------------------------------------------------ dataflow
    def edge(self, b, s, st):
        """List of formulas: alternatives for taking the edge b -> s (a block may be named twice)."""
        t = self.fn.blocks[b].instrs[-1]
        if t.op == 'br':
            m = re.match(r'br i1 (\S+), label %(\S+), label %(\S+)$', t.text)
            if not m:
                return [TRUE]
            f = self.boolean(m.group(1), st)
            a, c = unq(m.group(2)), unq(m.group(3))
            if a == c:
                return [TRUE]
            return [f if s == a else D.fnot(f)]
        if t.op == 'switch':
            m = re.match(r'switch (\S+) (\S+), label %(\S+) \[(.*)\]$', t.text)
            ty, v, dflt, tab = m.groups()
            x = self.val(v, ty, st)
            w = width(ty)
            res = []
            cases = re.findall(r'\S+ (-?\d+|true|false), label %%?(%s)' % r'\S+', tab)
            neg = TRUE
            for c, l in cases:
                if ty == 'i1':
                    e = x if c == 'true' else D.fnot(x)
                else:
                    e = D.eq0(w, D.psub(x, D.const(int(c), w), w))
                if unq(l) == s:
                    res.append(e)
                neg = D.fand(neg, D.fnot(e))
            if unq(dflt) == s:
                res.append(neg)
            return res
        return [TRUE]

    def phis(self, b):
        out = []
        for i in self.fn.blocks[b].instrs:
            if i.op != 'phi':
                break
            out.append(i)
        return out

    def phi_val(self, ins, pred, st):
        body = ins.text[len('phi '):]
        body = FLAGS.sub('', body)
        ty, rest = take_type(body)
        w = width(ty)
        for e in split_top(rest):
            m = re.match(r'\[ (.*), %(\S+) \]$', e)
            if unq(m.group(2)) == pred:
                if w is None:
                    return None
                return self.val(m.group(1), ty, st)
        return None

    def run(self, goals):
        """goals: set of block names; returns {block: list of surviving states}."""
        fn = self.fn
        # ancestors of the goals
        need, work = set(goals), list(goals)
        while work:
            b = work.pop()
            for p in fn.blocks[b].preds:
                if p not in need:
                    need.add(p)
                    work.append(p)
        states = {fn.order[0]: [State((), {})]}
        solver_budget = [self.budget]
        res = {}
        for b in self.order:
            if D.spent():
                return {g: [states] for g in goals}
            if b not in need or b not in states:
                continue
            sts = states[b]
            if b in self.heads:
                sts = [self.join(sts, b)]
            sts = self.limit(sts)
            self.stats['partitions'] += len(sts)
            if b in goals:
                res[b] = [s for s in sts if not self.infeasible(s)]
                continue
            for s in dict.fromkeys(fn.blocks[b].succs):
                if s not in need or (b, s) in self.back:
                    continue
                for st in sts:
                    for f in self.edge(b, s, st):
                        if f == FALSE:
                            continue
                        fs = st.facts + tuple(x for x in D.conj(f) if x != TRUE and x not in st.facts)
                        if f != TRUE and self.quick_false(fs, f):
                            continue
                        env = dict(st.env)
                        if s not in self.heads:
                            for ph in self.phis(s):
                                v = self.phi_val(ph, b, st)
                                if v is not None:
                                    env[ph.res] = v
                                else:
                                    env.pop(ph.res, None)
                        n = State(fs, env)
                        if env == st.env:
                            n.memo = st.memo
                        states.setdefault(s, []).append(n)
        return res

    def quick_false(self, fs, f):
        if D.literals(fs) is None:
            return True
        return False

    def infeasible(self, st):
        self.stats['queries'] += 1
        try:
            return D.Solver(self.budget).infeasible(list(st.facts))
        except D.Budget:
            return False

    def prune(self, sts):
        return [s for s in sts if not self.infeasible(s)]

    def limit(self, sts):
        uniq = {}
        for s in sts:
            key = (frozenset(s.facts), tuple(sorted(s.env.items(), key=lambda t: t[0])))
            uniq.setdefault(key, s)
        sts = list(uniq.values())
        if len(sts) > 8:
            sts = self.prune(sts)
        if len(sts) > MAXPART:
            # merge: keep the facts all partitions agree on
            return [self.join(sts, None)]
        return sts

    def join(self, sts, head):
        f0 = sts[0].facts
        for s in sts[1:]:
            ss = set(s.facts)
            f0 = tuple(x for x in f0 if x in ss)
        env = dict(sts[0].env)
        for s in sts[1:]:
            for k in list(env):
                if s.env.get(k) != env[k]:
                    del env[k]
        if head is not None:
            for ph in self.phis(head):
                env.pop(ph.res, None)
        return State(f0, env)
