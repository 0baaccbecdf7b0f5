"""Life-cycle (typestate) dataflow for elements and allocations.

The property automaton of an element is  fresh -> live -> ended, of an allocation  allocated -> freed.
The automata are run over the inlined control-flow graph of a witness, in product with a constant
propagation domain for integers, pointers (object + constant offset) and memory cells, so that drop
flags, lengths and loop counters of the fixed shapes are known (property simulation).  Everything
else is unknown; a branch on an unknown value follows both edges, and a call into user code follows
both its normal and its unwinding edge.  Reported are: ending an element twice or before it exists,
use of an ended element, elements or allocations that are still live when the function is left,
access outside of an allocation or after it was freed, and branches on uninitialised memory.
"""
import re

import ir
from ir import split_top, unq

TOP = ('top',)
UNINIT = ('uninit',)
NULL = 0
INT = re.compile(r'^i(\d+)$')
NAME = ir.TOK_NAME
MAX_STEPS = 400000
MAX_PATHS = 3000


class Bad(Exception):
    def __init__(self, msg):
        self.msg = msg


class Undecided(Exception):
    pass


# ---------------------------------------------------------------- types

_ty = {}


def tsize(t):
    """(size, alignment) of a type."""
    r = _ty.get(t)
    if r is None:
        r = _ty[t] = _tsize(t)
    return r


def _tsize(t):
    m = INT.match(t)
    if m:
        n = int(m.group(1))
        b = 1
        while b * 8 < n:
            b *= 2
        return b, b
    if t == 'ptr':
        return 8, 8
    if t in ('float',):
        return 4, 4
    if t in ('double',):
        return 8, 8
    m = re.match(r'^[\[<](\d+) x (.*)[\]>]$', t)
    if m:
        s, a = tsize(m.group(2))
        return s * int(m.group(1)), a
    packed = t.startswith('<{')
    m = re.match(r'^<?\{(.*)\}>?$', t)
    if m:
        off, al = 0, 1
        for f in split_top(m.group(1)):
            s, a = tsize(f)
            if packed:
                a = 1
            off = (off + a - 1) // a * a + s
            al = max(al, a)
        return (off + al - 1) // al * al, al
    raise Undecided('type ' + t)


def fields(t):
    """[(offset, type)] of an aggregate."""
    m = re.match(r'^[\[<](\d+) x (.*)[\]>]$', t)
    if m:
        s, _ = tsize(m.group(2))
        return [(i * s, m.group(2)) for i in range(int(m.group(1)))]
    packed = t.startswith('<{')
    m = re.match(r'^<?\{(.*)\}>?$', t)
    out, off = [], 0
    for f in split_top(m.group(1)):
        s, a = tsize(f)
        if packed:
            a = 1
        off = (off + a - 1) // a * a
        out.append((off, f))
        off += s
    return out


def is_agg(t):
    return t[0] in '{[<'


def split_type(s):
    """Leading type of 'TYPE rest'."""
    s = s.strip()
    if s[0] in '{[<':
        depth = 0
        for i, c in enumerate(s):
            if c in '{[<(':
                depth += 1
            elif c in '}])>':
                depth -= 1
                if depth == 0:
                    return s[:i + 1], s[i + 1:].strip()
    m = re.match(r'[^\s,]+', s)
    return m.group(0), s[m.end():].strip()


ATTR = re.compile(r'^(?:noundef|nonnull|noalias|nofree|readonly|readnone|writeonly|writable|inreg|zeroext|signext|returned|immarg|'
                  r'allocalign|allocptr|dead_on_unwind|dead_on_return|align \d+|captures\([^)]*\)|dereferenceable\(\d+\)|'
                  r'dereferenceable_or_null\(\d+\)|range\([^)]*\)|sret\((?:[^()]|\([^)]*\))*\)|initializes\(\([^)]*\)\)|nocapture)\s+')


def strip_attrs(s):
    while True:
        m = ATTR.match(s)
        if not m:
            return s
        s = s[m.end():]


# ---------------------------------------------------------------- module

class Module:
    def __init__(self, path):
        self.funcs, self.globals, self.gcache = {}, {}, {}
        self.mutable = set()
        self.path = path
        for f in ir.parse_functions(path):
            self.funcs[f.name] = f
        rx = re.compile(r'^@(%s) = .*?\b(constant|global) (.*)$' % NAME)
        with open(path) as f:
            for line in f:
                if line.startswith('@'):
                    m = rx.match(line)
                    if m:
                        self.globals[unq(m.group(1))] = m.group(3)
                        if m.group(2) == 'global':
                            self.mutable.add(unq(m.group(1)))
        self.dec = {}

    def global_cells(self, name):
        r = self.gcache.get(name)
        if r is None:
            cells = {}
            size = 0
            try:
                t, rest = split_type(self.globals[name])
                size = tsize(t)[0]
                self.const_cells(t, split_top(rest)[0] if rest else '', 0, cells)
            except (KeyError, Undecided, IndexError, AttributeError):
                cells = None
            r = self.gcache[name] = (size, cells)
        return r

    def const_cells(self, t, v, off, cells):
        v = v.strip()
        if v.startswith('c"'):
            i, k = 2, 0
            while v[i] != '"':
                if v[i] == '\\':
                    cells[off + k] = (1, int(v[i + 1:i + 3], 16))
                    i += 3
                else:
                    cells[off + k] = (1, ord(v[i]))
                    i += 1
                k += 1
        elif v.startswith('zeroinitializer'):
            for k in range(tsize(t)[0]):
                cells[off + k] = (1, 0)
        elif v.startswith('undef') or v.startswith('poison'):
            pass
        elif is_agg(t):
            body = re.match(r'^[<\[{]+(.*?)[\]}>]+$', v).group(1)
            body = v[2:-2] if v.startswith('<{') else v[1:-1]
            for (o, ft), e in zip(fields(t), split_top(body)):
                et, ev = split_type(e)
                self.const_cells(ft, ev, off + o, cells)
        else:
            s = tsize(t)[0]
            val = parse_const(t, v)
            if val is None:
                val = TOP
            if isinstance(val, int) and not isinstance(val, bool):
                for k in range(s):
                    cells[off + k] = (1, val >> 8 * k & 255)
            else:
                cells[off] = (s, val)


def parse_const(t, v):
    """Value of a constant operand, None if it is a local name."""
    v = v.strip()
    if v.startswith('%'):
        return None
    if re.match(r'^-?\d+$', v):
        w = INT.match(t)
        return int(v) & (1 << int(w.group(1))) - 1 if w else TOP
    if v in ('true', 'false'):
        return int(v == 'true')
    if v == 'null':
        return 0
    if v in ('undef', 'poison'):
        return agg_fill(t, UNINIT) if is_agg(t) else UNINIT
    if v == 'zeroinitializer':
        return agg_fill(t, 0) if is_agg(t) else 0
    if v.startswith('@'):
        m = re.match(r'^@(%s)$' % NAME, v)
        return ('p', 'g:' + unq(m.group(1)), 0) if m else TOP
    m = re.match(r'^inttoptr \(i64 (-?\d+) to ptr\)$', v)
    if m:
        return int(m.group(1)) & (1 << 64) - 1
    m = re.match(r'^getelementptr (?:inbounds |nuw |nusw )*\((\S+), ptr @(%s), i64 (\d+)\)$' % NAME, v)
    if m:
        return ('p', 'g:' + unq(m.group(2)), int(m.group(3)) * tsize(m.group(1))[0])
    m = re.match(r'^ptrtoint \(ptr @(%s) to i64\)$' % NAME, v)
    if m:
        return ('p', 'g:' + unq(m.group(1)), 0)
    if is_agg(t) and v[0] in '{[<':
        body = v[2:-2] if v.startswith('<{') else v[1:-1]
        out = []
        for (o, ft), e in zip(fields(t), split_top(body)):
            et, ev = split_type(e)
            x = parse_const(ft, ev)
            if x is None:
                return None
            out.append(x)
        return ('agg', tuple(out))
    return TOP


def agg_fill(t, x):
    return ('agg', tuple(agg_fill(ft, x) if is_agg(ft) else x for _, ft in fields(t)))


# ---------------------------------------------------------------- decoded instructions

def decode(ins):
    """Tuple form of an instruction, cached by the caller."""
    t, op = ins.text, ins.op
    if op in ('add', 'sub', 'mul', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'udiv', 'urem', 'sdiv', 'srem'):
        m = re.match(r'^\w+ (?:nuw |nsw |exact |disjoint |samesign )*(\S+) (\S+), (\S+)$', t)
        if m and INT.match(m.group(1)):
            return ('bin', op, int(m.group(1)[1:]), opnd(m.group(1), m.group(2)), opnd(m.group(1), m.group(3)))
        return ('top',)
    if op == 'icmp':
        m = re.match(r'^icmp (?:samesign )?(\w+) (\S+) (.*)$', t)
        a, b = split_top(m.group(3))
        w = int(m.group(2)[1:]) if INT.match(m.group(2)) else 64
        return ('icmp', m.group(1), w, opnd(m.group(2), a), opnd(m.group(2), b))
    if op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze'):
        if op == 'freeze':
            ty, v = split_type(t[7:])
            return ('freeze', opnd(ty, v))
        m = re.match(r'^\w+ (?:nneg |nuw |nsw )*(\S+) (.*) to (\S+)$', t)
        a = int(m.group(1)[1:]) if INT.match(m.group(1)) else 64
        b = int(m.group(3)[1:]) if INT.match(m.group(3)) else 64
        return ('cast', op, a, b, opnd(m.group(1), m.group(2)))
    if op == 'load':
        m = re.match(r'^load (?:volatile |atomic )*(.*)$', t)
        ty, rest = split_type(m.group(1).lstrip())
        rest = rest.lstrip(', ')
        p = split_top(rest)[0]
        return ('load', ty, opnd('ptr', split_type(p)[1]))
    if op == 'store':
        ty, rest = split_type(t[6:])
        parts = split_top(rest)
        return ('store', ty, opnd(ty, parts[0]), opnd('ptr', split_type(parts[1])[1]))
    if op == 'getelementptr':
        m = re.match(r'^getelementptr (?:inbounds |nuw |nusw |inrange\([^)]*\) )*(.*)$', t)
        ty, rest = split_type(m.group(1))
        ty = ty.rstrip(',')
        parts = split_top(rest.lstrip(', '))
        base = opnd('ptr', split_type(parts[0])[1])
        idx = []
        for p in parts[1:]:
            it, iv = split_type(p)
            idx.append((int(it[1:]), opnd(it, iv)))
        return ('gep', ty, base, idx)
    if op == 'select':
        parts = split_top(t[7:])
        c = opnd('i1', split_type(parts[0])[1])
        ta, a = split_type(parts[1])
        tb, b = split_type(parts[2])
        return ('select', c, opnd(ta, a), opnd(tb, b))
    if op == 'phi':
        ty, rest = split_type(t[4:])
        src = {}
        for e in split_top(rest):
            m = re.match(r'^\[ (.*), %(\S+) \]$', e)
            src[unq(m.group(2))] = opnd(ty, m.group(1))
        return ('phi', src)
    if op == 'extractvalue':
        ty, rest = split_type(t[13:])
        parts = split_top(rest)
        return ('extract', opnd(ty, parts[0]), [int(x) for x in parts[1:]])
    if op == 'insertvalue':
        ty, rest = split_type(t[12:])
        parts = split_top(rest)
        et, ev = split_type(parts[1])
        return ('insert', opnd(ty, parts[0]), opnd(et, ev), [int(x) for x in parts[2:]])
    if op == 'br':
        m = re.match(r'^br i1 (\S+), label %(\S+), label %(\S+)$', t)
        if m:
            return ('cbr', opnd('i1', m.group(1)), unq(m.group(2).rstrip(',')), unq(m.group(3)))
        m = re.match(r'^br label %(\S+)$', t)
        return ('br', unq(m.group(1)))
    if op == 'switch':
        m = re.match(r'^switch (\S+) (\S+), label %(\S+) \[(.*)\]$', t)
        cases = {}
        w = int(m.group(1)[1:])
        for c in re.finditer(r'i\d+ (-?\d+), label %%(%s)' % NAME, m.group(4)):
            cases[int(c.group(1)) & (1 << w) - 1] = unq(c.group(2))
        return ('switch', opnd(m.group(1), m.group(2)), unq(m.group(3)), cases)
    if op == 'ret':
        if t == 'ret void':
            return ('ret', None)
        ty, v = split_type(t[4:])
        return ('ret', opnd(ty, v))
    if op == 'resume':
        return ('resume',)
    if op == 'unreachable':
        return ('unreachable',)
    if op == 'landingpad':
        return ('landingpad',)
    if op == 'alloca':
        m = re.match(r'^alloca (.*?)(?:, align (\d+))?$', t)
        return ('alloca', tsize(split_top(m.group(1))[0])[0])
    if op in ('call', 'invoke'):
        args = []
        for a in ins.args:
            ty, v = split_type(a)
            if ty == 'metadata':
                args.append(('k', TOP))
                continue
            args.append(opnd(ty, strip_attrs(v + ' ').strip()))
        dest = None
        if op == 'invoke':
            m = re.search(r'to label %%(%s) unwind label %%(%s)' % (NAME, NAME), t)
            dest = (unq(m.group(1)), unq(m.group(2)))
        via = None
        if ins.callee is None:
            m = re.search(r'%%(%s)\(' % NAME, t)
            via = opnd('ptr', '%' + m.group(1)) if m else None
        return ('call', ins.callee, args, dest, via)
    return ('top',)


def opnd(t, v):
    c = parse_const(t, v)
    if c is not None:
        return ('k', c)
    m = re.match(r'^%%(%s)$' % NAME, v.strip())
    if m is None:
        return ('k', TOP)
    return ('v', unq(m.group(1)))


# ---------------------------------------------------------------- abstract state

class State:
    __slots__ = ('frames', 'mem', 'info', 'tok', 'leak', 'n', 'reach', 'trail', 'users', 'rec')

    def copy(self):
        s = State()
        s.frames = [[f[0], f[1], f[2], f[3], dict(f[4]), f[5], f[6]] for f in self.frames]
        s.mem = {k: dict(v) for k, v in self.mem.items()}
        s.info = {k: list(v) for k, v in self.info.items()}
        s.tok = dict(self.tok)
        s.leak, s.n, s.reach = self.leak, self.n, set(self.reach)
        s.trail, s.users, s.rec = list(self.trail), self.users, self.rec[-2000:]
        return s


LIFE = re.compile(r'^life_')
ABORT = re.compile(r'panic_cannot_unwind|panic_in_cleanup|panic_nounwind|llvm\.trap|abort')


class Run:
    def __init__(self, mod, entry, claim, reach):
        self.mod, self.entry = mod, entry
        self.claim, self.reachrx = claim, reach
        self.bad = {}
        self.paths = self.events = 0
        self.reached = set()
        self.dec = mod.dec
        self.unknown = set()

    # memory -------------------------------------------------------
    def cells(self, st, p, size, what):
        if not (isinstance(p, tuple) and p[0] == 'p'):
            if p == TOP:
                raise Undecided('%s through an unknown pointer' % what)
            if size == 0:
                return None, 0
            raise Bad('%s through a dangling or uninitialised pointer' % what)
        obj, off = p[1], p[2]
        if obj.startswith('g:'):
            if obj in st.mem:
                return st.mem[obj], off
            gsize, cells = self.mod.global_cells(obj[2:])
            return cells, off
        inf = st.info[obj]
        if not inf[1]:
            raise Bad('%s after the memory was freed' % what)
        if off < 0 or off + size > inf[0]:
            raise Bad('%s outside of the allocation (offset %d, size %d of %d)' % (what, off, size, inf[0]))
        return st.mem[obj], off

    def rd(self, st, p, size):
        cells, off = self.cells(st, p, size, 'read')
        if size == 0:
            return UNINIT
        if cells is None:
            return TOP
        c = cells.get(off)
        if c is not None and c[0] == size:
            return c[1]
        # assemble bytes
        val, k = 0, 0
        while k < size:
            c = cells.get(off + k)
            if c is None:
                # inside a larger cell?
                for b in range(1, 16):
                    d = cells.get(off + k - b)
                    if d is not None:
                        if d[0] > b:
                            if isinstance(d[1], int):
                                c = (1, d[1] >> 8 * b & 255)
                            else:
                                return d[1] if d[1] == UNINIT else TOP
                        break
                if c is None:
                    return UNINIT
            if c[0] > size - k:
                if not isinstance(c[1], int):
                    return UNINIT if c[1] == UNINIT else TOP
                c = (size - k, c[1] & (1 << 8 * (size - k)) - 1)
            if not isinstance(c[1], int):
                return UNINIT if c[1] == UNINIT else TOP
            val |= c[1] << 8 * k
            k += c[0]
        return val

    def wr(self, st, p, size, v):
        if isinstance(p, tuple) and p[0] == 'p' and p[1].startswith('g:'):
            obj = p[1]
            if obj not in st.mem:
                gsize, cells = self.mod.global_cells(obj[2:])
                if obj[2:] not in self.mod.mutable or cells is None:
                    raise Bad('write to a constant')
                st.mem[obj] = dict(cells)
        cells, off = self.cells(st, p, size, 'write')
        if size:
            self.clear(cells, off, size)
            if v != UNINIT:
                cells[off] = (size, v)

    def clear(self, cells, off, size):
        for b in range(1, 16):
            d = cells.get(off - b)
            if d is not None:
                if d[0] > b:
                    del cells[off - b]
                    for k in range(d[0]):
                        if not off <= off - b + k < off + size:
                            cells[off - b + k] = (1, d[1] >> 8 * k & 255 if isinstance(d[1], int) else TOP)
                break
        for k in range(size):
            d = cells.pop(off + k, None)
            if d is not None and k + d[0] > size:
                for j in range(size - k, d[0]):
                    cells[off + k + j] = (1, d[1] >> 8 * j & 255 if isinstance(d[1], int) else TOP)

    def load(self, st, t, p):
        if is_agg(t) and not t.startswith('<') or t.startswith('<') and is_agg(t):
            return ('agg', tuple(self.load(st, ft, add(p, o)) for o, ft in fields(t)))
        m = INT.match(t)
        v = self.rd(st, p, tsize(t)[0])
        if m and isinstance(v, int):
            v &= (1 << int(m.group(1))) - 1
        return v

    def store(self, st, t, p, v):
        if is_agg(t):
            for i, (o, ft) in enumerate(fields(t)):
                self.store(st, ft, add(p, o), v[1][i] if isinstance(v, tuple) and v[0] == 'agg' else v)
            return
        self.wr(st, p, tsize(t)[0], v)

    def copymem(self, st, d, s, n):
        if not isinstance(n, int):
            raise Undecided('copy of unknown size')
        if n == 0:
            return
        src, so = self.cells(st, s, n, 'copy')
        dst, do = self.cells(st, d, n, 'copy')
        got = []
        if src is None:
            got = [(0, (n, TOP))]
        else:
            k = 0
            while k < n:
                c = src.get(so + k)
                if c is None:
                    k += 1
                    continue
                if k + c[0] > n:
                    c = (n - k, c[1] & (1 << 8 * (n - k)) - 1 if isinstance(c[1], int) else TOP)
                got.append((k, c))
                k += c[0]
            # a cell that starts before the range
            for b in range(1, 16):
                c = src.get(so - b)
                if c is not None:
                    if c[0] > b:
                        for j in range(b, min(c[0], b + n)):
                            got.append((j - b, (1, c[1] >> 8 * j & 255 if isinstance(c[1], int) else TOP)))
                    break
        self.clear(dst, do, n)
        for k, c in got:
            dst[do + k] = c

    # evaluation ---------------------------------------------------
    def val(self, f, o):
        return o[1] if o[0] == 'k' else f[4].get(o[1], TOP)

    def new_obj(self, st, kind, size):
        st.n += 1
        name = '%s%d' % (kind, st.n)
        st.mem[name] = {}
        st.info[name] = [size, True, kind]
        return ('p', name, 0)

    def start(self):
        st = State()
        st.frames, st.mem, st.info, st.tok, st.leak, st.n, st.reach, st.trail = [], {}, {}, {}, False, 0, set(), []
        st.users, st.rec = 0, []
        self.enter(st, self.mod.funcs[self.entry], [], None)
        return st

    def enter(self, st, fn, args, res):
        env = dict(zip(fn.params, args))
        st.frames.append([fn, fn.order[0], None, 0, env, [], res])
        if len(st.frames) > 60:
            raise Undecided('call depth')

    def report(self, msg, ins, st):
        key = (msg, ins.dbg if ins is not None else None)
        self.bad.setdefault(key, st.rec[-2500:][::-1])

    def finish(self, st, ins, how):
        """The witness is left (normally or by a panic): everything must have ended."""
        self.paths += 1
        self.reached |= st.reach
        if st.leak:
            return
        live = [t for t, s in st.tok.items() if s[0] == 'live']
        if live:
            self.report('%d element(s) never dropped when %s%s' % (len(live), how, self.path_text(st)), ins, st)
        heap = [o for o, i in st.info.items() if i[2] == 'heap' and i[1]]
        if heap:
            self.report('%d allocation(s) never freed when %s%s' % (len(heap), how, self.path_text(st)), ins, st)

    def path_text(self, st):
        if not st.trail:
            return ''
        return ' (panic in call %s into user code)' % ', '.join('#%d' % k for k in st.trail)

    def unwind(self, st, ins):
        while st.frames:
            f = st.frames[-1]
            cur = f[0].blocks[f[1]].instrs[f[3]]
            if cur.op == 'invoke':
                d = self.decoded(cur)
                self.jump(st, d[3][1])
                return True
            self.leave(st)
        self.finish(st, ins, 'unwinding')
        return False

    def leave(self, st):
        f = st.frames.pop()
        for o in f[5]:
            st.info[o][1] = False
            st.mem[o] = {}

    def jump(self, st, label):
        f = st.frames[-1]
        f[2], f[1], f[3] = f[1], label, 0
        blk = f[0].blocks[label]
        new = {}
        for ins in blk.instrs:
            if ins.op != 'phi':
                break
            new[ins.res] = self.val(f, self.decoded(ins)[1][f[2]])
            f[3] += 1
        f[4].update(new)

    def decoded(self, ins):
        d = self.dec.get(id(ins))
        if d is None:
            d = self.dec[id(ins)] = decode(ins)
        return d

    def run(self):
        work = [self.start()]
        forks = 0
        while work:
            st = work.pop()
            try:
                self.follow(st, work)
            except Bad as e:
                f = st.frames[-1]
                self.report(e.msg + ('' if self.claim.match(e.msg) else self.path_text(st)), f[0].blocks[f[1]].instrs[min(f[3], len(f[0].blocks[f[1]].instrs) - 1)], st)
            forks += 1
            if forks > MAX_PATHS:
                raise Undecided('too many paths')
        return self

    def follow(self, st, work):
        steps = 0
        while True:
            steps += 1
            if steps > MAX_STEPS:
                raise Undecided('path too long')
            f = st.frames[-1]
            ins = f[0].blocks[f[1]].instrs[f[3]]
            d = self.decoded(ins)
            k = d[0]
            if ins.dbg is not None and (not st.rec or st.rec[-1] != ins.dbg):
                st.rec.append(ins.dbg)
            if k == 'bin':
                f[4][ins.res] = arith(d[1], d[2], self.val(f, d[3]), self.val(f, d[4]))
            elif k == 'icmp':
                f[4][ins.res] = compare(d[1], d[2], self.val(f, d[3]), self.val(f, d[4]))
            elif k == 'cast':
                v = self.val(f, d[4])
                if isinstance(v, int):
                    if d[1] == 'sext' and v >> d[2] - 1 & 1:
                        v |= (1 << d[3]) - (1 << d[2])
                    v &= (1 << d[3]) - 1
                elif d[1] in ('trunc', 'sext') and v != UNINIT:
                    v = TOP if d[3] < 64 or not isinstance(v, tuple) or v[0] != 'p' else v
                f[4][ins.res] = v
            elif k == 'freeze':
                v = self.val(f, d[1])
                f[4][ins.res] = TOP if v == UNINIT else v
            elif k == 'load':
                f[4][ins.res] = self.load(st, d[1], self.val(f, d[2]))
            elif k == 'store':
                self.store(st, d[1], self.val(f, d[3]), self.val(f, d[2]))
            elif k == 'gep':
                f[4][ins.res] = self.gep(f, d)
            elif k == 'select':
                c = self.val(f, d[1])
                if isinstance(c, int):
                    f[4][ins.res] = self.val(f, d[2] if c else d[3])
                elif c == UNINIT:
                    f[4][ins.res] = UNINIT
                else:
                    a, b = self.val(f, d[2]), self.val(f, d[3])
                    if a == b:
                        f[4][ins.res] = a
                    else:
                        other = st.copy()
                        other.frames[-1][4][ins.res] = b
                        other.frames[-1][3] += 1
                        work.append(other)
                        f[4][ins.res] = a
            elif k == 'extract':
                v = self.val(f, d[1])
                for i in d[2]:
                    v = v[1][i] if isinstance(v, tuple) and v[0] == 'agg' else v
                f[4][ins.res] = v
            elif k == 'insert':
                f[4][ins.res] = insert(self.val(f, d[1]), self.val(f, d[2]), d[3])
            elif k == 'br':
                self.jump(st, d[1])
                continue
            elif k == 'cbr':
                c = self.val(f, d[1])
                if isinstance(c, int):
                    self.jump(st, d[2] if c else d[3])
                    continue
                if c == UNINIT:
                    raise Bad('branch on uninitialised memory')
                other = st.copy()
                self.jump(other, d[3])
                work.append(other)
                self.jump(st, d[2])
                continue
            elif k == 'switch':
                c = self.val(f, d[1])
                if isinstance(c, int):
                    self.jump(st, d[3].get(c, d[2]))
                    continue
                if c == UNINIT:
                    raise Bad('branch on uninitialised memory')
                for lab in set(d[3].values()):
                    other = st.copy()
                    self.jump(other, lab)
                    work.append(other)
                self.jump(st, d[2])
                continue
            elif k == 'ret':
                v = self.val(f, d[1]) if d[1] is not None else None
                self.leave(st)
                if not st.frames:
                    self.finish(st, ins, 'returning')
                    return
                if not self.returned(st, v):
                    return
                continue
            elif k == 'resume':
                self.leave(st)
                if not st.frames:
                    self.finish(st, ins, 'unwinding')
                    return
                if not self.unwind(st, ins):
                    return
                continue
            elif k == 'unreachable':
                raise Bad('a point declared unreachable is reached')
            elif k == 'landingpad':
                f[4][ins.res] = ('agg', (TOP, 1))
            elif k == 'alloca':
                p = self.new_obj(st, 'stack', d[1])
                f[5].append(p[1])
                f[4][ins.res] = p
            elif k == 'call':
                r = self.call(st, f, ins, d, work)
                if r == 'stop':
                    return
                if r == 'jumped':
                    continue
            else:
                if ins.res is not None:
                    f[4][ins.res] = TOP
            f[3] += 1

    def returned(self, st, v):
        """Continue the caller after a return."""
        f = st.frames[-1]
        ins = f[0].blocks[f[1]].instrs[f[3]]
        if ins.res is not None:
            f[4][ins.res] = v
        d = self.decoded(ins)
        if d[3] is not None:
            self.jump(st, d[3][0])
        else:
            f[3] += 1
        return True

    def gep(self, f, d):
        p = self.val(f, d[2])
        off, t = 0, d[1]
        for n, (w, o) in enumerate(d[3]):
            i = self.val(f, o)
            if not isinstance(i, int):
                return UNINIT if i == UNINIT else TOP
            if i >> w - 1:
                i -= 1 << w
            if n == 0:
                off += i * tsize(t)[0]
            elif t.startswith('[') or t.startswith('<') and not t.startswith('<{'):
                t = fields(t)[0][1] if fields(t) else 'i8'
                off += i * tsize(t)[0]
            else:
                o2, t = fields(t)[i]
                off += o2
        return add(p, off)

    def call(self, st, f, ins, d, work):
        name, args, dest = d[1], d[2], d[3]

        def done(v=None):
            if ins.res is not None:
                f[4][ins.res] = v if v is not None else TOP
            if dest is not None:
                self.jump(st, dest[0])
                return 'jumped'
            return None
        if name is None:
            v = self.val(f, d[4]) if d[4] is not None else TOP
            if not (isinstance(v, tuple) and v[0] == 'p' and v[1].startswith('g:') and v[2] == 0):
                raise Undecided('call through an unknown pointer')
            name = v[1][2:]
        a = [self.val(f, x) for x in args]
        if name in self.mod.funcs:
            self.enter(st, self.mod.funcs[name], a, ins)
            return 'jumped'
        if name.startswith('llvm.'):
            return self.intrinsic(st, f, ins, name, a, done)
        if LIFE.match(name):
            self.events += 1
            if name == 'life_fresh':
                st.n += 1
                t = ('t', st.n)
                st.tok[t] = ('live', None)
                return done(t)
            if name == 'life_value':
                st.n += 1
                return done(('t', -st.n))
            if name == 'life_choice':
                other = st.copy()
                other.frames[-1][4][ins.res] = 1
                if dest is not None:
                    self.jump(other, dest[0])
                else:
                    other.frames[-1][3] += 1
                work.append(other)
                return done(0)
            if name == 'life_end':
                self.element(st, a[0], 'dropped')
                st.tok[a[0]] = ('ended', ins.dbg)
                return done()
            if name == 'life_use':
                self.element(st, a[0], 'used')
                return done()
            if name == 'life_may_leak':
                st.leak = True
                return done()
            if name in ('life_user', 'life_user_drop'):
                other = st.copy()
                other.trail.append(st.users)
                st.users += 1
                other.users = st.users
                if name == 'life_user_drop':
                    other.leak = True
                if self.unwind(other, ins):
                    work.append(other)
                return done()
        if self.claim.match(name):
            raise Bad(name)
        if self.reachrx.match(name):
            st.reach.add(name)
            return done()
        if re.search(r'___?rust_alloc(_zeroed)?$|___rust_alloc$', name) or re.search(r'__rust_alloc(_zeroed)?$', name):
            if not isinstance(a[0], int):
                raise Undecided('allocation of unknown size')
            p = self.new_obj(st, 'heap', a[0])
            if name.endswith('zeroed'):
                for k in range(a[0]):
                    st.mem[p[1]][k] = (1, 0)
            return done(p)
        if name.endswith('__rust_dealloc'):
            self.free(st, a[0], a[1])
            return done()
        if name.endswith('__rust_realloc'):
            p = self.new_obj(st, 'heap', a[3])
            self.copymem(st, p, a[0], min(a[1], a[3]))
            self.free(st, a[0], a[1])
            return done(p)
        if 'no_alloc_shim' in name:
            return done()
        if name in ('memcmp', 'bcmp'):
            if a[2] == 0:
                return done(0)
            for k in range(a[2]):
                x, y = self.rd(st, add(a[0], k), 1), self.rd(st, add(a[1], k), 1)
                if not isinstance(x, int) or not isinstance(y, int):
                    return done()
                if x != y:
                    return done((x - y) & 0xffffffff)
            return done(0)
        if ABORT.search(name):
            self.paths += 1
            return 'stop'
        if name in ('_Unwind_Resume',):
            self.leave(st)
            if not st.frames:
                self.finish(st, ins, 'unwinding')
                return 'stop'
            return 'jumped' if self.unwind(st, ins) else 'stop'
        # a panic: does not return
        blk = f[0].blocks[f[1]]
        nxt = f[0].blocks[dest[0]].instrs[0] if dest else (blk.instrs[f[3] + 1] if f[3] + 1 < len(blk.instrs) else None)
        if nxt is not None and nxt.op == 'unreachable':
            return 'jumped' if self.unwind(st, ins) else 'stop'
        if re.search(r'3fmt.*format_inner|3fmt6format', name) and a:
            # alloc::fmt::format: some string (the text is never looked at)
            self.wr(st, a[0], 8, 0)
            self.wr(st, add(a[0], 8), 8, TOP)
            self.wr(st, add(a[0], 16), 8, TOP)
            return done()
        # any other function outside the program: it may write wherever it was given a pointer to
        self.unknown.add(name)
        todo, seen = list(a), set()
        while todo:
            p = todo.pop()
            if isinstance(p, tuple) and p[0] == 'p' and not p[1].startswith('g:') and p[1] not in seen and st.info[p[1]][1]:
                seen.add(p[1])
                todo += [c[1] for c in st.mem[p[1]].values()]
                st.mem[p[1]] = {k: (1, TOP) for k in range(st.info[p[1]][0])}
        return done()

    def element(self, st, t, what):
        if isinstance(t, tuple) and t[0] == 't' and t in st.tok:
            if st.tok[t][0] == 'ended':
                raise Bad('an element is %s after it was dropped' % what)
            return
        if t == TOP:
            raise Undecided('element of unknown identity')
        raise Bad('uninitialised memory is %s as an element' % what)

    def free(self, st, p, size):
        if not (isinstance(p, tuple) and p[0] == 'p') or p[1].startswith('g:') or st.info[p[1]][2] != 'heap':
            raise Bad('memory is freed that was not allocated')
        inf = st.info[p[1]]
        if not inf[1]:
            raise Bad('memory is freed twice')
        if p[2] != 0 or size != inf[0]:
            raise Bad('memory is freed with a size of %s instead of %s' % (size, inf[0]))
        inf[1] = False
        st.mem[p[1]] = {}

    def intrinsic(self, st, f, ins, name, a, done):
        if name.startswith(('llvm.memcpy', 'llvm.memmove')):
            self.copymem(st, a[0], a[1], a[2])
            return done()
        if name.startswith('llvm.memset'):
            if not isinstance(a[2], int):
                raise Undecided('fill of unknown size')
            for k in range(a[2]):
                self.wr(st, add(a[0], k), 1, a[1])
            return done()
        if name.startswith('llvm.lifetime'):
            p = a[-1]
            if isinstance(p, tuple) and p[0] == 'p' and p[1] in st.mem:
                st.mem[p[1]] = {}
            return done()
        if name.startswith('llvm.expect'):
            return done(a[0])
        m = re.match(r'^llvm\.([us])(add|sub|mul)\.with\.overflow\.i(\d+)$', name)
        if m:
            w = int(m.group(3))
            if isinstance(a[0], int) and isinstance(a[1], int):
                x, y = a[0], a[1]
                if m.group(1) == 's':
                    x, y = signed(x, w), signed(y, w)
                r = x + y if m.group(2) == 'add' else x - y if m.group(2) == 'sub' else x * y
                lo, hi = (0, (1 << w) - 1) if m.group(1) == 'u' else (-(1 << w - 1), (1 << w - 1) - 1)
                return done(('agg', (r & (1 << w) - 1, int(not lo <= r <= hi))))
            if UNINIT in a:
                return done(('agg', (UNINIT, UNINIT)))
            return done(('agg', (TOP, TOP)))
        m = re.match(r'^llvm\.(umin|umax|smin|smax|usub\.sat|uadd\.sat)\.i(\d+)$', name)
        if m:
            w = int(m.group(2))
            if not (isinstance(a[0], int) and isinstance(a[1], int)):
                return done(UNINIT if UNINIT in a else TOP)
            k, x, y = m.group(1), a[0], a[1]
            if k == 'umin':
                r = min(x, y)
            elif k == 'umax':
                r = max(x, y)
            elif k in ('smin', 'smax'):
                r = (min if k == 'smin' else max)(signed(x, w), signed(y, w)) & (1 << w) - 1
            elif k == 'usub.sat':
                r = max(0, x - y)
            else:
                r = min((1 << w) - 1, x + y)
            return done(r)
        m = re.match(r'^llvm\.([us])cmp\.i(\d+)\.i(\d+)$', name)
        if m:
            x, y = a[0], a[1]
            if not (isinstance(x, int) and isinstance(y, int)):
                return done(UNINIT if UNINIT in a else TOP)
            if m.group(1) == 's':
                x, y = signed(x, int(m.group(3))), signed(y, int(m.group(3)))
            return done(((x > y) - (x < y)) & (1 << int(m.group(2))) - 1)
        m = re.match(r'^llvm\.(abs|bswap|bitreverse|sadd\.sat|ssub\.sat|fshl|fshr)\.i(\d+)$', name)
        if m:
            k, w = m.group(1), int(m.group(2))
            n = 2 if k.endswith('.sat') else 3 if k.startswith('fsh') else 1
            if not all(isinstance(x, int) for x in a[:n]):
                return done(UNINIT if UNINIT in a[:n] else TOP)
            x = signed(a[0], w)
            if k == 'abs':
                r = abs(x)
            elif k == 'bswap':
                r = int.from_bytes(a[0].to_bytes(w // 8, 'little'), 'big')
            elif k == 'bitreverse':
                r = int(format(a[0], '0%db' % w)[::-1], 2)
            elif n == 2:
                y = signed(a[1], w)
                r = max(-(1 << w - 1), min((1 << w - 1) - 1, x + y if k == 'sadd.sat' else x - y))
            else:
                both, sh = a[0] << w | a[1], a[2] % w
                r = both >> (w - sh if k == 'fshl' else sh)
            return done(r & (1 << w) - 1)
        if name.startswith('llvm.trap'):
            self.paths += 1
            return 'stop'
        if name.startswith('llvm.ctpop') and isinstance(a[0], int):
            return done(bin(a[0]).count('1'))
        m = re.match(r'^llvm\.(ctlz|cttz)\.i(\d+)$', name)
        if m and isinstance(a[0], int):
            w = int(m.group(2))
            b = format(a[0], '0%db' % w)
            return done(len(b) - len(b.lstrip('0')) if m.group(1) == 'ctlz' else len(b) - len(b.rstrip('0')))
        if name.startswith(('llvm.assume', 'llvm.experimental', 'llvm.dbg')):
            return done()
        return done()


def signed(x, w):
    return x - (1 << w) if x >> w - 1 else x


def add(p, off):
    if isinstance(p, tuple) and p[0] == 'p':
        return ('p', p[1], p[2] + off)
    if isinstance(p, int):
        return p + off & (1 << 64) - 1
    return p


def insert(agg, v, idx):
    if not (isinstance(agg, tuple) and agg[0] == 'agg'):
        return TOP
    items = list(agg[1])
    items[idx[0]] = v if len(idx) == 1 else insert(items[idx[0]], v, idx[1:])
    return ('agg', tuple(items))


def arith(op, w, x, y):
    M = (1 << w) - 1
    if isinstance(x, int) and isinstance(y, int):
        if op == 'add':
            return x + y & M
        if op == 'sub':
            return x - y & M
        if op == 'mul':
            return x * y & M
        if op == 'and':
            return x & y
        if op == 'or':
            return x | y
        if op == 'xor':
            return x ^ y
        if op in ('shl', 'lshr', 'ashr'):
            if y >= w:
                return UNINIT
            if op == 'shl':
                return x << y & M
            if op == 'lshr':
                return x >> y
            return signed(x, w) >> y & M
        if y == 0:
            raise Bad('division by zero')
        if op == 'udiv':
            return x // y
        if op == 'urem':
            return x % y
        a, b = signed(x, w), signed(y, w)
        q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
        return (q if op == 'sdiv' else a - q * b) & M
    if op == 'and' and 0 in (x, y) or op == 'mul' and 0 in (x, y):
        return 0
    px = isinstance(x, tuple) and x[0] == 'p'
    py = isinstance(y, tuple) and y[0] == 'p'
    if px and py and op == 'sub' and x[1] == y[1]:
        return x[2] - y[2] & M
    if px and isinstance(y, int):
        if op in ('add', 'sub'):
            return ('p', x[1], x[2] + signed(y, w) if op == 'add' else x[2] - signed(y, w))
        if op == 'and' and y < 16:
            return x[2] & y
    if py and isinstance(x, int) and op == 'add':
        return ('p', y[1], y[2] + signed(x, w))
    if UNINIT in (x, y):
        return UNINIT
    return TOP


def compare(pred, w, x, y):
    if isinstance(x, int) and isinstance(y, int):
        if pred[0] == 's':
            x, y = signed(x, w), signed(y, w)
    elif UNINIT in (x, y):
        return UNINIT
    elif isinstance(x, tuple) and isinstance(y, tuple) and x[0] == 'p' == y[0] and x[1] == y[1]:
        x, y = x[2], y[2]
    elif isinstance(x, tuple) and isinstance(y, tuple) and x[0] == 't' == y[0] and pred in ('eq', 'ne'):
        return int((x == y) == (pred == 'eq'))
    elif pred in ('eq', 'ne') and x != TOP and y != TOP and (x[0] == 'p' if isinstance(x, tuple) else x == 0 or True) \
            and {isinstance(x, tuple) and x[0] == 'p', isinstance(y, tuple) and y[0] == 'p'} & {True} \
            and (isinstance(x, int) or x[0] == 'p') and (isinstance(y, int) or y[0] == 'p'):
        # distinct objects, or an object and a small integer
        return int(pred == 'ne')
    elif isinstance(x, tuple) and x[0] == 'p' and isinstance(y, int):
        # addresses are somewhere in the middle of the positive range
        x = 1 << 40
        if y > 1 << 32 and y < 1 << 56:
            return TOP
    elif isinstance(y, tuple) and y[0] == 'p' and isinstance(x, int):
        y = 1 << 40
        if x > 1 << 32 and x < 1 << 56:
            return TOP
    else:
        return TOP
    return int({'eq': x == y, 'ne': x != y, 'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y,
                'slt': x < y, 'sle': x <= y, 'sgt': x > y, 'sge': x >= y}[pred])


def check(mod, entry, claim, reach, node, root='/repo'):
    r = Run(mod, entry, claim, reach)
    bad = []
    try:
        r.run()
    except Undecided as e:
        bad.append(('life:the life cycle cannot be decided: %s' % e, [], []))
    for (msg, dbg), rec in r.bad.items():
        if claim.match(msg):
            k = msg
        else:
            k = ('leak:' if 'never' in msg else 'life:') + msg
        bad.append((k, ir.describe(node(), dbg) if dbg else [], ir.library(node(), rec, root)))
    return {'fn': entry, 'paths': r.paths, 'events': r.events, 'bad': bad, 'reach': sorted(r.reached), 'unknown': sorted(r.unknown)}
