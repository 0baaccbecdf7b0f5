"""Parser for the textual LLVM IR that the normaliser leaves behind."""
import re

TOK_NAME = r'(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)'
DEFINE = re.compile(r'^define .*?@(%s)\(' % TOK_NAME)
LABEL = re.compile(r'^(%s):' % TOK_NAME)
ASSIGN = re.compile(r'^\s+%%(%s) = (.*)$' % TOK_NAME)
DBG = re.compile(r'!dbg !(\d+)')


def unq(s):
    return s[1:-1] if s.startswith('"') else s


def split_top(s):
    """Split at top-level commas."""
    out, depth, cur, q = [], 0, [], False
    for ch in s:
        if q:
            cur.append(ch)
            if ch == '"':
                q = False
            continue
        if ch == '"':
            q = True
        if ch in '([{<':
            depth += 1
        elif ch in ')]}>':
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(''.join(cur).strip())
            cur = []
        else:
            cur.append(ch)
    t = ''.join(cur).strip()
    if t:
        out.append(t)
    return out


class Instr:
    __slots__ = ('res', 'op', 'text', 'dbg', 'callee', 'args', 'block', 'idx')

    def __init__(self, res, op, text, dbg):
        self.res, self.op, self.text, self.dbg = res, op, text, dbg
        self.callee = None
        self.args = None


class Block:
    __slots__ = ('name', 'instrs', 'succs', 'preds')

    def __init__(self, name):
        self.name, self.instrs, self.succs, self.preds = name, [], [], []


class Func:
    __slots__ = ('name', 'header', 'blocks', 'order', 'defs', 'params', 'subprogram')


CALL = re.compile(r'(?:call|invoke)\b')
CALLEE = re.compile(r'@(%s)\(' % TOK_NAME)
TARGET = re.compile(r'label %%(%s)' % TOK_NAME)


def find_call(text):
    """Return (callee, [args], rest) for a call/invoke text."""
    m = CALLEE.search(text)
    if m is None:
        # indirect call: %fn( ... )
        m = re.search(r'%%(%s)\(' % TOK_NAME, text)
        if m is None:
            return None, [], ''
        name = None
    else:
        name = unq(m.group(1))
    i = m.end()
    depth, j, q = 1, i, False
    while depth:
        ch = text[j]
        if q:
            if ch == '"':
                q = False
        elif ch == '"':
            q = True
        elif ch == '(':
            depth += 1
        elif ch == ')':
            depth -= 1
        j += 1
    return name, split_top(text[i:j - 1]), text[j:]


def parse_functions(path, want=None):
    """Yield Func objects for the definitions in a file."""
    cur = None
    lines = None
    with open(path) as f:
        for line in f:
            if cur is None:
                if line.startswith('define '):
                    m = DEFINE.match(line)
                    name = unq(m.group(1))
                    if want is None or want(name):
                        cur, lines = name, [line]
                    else:
                        cur, lines = name, None
            else:
                if line.startswith('}'):
                    if lines is not None:
                        yield parse_function(cur, lines)
                    cur = None
                elif lines is not None:
                    lines.append(line)


def parse_function(name, lines):
    fn = Func()
    fn.name = name
    fn.header = lines[0]
    fn.blocks = {}
    fn.order = []
    fn.defs = {}
    m = DEFINE.match(lines[0])
    i = m.end()
    depth, j = 1, i
    h = lines[0]
    while depth:
        if h[j] == '(':
            depth += 1
        elif h[j] == ')':
            depth -= 1
        j += 1
    fn.params = {}
    for p in split_top(h[i:j - 1]):
        k = p.rfind('%')
        if k >= 0:
            fn.params[unq(p[k + 1:])] = p[:k].strip()
    s = re.search(r'!dbg !(\d+)', h)
    fn.subprogram = s.group(1) if s else None
    blk = None
    merged = []
    for line in lines[1:]:
        line = line.rstrip('\n')
        st = line.strip()
        if not st or st.startswith(';') or st.startswith('#dbg'):
            continue
        # join continuation lines (switch tables, landingpad clauses)
        if merged and (merged[-1].count('[') > merged[-1].count(']')):
            merged[-1] += ' ' + st
            continue
        if merged and line.startswith(' ') and re.match(r'(cleanup$|catch |filter )', st):
            merged[-1] += ' ' + st
            continue
        if merged and re.match(r'to label ', st):
            merged[-1] += ' ' + st
            continue
        merged.append(line)
    for line in merged:
        if not line.startswith(' '):
            m = LABEL.match(line)
            if m:
                blk = Block(unq(m.group(1)))
                fn.blocks[blk.name] = blk
                fn.order.append(blk.name)
                continue
        if blk is None:
            blk = Block('entry')
            fn.blocks[blk.name] = blk
            fn.order.append(blk.name)
        d = DBG.search(line)
        dbg = d.group(1) if d else None
        text = re.sub(r', ![a-zA-Z._]+ !\d+', '', line.strip())
        text = re.sub(r', ![a-zA-Z._]+ !\{\}', '', text)
        m = re.match(r'%%(%s) = (.*)$' % TOK_NAME, text)
        res = None
        if m:
            res, text = unq(m.group(1)), m.group(2)
        t = re.sub(r'^(tail|musttail|notail) ', '', text)
        op = t.split(None, 1)[0]
        ins = Instr(res, op, t, dbg)
        ins.block = blk.name
        ins.idx = len(blk.instrs)
        if op in ('call', 'invoke'):
            ins.callee, ins.args, _ = find_call(t)
        blk.instrs.append(ins)
        if res is not None:
            fn.defs[res] = ins
    for b in fn.blocks.values():
        if not b.instrs:
            continue
        t = b.instrs[-1]
        if t.op in ('br', 'switch', 'invoke', 'indirectbr'):
            b.succs = [unq(x) for x in TARGET.findall(t.text)]
    for b in fn.blocks.values():
        for s in b.succs:
            if b.name not in fn.blocks[s].preds:
                fn.blocks[s].preds.append(b.name)
    return fn


def debug_info(path):
    """Maps needed for naming source positions: (locations, scope -> (file, function))."""
    loc, node = {}, {}
    with open(path) as f:
        for line in f:
            if not line.startswith('!'):
                continue
            m = re.match(r'!(\d+) = (?:distinct )?!(DI\w+)\((.*)\)$', line.rstrip('\n'))
            if m:
                node[m.group(1)] = (m.group(2), m.group(3))
    return node


def fields(body):
    out = {}
    for p in split_top(body):
        if ':' in p:
            k, v = p.split(':', 1)
            out[k.strip()] = v.strip()
    return out


def describe(node, dbg):
    """Source positions (innermost first) of a debug location."""
    res, seen = [], 0
    while dbg and seen < 40:
        seen += 1
        n = node.get(dbg)
        if not n or n[0] != 'DILocation':
            break
        f = fields(n[1])
        sc = f.get('scope', '!').lstrip('!')
        file, func = None, None
        k = 0
        while sc in node and k < 20:
            k += 1
            g = fields(node[sc][1])
            if file is None and 'file' in g:
                ff = node.get(g['file'].lstrip('!'))
                if ff:
                    file = fields(ff[1]).get('filename', '').strip('"')
                    d = fields(ff[1]).get('directory', '').strip('"')
                    if d and not file.startswith('/'):
                        file = d + '/' + file
            if node[sc][0] == 'DISubprogram':
                func = g.get('name', '').strip('"')
                break
            sc = g.get('scope', '!').lstrip('!')
        res.append((file, int(f.get('line', '0')), func))
        dbg = f.get('inlinedAt', '').replace('distinct ', '').lstrip('!') or None
    return res


def library(node, dbgs, root, limit=4):
    """Library code among the given debug locations: operations called by the witness, and positions in their order."""
    ops, out, seen = [], [], set()
    for d in dbgs:
        if d is None or d in seen:
            continue
        seen.add(d)
        if len(seen) > 1500:
            break
        fr = [(f, l, n) for f, l, n in describe(node, d) if f and f.startswith(root + '/src/') and l]
        if not fr:
            continue
        f, l, n = fr[-1]
        n = (n or '?').split('<')[0]
        x = '%s(%s)' % (f[len(root) + 1:], n)
        if x not in ops and n not in ('drop', 'from_fn', 'len', 'dim', 'rank', 'as_ptr', 'shape') and len(ops) < limit:
            ops.append(x)
        f, l, n = fr[0]
        x = '%s:%d(%s)' % (f[len(root) + 1:], l, (n or '?').split('<')[0])
        if x not in out and len(out) < 2 * limit:
            out.append(x)
    return [ops, out]


def backwards(fn, start):
    """Debug locations of the instructions that lead to a block, nearest first."""
    seen, work = {start}, [start]
    while work:
        b = work.pop(0)
        for ins in reversed(fn.blocks[b].instrs):
            yield ins.dbg
        for p in fn.blocks[b].preds:
            if p not in seen:
                seen.add(p)
                work.append(p)
