"""Build the witnesses against /repo, normalise the IR and decide what is left."""
import os
import re
import shutil
import subprocess
import tempfile
import time
from concurrent.futures import ProcessPoolExecutor

import ir
import residual
import typestate

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MDARRAY_REPO', '/repo')
THRESH = ['-inline-threshold=100000', '-unroll-threshold=20000', '-inlinecold-threshold=100000',
          '-inline-cold-callsite-threshold=100000', '-inlinehint-threshold=100000', '-vectorize-slp=false',
          '-vectorize-loops=false', '-unroll-max-upperbound=64', '-unroll-full-max-count=64', '-unroll-runtime=false']
CLAIM = re.compile(r'^C\d\d(_C\d\d)*__')
REACH = re.compile(r'^R__')
ENTRY = re.compile(r'^[htd]__')
# calls that can never be a panic of the library: allocation failure and size limits of the allocator
ALLOWED = re.compile(r'(__rust_(no_)?alloc|__rust_dealloc|__rust_realloc|handle_alloc_error|capacity_overflow|'
                     r'raw_vec\d*handle_error|raw_vec12handle_error|__rustc.*__rust_|^llvm\.|^ext_|^_Unwind_Resume$|rust_eh_personality|'
                     r'^mem(cpy|set|move|cmp)$|^bcmp$|core9panicking16panic_in_cleanup|panic_cannot_unwind)')


class BuildError(Exception):
    pass


def tool(name):
    global _BIN
    try:
        b = _BIN
    except NameError:
        root = subprocess.check_output(['rustc', '--print', 'sysroot'], text=True).strip()
        b = _BIN = os.path.join(root, 'lib/rustlib/x86_64-unknown-linux-gnu/bin')
    return os.path.join(b, name)


def run(cmd, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    except subprocess.TimeoutExpired:
        return 124, 'time limit: ' + ' '.join(cmd[:3])
    return p.returncode, p.stdout


def build(work, features, crate='wit', extra_flags=''):
    """Compile the witness crate and /repo to unoptimised bitcode; returns the linked .ll path."""
    env = dict(os.environ)
    env['RUSTC_BOOTSTRAP'] = '1'
    env['RUSTFLAGS'] = '--emit=llvm-bc -Cno-prepopulate-passes -Cembed-bitcode=no --cap-lints=allow ' + extra_flags
    env['CARGO_INCREMENTAL'] = '0'
    src = os.path.join(work, 'src')
    shutil.copytree(os.path.join(VERIF, crate), src, ignore=shutil.ignore_patterns('target'))
    if REPO != '/repo':
        ct = open(os.path.join(src, 'Cargo.toml')).read().replace('"/repo"', '"%s"' % REPO)
        open(os.path.join(src, 'Cargo.toml'), 'w').write(ct)
    rc, out = run(['cargo', 'build', '-q', '--offline', '--release', '--features', features,
                   '--target-dir', os.path.join(work, 't')], cwd=src, env=env)
    if rc != 0:
        raise BuildError(out)
    deps = os.path.join(work, 't/release/deps')
    bcs = [os.path.join(deps, f) for f in os.listdir(deps) if f.endswith('.bc') and re.match(r'(%s|mdarray)-' % crate, f)]
    ll = os.path.join(work, 'raw.ll')
    rc, out = run([tool('llvm-link'), '-S', '-o', ll] + bcs)
    if rc != 0:
        raise BuildError(out)
    return ll


DEPTH = 9  # calls of a function by itself that can be inlined; deeper ones stay calls of an unknown function


def unfold_recursion(path, new):
    """Gives functions that call themselves a copy for each depth, as a recursive function cannot be inlined."""
    cur, found = None, set()
    for l in open(path):
        if l.startswith('define '):
            cur = re.search(r'@("[^"]+"|[\w.$]+)\(', l).group(0)
        elif cur and cur in l and (' call ' in l or ' invoke ' in l):
            found.add(cur)
    if not found:
        return path
    out, body = [], None
    for l in open(path):
        if l.startswith('define '):
            cur = re.search(r'@("[^"]+"|[\w.$]+)\(', l).group(0)
            body = [] if cur in found else None
        if body is None:
            out.append(l)
            continue
        body.append(l)
        if l.rstrip() == '}':
            name = cur[1:-1].strip('"')

            def nth(i):
                return '@"%s.r%d"(' % (name, i) if i else cur
            for i in range(DEPTH):
                head = body[0].replace(cur, nth(i), 1)
                if i:
                    head = re.sub(r' !dbg !\d+', '', re.sub(r'^define (?:hidden |internal |private |linkonce_odr )?', 'define internal ', head))
                out.append(head)
                out += [x.replace(cur, nth(i + 1)) for x in body[1:]]
                out.append('\n')
            head = re.sub(r'^define (?:hidden |internal |private |linkonce_odr )?', 'declare ', body[0].replace(cur, nth(DEPTH), 1))
            out.append(re.sub(r'( personality .*| !dbg !\d+.*| \{)\s*$', '', head).rstrip(' {\n') + '\n')
            body = None
    open(new, 'w').writelines(out)
    return new


def force_inline(path):
    t = open(path).read()
    used = set(re.findall(r'^define .*?#(\d+)', t, re.M))

    def f(m):
        if m.group(1) in used and 'noinline' not in m.group(2).split():
            return 'attributes #%s = { alwaysinline %s }' % (m.group(1), m.group(2))
        return m.group(0)
    t = re.sub(r'^attributes #(\d+) = \{ (.*) \}$', f, t, flags=re.M)
    # functions without any attribute group
    open(path, 'w').write(t)


MEMCPY = re.compile(r'^  (?:tail )?call void @llvm\.mem(?:cpy|move)\.p0\.p0\.i64\(ptr (?:[^%@]*?)([%@]\S+), ptr (?:[^%@]*?)([%@]\S+), i64 (\d+), i1 false\)')


BCMP = re.compile(r'^  (%\S+) = (?:tail )?call .*?i32 @bcmp\(ptr (?:[^%@]*?)([%@]\S+), ptr (?:[^%@]*?)([%@]\S+), i64 (?:[^%@,]*? )?(\d+)\)')


SERIAL = [0]  # names stay unique over the rounds


def expand_memcpy(path):
    out, n = [], SERIAL[0]
    for line in open(path):
        if '!llvm.loop' in line:
            line = re.sub(r', !llvm\.loop !\d+', '', line)
        m = MEMCPY.match(line)
        c = BCMP.match(line) if '@bcmp(' in line else None
        if c and int(c.group(4)) <= 512:
            n += 1
            size, off, acc = int(c.group(4)), 0, '0'
            while off < size:
                w = 8 if size - off >= 8 else 1
                u = 'bc.%d.%d' % (n, off)
                for q, ptr in (('a', c.group(2)), ('b', c.group(3))):
                    out.append('  %%%s.%sp = getelementptr i8, ptr %s, i64 %d\n' % (u, q, ptr, off))
                    out.append('  %%%s.%s = load i%d, ptr %%%s.%sp, align 1\n' % (u, q, 8 * w, u, q))
                out.append('  %%%s.c = icmp ne i%d %%%s.a, %%%s.b\n' % (u, 8 * w, u, u))
                out.append('  %%%s.z = zext i1 %%%s.c to i32\n' % (u, u))
                out.append('  %%%s.o = or i32 %s, %%%s.z\n' % (u, acc, u))
                acc = '%%%s.o' % u
                off += w
            out.append('  %s = or i32 %s, 0\n' % (c.group(1), acc))
        elif m and int(m.group(3)) % 8 == 0 and int(m.group(3)) <= 512:
            n += 1
            k = int(m.group(3)) // 8
            d, s = m.group(1), m.group(2)
            for i in range(k):
                out.append('  %%mc.%d.s%d = getelementptr i8, ptr %s, i64 %d\n' % (n, i, s, 8 * i))
                out.append('  %%mc.%d.v%d = load i64, ptr %%mc.%d.s%d, align 1\n' % (n, i, n, i))
            for i in range(k):
                out.append('  %%mc.%d.d%d = getelementptr i8, ptr %s, i64 %d\n' % (n, i, d, 8 * i))
                out.append('  store i64 %%mc.%d.v%d, ptr %%mc.%d.d%d, align 1\n' % (n, i, n, i))
        else:
            out.append(line)
    open(path, 'w').write(''.join(out))
    SERIAL[0] = n


ALLOC = re.compile(r'^  (%\S+) = (?:tail )?call .*?@_R\w*___rustc\w*?__(rust_alloc_zeroed|rust_alloc|rust_realloc)\((.*)\)')
DEALLOC = re.compile(r'^  (?:tail )?call void @_R\w*___rustc\w*__rust_dealloc\(')
SHIM = re.compile(r'^  (?:tail )?call void @_R\w*___rust_no_alloc_shim_is_unstable\w*\(')
LASTTOK = re.compile(r'(\S+)$')


def lower_function(lines, serial):
    """Turn fixed-size heap blocks that are allocated at most once into stack slots.

    The witnesses neither return nor publish memory, so the lifetime of a block ends with the function
    at the latest; allocation is assumed to succeed. Calls that free memory are dropped with them."""
    sites, blk, succ, where = [], '', {}, {}
    first = None
    for i, line in enumerate(lines[1:], 1):
        if line[:1] not in ' \n;}#' :
            blk = line.split(':', 1)[0].strip('"')
            continue
        for t in re.findall(r'label %("[^"]*"|[-\w$.]+)', line):
            succ.setdefault(blk, set()).add(t.strip('"'))
        if '__rust_' in line:
            m = ALLOC.match(line)
            if m:
                args = [LASTTOK.search(a.strip()).group(1) for a in ir.split_top(m.group(3))]
                sites.append((i, blk, m.group(1), m.group(2), args))
    if not sites:
        return lines

    def cyclic(b):
        seen, work = set(), list(succ.get(b, ()))
        while work:
            x = work.pop()
            if x == b:
                return True
            if x not in seen:
                seen.add(x)
                work += succ.get(x, ())
        return False
    todo = {}
    for i, b, res, kind, args in sites:
        if kind == 'rust_realloc':
            good = args[1].isdigit() and args[3].isdigit() and int(args[3]) <= 4096 and args[2].isdigit()
        else:
            good = args[0].isdigit() and int(args[0]) <= 4096 and args[1].isdigit()
        good = good and not cyclic(b)
        if good:
            todo[i] = (res, kind, args)
        elif kind == 'rust_realloc':
            return lines
    if not todo:
        return lines
    out, slots = [], []
    for i, line in enumerate(lines):
        if i in todo:
            res, kind, args = todo[i]
            size, align = (int(args[3]), args[2]) if kind == 'rust_realloc' else (int(args[0]), args[1])
            serial[0] += 1
            slots.append('  %%hp.%d = alloca [%d x i8], align %s\n' % (serial[0], max(size, 1), align))
            out.append('  %s = getelementptr i8, ptr %%hp.%d, i64 0\n' % (res, serial[0]))
            copy = min(size, int(args[1])) if kind == 'rust_realloc' else size
            if kind != 'rust_alloc':
                off = 0
                while off < copy:
                    w = 8 if copy - off >= 8 else 1
                    u = 'hp.%d.%d' % (serial[0], off)
                    v = '0'
                    if kind == 'rust_realloc':
                        out.append('  %%%s.s = getelementptr i8, ptr %s, i64 %d\n' % (u, args[0], off))
                        out.append('  %%%s.v = load i%d, ptr %%%s.s, align 1\n' % (u, 8 * w, u))
                        v = '%%%s.v' % u
                    out.append('  %%%s.d = getelementptr i8, ptr %s, i64 %d\n' % (u, res, off))
                    out.append('  store i%d %s, ptr %%%s.d, align 1\n' % (8 * w, v, u))
                    off += w
        elif DEALLOC.match(line):
            pass
        else:
            # a tail call must not access stack slots of its caller
            out.append(re.sub(r'^(  (?:%\S+ = )?)tail call', r'\1call', line) if 'tail call' in line else line)
    at = 1
    while not (out[at].startswith(' ') and not out[at].lstrip().startswith('#dbg')) :
        at += 1
    return out[:at] + slots + out[at:]


def lower_heap(path):
    out, cur, serial = [], None, SERIAL
    for line in open(path):
        if cur is None:
            if line.startswith('define '):
                cur = [line]
            else:
                out.append(line)
        else:
            cur.append(line)
            if line.startswith('}'):
                out += lower_function(cur, serial)
                cur = None
    open(path, 'w').write(''.join(out))


LIMIT = 40  # seconds of residual analysis for one function
QUICK = 6  # the same before loops are peeled


def entries(path):
    res = []
    with open(path) as f:
        for line in f:
            if line.startswith('define '):
                name = ir.unq(ir.DEFINE.match(line).group(1))
                if ENTRY.match(name):
                    res.append(name)
    return res


def site_kind(entry, callee):
    """None if the call may stay, else the label of the obligation."""
    if callee is None:
        return None
    if CLAIM.match(callee):
        return callee
    if entry.startswith('t__') and not REACH.match(callee) and not ALLOWED.search(callee):
        return 'panic:' + callee
    return None


def normalise(args):
    raw, names, out, rounds = args
    pre = out + '.0.ll'
    raw = unfold_recursion(raw, out + '.u.ll')
    rc, o = run([tool('opt'), '-S', '-passes=internalize,default<O3>', '-internalize-public-api-list=' + ','.join(names)]
                + THRESH + [raw, '-o', pre], timeout=400)
    if rc != 0:
        raise RuntimeError(o)
    for i in range(rounds):
        expand_memcpy(pre)
        lower_heap(pre)
        nxt = out + '.%d.ll' % (i + 1)
        rc, o = run([tool('opt'), '-S', '-passes=default<O3>'] + THRESH + [pre, '-o', nxt], timeout=200)
        if rc != 0:
            raise RuntimeError(o)
        os.unlink(pre)
        pre = nxt
    return pre


ENOUGH = 8  # failing witnesses after which a worker stops looking for more
SPAN = 720  # seconds after which what is left counts as undecided
START = time.time()


def props_of(name):
    """Properties named in the prefix of a claim or witness."""
    body = name.split('__', 1)[1] if ENTRY.match(name) else name
    return re.findall(r'C\d\d', body.split('__', 1)[0])


def relevant(bad, prop):
    """The entries of a list of failures that concern a property."""
    return [b for b in bad if (prop in props_of(b[0]) if CLAIM.match(b[0]) else prop == 'C09' or not b[0].startswith('leak:'))]


def listed(prop, fn, msg):
    """The text of the entry of known_findings.txt ('known: property=P witness=REGEX message=REGEX text') for a failure."""
    for line in open(os.path.join(VERIF, 'known_findings.txt')):
        m = re.match(r'^known: property=(\S+) witness=(\S+) message=(\S+) (.*)$', line)
        if m and m.group(1) == prop and re.fullmatch(m.group(2), fn) and re.match(m.group(3).replace('_', ' '), msg):
            return m.group(4)
    return None


class Stop:
    """Stops the analysis of further witnesses once enough of them have failed, or time is up."""

    def __init__(self, prop):
        self.prop, self.n = prop, 0

    def seen(self, r):
        if self.prop and any(not listed(self.prop, r['fn'], b[0][5:]) for b in relevant(r['bad'], self.prop)):
            self.n += 1

    def skip(self, name):
        """None, or the result of a witness that is not analysed."""
        r = {'fn': name, 'residual': 0, 'proved': 0, 'paths': 0, 'events': 0, 'reach': None, 'stats': {}, 'unknown': []}
        if self.prop and self.n >= ENOUGH:
            return dict(r, bad=[('life:not analysed, enough other witnesses fail', [], ())])
        if time.time() - START > SPAN:
            return dict(r, bad=[('life:not decided within the time limit', [], ())])
        return None


def decide(path, names, limit=LIMIT, stop=None):
    """Residual analysis of one normalised file: list of per-entry results."""
    res = []
    stop = stop or Stop(None)
    wanted = set(names)
    node = None
    for fn in ir.parse_functions(path, lambda n: n in wanted):
        if stop.skip(fn.name):
            res.append(stop.skip(fn.name))
            continue
        sites, reach, calls = [], set(), []
        for b in fn.blocks.values():
            for ins in b.instrs:
                if ins.op in ('call', 'invoke'):
                    c = ins.callee
                    if c and REACH.match(c):
                        reach.add(c)
                    k = site_kind(fn.name, c)
                    if k:
                        sites.append((k, b.name, ins.dbg))
        proved, bad, stats = 0, [], {}
        if sites:
            residual.D.LIMIT[0] = time.process_time() + limit
            an = residual.Analysis(fn)
            goals = {b for _, b, _ in sites}
            surv = an.run(goals)
            stats = dict(an.stats, time=time.process_time() - residual.D.LIMIT[0] + limit)
            residual.D.LIMIT[0] = None
            for k, b, dbg in sites:
                if surv.get(b):
                    if node is None:
                        node = ir.debug_info(path)
                    bad.append((k, ir.describe(node, dbg), ir.library(node, ir.backwards(fn, b), REPO)))
                else:
                    proved += 1
        res.append({'fn': fn.name, 'residual': len(sites), 'proved': proved, 'bad': bad, 'reach': sorted(reach),
                    'stats': stats})
        stop.seen(res[-1])
    return res


def peel(path, names, out):
    """Another normalisation for functions whose loops are still there: peel iterations off every loop."""
    rc, o = run([tool('opt'), '-S', '-passes=internalize,globaldce', '-internalize-public-api-list=' + ','.join(names),
                 path, '-o', out])
    if rc != 0:
        raise RuntimeError(o)
    for i in range(3):
        expand_memcpy(out)
        lower_heap(out)
        rc, o = run([tool('opt'), '-S', '-passes=function(loop-simplify,lcssa,loop-unroll<O3;peeling>),default<O3>',
                     '-unroll-force-peel-count=3', '-unroll-allow-loop-nests-peeling'] + THRESH + [out, '-o', out + '.n'], timeout=90)
        if rc == 124:
            return None
        if rc != 0:
            raise RuntimeError(o)
        os.replace(out + '.n', out)
        rc, o = run([tool('opt'), '-S', '-passes=default<O3>'] + THRESH + [out, '-o', out + '.n'], timeout=90)
        if rc == 124:
            return None
        if rc != 0:
            raise RuntimeError(o)
        os.replace(out + '.n', out)
    return out


def shard_job(args):
    prop, args = args[0], args[1:]
    path = normalise(args)
    # a witness may need more than the first normalisation, so the search stops early only if many fail
    first = Stop(prop)
    first.n = -3 * ENOUGH
    r = decide(path, args[1], QUICK, first)
    for x in r:
        x['pre'] = x['stats'].get('time', 0)
    again = [x['fn'] for x in r if x['bad'] and x['reach'] is not None]
    if prop:
        again = [x['fn'] for x in r if x['reach'] is not None and relevant(x['bad'], prop)]
    t0 = time.time()
    for i in range(0, len(again), 8):
        if time.time() - t0 > 120:
            break  # nothing is lost: what failed stays reported
        src, todo = path, again[i:i + 8]
        for stage in range(2):
            out = peel(src, todo, args[2] + '.p%d.ll' % stage)
            if out is None:
                break
            new = {x['fn']: x for x in decide(out, todo) if x['reach'] is not None}
            r = [dict(new[x['fn']], pre=x['pre']) if x['fn'] in new and len(new[x['fn']]['bad']) < len(x['bad']) else x for x in r]
            # more iterations for those that still have loops
            left = [n for n in todo if n in new and new[n]['bad']]
            if not left or time.time() - t0 > 120:
                break
            src, todo = out, left
    late = [x['fn'] for x in r if x['fn'] in again and x['bad'] and x['pre'] >= QUICK][:3]
    if late:
        new = {x['fn']: x for x in decide(path, late) if x['reach'] is not None}
        r = [dict(new[x['fn']], pre=x['pre']) if x['fn'] in new and len(new[x['fn']]['bad']) < len(x['bad']) else x for x in r]
    return path, r


def analyse(work, raw, names, rounds=3, jobs=8, prop=None):
    # distribute
    groups = [names[i::jobs] for i in range(jobs)]
    groups = [g for g in groups if g]
    res = []
    with ProcessPoolExecutor(jobs) as ex:
        for path, r in ex.map(shard_job, [(prop, raw, g, os.path.join(work, 's%d' % i), rounds) for i, g in enumerate(groups)]):
            res += r
    return res


LIGHT = '-passes=internalize,globaldce,always-inline,globaldce,function(sroa,instcombine<no-verify-fixpoint>,simplifycfg,early-cse),globaldce'


def life_job(args):
    prop, raw, names, out = args
    stop = Stop(prop)
    rc, o = run([tool('opt'), '-S', LIGHT, '-internalize-public-api-list=' + ','.join(names), raw, '-o', out], timeout=400)
    if rc != 0:
        raise RuntimeError(o)
    mod = typestate.Module(out)
    nodes = []

    def node():
        if not nodes:
            nodes.append(ir.debug_info(out))
        return nodes[0]
    res = []
    for n in names:
        if n not in mod.funcs:
            continue
        if stop.skip(n):
            res.append(stop.skip(n))
            continue
        res.append(typestate.check(mod, n, CLAIM, REACH, node, REPO))
        stop.seen(res[-1])
    return res


def analyse_life(work, raw, names, jobs=8, prop=None):
    """Typestate analysis of the life-cycle witnesses, see typestate.py."""
    groups = [g for g in (names[i::jobs] for i in range(jobs)) if g]
    res = []
    with ProcessPoolExecutor(jobs) as ex:
        for r in ex.map(life_job, [(prop, raw, g, os.path.join(work, 'l%d.ll' % i)) for i, g in enumerate(groups)]):
            res += r
    return res


def prepare_job(args):
    work, feature, prop = args
    os.makedirs(work)
    raw = build(work, feature)
    names = [n for n in entries(raw) if prop in props_of(n)]
    counts = raw_counts(raw)
    force_inline(raw)
    return raw, names, counts


def prepare(work, features, prop, jobs=8):
    """Compile the witness modules, each on its own: list of (unoptimised file, witnesses of the property, counts)."""
    with ProcessPoolExecutor(jobs) as ex:
        return list(ex.map(prepare_job, [(os.path.join(work, f), f, prop) for f in features]))


SHARD = 25  # about as many witnesses are normalised together


def analyse_all(parts, prop, rounds=3, jobs=8):
    """All witnesses of all modules, in shards."""
    tasks = []
    for raw, names, _ in parts:
        for kind, mine in (('b', [n for n in names if not n.startswith('d__')]), ('d', [n for n in names if n.startswith('d__')])):
            k = max(1, min(jobs, len(mine) // SHARD))
            for i in range(k):
                if mine[i::k]:
                    out = os.path.join(os.path.dirname(raw), '%s%d' % (kind, i))
                    tasks.append((kind, prop, raw, mine[i::k], out, rounds))
    tasks.sort(key=lambda t: (t[0], -len(t[3])))
    res = []
    with ProcessPoolExecutor(jobs) as ex:
        for r in ex.map(any_job, tasks):
            res += r
    return res


def any_job(t):
    kind, prop, raw, names, out, rounds = t
    if kind == 'b':
        return shard_job((prop, raw, names, out, rounds))[1]
    return life_job((prop, raw, names, out + '.ll'))


CALLREF = re.compile(r'(?:call|invoke) .*?@("(?:[^"\\\\]|\\\\.)*"|[-a-zA-Z$._0-9]+)\(')


def raw_counts(path):
    """Claims and markers below each entry of the unoptimised module (via its call graph)."""
    direct, callees, cur, lib = {}, {}, None, set()
    with open(path) as f:
        for line in f:
            if line.startswith('define '):
                cur = ir.unq(ir.DEFINE.match(line).group(1))
                direct[cur], callees[cur] = [], set()
            elif line.startswith('}'):
                cur = None
            elif cur and ('call ' in line or 'invoke ' in line):
                for m in re.finditer(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)', line):
                    n = ir.unq(m.group(1))
                    if CLAIM.match(n) or REACH.match(n):
                        direct[cur].append(n)
                    else:
                        callees[cur].add(n)
    claims, reach = {}, {}
    for e in direct:
        if not ENTRY.match(e):
            continue
        seen, work = {e}, [e]
        cl, rc = [], set()
        while work:
            x = work.pop()
            for n in direct.get(x, ()):
                if CLAIM.match(n):
                    cl.append(n)
                else:
                    rc.add(n)
            if 'mdarray' in x:
                lib.add(x)
            for c in callees.get(x, ()):
                if c not in seen and c in direct:
                    seen.add(c)
                    work.append(c)
        claims[e], reach[e] = cl, sorted(rc)
    return {'claims': claims, 'reach': reach, 'lib': lib}


def demangle(n):
    """Readable tail of a v0-mangled name."""
    parts = re.findall(r'\d+([a-z_][a-z_0-9]*)', n)
    return '::'.join(parts[-3:]) if parts else n
