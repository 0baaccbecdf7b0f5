"""Type-level witnesses: the compiler decides.

Positive cases are functions that must type check and borrow check; negative cases are functions that must not, each with
a twin that differs only in the offending part and must compile. One case per source line; the diagnostics of rustc
(JSON) are mapped back to cases by line."""
import json
import os
import re
import shutil
from concurrent.futures import ThreadPoolExecutor

import cases
import engine

BORROW = re.compile(r'^E0(3(73|8[124])|49[3-9]|5(0[0-9]|1[0-9]|2[0-1]|9[0-9]|7[0-9])|6(21|26)|7(0[0-9]|1[0-9]))$')


def library(work):
    """Compile mdarray (type information only) and return the rustc arguments that refer to it."""
    src = os.path.join(work, 'tsrc')
    shutil.copytree(os.path.join(engine.VERIF, 'types'), src, ignore=shutil.ignore_patterns('target'))
    if engine.REPO != '/repo':
        p = os.path.join(src, 'Cargo.toml')
        t = open(p).read().replace('"/repo"', '"%s"' % engine.REPO)
        open(p, 'w').write(t)
    env = dict(os.environ, CARGO_INCREMENTAL='0', RUSTFLAGS='--cap-lints=allow')
    rc, out = engine.run(['cargo', 'check', '-q', '--offline', '--target-dir', os.path.join(work, 'tt')], cwd=src, env=env)
    if rc != 0:
        raise engine.BuildError(out)
    deps = os.path.join(work, 'tt/debug/deps')
    lib = [f for f in os.listdir(deps) if re.match(r'libmdarray-.*\.rmeta$', f)]
    return ['--extern', 'mdarray=' + os.path.join(deps, lib[0]), '-L', 'dependency=' + deps]


def compile_file(path, args):
    """Diagnostics of one file: line -> [(code, message)]; None collects those without a line in the file."""
    rc, out = engine.run(['rustc', '--edition=2024', '--crate-type=lib', '--emit=metadata', '--error-format=json', '--cap-lints=allow',
                          '-o', path + '.rmeta', path] + args, timeout=600)
    errs = {}
    for line in out.splitlines():
        try:
            d = json.loads(line)
        except ValueError:
            errs.setdefault(None, []).append((None, line)) if rc not in (0, 1) else None
            continue
        if d.get('level') != 'error' or d.get('message', '').startswith('aborting due to'):
            continue
        code = (d.get('code') or {}).get('code')
        hit = set()
        for sub in [d] + d.get('children', []):
            for s in sub.get('spans', []):
                while s:
                    if s['file_name'] == path:
                        hit.add((not s.get('is_primary'), s['line_start']))
                    s = (s.get('expansion') or {}).get('span')
            if hit:
                break
        for ln in {sorted(hit)[0][1]} if hit else {None}:
            errs.setdefault(ln, []).append((code, d['message']))
    if rc != 0 and not errs:
        errs[None] = [(None, out[-2000:])]
    return errs


def run(rep, prop, which, work):
    all_cases = cases.collect(which)
    try:
        args = library(work)
    except engine.BuildError as e:
        rep.violation('the library does not compile:\n' + '\n'.join(str(e).splitlines()[:40]))
        return
    files = {}
    for c in all_cases:
        files.setdefault((c.group, 'pos'), []).append((c, c.code if c.kind == 'pos' else c.twin))
        if c.kind != 'pos':
            files.setdefault((c.group, c.kind), []).append((c, c.code))
    jobs = []
    for (group, kind), items in sorted(files.items()):
        for n in range(0, len(items), 400):
            part = items[n:n + 400]
            path = os.path.join(work, 'case_%s_%s_%d.rs' % (group, kind, n))
            pre = cases.PRELUDE.splitlines()
            lines = list(pre)
            for k, (c, code) in enumerate(part):
                lines.append('mod m%d { use super::*; %s }' % (k, ' '.join(code.split())))
            open(path, 'w').write('\n'.join(lines) + '\n')
            jobs.append((group, kind, path, part, len(pre)))
    with ThreadPoolExecutor(8) as ex:
        results = list(ex.map(lambda j: compile_file(j[2], args), jobs))
    ob = ok = 0
    fam = {}
    for (group, kind, path, part, base), errs in zip(jobs, results):
        stray = [e for ln, es in errs.items() if ln is None or ln <= base for e in es]
        if stray and kind == 'pos':
            rep.violation('type-level file %s does not compile: %s %s' % (os.path.basename(path), stray[0][0], stray[0][1][:600]))
        for k, (c, code) in enumerate(part):
            es = errs.get(base + k + 1, [])
            ob += 1
            fam[c.name.split('/')[0]] = fam.get(c.name.split('/')[0], 0) + 1
            if kind == 'pos':
                if es:
                    what = 'must hold, but the compiler rejects it' if c.kind == 'pos' else 'is the allowed form, but the compiler rejects it'
                    rep.violation('%s: %s: %s\n%s\n%s' % (c.name, what, es[0][0], es[0][1][:500], ' '.join(code.split())[:600]))
                else:
                    ok += 1
            else:
                if not es and not stray:
                    rep.violation('%s: must be rejected by the compiler, but is accepted:\n%s' % (c.name, ' '.join(code.split())[:600]))
                elif kind == 'borrow' and es and not any(BORROW.match(e[0] or 'E0500') for e in es):
                    rep.violation('%s: rejected for another reason than borrowing: %s %s' % (c.name, es[0][0], es[0][1][:300]))
                else:
                    ok += 1
    rep.cov['type_obligations'] = ob
    rep.cov['type_discharged'] = ok
    rep.cov['type_families'] = fam
