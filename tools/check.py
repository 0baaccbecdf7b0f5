#!/usr/bin/env python3
"""check.py <property> <quick|thorough>: decide one property for the current tree of /repo."""
import collections
import json
import os
import re
import shutil
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import config
import engine
import typelevel
import typestate

VERIF = engine.VERIF


props_of = engine.props_of


def where(chain, lib=()):
    """Readable source position: the claim and the library code on the way to it."""
    out = []
    for f, l, fn in chain:
        if f is None:
            continue
        if '/wit/' in f or f.startswith('src/') or '/src/src/' in f:
            f = re.sub(r'.*/src/src/', 'wit/src/', f)
        out.append('%s:%d(%s)' % (f, l, (fn or '?').split('<')[0]))
    s = ' < '.join(out[:3])
    return s + ('; library operations: %s; code on the path, last first: %s' % (', '.join(lib[0]), ', '.join(lib[1])) if lib else '')


CLAIM = engine.CLAIM


def known(rep, prop, fn, msg):
    text = engine.listed(prop, fn, msg)
    if text:
        rep.known[text] = rep.known.get(text, 0) + 1
    return bool(text)


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.viol = []
        self.known = {}
        self.cov = collections.OrderedDict()
        self.notes = []

    def violation(self, text):
        self.viol.append(text)


def ir_part(rep, prop, feats, work, tier):
    try:
        parts = engine.prepare(work, feats, prop)
    except engine.BuildError as e:
        rep.violation('witnesses do not compile against the current source:\n' + '\n'.join(str(e).splitlines()[:60]))
        return
    mine = [n for p in parts for n in p[1]]
    counts = {'claims': {}, 'reach': {}, 'lib': set()}
    for _, _, c in parts:
        for k in counts:
            counts[k].update(c[k])
    for f, p in zip(feats, parts):
        if not p[1]:
            rep.violation('no witness for %s was found in the compiled module %s' % (prop, f))
    if not mine:
        return
    drop = [n for n in mine if n.startswith('d__')]
    res = engine.analyse_all(parts, prop, rounds=4 if tier == 'thorough' else 3)
    got = {r['fn'] for r in res}
    for n in mine:
        if n not in got:
            rep.violation('witness %s disappeared from the compiled harness' % n)
    ob = disc_opt = disc_res = paths = events = 0
    kinds = collections.Counter()
    for r in res:
        claims = [c for c in counts['claims'].get(r['fn'], ()) if prop in props_of(c)]
        n = len(claims) + (1 if r['fn'].startswith('t__') else 0) + 1
        if 'events' in r:
            n += r['events']
            paths += r['paths']
            events += r['events']
        ob += n
        bad = engine.relevant(r['bad'], prop)
        for k, chain, lib in list(bad):
            if k.startswith('leak:') or k.startswith('life:'):
                text = '%s: %s at %s' % (r['fn'], k[5:], where(chain, lib))
                if not known(rep, prop, r['fn'], k[5:]):
                    rep.violation(text)
                else:
                    bad = [b for b in bad if b[0] != k]
                continue
            if k.startswith('panic:'):
                msg = 'panic reachable for valid arguments (%s)' % engine.demangle(k[6:])
            else:
                msg = 'claim %s can fail' % k
            rep.violation('%s: %s at %s' % (r['fn'], msg, where(chain, lib)))
        for want in counts['reach'].get(r['fn'], ()):
            if r['reach'] is not None and want not in r['reach']:
                rep.violation('%s: %s is unreachable: the operation never returns for valid arguments' % (r['fn'], want))
                bad.append(want)
        if not bad:
            disc_res += r.get('proved', 0)
            disc_opt += n
        else:
            disc_opt += max(0, n - len(bad))
        kinds[r['fn'].split('__', 2)[2].split('_')[0]] += 1
    rep.cov['witness_functions'] = len(mine)
    rep.cov['obligations'] = ob
    rep.cov['discharged'] = disc_opt
    rep.cov['closed_by_residual_dataflow'] = disc_res
    if drop:
        rep.cov['life_cycle_paths'] = paths
        rep.cov['life_cycle_events'] = events
    rep.cov['families'] = dict(kinds)
    rep.cov['library_functions_in_ir'] = len(counts['lib'])


def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    cfg = config.PROPS[prop]
    t0 = time.time()
    rep = Report(prop)
    base = os.path.join(VERIF, '.work')
    os.makedirs(base, exist_ok=True)
    work = tempfile.mkdtemp(prefix=prop + '.', dir=base)
    try:
        if cfg.get('wit'):
            feats = list(cfg['wit'])
            if tier == 'thorough':
                feats += cfg.get('wit_thorough', [])
            ir_part(rep, prop, feats, work, tier)
        if cfg.get('types'):
            typelevel.run(rep, prop, cfg['types'], work)
    finally:
        if not os.environ.get('KEEP_WORK'):
            shutil.rmtree(work, ignore_errors=True)
    for k in rep.known:
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    ev = os.path.join(VERIF, 'evidence')
    os.makedirs(ev, exist_ok=True)
    total = rep.cov.get('obligations', 0) + rep.cov.get('type_obligations', 0)
    disc = rep.cov.get('discharged', 0) + rep.cov.get('type_discharged', 0)
    coverage = {
        'explanation': cfg['how'],
        'obligations': total,
        'discharged': disc,
        'details': rep.cov,
        'checker_cmd': 'python3 tools/check.py %s %s' % (prop, tier),
        'trusted_base': config.TRUSTED,
    }
    evid = {
        'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': cfg['level'],
        'coverage': coverage, 'wall_s': round(time.time() - t0, 2), 'violations': len(rep.viol),
        'assumptions': cfg.get('assume', []) + config.ASSUME,
    }
    json.dump(evid, open(os.path.join(ev, prop + '.json'), 'w'), indent=1)
    if rep.viol:
        path = os.path.join(ev, prop + '.violations.txt')
        with open(path, 'w') as f:
            f.write('property %s, tier %s; rerun: cd /verif && python3 tools/check.py %s %s\n\n' % (prop, tier, prop, tier))
            f.write('\n'.join(rep.viol) + '\n')
        for v in rep.viol[:25]:
            print('  ' + v.replace('\n', '\n    '))
        if len(rep.viol) > 25:
            print('  ... %d more in %s' % (len(rep.viol) - 25, path))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    print('OK property=%s tier=%s obligations=%d discharged=%d wall=%.1fs' % (prop, tier, total, disc, time.time() - t0))
    return 0


if __name__ == '__main__':
    try:
        rc = main()
    except Exception as e:  # fail closed, with an answer
        import traceback
        traceback.print_exc()
        p = sys.argv[1] if len(sys.argv) > 1 else '?'
        print('internal error: the property could not be decided')
        print('VIOLATION property=%s replay=%s' % (p, os.path.join(VERIF, 'evidence')))
        rc = 1
    sys.exit(rc)
