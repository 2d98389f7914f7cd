#!/usr/bin/env python3
"""check.py <property>: decide one property of dfols by static analysis of /repo/dfols as it is now."""
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from sa.interp import Program
from sa.report import Report, PROVED, VIOLATED, UNDECIDED
from sa import registry


def known(prop):
    out = []
    try:
        for l in open(os.path.join(HERE, 'known_findings.txt')):
            l = l.strip()
            if l.startswith('finding:') and ('property=%s ' % prop) in l:
                out.append(l)
    except IOError:
        pass
    return out


def main():
    prop = sys.argv[1]
    root = os.environ.get('DFOLS_SRC', '/repo/dfols')
    tier = os.environ.get('VERIF_TIER', 'quick')
    t0 = time.time()
    rep = Report()
    prog = Program(root)
    for name in registry.PROPS[prop]['analyses']:
        try:
            registry.ANALYSES[name](prog, rep, tier)
        except Exception as e:
            if os.environ.get('SA_DEBUG'):
                raise
            rep.ok(prop, name, name, 'analysis ' + name, None, 'analysis failed: %r' % (e,) + traceback.format_exc()[-400:])
    obls = [o for o in rep.obls if o.prop == prop]
    viol = [o for o in obls if o.verdict == VIOLATED]
    und = [o for o in obls if o.verdict == UNDECIDED]
    fnd = known(prop)
    shown, real = set(), []
    for o in viol:
        hit = [f for f in fnd if ('rule=%s ' % o.rule) in f and f.split(' text=', 1)[-1].split(' :: ')[0] in o.text]
        if hit:
            if hit[0] not in shown:
                shown.add(hit[0])
                print('KNOWN-FINDING: property=%s %s' % (prop, o.text))
        else:
            real.append(o)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    distinct = {}
    for o in obls:
        distinct.setdefault((o.rule, o.site, o.text), o)
    byrule = {}
    for o in obls:
        r = byrule.setdefault(o.rule, {'obligations': 0, 'proved': 0, 'undecided': 0, 'violated': 0})
        r['obligations'] += 1
        r[o.verdict] += 1
    info = registry.PROPS[prop]
    ev = {
        'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': info.get('level', 'other'),
        'coverage': {
            'explanation': info['explanation'],
            'obligations': len(obls), 'discharged': sum(o.verdict == PROVED for o in obls),
            'distinct_obligations': len(distinct),
            'undecided': len(und), 'by_rule': byrule,
            'functions_analysed': sorted(rep.analysed),
            'sites': sorted({o.site for o in obls}),
            'source_root': root,
            'samples': ['%s | %s | %s | %s' % (o.rule, o.where, o.text, o.verdict) for o in list(distinct.values())[:40]],
            'undecided_list': ['%s | %s | %s | %s' % (o.rule, o.where, o.text, o.detail[:200]) for o in und[:40]],
            'notes': rep.notes[:60],
        },
        'assumptions': info.get('assumptions', []),
        'wall_s': round(time.time() - t0, 3), 'violations': len(real),
    }
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1, default=str)
    print('%s: %d obligations (%d distinct), %d discharged, %d undecided, %d violated, %.1fs' % (
        prop, len(obls), len(distinct), ev['coverage']['discharged'], len(und), len(viol), time.time() - t0))
    if und and os.environ.get('SA_VERBOSE'):
        for o in und:
            print('  undecided', o.where, o.text, o.detail[:300])
    if real:
        path = os.path.join(HERE, 'evidence', 'replay_%s.txt' % prop)
        with open(path, 'w') as f:
            f.write('re-run: cd %s && python3 check.py %s\n' % (HERE, prop))
            for o in real:
                f.write('%s | %s | %s\n    %s\n' % (o.rule, o.where, o.text, o.detail))
        seen = set()
        for o in real:
            if (o.where, o.text.split(' [')[0]) in seen:
                continue
            seen.add((o.where, o.text.split(' [')[0]))
            if len(seen) <= 12:
                print('  violated: %s: %s  (%s)' % (o.where, o.text, o.detail[:200]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
