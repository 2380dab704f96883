#!/usr/bin/env python3
"""check.py <property id>: decide one property of the tslearn source in /repo.

exit 0: the property holds on everything analysed; 1: violation (a line
VIOLATION property=<id> replay=<file> is printed); 3: the analysis itself
could not be carried out."""
import argparse
import importlib
import json
import os
import re
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from sa.common import INTERPS, Report, known_findings, AnalysisBroken, REPO, VERIF   # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--selftest', action='store_true', help='only check that the source can be read')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--no-known', action='store_true', help='treat known findings as violations')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    if a.selftest or not a.prop:
        from sa.interp import Program
        p = Program(REPO)
        print('%d modules parsed' % len(p.paths))
        sys.exit(0)
    prop = a.prop
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    rep = Report(prop, a.tier)
    broken = None
    try:
        mod = importlib.import_module('sa.props.' + prop.lower())
        mod.run(rep)
        for what, n in rep.floors.items():
            if rep.counts.get(what, 0) < n:
                raise AnalysisBroken('only %d %s (expected at least %d): the analysis no longer sees its subject'
                                     % (rep.counts.get(what, 0), what, n))
    except AnalysisBroken as e:
        broken = str(e)
    except RecursionError:
        broken = 'recursion limit'
    except Exception:
        traceback.print_exc()
        broken = 'internal error'
    for ip in INTERPS:
        for x in sorted(ip.stats.get('internal', ()))[:50]:
            rep.notes.append('treated as unknown after an internal error: ' + x)
    known = {} if a.no_known else {k['key']: k for k in known_findings() if k['property'] == prop}
    new = []
    hit = []
    for k, v in sorted(rep.viol.items()):
        if k in known:
            hit.append(k)
        else:
            new.append(v)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    for k in hit:
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, k, known[k]['what']))
    outv = []
    for v in new:
        fn = re.sub(r'[^A-Za-z0-9_.-]+', '_', v['key'])[:120]
        d = os.path.join(VERIF, 'evidence', 'violations')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s-%s.json' % (prop, fn))
        with open(p, 'w', encoding='utf-8') as f:
            json.dump({'property': prop, 'rule': rep.rule, **v}, f, indent=1)
        print('%s: %s' % (v['where'] or v['key'], v['msg']))
        for x in v['path']:
            print('    via %s:%s in %s' % tuple(x))
        print('VIOLATION property=%s replay=%s' % (prop, p))
        outv.append({'key': v['key'], 'what': v['msg'], 'where': v['where'], 'replay': p})
    expl = getattr(sys.modules.get('sa.props.' + prop.lower()), '__doc__', '') or ''
    ev = {
        'property': prop, 'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick', 'seed': seed,
        'level': 'other',
        'coverage': {
            'explanation': ' '.join(expl.split()) + ' Rule: ' + rep.rule,
            'source': REPO + ' working tree, parsed on this run',
            'counts': rep.counts,
            'analysed': rep.samples,
            'notes': rep.notes,
            'known_findings_reported': hit,
        },
        'assumptions': ['external libraries behave as modelled in sa/ext.py',
                        'no code of /repo is executed; values unknown to the analysis are over-approximated'],
        'violations': outv,
        'wall_s': round(time.time() - t0, 2),
    }
    if broken:
        ev['coverage']['broken'] = broken
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w', encoding='utf-8') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    if outv:
        sys.exit(1)
    if broken:
        print('ANALYSIS BROKEN: %s' % broken, file=sys.stderr)
        sys.exit(3)
    print('%s: holds on everything analysed (%s)' % (prop, ', '.join('%s %s' % (n, k) for k, n in sorted(rep.counts.items()))))
    sys.exit(0)


if __name__ == '__main__':
    main()
