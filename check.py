#!/usr/bin/env python3
"""check.py --property P01 [--tier quick|thorough]
Decides one property on /repo's current source. Exit 0: holds; exit 1 with a
VIOLATION line: broken; exit 2: the analysis itself could not be carried out."""
import argparse, json, os, sys, time, traceback, importlib, re

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)


def known(prop):
    """known-findings.txt: `known: property=<id> key=<key> what=<text>` suppresses exactly that report"""
    out = {}
    p = os.path.join(HERE, 'known-findings.txt')
    for l in open(p):
        m = re.match(r'known: property=(\S+) key=(.*?) what=(.*)$', l.strip())
        if m and m.group(1) == prop: out[m.group(2)] = m.group(3)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property', required=True)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    t0 = time.time()
    from rules.registry import PROPS
    from rules.common import Broken, Ctx
    from engine.build import EngineBroken
    try:
        modname, fname = PROPS[a.property]
        fn = getattr(importlib.import_module('rules.' + modname), fname)
        ctx = Ctx(a.property, a.tier)
        fn(ctx)
    except (EngineBroken, Broken) as e:
        print('ANALYSIS-BROKEN property=%s %s' % (a.property, e))
        return 2
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-BROKEN property=%s internal error' % a.property)
        return 2
    kn = known(a.property)
    seen = {}
    for r in ctx.reports: seen.setdefault(r['key'], r)
    bad = [r for k, r in sorted(seen.items()) if k not in kn]
    for k, r in sorted(seen.items()):
        if k in kn: print('KNOWN-FINDING: property=%s %s' % (a.property, kn[k]))
    ev = {'property': a.property, 'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick', 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
          'level': 'other', 'coverage': ctx.coverage, 'assumptions': ctx.assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': len(bad)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    p = os.path.join(HERE, 'evidence', a.property + '.json')
    if bad:
        ev['reports'] = bad
    json.dump(ev, open(p, 'w'), indent=1)
    if bad:
        rp = os.path.join(HERE, 'evidence', a.property + '.report.json')
        json.dump(bad, open(rp, 'w'), indent=1)
        for r in bad:
            print('%s:%s: in %s: %s [%s]' % (r['file'], r['line'], r['function'], r['message'], r.get('rule', '')))
            if r.get('chain') and len(r['chain']) > 1: print('    reached through: ' + ' -> '.join(r['chain']))
            for x in r.get('path', [])[-8:]: print('    path: ' + x)
        print('VIOLATION property=%s replay=%s' % (a.property, rp))
        return 1
    print('OK property=%s %s' % (a.property, json.dumps({k: v for k, v in ctx.coverage.items() if isinstance(v, (int, float))})))
    return 0


if __name__ == '__main__':
    sys.exit(main())
