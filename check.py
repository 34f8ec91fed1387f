#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]   static check of one property of /repo's current tree"""
import argparse
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'tool'))
sys.path.insert(0, os.path.join(HERE, 'tool', 'rules'))
sys.dont_write_bytecode = True

import extract   # noqa: E402
import mir       # noqa: E402
import flow      # noqa: E402
import common    # noqa: E402

REGISTRY = {}


def registry():
    d = os.path.join(HERE, 'tool', 'rules')
    for f in sorted(os.listdir(d)):
        if f.endswith('.py') and f != 'common.py':
            m = importlib.import_module(f[:-3])
            for n in dir(m):
                if len(n) == 3 and n[0] == 'P' and n[1:].isdigit():
                    REGISTRY[n] = getattr(m, n)
    return REGISTRY


def known_findings():
    out = {}
    p = os.path.join(HERE, 'known-findings.json')
    if os.path.exists(p):
        for e in json.load(open(p)).get('open', []):
            out[(e['property'], e['key'])] = e['what']
    return out


def load():
    root = extract.extract()
    return mir.Program(extract.REPO, [(c, os.path.join(root, c + '.mir')) for c in extract.CRATES], extract.SRCDIRS)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    t0 = time.time()
    reg = registry()
    if a.pid not in reg:
        print('unknown property', a.pid)
        return 2
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    replay = os.path.join(HERE, 'evidence', a.pid + '.report.txt')
    fatal = None
    ck = None
    try:
        prog = load()
        ck = common.Check(prog, a.pid, a.tier)
        try:
            reg[a.pid](ck)
        except common.MissingAnchor:
            pass
        except flow.Incomplete as x:
            ck.violate('analysis', 'incomplete', 'the analysis did not cover the code: %s' % x, None)
    except extract.BuildError as x:
        fatal = 'the tree does not build: %s' % x
    except Exception:
        fatal = 'analysis error: ' + traceback.format_exc()
    kf = known_findings()
    viol = []
    known = []
    if fatal:
        viol.append(('analysis:error', fatal, None))
    else:
        for v in ck.violations:
            if (a.pid, v[0]) in kf:
                known.append(v)
            else:
                viol.append(v)
    lines = []
    for k, msg, where in viol:
        lines.append('%s\n    %s\n    at %s\n' % (k, msg, where or '-'))
    with open(replay, 'w') as fh:
        fh.write('property %s on %s\n\n' % (a.pid, extract.REPO) + '\n'.join(lines) if lines else 'no violation\n')
    cov = {'explanation': 'Path-sensitive value-provenance dataflow over the MIR of the current tree; every obligation is one instance of a rule at one construct on one path.'}
    if ck is not None:
        cov.update(obligations=ck.obligations, discharged=ck.discharged, paths_analysed=ck.npaths,
                   functions_analysed=len(ck.functions), functions=sorted(ck.functions)[:200],
                   rules={r: {'instances': c[0], 'failed': c[1]} for r, c in sorted(ck.rules.items())},
                   samples=ck.samples, notes=ck.notes,
                   rule=(reg[a.pid].__doc__ or '').strip())
    ev = {'property': a.pid, 'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick', 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
          'coverage': cov, 'wall_s': round(time.time() - t0, 3), 'violations': len(viol)}
    with open(os.path.join(HERE, 'evidence', a.pid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    for k, msg, where in known:
        print('KNOWN-FINDING: property=%s %s: %s' % (a.pid, k, kf[(a.pid, k)]))
    for k, msg, where in viol[:40]:
        print('  %s  [%s]  %s' % (k, where or '-', msg[:400]))
    if viol:
        print('VIOLATION property=%s replay=%s' % (a.pid, replay))
        return 1
    print('%s held: %s obligations discharged over %s paths of %s functions in %.1fs' % (
        a.pid, ck.discharged, ck.npaths, len(ck.functions), time.time() - t0))
    return 0


if __name__ == '__main__':
    sys.exit(main())
