#!/usr/bin/env python3
""" Run the static check of one property: check.py <property id> [--tier T] [--root /repo] """

import argparse
import importlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)


def known_findings(pid):
    """ Keys of the recorded (not repaired) findings of a property. """
    out = {}
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.isfile(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('KNOWN-FINDING: property=%s ' % pid) and ' key=' in line:
                head, _, what = line.partition(' :: ')
                out[head.split(' key=', 1)[1]] = what
    return out


def run(pid, tier, root, verbose):
    from absint.report import Check
    mod = importlib.import_module('checks.' + pid.lower())
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    c = Check(pid, root, tier, seed, verbose)
    mod.run(c)
    known = known_findings(pid)
    new = {k: v for k, v in c.violations.items() if k not in known}
    holds, bad, und = c.count('holds'), c.count('violated'), c.count('undecided')
    undecided = sorted({(o[0], o[1], o[3], o[4][:300]) for o in c.obs if o[2] == 'undecided'})
    samples, seen = [], set()
    for o in c.obs:
        if o[2] == 'holds' and o[1] not in seen and len(samples) < 12:
            seen.add(o[1])
            samples.append('%s: %s [%s]' % (o[0], o[1], o[3]))
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'other'),
        'coverage': {
            'explanation': mod.RULE,
            'technique': getattr(mod, 'TECHNIQUE', 'abstract interpretation'),
            'obligations': len(c.obs), 'discharged': holds, 'violated': bad, 'undecided': und,
            'rules': sorted({o[1] for o in c.obs}),
            'scenarios': c.scenarios, 'abstract_paths': c.paths, 'abstract_steps': c.steps,
            'functions_analysed': sorted(x for x in c.analysed),
            'undecided_obligations': [list(u) for u in undecided[:60]],
            'analysis_errors': [list(e) for e in c.errors],
            'violations': list(c.violations.values()),
            'samples': samples,
        },
        'wall_s': round(time.time() - c.t0, 3),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=repr)
    print('%s: %d obligations: %d hold, %d violated, %d undecided (%d scenarios, %d paths, %d functions, %.1f s)' % (
        pid, len(c.obs), holds, bad, und, c.scenarios, c.paths, len(c.analysed), time.time() - c.t0))
    for u in undecided[:20]:
        print('UNDECIDED %s / %s [%s] %s' % u)
    for k, v in c.violations.items():
        if k in known:
            print('KNOWN-FINDING: property=%s %s' % (pid, known[k] or v['why']))
    if new:
        path = os.path.join(HERE, 'evidence', pid + '.violation.txt')
        with open(path, 'w') as f:
            for k, v in new.items():
                f.write('property %s\nrule: %s\nconstruct: %s (%s)\nscenario: %s\nwhy: %s\npath:\n%s\nfacts:\n%s\n\n' % (
                    pid, v['rule'], v['construct'], v['location'], v['scenario'], v['why'],
                    '\n'.join('  ' + p for p in v['path']), '\n'.join('  ' + p for p in v['facts'])))
        for v in list(new.values())[:15]:
            print('  %s (%s): %s: %s [%s]' % (v['construct'], v['location'], v['rule'], v['why'], v['scenario']))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    p = os.path.join(HERE, 'evidence', pid + '.violation.txt')
    if os.path.exists(p):
        os.unlink(p)
    if holds == 0:
        print('ERROR: nothing was decided for %s' % pid)
        return 2
    return 0


def main():
    p = argparse.ArgumentParser()
    p.add_argument('property')
    p.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    p.add_argument('--root', default='/repo')
    p.add_argument('-v', action='store_true')
    a = p.parse_args()
    try:
        rc = run(a.property, a.tier, a.root, a.v)
    except Exception as e:
        import traceback
        traceback.print_exc()
        print('ERROR: %s' % e)
        rc = 2
    sys.stdout.flush()
    return rc


if __name__ == '__main__':
    import threading
    threading.stack_size(512 * 1024 * 1024)
    res = []
    t = threading.Thread(target=lambda: res.append(main()))
    t.start()
    t.join()
    sys.exit(res[0] if res else 2)
