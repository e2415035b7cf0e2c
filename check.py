#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE]: decide one property.
Exit 0: held on everything explored. 1: a violation was found. 2: no verdict (the machinery failed)."""
import argparse, json, os, sys, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import core, engine, suites

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', default=os.environ.get('VERIF_SEED', '1'))
    ap.add_argument('--replay')
    a = ap.parse_args()
    run = core.Run(a.property, a.tier, a.seed)
    try:
        run.build()
        if a.replay: return replay(run, a.replay)
        suites.decide(run)
        core.evidence(run)
        print('%s %s: %s' % (run.pid, 'VIOLATED' if run.violations else 'held', json.dumps(run.stats)))
        return 1 if run.violations else 0
    except core.HarnessError as e:
        print('NO VERDICT: %s' % e); return 1 if run.violations else 2
    except Exception:
        traceback.print_exc(); return 1 if run.violations else 2
    finally:
        run.cleanup()

def replay(run, path):
    d = json.load(open(path))
    z = engine.confirm(run, d['suite'], [(c, o) for c, o in d['log']], 0)
    if z is None:
        print('replay: every answer is as specified'); return 0
    out, i, m = z
    for c, o in out[:i + 1]: print(json.dumps(c)[:600], '->', json.dumps(o)[:800])
    print('specified', json.dumps(m)[:800]); return 1

if __name__ == '__main__':
    sys.exit(main())
